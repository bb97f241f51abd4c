"""Values of the symbolic interpreter.

concrete Python values (int, bool, str, float, None, tuple), z3 terms (Int,
Bool, Real, BitVec), guarded unions, and heap objects (lists, sequences of
opaque elements, dicts, objects) that are mutated in place under guards.
"""
import z3

from specs.ops import And, Or, Not, Ite, Implies, Sum, B2I, sym, lift


class Unsupported(Exception):
    """construct outside the verified subset: the obligation is undecided"""

    def __init__(self, msg=""):
        Exception.__init__(self, str(msg)[:300])


class Undef(object):
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


# guards of alternatives of the same union exclude each other
_EXCL = {}
_FAM = [0]


def exclusive(a, b):
    if not (sym(a) and sym(b)):
        return False
    x, y = _EXCL.get(a.get_id()), _EXCL.get(b.get_id())
    if x is None or y is None or a.get_id() == b.get_id():
        return False
    x, y = x[1], y[1]
    if len(x) > len(y):
        x, y = y, x
    return any(f in y and y[f] != k for f, k in x.items())


class U(object):
    """guarded union: exactly one guard holds (under the current path)"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts
        if len(alts) <= 16:
            _FAM[0] += 1
            for k, (g, _) in enumerate(alts):
                if sym(g):
                    _EXCL.setdefault(g.get_id(), (g, {}))[1][_FAM[0]] = k

    def __repr__(self):
        return "U(%s)" % ", ".join("%s" % (v,) for _, v in self.alts)


class Ref(object):
    pass


class PyList(Ref):
    """list of known maximal length; guards[i] (if any): element i present"""

    def __init__(self, items, guards=None, tag=None):
        self.items = list(items)
        if guards is not None and all(g is True for g in guards):
            guards = None
        self.guards = list(guards) if guards is not None else None
        self.tag = tag

    def pairs(self):
        if self.guards is None:
            return [(True, v) for v in self.items]
        return list(zip(self.guards, self.items))

    def __repr__(self):
        return "PyList(%r%s)" % (self.items, "" if self.guards is None else " guarded")


class PyDict(Ref):
    """known keys; maybe: guards of keys that are not always present"""

    def __init__(self, d=None):
        self.d = dict(d or {})
        self.maybe = {}


class Off(object):
    """unknown base (named) plus a known integer"""

    def __init__(self, base, k):
        self.base, self.k = base, k

    def __repr__(self):
        return "%s+%d" % (self.base, self.k)


class NativeGen(object):
    """generator of the real source running on concrete values"""

    def __init__(self, gen):
        self.gen = gen


class PySet(Ref):
    def __init__(self, items=()):
        self.items = list(items)


class SymArr(Ref):
    """list of symbolic length `length` with elements get(i)"""

    def __init__(self, name, length, get, total=None):
        self.name, self.length, self.get, self.total = name, length, get, total


class Fn(Ref):
    """list of unknown length whose element i is get(i).  Where the elements
    are distinct and coded by integers: has(code) and index(code)"""

    def __init__(self, length, get, has=None, index=None, tag=None):
        self.length, self.get, self.has, self.index, self.tag = length, get, has, index, tag

    def __repr__(self):
        return "Fn(%s)" % (self.tag or "")


def code(v):
    """integer that identifies an element"""
    if isinstance(v, Elem):
        return lift(v.idx)
    if is_int(v):
        return lift(v)
    raise Unsupported("element %r" % (v,))


class HistPrefix(object):
    """the unknown earlier entries of the history"""

    def __repr__(self):
        return "<earlier entries>"


def known(l):
    if any(isinstance(x, HistPrefix) for x in l.items):
        raise Unsupported("list with unknown earlier entries")
    return l


class SetP(Ref):
    """set of integers given by its membership predicate"""

    def __init__(self, has):
        self.has = has


class Family(Ref):
    """all members of a family (for instance all combinations of k cards);
    item stands for an arbitrary one of them"""

    def __init__(self, desc, item, tag=None):
        self.desc, self.item, self.tag = desc, item, tag


SUBST = []  # (class, function) of further values


def subst(v, a, b):
    """value v with the term a replaced by b"""
    for c, f in SUBST:
        if isinstance(v, c):
            return f(v, a, b)
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (a, lift(b)))
    if isinstance(v, Elem):
        return Elem(v.base, subst(v.idx, a, b))
    if isinstance(v, tuple):
        return tuple(subst(x, a, b) for x in v)
    if isinstance(v, U):
        return U([(subst(h, a, b), subst(x, a, b)) for h, x in v.alts])
    if isinstance(v, SymStr):
        return SymStr([p if isinstance(p, str) else tuple(
            x if isinstance(x, str) else subst(x, a, b) for x in p) for p in v.parts])
    if conc(v) or hasattr(v, "is_a"):
        return v
    raise Unsupported("element of a generic list: %r" % (v,))


class Elem(object):
    """element idx of the opaque base sequence"""

    def __init__(self, base, idx):
        self.base, self.idx = base, idx

    def __eq__(self, o):
        return isinstance(o, Elem) and o.base == self.base and same(o.idx, self.idx)

    def __hash__(self):
        return hash(self.base)

    def __repr__(self):
        return "%s[%s]" % (self.base, self.idx)


class Slice(object):
    """elements base[lo:hi], lo <= hi"""

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    def __repr__(self):
        return "%s[%s:%s]" % (self.base, self.lo, self.hi)


class SeqRef(Ref):
    """mutable list of opaque elements given as concatenated slices"""

    def __init__(self, parts, tag=None):
        self.parts = norm_parts(parts)
        self.tag = tag

    def length(self):
        return simp(Sum([p.hi - p.lo for p in self.parts])) if self.parts else 0

    def __repr__(self):
        return "Seq(%s)" % (self.parts,)


def simp(x):
    if sym(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def same(a, b):
    if not sym(a) and not sym(b):
        return a == b
    d = simp(a - b)
    return not sym(d) and d == 0


def norm_parts(parts):
    out = []
    for p in parts:
        if same(p.lo, p.hi):
            continue
        if out and out[-1].base == p.base and same(out[-1].hi, p.lo):
            out[-1] = Slice(p.base, out[-1].lo, p.hi)
        else:
            out.append(p)
    return out


class PyObj(Ref):
    def __init__(self, cls, attrs=None, tag=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.tag = tag

    def __repr__(self):
        return "<%s object>" % (self.cls.name if self.cls else "?")


class Cls(object):
    def __init__(self, name, bases, node, module):
        self.name, self.bases, self.node, self.module = name, bases, node, module
        self.members = {}

    def lookup(self, name):
        if name in self.members:
            return self.members[name]
        for b in self.bases:
            if isinstance(b, Cls):
                m = b.lookup(name)
                if m is not None:
                    return m
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class Exc(object):
    """exception class, by name"""

    def __init__(self, name):
        self.name = name


class Func(object):
    def __init__(self, node, module, closure=None, cls=None, kind="plain"):
        self.node, self.module, self.closure = node, module, closure
        self.cls, self.kind = cls, kind
        self.name = getattr(node, "name", "<lambda>")
        self.defaults = None


class Bound(object):
    def __init__(self, self_obj, func):
        self.self_obj, self.func = self_obj, func


class Builtin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Module(object):
    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}


class SymStr(object):
    """string as concatenation of concrete pieces and opaque tokens"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out += p.parts
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p == "" and isinstance(p, str):
                continue
            else:
                out.append(p)
        self.parts = out

    def __repr__(self):
        return "SymStr(%r)" % (self.parts,)


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, z3.BoolRef))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (
        isinstance(v, z3.ArithRef) and v.is_int())


def is_num(v):
    return is_int(v) or is_bool(v) or isinstance(v, float) or isinstance(v, z3.ArithRef)


def conc(v):
    return v is None or isinstance(v, (int, bool, str, float))


def fd(v):
    """alternatives of a finite union of concrete integers, or None"""
    if isinstance(v, U):
        for _, x in v.alts:
            if not (isinstance(x, int) and not isinstance(x, bool)):
                return None
        return v.alts
    return None


MERGE = []


def mk_union(alts):
    """alts: list of (guard, non-union value)"""
    out = []
    for g, v in alts:
        if g is False:
            continue
        for k, (h, w) in enumerate(out):
            if v is w or (conc(v) and conc(w) and type(v) == type(w) and v == w):
                out[k] = (Or(h, g), w)
                break
        else:
            out.append((g, v))
    if not out:
        raise Unsupported("empty union")
    if len(out) == 1:
        return out[0][1]
    for f in MERGE:
        r = f(out)
        if r is not None:
            return r
    if all(is_bool(v) for _, v in out):
        r = out[-1][1]
        for g, v in reversed(out[:-1]):
            r = Ite(g, v, r)
        return r
    # collapse symbolic integers into one z3 term, keep other alternatives
    ints = [(g, v) for g, v in out if is_int(v)]
    if any(sym(v) for _, v in ints) and len(ints) > 1:
        r = ints[-1][1]
        for g, v in reversed(ints[:-1]):
            r = Ite(g, v, r)
        rest = [(g, v) for g, v in out if not is_int(v)]
        if not rest:
            return r
        out = rest + [(Or([g for g, _ in ints]), r)]
    elif len(ints) == len(out) and len(out) > 24:
        return to_int(U(out))
    # tuples of the same length merge pointwise
    tups = [(g, v) for g, v in out if isinstance(v, tuple)]
    if len(tups) == len(out) and len(set(len(v) for _, v in tups)) == 1:
        return tuple(
            merge_alts([(g, v[i]) for g, v in tups]) for i in range(len(tups[0][1])))
    return U(out)


def merge_alts(alts):
    flat = []
    for g, v in alts:
        if isinstance(v, U):
            for h, w in v.alts:
                flat.append((And(g, h), w))
        else:
            flat.append((g, v))
    return mk_union(flat)


def merge(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, SeqRef) and isinstance(b, SeqRef) and a.parts == b.parts:
        pass
    return merge_alts([(c, a), (Not(c), b)])


def to_int(v):
    """z3 Int / int for an int-like value"""
    if isinstance(v, U):
        alts = v.alts
        r = to_int(alts[-1][1])
        for g, x in reversed(alts[:-1]):
            r = Ite(g, to_int(x), r)
        return r
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return B2I(v)
    if is_int(v):
        return v
    if isinstance(v, float) and v == int(v):
        return int(v)
    raise Unsupported("integer expected, got %r" % (v,))
