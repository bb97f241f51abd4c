"""The page of the web view (C24): _SVGPoker(n, h, c) for any numbers of
players, hole cards and community cards.

The tree of elements is a value of the verifier: elements with attributes and
children; children appended by a loop are a family (one element per index).
Numbers of the layout are unknown numbers (they do not matter here); only
indices inside ids are integers."""
import re

import z3

from .values import *
from .interp import *
from . import builtins as bi
from . import values
from .dealer import Task, raises, mval
from specs.ops import *

GRAPHIC = "clubs/render/graphic.py"


def make(program, what, *args):
    return globals()["do_" + what](program, *args)


# ------------------------------------------------------- unknown numbers
class Num(object):
    """a number the verifier knows nothing about"""

    def arith(self, ip, op, a, b, g):
        for x in (a, b):
            if not (isinstance(x, Num) or is_num(x)):
                raise Unsupported("operator %s on %r and %r" % (op, a, b))
        if op in ("Div", "Mod", "FloorDiv") and not isinstance(b, Num) and not sym(b) and b == 0:
            ip.do_raise(g, "ZeroDivisionError")
        return Num()

    def float_of(self, ip, g):
        return self

    def compare_to(self, ip, op, other):
        return ip.fresh("number", "bool")

    eq_to = None

    def rounded(self, digits=0):
        return self

    def is_a(self, name):
        return name == "float"

    def truth_of(self):
        raise Unsupported("truth of an unknown number")

    def __repr__(self):
        return "<number>"


del Num.eq_to


def opaque(op, a, b):
    return Num()


def merge_numbers(alts):
    if any(isinstance(v, Num) for _, v in alts) and all(isinstance(v, Num) or is_num(v) for _, v in alts):
        return Num()
    return None


values.MERGE.append(merge_numbers)


def number_of(ip, v, g):
    """float() of a text that shows an unknown number"""
    if len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] in ("opaque", "fmt"):
        return Num()
    raise Unsupported("number from %r" % (v,))


# --------------------------------------------------------------- elements
class Xml(PyObj):
    def __init__(self, tag, attrib, kids, text, g, frozen=False):
        PyObj.__init__(self, None, {"tag": tag, "attrib": PyDict(attrib), "kids": PyList(kids), "text": text})
        self.g, self.frozen = g, frozen

    name = property(lambda self: self.attrs["tag"])
    kids = property(lambda self: self.attrs["kids"])
    attrib = property(lambda self: self.attrs["attrib"])

    def __repr__(self):
        return "<%s %r>" % (self.name, self.attrib.d.get("id", self.attrib.d.get("class")))

    def truth_of(self):
        r = False
        for k in known(self.kids).items:
            if not isinstance(k, XFam):
                return True
            r = Or(r, lift(k.length) > k.lo)
        return r

    def writable(self, ip, g):
        if self.frozen:
            raise Unsupported("change of an element of a family")
        if not (g is True or self.g is g or ip.valid(Implies(self.g, g))):
            raise Unsupported("conditional change of an element")

    def getattr(self, ip, name):
        f = getattr(self, "m_" + name, None)
        if f is not None:
            return Builtin(name, lambda ip, a, kw, g: f(ip, g, *a, **kw))
        if name in ("tag", "text"):
            return self.attrs[name]
        if name == "attrib" and not self.frozen:
            return self.attrib
        raise Unsupported("Element.%s" % name)

    def setattr(self, ip, name, v, g):
        self.writable(ip, g)
        if name not in ("text", "tail", "tag"):
            raise Unsupported("Element.%s" % name)
        self.attrs[name] = v

    def m_get(self, ip, g, key, default=None):
        if self.attrib.maybe or not isinstance(key, str):
            raise Unsupported("attributes that are there in some cases")
        return self.attrib.d.get(key, default)

    def m_set(self, ip, g, key, value):
        self.writable(ip, g)
        if not isinstance(key, str):
            raise Unsupported("name of an attribute")
        if isinstance(value, U):
            raise Unsupported("attribute with alternatives")
        self.attrib.d[key] = value
        self.attrib.maybe.pop(key, None)

    def m_keys(self, ip, g):
        return PyList(list(self.attrib.d))

    def m_append(self, ip, g, x):
        if self.frozen:
            raise Unsupported("change of an element of a family")
        if not isinstance(x, Xml):
            raise Unsupported("child %r" % (x,))
        always = g is True or self.g is g or ip.valid(Implies(self.g, g))
        bi.extend(self.kids, [(True, x)], True if always else g)

    def m_extend(self, ip, g, xs):
        if isinstance(xs, (Fn, U)):
            raise Unsupported("extend by a list of unknown length")
        for h, x in bi.iterate(ip, xs, g):
            if h is not True:
                raise Unsupported("extend")
            self.m_append(ip, g, x)

    def m_insert(self, ip, g, i, x):
        self.writable(ip, g)
        kids = known(self.kids)
        if not isinstance(i, int) or not isinstance(x, Xml) or any(isinstance(k, XFam) for k in kids.items):
            raise Unsupported("insert")
        kids.items.insert(i, x)

    def m_remove(self, ip, g, x):
        self.writable(ip, g)
        kids = known(self.kids)
        for k, y in enumerate(kids.items):
            if y is x:
                del kids.items[k]
                return
            if isinstance(y, XFam) and y.shared:
                raise Unsupported("remove from a family")
        raise Unsupported("remove of an element that is no child")

    def m_find(self, ip, g, path):
        r = search(ip, g, self, query(path), True)
        return r[0] if r else None

    def m_findall(self, ip, g, path):
        return PyList(search(ip, g, self, query(path), False))


class XFam(object):
    """children lo, lo + 1, ..., length - 1 of a family: get(i) lists the
    elements appended by iteration i.  shared: there are other references"""

    def __init__(self, length, lo, get, shared):
        self.length, self.lo, self.get, self.shared = length, lo, get, shared

    def __repr__(self):
        return "<family %s..%s>" % (self.lo, self.length)


def family(length, items, j, shared):
    """appended by a loop with index j: the children of iteration i"""
    for x in items:
        if not isinstance(x, Xml):
            raise Unsupported("children %r" % (x,))
        shared = shared or x.frozen
    return XFam(length, 0, lambda i: [subst(x, j, i) for x in items], shared)


def duplicate(v, f, memo, frozen, g):
    """deep copy; f is applied to symbolic values"""
    if id(v) in memo:
        return memo[id(v)][1]
    rec = lambda x: duplicate(x, f, memo, frozen, g)
    if isinstance(v, Xml):
        r = Xml(rec(v.name), {}, [], rec(v.attrs["text"]), g, frozen)
        memo[id(v)] = (v, r)
        r.attrib.d = {k: rec(x) for k, x in v.attrib.d.items()}
        if v.attrib.maybe:
            raise Unsupported("attributes that are there in some cases")
        r.kids.items = [rec(x) for x in known(v.kids).items]
        if v.kids.guards is not None:
            raise Unsupported("children that are there in some cases")
        return r
    if isinstance(v, XFam):
        r = XFam(f(v.length), f(v.lo), lambda i, v=v: [
            duplicate(x, f, {}, True, True) for x in v.get(i)], v.shared)
    elif isinstance(v, PyObj):
        if v.cls is None or v.cls.lookup("__deepcopy__") or v.cls.lookup("__copy__"):
            raise Unsupported("copy of %r" % (v,))
        r = PyObj(v.cls)
        r.frozen = frozen
        memo[id(v)] = (v, r)
        r.attrs = {k: rec(x) for k, x in v.attrs.items()}
        return r
    elif isinstance(v, PyList):
        r = PyList([], None)
        memo[id(v)] = (v, r)
        r.items = [rec(x) for x in known(v).items]
        r.guards = None if v.guards is None else [f(x) for x in v.guards]
        if frozen:
            raise Unsupported("list in an element of a family")
        return r
    elif isinstance(v, PyDict):
        if v.maybe or frozen:
            raise Unsupported("copy of a dict")
        r = PyDict()
        memo[id(v)] = (v, r)
        r.d = {k: rec(x) for k, x in v.d.items()}
        return r
    elif isinstance(v, tuple):
        r = tuple(rec(x) for x in v)
    elif isinstance(v, (Num, Func, Cls)) or conc(v):
        return v
    else:
        return f(v)
    memo[id(v)] = (v, r)
    return r


def subst_object(v, a, b):
    """stands for the object made by another iteration: not to be changed"""
    return duplicate(v, lambda x: subst(x, a, b), {}, True, True)


values.SUBST.append((PyObj, subst_object))
values.SUBST.append((Num, lambda v, a, b: v))


def deepcopy(ip, a, kw, g):
    return duplicate(a[0], lambda x: x, {}, False, g)


# ----------------------------------------------------------------- search
def query(path):
    """.//*[@attr='value'] or .//tag"""
    if isinstance(path, str):
        path = SymStr([path])
    if not isinstance(path, SymStr):
        raise Unsupported("path %r" % (path,))
    parts = list(path.parts)
    if len(parts) == 1:
        m = re.fullmatch(r"\.//([\w-]+|\*)", parts[0])
        if m:
            return None, m.group(1), None
    m = re.fullmatch(r"\.//([\w-]+|\*)\[@([\w-]+)=(['\"])(.*)", parts[0] if isinstance(parts[0], str) else "",
                     re.DOTALL)
    if not m or not isinstance(parts[-1], str) or not parts[-1].endswith(m.group(3) + "]"):
        raise Unsupported("path %r" % (path,))
    parts[0] = m.group(4)
    parts[-1] = parts[-1][:-2]
    if any(isinstance(p, str) and m.group(3) in p for p in parts):
        raise Unsupported("path %r" % (path,))
    return m.group(2), m.group(1), bi.strcat([p if isinstance(p, str) else SymStr([p]) for p in parts])


def matches(ip, e, q, given):
    attr, tag, value = q
    if tag not in ("*", e.name):
        return False
    if attr is None:
        return True
    if e.attrib.maybe:
        raise Unsupported("attributes that are there in some cases")
    v = e.attrib.d.get(attr)
    return False if v is None else same_text(ip, v, value, given)


def search(ip, g, root, q, first):
    """elements below root in document order"""
    out = []

    def decide(c, given):
        if c is True or c is False:
            return c
        if ip.valid(Implies(given, c)):
            return True
        if ip.valid(Implies(given, Not(c))):
            return False
        raise Unsupported("which element is found")

    def hits(e, given):
        """conditions under which e or something below matches"""
        r = [matches(ip, e, q, given)]
        for k in kids_of(ip, e, g):
            if isinstance(k, XFam):
                i = ip.fresh("i")
                h = And(given, i >= k.lo, i < lift(k.length))
                for x in k.get(i):
                    r += [And(i >= k.lo, i < lift(k.length), c) for c in hits(x, h)]
            else:
                r += hits(k, given)
        return r

    def walk(e):
        pos = 0
        while True:
            kids = kids_of(ip, e, g)
            if pos >= len(kids):
                return False
            k = kids[pos]
            pos += 1
            if isinstance(k, XFam):
                i = ip.fresh("i")
                inside = And(g, i >= k.lo, i < lift(k.length))
                cs = Or([c for x in k.get(i) for c in hits(x, inside)])
                if cs is False or ip.valid(Implies(inside, Not(cs))):
                    continue
                if not first or k.shared or e.frozen:
                    raise Unsupported("search in a family")
                some = ip.valid(Implies(g, lift(k.length) > k.lo))
                if not some or not (ip.valid(Implies(inside, cs)) or ip.valid(Implies(And(inside, cs), i == k.lo))):
                    raise Unsupported("which element of a family is found")
                # take out the first element of the family
                one = [duplicate(x, lambda y: y, {}, False, e.g) for x in k.get(lift(k.lo))]
                rest = XFam(k.length, simp(lift(k.lo) + 1), k.get, k.shared)
                e.kids.items[pos - 1:pos] = one + [rest]
                pos -= 1
                continue
            if decide(matches(ip, k, q, g), g):
                out.append(k)
                if first:
                    return True
            if walk(k):
                return True

    walk(root)
    return out


def kids_of(ip, e, g):
    l = known(e.kids)
    if l.guards is not None and not all(ip.valid(Implies(g, h)) for h in l.guards):
        raise Unsupported("children that are there in some cases")
    return l.items


# ------------------------------------------------------------------- texts
def runs(v):
    """text as runs of digits and other characters: ("lit", text) or
    ("num", integer term) or ("num", digits)"""
    if isinstance(v, str):
        v = SymStr([v])
    if not isinstance(v, SymStr):
        raise Unsupported("text %r" % (v,))
    out = []
    for p in v.parts:
        if isinstance(p, str):
            for s in re.findall(r"\d+|\D+", p):
                out.append(("num" if s.isdigit() else "lit", s))
        elif p[0] == "fmt" and not p[2] and is_int(p[1]):
            out.append(("num", p[1]))
        else:
            raise Unsupported("text %r" % (v,))
    for x, y in zip(out, out[1:]):
        if x[0] == y[0]:
            raise Unsupported("text with adjacent numbers: %r" % (v,))
    return out


def number(x):
    """value of a run of digits; None: not written like a number"""
    if isinstance(x, str):
        return int(x) if str(int(x)) == x else None
    return x


def same_text(ip, a, b, given=True):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    x, y = runs(a), runs(b)
    if [k if k == "num" else (k, t) for k, t in x] != [k if k == "num" else (k, t) for k, t in y]:
        return False
    r = []
    for (k, t), (_, u) in zip(x, y):
        if k == "lit" or (isinstance(t, str) and isinstance(u, str)):
            r.append(t == u)
            continue
        m, n = number(t), number(u)
        if m is None or n is None:
            return False
        for z in (m, n):
            if sym(z) and not ip.valid(Implies(given, z >= 0)):
                raise Unsupported("negative number in a text")
        r.append(simp(lift(m) == lift(n)))
    return And(r)


# -------------------------------------------------------------- libraries
def fromstring(ip, a, kw, g):
    from xml.etree import ElementTree as et

    if len(a) != 1 or kw or not isinstance(a[0], str):
        raise Unsupported("fromstring")

    def build(e):
        return Xml(e.tag, dict(e.attrib), [build(k) for k in e], e.text, g)
    return build(et.fromstring(a[0]))


class Bytes(object):
    def __init__(self, text):
        self.text = text

    def getattr(self, ip, name):
        if name != "decode":
            raise Unsupported("bytes.%s" % name)
        return Builtin("decode", lambda ip, a, kw, g: self.text)


def tostring(ip, a, kw, g):
    """the text of an element, with everything below (trusted)"""
    kw = dict(kw)
    enc = a[1] if len(a) > 1 else kw.pop("encoding", None)
    method = a[2] if len(a) > 2 else kw.pop("method", "xml")
    if kw or not isinstance(a[0], Xml) or method not in ("xml", None):
        raise Unsupported("tostring")
    s = SymStr([("xml", a[0])])
    return s if enc == "unicode" else Bytes(s)


def sub_element(ip, a, kw, g):
    raise Unsupported("SubElement")


def library(name, ip):
    if name == "xml":
        m = Module("ElementTree", {"fromstring": Builtin("fromstring", fromstring),
                                   "tostring": Builtin("tostring", tostring), "XML": Builtin("XML", fromstring)})
        return Module("xml", {"ElementTree": m, "etree": Module("etree", {"ElementTree": m})})
    if name == "copy":
        return Module("copy", {"deepcopy": Builtin("deepcopy", deepcopy)})
    if name == "math":
        import math

        def f(k):
            def run(ip, a, kw, g):
                if "math" in ip.hooks:
                    return ip.hooks["math"](k, a, g)
                return getattr(math, k)(*a) if all(isinstance(x, (int, float)) for x in a) else Num()
            return Builtin(k, run)
        return Module("math", dict({k: f(k) for k in ("sin", "cos", "sqrt", "floor", "ceil")},
                                   pi=ip.hooks.get("pi", math.pi)))


# ------------------------------------------------------------ obligations
class Node(object):
    def __init__(self, e, idx, up, place):
        self.e, self.idx, self.up, self.place = e, idx, up, place

    def inside(self):
        return And([And(i >= lo, i < lift(hi)) for i, lo, hi in self.idx])

    def id(self):
        return self.e.attrib.d.get("id")


def nodes(ip, e, idx, up, place, out):
    n = Node(e, idx, up, place)
    out.append(n)
    if e.attrib.maybe or e.kids.guards is not None:
        raise Unsupported("elements that are there in some cases")
    for k, x in enumerate(known(e.kids).items):
        if isinstance(x, XFam):
            i = ip.fresh("i")
            for m, y in enumerate(x.get(i)):
                nodes(ip, y, idx + [(i, x.lo, x.length)], up + [n], place + [(k, i, m)], out)
        else:
            nodes(ip, x, idx, up + [n], place + [(k, 0, 0)], out)
    return out


def rename(ip, n, f):
    """formula-making f applied to the node with other names for its indices"""
    new = [ip.fresh("i") for _ in n.idx]
    sub = list(zip([i for i, _, _ in n.idx], new))
    re_ = lambda v: z3.substitute(v, *sub) if isinstance(v, z3.ExprRef) and sub else v
    idx = [(b, re_(lo), re_(hi)) for (a, b), (_, lo, hi) in zip(sub, n.idx)]
    txt = n.id()
    if isinstance(txt, SymStr):
        txt = SymStr([p if isinstance(p, str) else tuple(re_(x) for x in p) for p in txt.parts])
    return f(new, And([And(i >= lo, i < lift(hi)) for i, lo, hi in idx]), txt)


def shape(v):
    return [k if k == "num" else (k, t) for k, t in runs(v)]


def where(ip, all_, text, given, clause):
    """under given there is an element with the id text, for which clause holds"""
    out = []
    for n in all_:
        if n.id() is None or shape(n.id()) != shape(text):
            continue
        sub = []
        for (k, t), (_, u) in zip(runs(n.id()), runs(text)):
            if k == "num" and not isinstance(t, str) and any(t is i or same(t, i) for i, _, _ in n.idx):
                i = [i for i, _, _ in n.idx if same(t, i)][0]
                if not any(same(i, s) for s, _ in sub):
                    sub.append((i, lift(int(u)) if isinstance(u, str) else lift(u)))
        rest = [i for i, _, _ in n.idx if not any(same(i, s) for s, _ in sub)]
        f = And(n.inside(), same_text(ip, n.id(), text, And(n.inside(), given)), clause(n))
        if sym(f):
            f = z3.substitute(f, *sub) if sub else f
            if rest:
                f = z3.Exists(rest, f)
        out.append(f)
    return Or(out)


def below(ip, n, text, given):
    """one of the elements around n has the id text"""
    out = []
    for m in n.up:
        if m.id() is not None and shape(m.id()) == shape(text):
            out.append(same_text(ip, m.id(), text, And(n.inside(), given)))
    return Or(out)


def do_page(program):
    ip = Interp(program)
    ip.hooks["opaque"] = opaque
    ip.hooks["text_number"] = number_of
    mod = ip.module(GRAPHIC)
    cls = mod.attrs.get("_SVGPoker")
    if not isinstance(cls, Cls):
        raise Unsupported("class _SVGPoker not found")
    t = Task("page of the web view")
    n, h, c = z3.Ints("players hole_cards community_cards")
    for x in (n, h, c):
        ip.assume(x >= 0)
    k0 = len(ip.assumptions)
    poker = ip.call(cls, [n, h, c], {}, True)
    page = bi.fmt(ip, ip.getattr(poker, "base_svg", True), "")
    if not isinstance(page, SymStr) or len(page.parts) != 1 or page.parts[0][0] != "xml":
        raise Unsupported("text of the page")
    root = page.parts[0][1]
    every = nodes(ip, root, [], [], [], [])
    named = [x for x in every if x.id() is not None]
    k = len(ip.assumptions)
    add = lambda name, f: t.obs.append((name, f, "post", k))

    # ids
    for a, x in enumerate(named):
        for b, y in enumerate(named[:a + 1]):
            if shape(x.id()) != shape(y.id()):
                continue

            def apart(new, inside, txt):
                both = And(x.inside(), inside)
                eq = same_text(ip, x.id(), txt, both)
                if x is y:
                    return Implies(And(both, eq), And([simp(i == j) for (i, _, _), j in zip(x.idx, new)]))
                return Not(And(both, eq))
            f = rename(ip, y, apart)
            if f is not True:
                add("C24: no two elements share an id (%s and %s)" % (text_of(x.id()), text_of(y.id())), f)

    i, j = z3.Int("seat"), z3.Int("place")
    seat = And(i >= 0, i < n)
    num = lambda x: SymStr([("fmt", x, "")])
    lab = lambda s, x: bi.strcat([s, num(x)])

    def exists(name, text, given, box=None, clause=None):
        f = where(ip, every, text, given, lambda m: And(
            below(ip, m, box, given) if box is not None else True, clause(m) if clause else True))
        add("C24: " + name, Implies(given, f))

    def face(m):
        got = [x for x in every if m in x.up and x.e.attrib.d.get("class") in ("card-text", "card-background")]
        if any(len(x.idx) != len(m.idx) for x in got):
            raise Unsupported("faces of a card")
        return sorted(x.e.attrib.d["class"] for x in got) == ["card-background", "card-text"]

    exists("a box for every player", num(i), seat)
    exists("a background in every box", lab("player-background-", i), seat, num(i))
    exists("a chip count in every box", lab("chips-", i), seat, num(i))
    exists("a text in every chip count", lab("chips-text-", i), seat, lab("chips-", i))
    exists("a place for the cards in every box", lab("cards-", i), seat, num(i))
    exists("a street bet for every player", lab("street-commit-", i), seat)
    exists("a text in every street bet", lab("street-commit-text-", i), seat, lab("street-commit-", i))
    exists("a button for every player", lab("button-", i), seat, lab("street-commit-", i))
    exists("a background for every button", lab("button-background-", i), seat, lab("button-", i))
    exists("every hole card in the place of its player, with one face",
           bi.strcat(["card-", num(i), "-", num(j)]), And(seat, j >= 0, j < h), lab("cards-", i), face)
    exists("the community", "community", True)
    exists("every community card, with one face", lab("card-community-", j), And(j >= 0, j <= c), "community", face)
    exists("the pot", "pot", True, "community")
    exists("a text in the pot", "pot-text", True, "pot")

    # nothing more
    for x in named:
        s = shape(x.id())
        r = runs(x.id())
        val = lambda k: number(r[k][1])
        f = None
        if s == ["num"]:
            f = val(0) < n
        elif s == [("lit", "card-"), "num", ("lit", "-"), "num"]:
            f = And(val(1) < n, val(3) < h)
        elif s == [("lit", "card-community-"), "num"]:
            f = val(1) <= c
        if f is not None:
            add("C24: exactly one place per player and card (%s)" % text_of(x.id()), Implies(x.inside(), f))
    boxes = [x for x in every if x.e.attrib.d.get("class") == "player"]
    at = 0
    for x in boxes:
        if len(x.idx) > 1 or sum(x.place[-1][0] == y.place[-1][0] and len(y.idx) == 1 for y in boxes) > 1:
            raise Unsupported("boxes")
        if x.idx:
            v, lo, hi = x.idx[0]
            pos = lift(at) + v - lo
            here = simp(Ite(lift(hi) > lo, lift(hi) - lo, 0))
        else:
            pos, here = at, 1
        ok = x.id() is not None and shape(x.id()) == ["num"] and same_text(ip, x.id(), num(lift(pos)), x.inside())
        add("C24: boxes in seat order", Implies(x.inside(), ok))
        at = simp(lift(at) + here)
    add("C24: exactly one box per player", lift(at) == n)
    raises(t, ip)
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, o.kind, o.nassume))
    vc = Task("vc")
    vc.ip = ip
    t.pre, t.vc = ip.assumptions, vc

    def replay(m):
        size = lambda x, top: max(0, min(top, mval(m, x)))
        return {"module": "render", "case": "page", "args": [size(n, 25), size(h, 12), size(c, 15)]}
    t.replay = replay
    return t


def text_of(v):
    return v if isinstance(v, str) else "".join(p if isinstance(p, str) else "#" for p in v.parts)
