"""Operations, builtins and the few library functions the code uses."""
import ast

import z3

from .values import *
from specs.ops import And, Or, Not, Ite, Implies, Sum, B2I, sym, lift, Sel

INF = float("inf")


# ------------------------------------------------------------ unions
def lift2(ip, f, a, b, g):
    ua = a.alts if isinstance(a, U) else [(True, a)]
    ub = b.alts if isinstance(b, U) else [(True, b)]
    if len(ua) * len(ub) > 40 and (fd(a) or not isinstance(a, U)) and (fd(b) or not isinstance(b, U)):
        return f(to_int(a), to_int(b), g)
    out = []
    for ga, x in ua:
        for gb, y in ub:
            if exclusive(ga, gb):
                continue
            gg = And(ga, gb)
            if sym(gg) and len(ua) > 1 and len(ub) > 1:
                gg = simp(gg)
            if gg is False:
                continue
            out.append((gg, f(x, y, And(g, gg))))
    return merge_alts(out)


def num(v):
    """numeric operand: bool -> int term"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return B2I(v)
    return v


def bv(v, w=64):
    if isinstance(v, z3.BitVecRef):
        return v
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    raise Unsupported("bit operand")


def binop(ip, op, a, b, g):
    if isinstance(a, U) or isinstance(b, U):
        return lift2(ip, lambda x, y, h: binop(ip, op, x, y, h), a, b, g)
    if conc(a) and conc(b) and not isinstance(a, str) and not isinstance(b, str) \
            and a is not None and b is not None:
        try:
            return {
                "Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Div": lambda: a / b,
                "Pow": lambda: a ** b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b,
            }[op]()
        except ZeroDivisionError:
            ip.do_raise(g, "ZeroDivisionError")
            return 0
        except KeyError:
            raise Unsupported("operator %s" % op)
    if isinstance(a, Off) or isinstance(b, Off):
        if op == "Add" and isinstance(a, Off) and isinstance(b, int):
            return Off(a.base, a.k + b)
        if op == "Add" and isinstance(b, Off) and isinstance(a, int):
            return Off(b.base, b.k + a)
        if op == "Sub" and isinstance(a, Off) and isinstance(b, int):
            return Off(a.base, a.k - b)
        if op == "Sub" and isinstance(a, Off) and isinstance(b, Off) and a.base == b.base:
            return a.k - b.k
        raise Unsupported("arithmetic with an unknown base")
    for x in (a, b):
        if hasattr(x, "arith"):
            return x.arith(ip, op, a, b, g)
    if "opaque" in ip.hooks and is_num(a) and is_num(b) and (
            op == "Div" or isinstance(a, float) or isinstance(b, float)):
        if op == "Div":
            ip.do_raise(And(g, num(b) == 0), "ZeroDivisionError")
        return ip.hooks["opaque"](op, a, b)
    if op == "Mult" and "mul" in ip.hooks:
        r = ip.hooks["mul"](a, b)
        if r is not NotImplemented:
            return r
    # dunder methods of user objects
    if isinstance(a, PyObj) or isinstance(b, PyObj):
        return dunder(ip, op, a, b, g)
    if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
        if op == "Add":
            if not (isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr))):
                ip.do_raise(g, "TypeError")
                return ""
            return strcat([a, b])
        if op == "Mult" and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise Unsupported("string operator")
    # sequences
    if op == "Add" and isinstance(a, (PyList, SeqRef, Fn, SymArr, tuple)):
        return seq_add(ip, a, b, g)
    if op == "Mult" and isinstance(a, PyList) and is_int(b) and not sym(b):
        if a.guards is not None:
            raise Unsupported("repetition of guarded list")
        return PyList(a.items * b)
    if op == "Mult" and isinstance(b, PyList):
        return binop(ip, op, b, a, g)
    if op == "Mult" and isinstance(a, PyList) and len(a.items) == 1 and is_int(b):
        x = a.items[0]
        n = simp(Ite(lift(b) > 0, lift(b), 0))
        return SymArr("repeat", n, lambda i: x,
                      (lambda: x * n) if is_int(x) and not sym(x) else
                      (lambda: lift(x) * n) if is_int(x) else None)
    if op == "Mult" and isinstance(a, tuple) and isinstance(b, int):
        return a * b
    if isinstance(a, SetP) and op == "Sub":
        return set_minus(ip, a, b)
    if isinstance(a, PySet) and isinstance(b, PySet) and op == "Sub":
        return PySet([x for x in a.items if x not in b.items])
    # bit vectors
    if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
        x, y = bv(a), bv(b)
        if op == "BitAnd":
            return x & y
        if op == "BitOr":
            return x | y
        if op == "RShift":
            return z3.LShR(x, y)
        if op == "LShift":
            return x << y
        if op == "Mult":
            return x * y
        raise Unsupported("bit operator %s" % op)
    if op in ("BitAnd", "BitOr") and is_bool(a) and is_bool(b):
        return And(a, b) if op == "BitAnd" else Or(a, b)
    # numbers
    if op in BITS and is_int(a) and is_int(b) and "bits" in ip.hooks:
        return bitop(op, a, b)
    if not (is_num(a) and is_num(b)):
        raise Unsupported("operator %s on %r and %r" % (op, a, b))
    if op == "Mult":
        if is_bool(a) and sym(a):
            return merge(a, num(b), 0)
        if is_bool(b) and sym(b):
            return merge(b, num(a), 0)
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        return float_op(ip, op, a, b, g)
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Mult":
        return a * b
    if op in ("FloorDiv", "Mod"):
        if a.is_real() if sym(a) else False:
            raise Unsupported("real floor division")
        if sym(b):
            # divisor: case split over small values when it is a small count
            if "dividend" in ip.hooks:
                a = ip.hooks["dividend"](a, g)
            rng = small_range(ip, b, g)
            if rng is None:
                raise Unsupported("symbolic divisor")
            if 0 in rng:
                ip.do_raise(And(g, b == 0), "ZeroDivisionError")
                rng = [k for k in rng if k]
            r = None
            for k in rng:
                v = binop(ip, op, a, k, g)
                r = v if r is None else Ite(b == k, v, r)
            return r
        if b == 0:
            ip.do_raise(g, "ZeroDivisionError")
            return 0
        if b < 0:
            raise Unsupported("negative divisor")
        if b == 1:
            return a if op == "FloorDiv" else 0
        return a / z3.IntVal(b) if op == "FloorDiv" else a % z3.IntVal(b)
    if op == "Div":
        if not sym(b):
            if b == 0:
                ip.do_raise(g, "ZeroDivisionError")
                return 0
        else:
            ip.do_raise(And(g, b == 0), "ZeroDivisionError")
        return z3.ToReal(lift(a)) / z3.ToReal(lift(b))
    if op == "Pow" and isinstance(b, int) and 0 <= b <= 4:
        r = 1
        for _ in range(b):
            r = r * a
        return r
    raise Unsupported("operator %s" % op)


BITS = {n: z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort())
        for n in ("BitAnd", "BitOr", "LShift", "RShift")}


def bitop(op, a, b):
    """bit operation on unbounded integers, uninterpreted but commutative"""
    a, b = lift(a), lift(b)
    if op in ("BitAnd", "BitOr") and a.sexpr() > b.sexpr():
        a, b = b, a
    return BITS[op](a, b)


def fn_empty(v):
    if isinstance(v, PyList) and not v.items:
        return SeqRef([])
    return v


def float_op(ip, op, a, b, g):
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, float):
            if x in (INF, -INF):
                if op in ("Add",):
                    return x
                if op == "Sub":
                    return x if not sw else -x
                raise Unsupported("arithmetic with infinity")
            if x == int(x):
                return binop(ip, op, int(a) if isinstance(a, float) else a,
                             int(b) if isinstance(b, float) else b, g)
    raise Unsupported("float arithmetic")


def small_range(ip, b, g, limit=12):
    """the values the integer b can take under the guard, if they are few"""
    out = []
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(*ip.assumptions)
    if g is not True:
        s.add(g)
    for _ in range(limit + 2):
        ip.queries += 1
        r = s.check()
        if r == z3.unsat:
            return sorted(out) or [1]
        if r != z3.sat:
            return None
        v = s.model().eval(b, model_completion=True).as_long()
        out.append(v)
        s.add(b != v)
    return None


DUNDER = {"Add": "__add__", "Sub": "__sub__", "BitAnd": "__and__", "BitOr": "__or__",
          "LShift": "__lshift__", "RShift": "__rshift__", "Mult": "__mul__"}


def dunder(ip, op, a, b, g):
    name = DUNDER.get(op)
    if name is None:
        raise Unsupported("operator on objects")
    if isinstance(a, PyObj):
        m = a.cls.lookup(name)
        if m is not None:
            return ip.call_func(m, [a, b], {}, g)
    if isinstance(b, PyObj):
        m = b.cls.lookup("__r" + name[2:])
        if m is not None:
            return ip.call_func(m, [b, a], {}, g)
    raise Unsupported("operator %s on objects" % op)


def compare(ip, op, a, b, g):
    if op in ("In", "NotIn"):
        r = contains(ip, b, a, g)
        return r if op == "In" else Not(r)
    if op in ("Is", "IsNot"):
        r = identical(a, b)
        return r if op == "Is" else Not(r)
    if isinstance(a, U) or isinstance(b, U):
        r = lift2(ip, lambda x, y, h: compare(ip, op, x, y, h), a, b, g)
        return ip.truth(r)
    if op == "NotEq":
        return Not(compare(ip, "Eq", a, b, g))
    for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
        if hasattr(x, "compare_to"):
            return x.compare_to(ip, o, y)
        if hasattr(x, "eq_to"):
            if op != "Eq":
                raise Unsupported("comparison of %r" % (x,))
            return x.eq_to(ip, y)
    if conc(a) and conc(b):
        if op == "Eq":
            return a == b
        return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b,
                "GtE": lambda: a >= b}[op]()
    if isinstance(a, tuple) and isinstance(b, tuple) or (
            isinstance(a, PyList) and isinstance(b, PyList)
            and a.guards is None and b.guards is None):
        x = list(a) if isinstance(a, tuple) else a.items
        y = list(b) if isinstance(b, tuple) else b.items
        if op == "Eq":
            if len(x) != len(y):
                return False
            return And([compare(ip, "Eq", p, q, g) for p, q in zip(x, y)])
        if op in ("Lt", "LtE"):
            r = (len(x) < len(y)) if op == "Lt" else (len(x) <= len(y))
            for p, q in reversed(list(zip(x, y))):
                r = Or(compare(ip, "Lt", p, q, g), And(compare(ip, "Eq", p, q, g), r))
            return r
        if op == "Gt":
            return compare(ip, "Lt", b, a, g)
        if op == "GtE":
            return compare(ip, "LtE", b, a, g)
    if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
        x, y = bv(a), bv(b)
        return {"Eq": lambda: x == y, "Lt": lambda: z3.ULT(x, y), "LtE": lambda: z3.ULE(x, y),
                "Gt": lambda: z3.UGT(x, y), "GtE": lambda: z3.UGE(x, y)}[op]()
    if isinstance(a, SeqRef) or isinstance(b, SeqRef):
        if op == "Eq":
            if isinstance(a, PyList) and not a.items:
                return Not(ip.truth(b))
            if isinstance(b, PyList) and not b.items:
                return Not(ip.truth(a))
            if isinstance(a, SeqRef) and isinstance(b, SeqRef):
                return seq_equal(a, b)
        raise Unsupported("comparison of sequences")
    if isinstance(a, Elem) and isinstance(b, Elem) and op == "Eq":
        if a.base != b.base:
            raise Unsupported("comparison of elements")
        return simp(lift(a.idx) == lift(b.idx))
    if is_num(a) and is_num(b):
        if is_bool(a) and is_bool(b) and op == "Eq":
            return lift(a) == lift(b)
        a, b = num(a), num(b)
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, float):
                if x == INF or x == -INF:
                    o = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op) if flip else op
                    # x o y with x infinite, y finite
                    return {"Eq": False, "Lt": x < 0, "LtE": x < 0, "Gt": x > 0, "GtE": x > 0}[o]
                if x != int(x):
                    raise Unsupported("float comparison")
        if isinstance(a, float):
            a = int(a)
        if isinstance(b, float):
            b = int(b)
        r = {"Eq": lambda: lift(a) == lift(b), "Lt": lambda: a < b, "LtE": lambda: a <= b,
             "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
        return r
    if op == "Eq":
        if isinstance(a, PyObj) or isinstance(b, PyObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PyObj) and x.cls is not None:
                    m = x.cls.lookup("__eq__")
                    if m is not None:
                        return ip.truth(ip.call_func(m, [x, y], {}, g))
            return a is b
        ta, tb = kind(a), kind(b)
        if ta != tb and "opaque" not in (ta, tb):
            return False
        if ta == "SymStr" or tb == "SymStr":
            raise Unsupported("comparison of opaque strings")
    raise Unsupported("comparison %s of %r and %r" % (op, a, b))


def kind(v):
    if is_num(v):
        return "num"
    if isinstance(v, (str, SymStr)):
        return "str"
    if v is None:
        return "none"
    if isinstance(v, (PyList, SeqRef)):
        return "list"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, PyDict):
        return "dict"
    return "opaque"


def identical(a, b):
    if isinstance(a, U):
        return Or([And(g, identical(x, b)) for g, x in a.alts])
    if isinstance(b, U):
        return identical(b, a)
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, bool):
                if is_bool(y):
                    return y if x else Not(y)
                return False
    if isinstance(a, (Ref, Cls, Func)) or isinstance(b, (Ref, Cls, Func)):
        return a is b
    raise Unsupported("identity of %r and %r" % (a, b))


def contains(ip, c, x, g):
    if isinstance(c, U):
        return Or([And(h, contains(ip, y, x, And(g, h))) for h, y in c.alts])
    if hasattr(x, "not_in"):
        return not x.not_in(c)
    if isinstance(c, PyDict):
        if c.maybe:
            raise Unsupported("membership in a dict of conditional keys")
        if conc(x):
            return x in c.d
        return Or([compare(ip, "Eq", x, k, g) for k in c.d])
    if isinstance(c, (str,)) and isinstance(x, str):
        return x in c
    if isinstance(c, (Fn, SetP)) and c.has is not None:
        return c.has(code(x))
    return Or([And(h, compare(ip, "Eq", x, y, g)) for h, y in iterate(ip, c, g)])


# --------------------------------------------------------------- sequences
def seq_equal(a, b):
    """equality of two opaque sequences; aligned by parts.  Sound for proving
    equality: elements of different positions are never assumed equal"""
    pa, pb = norm_parts(a.parts), norm_parts(b.parts)
    conds = [a.length() == b.length()] if True else []
    # possibly empty parts may appear on one side only: compare by length and
    # by position of each part
    res = seq_eq_rec(list(pa), list(pb), 0)
    return res


def seq_eq_rec(pa, pb, depth):
    if depth > 12:
        raise Unsupported("sequence comparison")
    if not pa and not pb:
        return True
    if not pa:
        return And([p.hi - p.lo == 0 if sym(p.hi - p.lo) else p.hi == p.lo for p in pb])
    if not pb:
        return seq_eq_rec(pb, pa, depth)
    x, y = pa[0], pb[0]
    lx, ly = simp(lift(x.hi) - lift(x.lo)), simp(lift(y.hi) - lift(y.lo))
    cases = []
    if x.base == y.base:
        if same(lx, ly):
            both = And(simp(lift(x.lo) == lift(y.lo)), seq_eq_rec(pa[1:], pb[1:], depth + 1))
            both = Or(both, And(simp(lift(lx) == 0), seq_eq_rec(pa[1:], pb[1:], depth + 1)))
            return simp(both)
        st = simp(lift(x.lo) == lift(y.lo))
        eq = And(st, simp(lift(lx) == lift(ly)), seq_eq_rec(pa[1:], pb[1:], depth + 1))
        # x longer: rest of x against rest of b
        longer = And(st, simp(lift(lx) > lift(ly)), seq_eq_rec(
            [Slice(x.base, simp(lift(x.lo) + ly), x.hi)] + pa[1:], pb[1:], depth + 1))
        shorter = And(st, simp(lift(lx) < lift(ly)), seq_eq_rec(
            pa[1:], [Slice(y.base, simp(lift(y.lo) + lx), y.hi)] + pb[1:], depth + 1))
        cases = [eq, longer, shorter]
    cases.append(And(simp(lift(lx) == 0), seq_eq_rec(pa[1:], pb, depth + 1)))
    cases.append(And(simp(lift(ly) == 0), seq_eq_rec(pa, pb[1:], depth + 1)))
    return simp(Or(cases))


def seq_slice(ip, s, lo, hi):
    """elements lo..hi (0 <= lo <= hi <= len) of a sequence"""
    if not s.parts:
        return SeqRef([])
    if len(s.parts) == 1:
        p = s.parts[0]
        return SeqRef([Slice(p.base, simp(lift(p.lo) + lo), simp(lift(p.lo) + hi))])
    out, off = [], 0
    for p in s.parts:
        n = simp(lift(p.hi) - lift(p.lo))
        a = clip(simp(lift(lo) - off), 0, n)
        b = clip(simp(lift(hi) - off), 0, n)
        out.append(Slice(p.base, simp(lift(p.lo) + a), simp(lift(p.lo) + b)))
        off = simp(lift(off) + n)
    return SeqRef(out)


def clip(x, lo, hi):
    return simp(Ite(lift(x) < lo, lift(lo), Ite(lift(x) > hi, lift(hi), lift(x))))


def seq_add(ip, a, b, g):
    if isinstance(b, U):
        return merge_alts([(h, seq_add(ip, a, x, g)) for h, x in b.alts])
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(a, SeqRef) and isinstance(b, SeqRef):
        return SeqRef(a.parts + b.parts)
    if isinstance(a, SeqRef) and isinstance(b, PyList):
        return SeqRef(a.parts + parts_of(b))
    if isinstance(b, SeqRef) and isinstance(a, PyList):
        return SeqRef(parts_of(a) + b.parts)
    if isinstance(a, PyList) and isinstance(b, PyList):
        if a.guards is None and b.guards is None:
            return PyList(a.items + b.items)
        ga = a.guards or [True] * len(a.items)
        gb = b.guards or [True] * len(b.items)
        return PyList(a.items + b.items, ga + gb)
    if isinstance(a, (Fn, SymArr)) or isinstance(b, (Fn, SymArr)):
        return fn_add(fn_of(a), fn_of(b))
    raise Unsupported("concatenation of %r and %r" % (a, b))


def parts_of(l):
    if l.guards is not None:
        raise Unsupported("guarded cards")
    out = []
    for x in l.items:
        if not isinstance(x, Elem):
            raise Unsupported("mixed sequence")
        out.append(Slice(x.base, x.idx, simp(lift(x.idx) + 1)))
    return out


def iadd(ip, cur, v, g):
    """in-place extension; returns the object to store back or None"""
    if isinstance(cur, U):
        if not all(isinstance(x, (PyList, SeqRef)) for _, x in cur.alts):
            return None
        for h, x in cur.alts:
            r = iadd(ip, x, v, And(g, h))
            if r is not x:
                raise Unsupported("in-place extension")
        return cur
    if isinstance(cur, SeqRef):
        new = seq_add(ip, cur, v, g)
        if isinstance(new, U):
            raise Unsupported("union extension")
        cur.parts = merge_parts(g, new.parts, cur.parts)
        return cur
    if isinstance(cur, PyList):
        if isinstance(v, SeqRef):
            if cur.items == []:
                raise Unsupported("extension of empty list by cards")
            raise Unsupported("mixed extension")
        its = iterate(ip, v, g)
        extend(cur, its, g)
        return cur
    return None


def extend(l, its, g):
    if g is True and all(h is True for h, _ in its) and l.guards is None:
        l.items += [x for _, x in its]
        return
    if l.guards is None:
        l.guards = [True] * len(l.items)
    for h, x in its:
        l.items.append(x)
        l.guards.append(And(g, h))
    if all(h is True for h in l.guards):
        l.guards = None


def merge_parts(g, new, old):
    """parts of a sequence that is `new` under g and `old` otherwise"""
    if g is True:
        return norm_parts(new)
    if g is False:
        return old
    # new extends old: pad old with empty slices
    new = norm_parts(new)
    old = norm_parts(old)
    k = max(len(new), len(old))
    out = []
    for i in range(k):
        a = new[i] if i < len(new) else None
        b = old[i] if i < len(old) else None
        if a is None:
            a = Slice(b.base, b.lo, b.lo)
        if b is None:
            b = Slice(a.base, a.lo, a.lo)
        if a.base != b.base:
            raise Unsupported("merge of different sequences")
        out.append(Slice(a.base, simp(Ite(g, lift(a.lo), lift(b.lo))), simp(Ite(g, lift(a.hi), lift(b.hi)))))
    return out


def iterate(ip, v, g):
    """list of (guard, item)"""
    if isinstance(v, PyList):
        return known(v).pairs()
    if isinstance(v, tuple):
        return [(True, x) for x in v]
    if isinstance(v, str):
        return [(True, x) for x in v]
    if isinstance(v, PySet):
        return [(True, x) for x in v.items]
    if isinstance(v, PyDict):
        return [(v.maybe.get(k, True), k) for k in v.d]
    if isinstance(v, U):
        rows = [(h, iterate(ip, x, And(g, h))) for h, x in v.alts]
        n = max(len(r) for _, r in rows)
        if all(len(r) == n and all(p is True for p, _ in r) for _, r in rows):
            return [(True, merge_alts([(h, r[i][1]) for h, r in rows])) for i in range(n)]
        # different lengths: one after the other under their guards
        out = []
        for h, r in rows:
            out += [(And(h, p), x) for p, x in r]
        return out
    if isinstance(v, SeqRef):
        # known length?
        out = []
        for p in v.parts:
            n = simp(lift(p.hi) - lift(p.lo))
            if sym(n):
                raise Unsupported("iteration over sequence of unknown length")
            out += [(True, Elem(p.base, simp(lift(p.lo) + k))) for k in range(n)]
        return out
    raise Unsupported("iteration over %r" % (v,))


def dense(ip, its, g):
    """the items if consecutive groups of them are present exactly once each
    (a list filled by the branches of an if), else None"""
    if all(h is True for h, _ in its):
        return [x for _, x in its]
    out, group = [], []
    for h, x in its:
        if h is True and not group:
            out.append(x)
            continue
        group.append((h, x))
        if ip.valid(Implies(g, Or([p for p, _ in group]))):
            if len(group) > 1 and not ip.valid(Implies(g, And(
                    [Not(And(p, q)) for i, (p, _) in enumerate(group) for q, _ in group[:i]]))):
                return None
            out.append(merge_alts(group) if len(group) > 1 else group[0][1])
            group = []
    return None if group else out


def column(ip, v, g):
    """iterate, with alternatives merged into one entry where possible"""
    its = iterate(ip, v, g)
    d = dense(ip, its, g)
    return its if d is None else [(True, x) for x in d]


def unguarded(ip, v, g):
    its = iterate(ip, v, g)
    d = dense(ip, its, g)
    if d is None:
        raise Unsupported("guarded list in positional context")
    return d


def getitem(ip, o, i, g):
    if isinstance(o, U):
        return merge_alts([(h, getitem(ip, x, i, And(g, h))) for h, x in o.alts])
    if isinstance(i, slice):
        return getslice(ip, o, i, g)
    if isinstance(i, U):
        if not isinstance(o, PyDict) or True:
            return merge_alts([(h, getitem(ip, o, x, And(g, h))) for h, x in i.alts])
    if isinstance(o, PyDict):
        if hasattr(i, "key_of"):
            return i.key_of(o, g, ip)
        if conc(i):
            if i not in o.d:
                ip.do_raise(g, "KeyError")
                return UNDEF
            if i in o.maybe:
                ip.do_raise(And(g, Not(o.maybe[i])), "KeyError")
            return o.d[i]
        raise Unsupported("symbolic dict key")
    if isinstance(i, bool):
        i = int(i)
    if hasattr(o, "perm_get") and sym(i):
        r = o.perm_get(i, g)
        if r is not None:
            return r
    if hasattr(i, "index_of") and isinstance(o, (PyList, tuple)):
        return i.index_of(o, g, ip)
    if isinstance(o, PyList) and o.items and (sym(i) or i >= 0 or i == -len(o.items)):
        if not sym(i) and i == 0 and len(o.items) > 1 and isinstance(o.items[0], HistPrefix) and o.guards is None:
            # the first entry ever made
            e = (ip.fresh("first_player"), ip.fresh("first_bet"), z3.Bool("first_fold"))
            ip.assume(And(e[0] >= 0, e[1] >= 0))
            return e
        known(o)
    if isinstance(o, (PyList, tuple)):
        items = list(o) if isinstance(o, tuple) else o.items
        if isinstance(o, PyList) and o.guards is not None:
            if not sym(i) and i in (0, -1):
                seq = list(zip(o.guards, items))
                if i == -1:
                    seq = seq[::-1]
                ip.require("list is not empty", g, Or(o.guards))
                r = seq[-1][1]
                for h, x in reversed(seq[:-1]):
                    r = merge(h, x, r)
                return r
            return guarded_index(ip, o, i, g)
        n = len(items)
        if not sym(i):
            if not isinstance(i, int):
                raise Unsupported("index %r" % (i,))
            if -n <= i < n:
                return items[i]
            ip.do_raise(g, "IndexError")
            return items[0] if items else 0
        if isinstance(o, PyList) and hasattr(o, "perm"):
            return o.perm(i)
        ip.require("index in range", g, And(i >= -n, i < n))
        r = items[n - 1]
        for k in range(n - 2, -1, -1):
            r = merge(Or(i == k, i == k - n), items[k], r)
        return r
    if isinstance(o, Fn):
        n = o.length
        i = lift(i)
        ip.require("index in range", g, And(i >= -lift(n), i < n))
        if not ip.feasible(And(g, i < 0)):
            return o.get(i)
        return o.get(simp(Ite(i < 0, i + n, i)))
    if isinstance(o, SymArr):
        ip.require("index in range of %s" % o.name, g, And(i >= 0, i < o.length))
        return o.get(i)
    if isinstance(o, SeqRef):
        n = o.length()
        if len(o.parts) != 1:
            raise Unsupported("index into concatenated cards")
        p = o.parts[0]
        if not sym(i) and i < 0:
            i = simp(lift(n) + i)
        ip.require("index in range of cards", g, And(lift(i) >= 0, lift(i) < n))
        return Elem(p.base, simp(lift(p.lo) + i))
    if isinstance(o, str) and isinstance(i, int):
        if -len(o) <= i < len(o):
            return o[i]
        ip.do_raise(g, "IndexError")
        return ""
    if hasattr(o, "getitem"):
        return o.getitem(ip, i, g)
    raise Unsupported("index into %r" % (o,))


def present(ip, o, k):
    """element number k of those that are present (there are more than k)"""
    cnt, cases = 0, []
    for h, x in zip(o.guards, o.items):
        c = simp(And(h, lift(cnt) == k))
        if c is not False:
            cases.append((c, x))
        cnt = cnt + B2I(h)
    return merge_alts(cases) if cases else UNDEF


def guarded_index(ip, o, i, g):
    """element number i of those that are present"""
    cnt, cases = 0, []
    total = Sum([B2I(h) for h in o.guards])
    i = lift(i)
    i = Ite(i < 0, i + total, i)
    ip.do_raise(And(g, Or(i < 0, i >= lift(total))), "IndexError")
    for h, x in zip(o.guards, o.items):
        cases.append((simp(And(h, i == cnt)), x))
        cnt = cnt + B2I(h)
    cases = [(h, x) for h, x in cases if h is not False]
    if not cases:
        return UNDEF
    return merge_alts(cases)


def getslice(ip, o, s, g):
    if any(isinstance(x, U) for x in (s.start, s.stop, s.step)):
        for k, x in enumerate((s.start, s.stop, s.step)):
            if isinstance(x, U):
                alts = []
                for h, y in x.alts:
                    t = [s.start, s.stop, s.step]
                    t[k] = y
                    alts.append((h, getslice(ip, o, slice(*t), And(g, h))))
                # lists of the same length: pointwise (fresh copies)
                if all(isinstance(v, PyList) and v.guards is None for _, v in alts) and \
                        len(set(len(v.items) for _, v in alts)) == 1:
                    n = len(alts[0][1].items)
                    return PyList([merge_alts([(h, v.items[j]) for h, v in alts]) for j in range(n)])
                return merge_alts(alts)
    if isinstance(o, SeqRef):
        if s.step is not None:
            raise Unsupported("stepped slice of cards")
        n = o.length()

        def pos(x, d):
            if x is None:
                return d
            x = lift(x)
            return clip(Ite(x < 0, x + n, x), 0, n)

        lo, hi = pos(s.start, 0), pos(s.stop, n)
        hi = simp(Ite(lift(hi) < lo, lift(lo), lift(hi)))
        return seq_slice(ip, o, lo, hi)
    if any(sym(x) for x in (s.start, s.stop, s.step)) and not isinstance(o, Fn):
        # finite domain of the bounds
        if isinstance(o, PyList):
            n = len(o.items)
            for k, x in enumerate((s.start, s.stop, s.step)):
                if sym(x):
                    alts = [(x == v, v) for v in range(-n, n + 1)]
                    ip.require("slice bound in range", g, And(x >= -n, x <= n))
                    t = [s.start, s.stop, s.step]
                    t[k] = U(alts)
                    return getslice(ip, o, slice(*t), g)
        raise Unsupported("symbolic slice")
    if isinstance(o, Fn) and s.step is None:
        return fn_slice(o, s)
    if isinstance(o, PyList):
        known(o)
        if o.guards is not None:
            raise Unsupported("slice of guarded list")
        return PyList(o.items[s])
    if isinstance(o, (tuple, str)):
        return o[s]
    if isinstance(o, SymArr) and s.start is None and s.step is None:
        return SymArr(o.name + "[:]", s.stop, o.get)
    raise Unsupported("slice of %r" % (o,))


def setitem(ip, o, i, v, g):
    if isinstance(o, U):
        for h, x in o.alts:
            setitem(ip, x, i, v, And(g, h))
        return
    if isinstance(i, U):
        for h, x in i.alts:
            setitem(ip, o, x, v, And(g, h))
        return
    if isinstance(o, PyDict):
        if not conc(i):
            raise Unsupported("symbolic dict key")
        if i not in o.d:
            o.d[i] = v
            if g is not True:
                o.maybe[i] = g
        else:
            o.d[i] = merge(g, v, o.d[i])
            if i in o.maybe:
                o.maybe[i] = Or(o.maybe[i], g)
                if o.maybe[i] is True:
                    del o.maybe[i]
        return
    if isinstance(o, PyList):
        if hasattr(o, "perm_set") and sym(i):
            return o.perm_set(i, v, g)
        if o.guards is not None:
            raise Unsupported("store into guarded list")
        n = len(o.items)
        if not sym(i):
            if isinstance(i, bool):
                i = int(i)
            if not isinstance(i, int):
                raise Unsupported("store index")
            if not (-n <= i < n):
                ip.do_raise(g, "IndexError")
                return
            o.items[i] = merge(g, v, o.items[i])
            return
        ip.require("store index in range", g, And(i >= -n, i < n))
        for k in range(n):
            o.items[k] = merge(And(g, Or(i == k, i == k - n)), v, o.items[k])
        return
    if hasattr(o, "setitem"):
        return o.setitem(ip, i, v, g)
    raise Unsupported("store into %r" % (o,))


# ----------------------------------------------------------------- methods
def method(ip, o, name):
    if isinstance(o, (PyList, SeqRef, PyDict, PySet, str, SymStr, Fn, SetP)):
        f = METHODS.get((type(o), name)) or (
            METHODS.get((str, name)) if isinstance(o, SymStr) else None)
        if f is None:
            raise Unsupported("method %s of %s" % (name, type(o).__name__))
        return Builtin(name, lambda ip, args, kw, g: f(ip, o, args, kw, g))
    if hasattr(o, "getattr"):
        return o.getattr(ip, name)
    raise Unsupported("attribute %s of %r" % (name, o))


def m_append(ip, o, a, kw, g):
    extend(o, [(True, a[0])], g)


def m_extend(ip, o, a, kw, g):
    extend(o, iterate(ip, a[0], g), g)


def m_copy(ip, o, a, kw, g):
    return PyList(o.items, o.guards)


def m_pop(ip, o, a, kw, g):
    if o.guards is not None or g is not True:
        raise Unsupported("pop under guard")
    if not o.items:
        ip.do_raise(g, "IndexError")
        return 0
    return o.items.pop(*a)


def m_insert(ip, o, a, kw, g):
    if o.guards is not None or g is not True or sym(a[0]):
        raise Unsupported("insert under guard")
    o.items.insert(a[0], a[1])


def m_index(ip, o, a, kw, g):
    if hasattr(a[0], "index_in"):
        return a[0].index_in(o, g, ip)
    conds = []
    for k, (h, x) in enumerate(iterate(ip, o, g)):
        if h is not True:
            raise Unsupported("index in guarded list")
        conds.append(And(compare(ip, "Eq", x, a[0], g)))
    found = Or(conds)
    ip.do_raise(And(g, Not(found)), "ValueError")
    alts, none = [], True
    for k, c in enumerate(conds):
        alts.append((simp(And(none, c)), k))
        none = And(none, Not(c))
    alts.append((none, len(conds) - 1))
    alts = [(h, v) for h, v in alts if h is not False]
    return mk_union(alts) if alts else 0


def m_count(ip, o, a, kw, g):
    return Sum([B2I(And(h, compare(ip, "Eq", x, a[0], g))) for h, x in iterate(ip, o, g)])


def m_remove(ip, o, a, kw, g):
    if g is True and o.guards is None and all(conc(x) for x in o.items) and conc(a[0]):
        o.items.remove(a[0])
        return None
    raise Unsupported("remove")


def m_seq_append(ip, o, a, kw, g):
    x = a[0]
    if not isinstance(x, Elem):
        raise Unsupported("append to cards")
    o.parts = merge_parts(g, o.parts + [Slice(x.base, x.idx, simp(lift(x.idx) + 1))], o.parts)


def m_seq_pop(ip, o, a, kw, g):
    if len(o.parts) != 1:
        raise Unsupported("pop of concatenated cards")
    p = o.parts[0]
    n = o.length()
    ip.require("pop from non-empty cards", g, lift(n) > 0)
    if a and a[0] == 0 and not isinstance(a[0], bool):
        o.parts = merge_parts(g, [Slice(p.base, simp(lift(p.lo) + 1), p.hi)], o.parts)
        return Elem(p.base, p.lo)
    if not a or a[0] == -1:
        o.parts = merge_parts(g, [Slice(p.base, p.lo, simp(lift(p.hi) - 1))], o.parts)
        return Elem(p.base, simp(lift(p.hi) - 1))
    raise Unsupported("pop index")


def m_seq_copy(ip, o, a, kw, g):
    return SeqRef(o.parts)


def m_seq_extend(ip, o, a, kw, g):
    iadd(ip, o, a[0], g)


def m_reverse(ip, o, a, kw, g):
    known(o)
    if g is not True:
        raise Unsupported("reverse under guard")
    o.items.reverse()
    if o.guards is not None:
        o.guards.reverse()


def m_sort(ip, o, a, kw, g):
    if g is not True or o.guards is not None:
        raise Unsupported("sort under guard")
    r = b_sorted(ip, [o], kw, g)
    if not isinstance(r, PyList):
        raise Unsupported("sort")
    o.items[:] = r.items


def m_clear(ip, o, a, kw, g):
    if g is not True:
        raise Unsupported("clear under guard")
    o.items, o.guards = [], None


def d_get(ip, o, a, kw, g):
    if not conc(a[0]):
        raise Unsupported("symbolic key")
    r, dflt = o.d.get(a[0], UNDEF), a[1] if len(a) > 1 else None
    if r is UNDEF:
        return dflt
    return merge(o.maybe[a[0]], r, dflt) if a[0] in o.maybe else r


def nomaybe(o):
    if o.maybe:
        raise Unsupported("dict of conditional keys")


def d_keys(ip, o, a, kw, g):
    nomaybe(o)
    return PyList(list(o.d.keys()))


def d_values(ip, o, a, kw, g):
    nomaybe(o)
    return PyList(list(o.d.values()))


def d_items(ip, o, a, kw, g):
    nomaybe(o)
    return PyList([(k, v) for k, v in o.d.items()])


def d_update(ip, o, a, kw, g):
    nomaybe(a[0])
    for k, v in a[0].d.items():
        setitem(ip, o, k, v, g)


def d_copy(ip, o, a, kw, g):
    nomaybe(o)
    return PyDict(o.d)


def s_join(ip, o, a, kw, g):
    if isinstance(a[0], (Fn, SymArr)):
        return SymStr([("joinfn", o, fn_of(a[0]))])
    its = iterate(ip, a[0], g)
    if any(h is not True for h, _ in its):
        return SymStr([("join", o, tuple((h, x) for h, x in its))])
    parts = []
    for k, (_, x) in enumerate(its):
        if k:
            parts.append(o)
        parts.append(x)
    return strcat(parts)


def s_format(ip, o, a, kw, g):
    if isinstance(o, SymStr):
        raise Unsupported("format of opaque string")
    return do_format(ip, o, a, kw)


def do_format(ip, o, a, kw):
    import string as _string

    out, auto = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(o):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            if field not in kw:
                raise Unsupported("format field %s" % field)
            v = kw[field]
        out.append(fmt(ip, v, spec or ""))
    return strcat(out)


def s_upper(ip, o, a, kw, g):
    if isinstance(o, str):
        return o.upper()
    raise Unsupported("upper")


def s_split(ip, o, a, kw, g):
    if isinstance(o, str) and all(isinstance(x, str) for x in a):
        return PyList(o.split(*a))
    raise Unsupported("split")


def set_difference(ip, o, a, kw, g):
    other = [x for _, x in iterate(ip, a[0], g)]
    return PySet([x for x in o.items if x not in other])


# --------------------------------------------- lists of unknown length
def as_fn(r):
    """range(a, b) as a list"""
    if r.step != 1:
        raise Unsupported("stepped range")
    a, b = lift(r.start), lift(r.stop)
    n = simp(Ite(b > a, b - a, 0))
    return Fn(n, lambda i: simp(lift(i) + a), lambda x: And(x >= a, x < b), lambda x: simp(x - a))


def generic(it):
    """a list of unknown length as Fn; anything else as it is"""
    if isinstance(it, SymRange):
        return as_fn(it)
    if isinstance(it, SymArr):
        return Fn(it.length, it.get)
    if isinstance(it, SeqRef) and it.parts and sym(it.length()) and all(
            isinstance(p, Slice) and p.base == it.parts[0].base for p in it.parts):
        def place(i, parts=tuple(it.parts)):
            k = lift(i)
            ats = []
            for p in parts:
                ats.append((k, lift(p.lo) + k))
                k = k - (lift(p.hi) - lift(p.lo))
            out = ats[-1][1]
            for p, (q, at) in list(zip(parts, ats))[-2::-1]:
                out = Ite(q < lift(p.hi) - lift(p.lo), at, out)
            return Elem(parts[0].base, simp(out))
        return Fn(it.length(), place)
    return it


def fn_of(v):
    if isinstance(v, Fn):
        return v
    if isinstance(v, SymArr):
        return Fn(v.length, v.get)
    if isinstance(v, PyList) and v.guards is None:
        if not v.items:
            return Fn(0, None, lambda x: False, lambda x: 0)
        items = list(v.items)

        def get(i):
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = merge(lift(i) == k, items[k], r)
            return r
        return Fn(len(items), get)
    raise Unsupported("list of unknown length expected")


def fn_add(a, b):
    n = lift(a.length)
    if not sym(a.length) and a.length == 0:
        return Fn(b.length, b.get, b.has, b.index)
    if not sym(b.length) and b.length == 0:
        return Fn(a.length, a.get, a.has, a.index)

    def get(i):
        x, y = a.get(i), b.get(simp(lift(i) - n))
        c = simp(lift(i) < n)
        if isinstance(x, Elem) and isinstance(y, Elem) and x.base == y.base:
            return Elem(x.base, Ite(c, lift(x.idx), lift(y.idx)))
        return merge(c, x, y)

    has = index = None
    if a.has and b.has:
        has = lambda x: Or(a.has(x), b.has(x))
        index = lambda x: Ite(a.has(x), lift(a.index(x)), n + lift(b.index(x)))
    return Fn(simp(n + b.length), get, has, index)


def fn_slice(o, s):
    n = lift(o.length)

    def pos(x, d):
        if x is None:
            return d
        x = lift(x)
        return clip(Ite(x < 0, x + n, x), 0, n)

    lo, hi = lift(pos(s.start, 0)), lift(pos(s.stop, n))
    m = simp(Ite(hi > lo, hi - lo, 0))
    has = index = None
    if o.has is not None:
        index = lambda x: simp(lift(o.index(x)) - lo)
        has = lambda x: And(o.has(x), o.index(x) >= lo, o.index(x) < hi)
    return Fn(m, lambda i: o.get(simp(lift(i) + lo)), has, index)


def enumerate_set(ip, has):
    """contract of list(set): every member exactly once"""
    ip.fresh_n += 1
    k = ip.fresh_n
    m = z3.Int("members!%d" % k)
    e = z3.Function("member!%d" % k, z3.IntSort(), z3.IntSort())
    pos = z3.Function("place!%d" % k, z3.IntSort(), z3.IntSort())
    j, x = z3.Int("j"), z3.Int("x")
    ip.assume(m >= 0)
    ip.assume(z3.ForAll([j], Implies(And(j >= 0, j < m), And(lift(has(e(j))), pos(e(j)) == j)),
                        patterns=[e(j)]))
    ip.assume(z3.ForAll([x], Implies(has(x), And(pos(x) >= 0, pos(x) < m, e(pos(x)) == x)),
                        patterns=[pos(x)]))
    return Fn(m, lambda i: e(lift(i)), has, lambda x: pos(lift(x)))


def set_minus(ip, a, b):
    if isinstance(b, PySet):
        items = list(b.items)
        return SetP(lambda x: And(a.has(x), And([Not(lift(x) == code(y)) for y in items])))
    b = to_setp(b)
    return SetP(lambda x: And(a.has(x), Not(b.has(x))))


def to_setp(v):
    if isinstance(v, SetP):
        return v
    if isinstance(v, SymRange):
        v = as_fn(v)
    if isinstance(v, Fn) and v.has is not None:
        return SetP(v.has)
    raise Unsupported("set of %r" % (v,))


def permute(ip, l, g):
    """contract of random.shuffle: the same elements in some order"""
    if isinstance(l, PyList) and not l.items:
        return None
    if isinstance(l, U):
        for h, x in l.alts:
            permute(ip, x, And(g, h))
        return None
    if not isinstance(l, Fn):
        raise Unsupported("random.shuffle")
    ip.fresh_n += 1
    k = ip.fresh_n
    p = z3.Function("perm!%d" % k, z3.IntSort(), z3.IntSort())
    q = z3.Function("perm_inv!%d" % k, z3.IntSort(), z3.IntSort())
    j, n = z3.Int("j"), l.length
    for f, h in ((p, q), (q, p)):
        ip.assume(z3.ForAll([j], Implies(And(j >= 0, j < n), And(f(j) >= 0, f(j) < n, h(f(j)) == j)),
                            patterns=[f(j)]))
    if not hasattr(ip, "draws"):
        ip.draws = []
    ip.draws.append((p, q, n))
    get, index = l.get, l.index
    l.get = lambda i: get(Ite(g, p(lift(i)), lift(i)))
    if index is not None:
        l.index = lambda x: Ite(g, q(lift(index(x))), lift(index(x)))
    return None


def f_index(ip, o, a, kw, g):
    if o.has is None:
        raise Unsupported("index in a list of unknown length")
    x = code(a[0])
    ip.do_raise(And(g, Not(o.has(x))), "ValueError")
    return o.index(x)


def f_copy(ip, o, a, kw, g):
    return Fn(o.length, o.get, o.has, o.index)


def sp_difference(ip, o, a, kw, g):
    return set_minus(ip, o, a[0])


def f_append(ip, o, a, kw, g):
    if g is not True:
        raise Unsupported("append under a condition")
    n = fn_add(Fn(o.length, o.get, o.has, o.index), fn_of(PyList([a[0]])))
    o.length, o.get, o.has, o.index = n.length, n.get, None, None


METHODS = {
    (PyList, "append"): m_append, (PyList, "extend"): m_extend, (PyList, "copy"): m_copy,
    (PyList, "pop"): m_pop, (PyList, "index"): m_index, (PyList, "count"): m_count,
    (PyList, "insert"): m_insert, (PyList, "reverse"): m_reverse, (PyList, "sort"): m_sort, (PyList, "remove"): m_remove, (PyList, "clear"): m_clear,
    (SeqRef, "append"): m_seq_append, (SeqRef, "pop"): m_seq_pop, (SeqRef, "copy"): m_seq_copy,
    (SeqRef, "extend"): m_seq_extend,
    (PyDict, "get"): d_get, (PyDict, "keys"): d_keys, (PyDict, "values"): d_values,
    (PyDict, "items"): d_items, (PyDict, "update"): d_update, (PyDict, "copy"): d_copy,
    (str, "join"): s_join, (str, "format"): s_format, (str, "upper"): s_upper,
    (str, "split"): s_split,
    (PySet, "difference"): set_difference, (SetP, "difference"): sp_difference,
    (Fn, "index"): f_index, (Fn, "copy"): f_copy, (Fn, "append"): f_append,
}


# ----------------------------------------------------------------- strings
LAZY = [False]  # alternatives stay parts of the string


def strcat(parts):
    parts = [p for p in parts]
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    small = all(isinstance(p, str) or (isinstance(p, U) and len(p.alts) <= 12 and all(
        isinstance(x, str) for _, x in p.alts)) for p in parts) and sum(isinstance(p, U) for p in parts) == 1
    if LAZY[0] and not small:
        return SymStr([("alt", tuple(p.alts)) if isinstance(p, U) else p for p in parts])
    if any(isinstance(p, U) for p in parts):
        for k, p in enumerate(parts):
            if isinstance(p, U):
                return merge_alts(
                    [(h, strcat(parts[:k] + [x] + parts[k + 1:])) for h, x in p.alts])
    return SymStr(parts)


def fmt(ip, v, spec):
    """format(v, spec)"""
    if isinstance(v, U):
        return merge_alts([(h, fmt(ip, x, spec)) for h, x in v.alts])
    if conc(v) and isinstance(spec, str):
        try:
            return format(v, spec) if spec else str(v)
        except (ValueError, TypeError):
            raise Unsupported("format spec")
    if isinstance(v, SymStr) and not spec:
        return v
    if isinstance(v, SymStr):
        return SymStr([("pad", v, spec)])
    if isinstance(v, z3.ExprRef):
        return SymStr([("fmt", v, spec)])
    if isinstance(v, Elem):
        return SymStr([("card", v)])
    if isinstance(v, PyObj) and v.cls is not None and not spec:
        m = v.cls.lookup("__str__")
        if m is not None:
            return ip.call_func(m, [v], {}, True)
    if hasattr(v, "shown") and not spec:
        return v.shown()
    return SymStr([("opaque", id(v))])


# ---------------------------------------------------------------- builtins
def _b(name):
    def deco(f):
        BUILTINS[name] = Builtin(name, f)
        return f

    return deco


BUILTINS = {}


@_b("len")
def b_len(ip, a, kw, g):
    v = a[0]
    if isinstance(v, U):
        return merge_alts([(h, b_len(ip, [x], {}, And(g, h))) for h, x in v.alts])
    if isinstance(v, Fn):
        return v.length
    if isinstance(v, PyList):
        known(v)
        if v.guards is None:
            return len(v.items)
        return Sum([B2I(h) for h in v.guards])
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, SeqRef):
        return v.length()
    if isinstance(v, SymArr):
        return v.length
    if isinstance(v, PyDict):
        return len(v.d)
    if isinstance(v, PySet):
        return len(v.items)
    if isinstance(v, PyObj) and v.cls:
        m = v.cls.lookup("__len__")
        if m:
            return ip.call_func(m, [v], {}, g)
    raise Unsupported("len of %r" % (v,))


@_b("range")
def b_range(ip, a, kw, g):
    if any(isinstance(x, U) for x in a):
        for k, x in enumerate(a):
            if isinstance(x, U):
                return merge_alts([(h, b_range(ip, a[:k] + [y] + a[k + 1:], kw, g)) for h, y in x.alts])
    if any(sym(x) for x in a):
        return SymRange([0, a[0], 1] if len(a) == 1 else list(a) + [1] * (3 - len(a)))
    return PyList(list(range(*[int(x) for x in a])))


class SymRange(Ref):
    def __init__(self, a):
        self.start, self.stop, self.step = a


@_b("enumerate")
def b_enumerate(ip, a, kw, g):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    its = column(ip, a[0], g)
    if all(h is True for h, _ in its):
        return PyList([(start + k, x) for k, (_, x) in enumerate(its)])
    out, guards, cnt = [], [], start
    for h, x in its:
        out.append((cnt, x))
        guards.append(h)
        cnt = cnt + B2I(h) if h is not True else cnt + 1
    return PyList(out, guards)


@_b("zip")
def b_zip(ip, a, kw, g):
    if any(isinstance(x, SymArr) for x in a):
        raise Unsupported("zip of symbolic array")
    cols = [column(ip, x, g) for x in a]
    for c in cols:
        if any(h is not True for h, _ in c):
            gs = [h for h, _ in c]
            if all(len(d) == len(c) and all(simp(lift(p) == lift(q)) is True for (p, _), q in zip(d, gs)) for d in cols):
                return PyList([tuple(d[k][1] for d in cols) for k in range(len(c))], gs)
            n = min(len(c) for c in cols)
            lists = [PyList([x for _, x in c], [h for h, _ in c]) for c in cols]
            for l in lists:
                l.guards = l.guards if l.guards is not None else [True] * len(l.items)
            tot = [Sum([B2I(h) for h in l.guards]) for l in lists]
            rows, gs = [], []
            for k in range(n):
                ok = And([lift(m) > k for m in tot])
                rows.append(tuple(present(ip, l, k) for l in lists))
                gs.append(simp(ok))
            return PyList(rows, gs)
    n = min(len(c) for c in cols) if cols else 0
    return PyList([tuple(c[k][1] for c in cols) for k in range(n)])


@_b("any")
def b_any(ip, a, kw, g):
    v = generic(a[0])
    if isinstance(v, Fn):
        return Not(every(ip, v, lambda x: Not(ip.truth(x))))
    return Or([And(h, ip.truth(x)) for h, x in iterate(ip, a[0], g)])


def every(ip, v, f):
    """f holds of all elements of a list of unknown length"""
    j = ip.fresh("j")
    c = f(v.get(j))
    if not sym(c):
        return Or(lift(v.length) == 0, c)
    return z3.ForAll([j], Implies(And(j >= 0, j < lift(v.length)), c))


@_b("all")
def b_all(ip, a, kw, g):
    v = generic(a[0])
    if isinstance(v, Fn):
        return every(ip, v, ip.truth)
    return And([Implies(h, ip.truth(x)) for h, x in iterate(ip, a[0], g)])


@_b("sum")
def b_sum(ip, a, kw, g):
    v = a[0]
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    if isinstance(v, Fn) and "fn_sum" in ip.hooks:
        return ip.hooks["fn_sum"](v)
    if isinstance(v, SymArr):
        if v.total is None or start != 0:
            raise Unsupported("sum of symbolic array")
        return v.total()
    its = iterate(ip, v, g)
    if isinstance(start, tuple) or (its and isinstance(its[0][1], tuple)):
        r = start
        for h, x in its:
            if h is not True:
                raise Unsupported("guarded tuple sum")
            r = r + x
        return r
    if its and isinstance(its[0][1], (PyList, SeqRef)):
        r = start
        for h, x in its:
            r = seq_add(ip, r, x, g)
        return r
    terms = []
    for h, x in its:
        x = to_int(x) if not isinstance(x, z3.ArithRef) and not isinstance(x, float) else x
        if isinstance(x, float):
            raise Unsupported("float sum")
        terms.append(Ite(h, x, 0) if h is not True else x)
    if terms and any(sym(t) and not t.is_int() for t in terms):
        r = start
        for t in terms:
            r = r + t
        return r
    return binop(ip, "Add", Sum(terms), start, g) if start != 0 else Sum(terms)


def minmax(ip, a, kw, g, op, name):
    if len(a) == 1 and isinstance(a[0], Family):
        if name != "min" or "key" in kw or "family_min" not in ip.hooks:
            raise Unsupported("%s of a family" % name)
        return ip.hooks["family_min"](a[0], kw.get("default", UNDEF))
    if "key" in kw:
        key = kw["key"]
        items = unguarded(ip, a[0], g) if len(a) == 1 else list(a)
        best = items[0]
        bk = ip.call(key, [best], {}, g)
        for x in items[1:]:
            k = ip.call(key, [x], {}, g)
            c = compare(ip, op, k, bk, g)
            best = merge(c, x, best)
            bk = merge(c, k, bk)
        return best
    its = [(True, x) for x in a] if len(a) > 1 else iterate(ip, a[0], g)
    if not its:
        if "default" in kw:
            return kw["default"]
        ip.do_raise(g, "ValueError")
        return 0
    has, val = its[0]
    for h, x in its[1:]:
        better = compare(ip, op, x, val, g)
        take = And(h, Or(Not(has), better))
        val = merge(simp(take) if sym(take) else take, x, val)
        has = Or(has, h)
    if has is not True:
        if "default" in kw:
            return merge(has, val, kw["default"])
        ip.do_raise(And(g, Not(has)), "ValueError")
    return val


@_b("max")
def b_max(ip, a, kw, g):
    return minmax(ip, a, kw, g, "Gt", "max")


@_b("min")
def b_min(ip, a, kw, g):
    return minmax(ip, a, kw, g, "Lt", "min")


@_b("abs")
def b_abs(ip, a, kw, g):
    v = a[0]
    if isinstance(v, U):
        return merge_alts([(h, b_abs(ip, [x], {}, g)) for h, x in v.alts])
    if sym(v):
        v = num(v)
        return z3.If(v < 0, -v, v)
    return abs(v)


def intlike(ip, v, g, name):
    if isinstance(v, U):
        return merge_alts([(h, intlike(ip, x, And(g, h), name)) for h, x in v.alts])
    if isinstance(v, (bool, z3.BoolRef)):
        return num(v)
    if is_int(v):
        return v
    if isinstance(v, float):
        if v in (INF, -INF) or v != v:
            ip.do_raise(g, "OverflowError")
            return 0
        return int(v) if name == "int" else round(v)
    if isinstance(v, PyObj) and v.cls and v.cls.lookup("__int__") and name == "int":
        return ip.call_func(v.cls.lookup("__int__"), [v], {}, g)
    if isinstance(v, str) and name == "int":
        try:
            return int(v)
        except ValueError:
            ip.do_raise(g, "ValueError")
            return 0
    raise Unsupported("%s of %r" % (name, v))


@_b("round")
def b_round(ip, a, kw, g):
    a = list(a) + list(kw.values())
    if hasattr(a[0], "rounded"):
        return a[0].rounded(*a[1:])
    if len(a) > 1 and all(isinstance(x, (int, float)) for x in a):
        return round(*a)
    if len(a) > 1 and isinstance(a[0], U):
        return merge_alts([(h, b_round(ip, [x, a[1]], {}, And(g, h))) for h, x in a[0].alts])
    if len(a) > 1:
        raise Unsupported("round with digits")
    return intlike(ip, a[0], g, "round")


@_b("int")
def b_int(ip, a, kw, g):
    if len(a) > 1:
        if isinstance(a[0], str) and isinstance(a[1], int):
            return int(a[0], a[1])
        raise Unsupported("int with base")
    return intlike(ip, a[0], g, "int") if a else 0


@_b("bool")
def b_bool(ip, a, kw, g):
    return ip.truth(a[0]) if a else False


@_b("float")
def b_float(ip, a, kw, g):
    v = a[0]
    if isinstance(v, U):
        return merge_alts([(h, b_float(ip, [x], {}, And(g, h))) for h, x in v.alts])
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            ip.do_raise(g, "ValueError")
            return 0.0
    if sym(v):
        return num(v)
    if isinstance(v, SymStr) and "text_number" in ip.hooks:
        return ip.hooks["text_number"](ip, v, g)
    if hasattr(v, "float_of"):
        return v.float_of(ip, g)
    if v is None:
        ip.do_raise(g, "TypeError")
        return 0.0
    return float(v)


@_b("str")
def b_str(ip, a, kw, g):
    return fmt(ip, a[0], "")


@_b("format")
def b_format(ip, a, kw, g):
    return fmt(ip, a[0], a[1] if len(a) > 1 else "")


@_b("chr")
def b_chr(ip, a, kw, g):
    if not isinstance(a[0], int):
        raise Unsupported("chr")
    return chr(a[0])


@_b("ord")
def b_ord(ip, a, kw, g):
    if not isinstance(a[0], str) or len(a[0]) != 1:
        raise Unsupported("ord")
    return ord(a[0])


@_b("id")
def b_id(ip, a, kw, g):
    raise Unsupported("id")


@_b("list")
def b_list(ip, a, kw, g):
    if not a:
        return PyList([])
    v = a[0]
    if isinstance(v, SeqRef):
        return SeqRef(v.parts)
    if isinstance(v, Family):
        return Family(v.desc, v.item, v.tag)
    if hasattr(v, "listed"):
        return v.listed()
    if isinstance(v, Fn):
        return Fn(v.length, v.get, v.has, v.index)
    if isinstance(v, SymRange):
        return as_fn(v)
    if isinstance(v, SetP):
        return enumerate_set(ip, v.has)
    if isinstance(v, U) and all(isinstance(x, SeqRef) for _, x in v.alts):
        return merge_alts([(h, SeqRef(x.parts)) for h, x in v.alts])
    if isinstance(v, SymArr):
        return SymArr(v.name, v.length, v.get, v.total)
    its = iterate(ip, v, g)
    return PyList([x for _, x in its], [h for h, _ in its])


@_b("tuple")
def b_tuple(ip, a, kw, g):
    if not a:
        return ()
    return tuple(unguarded(ip, a[0], g))


@_b("set")
def b_set(ip, a, kw, g):
    if not a:
        return PySet()
    if isinstance(a[0], (Fn, SymRange, SetP)):
        return to_setp(a[0])
    out = []
    for x in unguarded(ip, a[0], g):
        if not conc(x):
            raise Unsupported("symbolic set")
        if x not in out:
            out.append(x)
    return PySet(out)


@_b("dict")
def b_dict(ip, a, kw, g):
    d = PyDict()
    if a:
        if isinstance(a[0], PyDict):
            d.d.update(a[0].d)
        else:
            for x in unguarded(ip, a[0], g):
                k, v = ip.unpack(x, 2, g)
                if not conc(k):
                    raise Unsupported("symbolic dict key")
                d.d[k] = v
    d.d.update(kw)
    return d


@_b("reversed")
def b_reversed(ip, a, kw, g):
    its = iterate(ip, a[0], g)[::-1]
    return PyList([x for _, x in its], [h for h, _ in its])


@_b("map")
def b_map(ip, a, kw, g):
    x = generic(a[1])
    if len(a) == 2 and isinstance(x, (Fn, Family)):
        from .interp import Frame

        fr = Frame(None, True)
        fr.module = None
        return ip.generic_map(x, fr, g, ast.Name("item", ast.Store()),
                              lambda f, cg: ip.call(a[0], [f.env["item"]], {}, cg))
    its = [iterate(ip, x, g) for x in a[1:]]
    n = min(len(x) for x in its)
    if len(its) > 1 and any(h is not True for c in its for h, _ in c):
        raise Unsupported("map of guarded lists")
    return PyList([ip.call(a[0], [c[k][1] for c in its], {}, And(g, its[0][k][0])) for k in range(n)],
                  [its[0][k][0] for k in range(n)])


@_b("filter")
def b_filter(ip, a, kw, g):
    its = iterate(ip, a[1], g)
    return PyList([x for _, x in its], [
        And(h, ip.truth(x if a[0] is None else ip.call(a[0], [x], {}, And(g, h)))) for h, x in its])


@_b("iter")
def b_iter(ip, a, kw, g):
    its = iterate(ip, a[0], g)
    return PyList([x for _, x in its], [h for h, _ in its])


@_b("next")
def b_next(ip, a, kw, g):
    v = a[0]
    if isinstance(v, NativeGen):
        if g is not True and ip.feasible(Not(g)):
            raise Unsupported("next under guard")
        return next(v.gen)
    if not isinstance(v, PyList):
        raise Unsupported("next")
    its = v.pairs()
    has = Or([h for h, _ in its])
    if len(a) > 1:
        r = a[1]
    else:
        ip.do_raise(And(g, Not(has)), "StopIteration")
        if not its:
            return 0
        r = its[-1][1]
    alts, none = [], True
    for h, x in its:
        alts.append((simp(And(none, h)), x))
        none = And(none, Not(h))
    if len(a) > 1:
        alts.append((none, a[1]))
    elif alts:
        alts[-1] = (Or(alts[-1][0], none), alts[-1][1])
    return merge_alts([(h, x) for h, x in alts if h is not False])


@_b("isinstance")
def b_isinstance(ip, a, kw, g):
    v, t = a
    if isinstance(v, U):
        return Or([And(h, b_isinstance(ip, [x, t], {}, g)) for h, x in v.alts])
    ts = t if isinstance(t, tuple) else (t,)
    res = False
    for x in ts:
        if isinstance(x, Builtin) and hasattr(v, "is_a"):
            res = Or(res, v.is_a(x.name))
        elif isinstance(x, Builtin):
            n = x.name
            ok = {
                "int": lambda: is_int(v) or is_bool(v), "bool": lambda: is_bool(v),
                "str": lambda: isinstance(v, (str, SymStr)),
                "float": lambda: isinstance(v, float) or (isinstance(v, z3.ArithRef) and v.is_real()),
                "list": lambda: isinstance(v, (PyList, SeqRef, SymArr, Fn)),
                "tuple": lambda: isinstance(v, tuple), "dict": lambda: isinstance(v, PyDict),
                "set": lambda: isinstance(v, PySet),
            }.get(n)
            if ok is None:
                raise Unsupported("isinstance %s" % n)
            res = Or(res, ok())
        elif isinstance(x, Cls):
            if isinstance(v, PyObj):
                res = Or(res, subclass(v.cls, x))
            elif isinstance(v, Elem):
                res = Or(res, x.name == "Card")
            elif isinstance(v, U):
                raise Unsupported("isinstance")
        else:
            raise Unsupported("isinstance")
    return res


def subclass(c, x):
    if c is x:
        return True
    return any(subclass(b, x) for b in c.bases if isinstance(b, Cls))


@_b("callable")
def b_callable(ip, a, kw, g):
    return isinstance(a[0], (Func, Bound, Builtin, Cls))


@_b("getattr")
def b_getattr(ip, a, kw, g):
    if not isinstance(a[1], str):
        raise Unsupported("getattr")
    return ip.getattr(a[0], a[1], g)


@_b("hasattr")
def b_hasattr(ip, a, kw, g):
    raise Unsupported("hasattr")


@_b("print")
def b_print(ip, a, kw, g):
    if "print" in ip.hooks:
        ip.hooks["print"](a, kw, g)
    return None


@_b("divmod")
def b_divmod(ip, a, kw, g):
    return (binop(ip, "FloorDiv", a[0], a[1], g), binop(ip, "Mod", a[0], a[1], g))


@_b("sorted")
def b_sorted(ip, a, kw, g):
    if hasattr(a[0], "sorted_of"):
        return a[0].sorted_of(ip, kw, g)
    if isinstance(a[0], SetP) and not kw:
        # one of the orders list() may produce
        return BUILTINS["list"].fn(ip, [a[0]], {}, g)
    items = unguarded(ip, a[0], g)
    key = kw.get("key")
    rev = kw.get("reverse", False)
    if "sorted" in ip.hooks:
        r = ip.hooks["sorted"](ip, a[0], items, key, rev, g)
        if r is not NotImplemented:
            return r
    keys = [x if key is None else ip.call(key, [x], {}, g) for x in items]
    if all(conc(k) or (isinstance(k, tuple) and all(conc(y) for y in k)) for k in keys):
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
        return PyList([items[i] for i in order])
    if rev is not False:
        raise Unsupported("reverse sort")
    # stable insertion network on fresh copies of the elements
    recs = [(keys[i], copy_item(items[i])) for i in range(len(items))]
    for i in range(1, len(recs)):
        for j in range(i, 0, -1):
            c = compare(ip, "Lt", recs[j][0], recs[j - 1][0], g)
            c = simp(c) if sym(c) else c
            if c is True:
                recs[j], recs[j - 1] = recs[j - 1], recs[j]
            elif c is not False:
                x, y = recs[j - 1], recs[j]
                recs[j - 1] = (merge(c, y[0], x[0]), merge_item(c, y[1], x[1]))
                recs[j] = (merge(c, x[0], y[0]), merge_item(c, x[1], y[1]))
    for x in items:
        if isinstance(x, PyList):
            x.items = [POISON] * len(x.items)
    return PyList([r for _, r in recs])


class Poison(object):
    def __repr__(self):
        return "<element of a sorted list used through its old reference>"


POISON = Poison()


def copy_item(x):
    if isinstance(x, PyList):
        return PyList(x.items, x.guards)
    if isinstance(x, Ref):
        raise Unsupported("sorting objects")
    return x


def merge_item(c, a, b):
    if isinstance(a, PyList):
        if a.guards is not None or b.guards is not None or len(a.items) != len(b.items):
            raise Unsupported("sorting lists")
        return PyList([merge(c, x, y) for x, y in zip(a.items, b.items)])
    return merge(c, a, b)


for _n in ("TypeError", "ValueError", "KeyError", "IndexError", "NotImplementedError",
           "Exception", "AssertionError", "ZeroDivisionError", "StopIteration",
           "ImportError", "RuntimeError", "OverflowError", "AttributeError",
           "OSError", "ConnectionRefusedError"):
    BUILTINS[_n] = Exc(_n)
BUILTINS["True"] = True
BUILTINS["False"] = False
BUILTINS["None"] = None
BUILTINS["object"] = Cls("object", [], None, None)
BUILTINS["staticmethod"] = None


# ------------------------------------------------------------ std modules
def itemgetter(ip, a, kw, g):
    idx = list(a)

    def get(ip, args, kw, g):
        if len(idx) == 1:
            return getitem(ip, args[0], idx[0], g)
        return tuple(getitem(ip, args[0], i, g) for i in idx)

    b = Builtin("itemgetter", get)
    b.idx = idx
    return b


def reduce_(ip, a, kw, g):
    its = unguarded(ip, a[1], g)
    if len(a) > 2:
        acc = a[2]
    else:
        if not its:
            ip.do_raise(g, "TypeError")
            return 0
        acc = its.pop(0)
    for x in its:
        acc = ip.call(a[0], [acc, x], {}, g)
    return acc


def combinations_(ip, a, kw, g):
    import itertools

    if "combinations" in ip.hooks:
        r = ip.hooks["combinations"](ip, a, g)
        if r is not NotImplemented:
            return r
    items = unguarded(ip, a[0], g)
    if not isinstance(a[1], int):
        raise Unsupported("symbolic number of elements in combinations")
    if a[1] < 0:
        ip.do_raise(g, "ValueError")
        return PyList([])
    return PyList([tuple(c) for c in itertools.combinations(items, a[1])])


def product_(ip, a, kw, g):
    import itertools

    if any(isinstance(x, Family) for x in a):
        if not all(isinstance(x, Family) for x in a) or kw or "product" not in ip.hooks:
            raise Unsupported("product")
        return ip.hooks["product"](ip, a, g)
    return PyList([tuple(c) for c in itertools.product(*[unguarded(ip, x, g) for x in a])])


def permutations_(ip, a, kw, g):
    import itertools

    return PyList([tuple(c) for c in itertools.permutations(unguarded(ip, a[0], g), *a[1:])])


def chain_(ip, a, kw, g):
    out = []
    for x in a:
        out += iterate(ip, x, g)
    return PyList([x for _, x in out], [h for h, _ in out])


def accumulate_(ip, a, kw, g):
    out, acc = [], None
    for x in unguarded(ip, a[0], g):
        acc = x if acc is None else binop(ip, "Add", acc, x, g)
        out.append(acc)
    return PyList(out)


def op2(name):
    return Builtin(name, lambda ip, a, kw, g: binop(ip, name, a[0], a[1], g))


def no_effect(ip, a, kw, g):
    return None


def stdlib(ip, name):
    if "stdlib" in ip.hooks:
        m = ip.hooks["stdlib"](name)
        if m is not None:
            return m
    if name == "itertools":
        return Module("itertools", {
            "combinations": Builtin("combinations", combinations_),
            "product": Builtin("product", product_),
            "permutations": Builtin("permutations", permutations_),
            "chain": Builtin("chain", chain_),
            "accumulate": Builtin("accumulate", accumulate_)})
    if name == "operator":
        return Module("operator", {
            "itemgetter": Builtin("itemgetter", itemgetter),
            "and_": op2("BitAnd"), "or_": op2("BitOr"), "mul": op2("Mult"), "add": op2("Add"),
            "sub": op2("Sub")})
    if name == "functools":
        return Module("functools", {"reduce": Builtin("reduce", reduce_)})
    if name == "random":
        def shuffle(ip, a, kw, g):
            if len(a) != 1 or kw:
                raise Unsupported("random.shuffle with a source of random numbers")
            if "shuffle" in ip.hooks:
                return ip.hooks["shuffle"](ip, a[0], g)
            return permute(ip, a[0], g)
        def sample(ip, a, kw, g):
            if len(a) + len(kw) != 2 or set(kw) - {"k"}:
                raise Unsupported("random.sample")
            l, k = a[0], a[1] if len(a) > 1 else kw["k"]
            if isinstance(l, PyList) and "shuffle" in ip.hooks and l.guards is None and k == len(l.items):
                r = PyList(list(l.items))
                ip.hooks["shuffle"](ip, r, g)
                return r
            if not isinstance(l, Fn) or not same(l.length, k):
                raise Unsupported("random.sample")
            r = Fn(l.length, l.get, l.has, l.index)
            permute(ip, r, g)
            return r
        return Module("random", {"shuffle": Builtin("shuffle", shuffle),
                                 "sample": Builtin("sample", sample)})
    if name == "sys":
        return Module("sys", {"version_info": (3, 9)})
    if name == "os":
        import os as _os

        def path(f):
            def run(ip, a, kw, g):
                if kw or not all(isinstance(x, str) for x in a):
                    raise Unsupported("path")
                return f(*a)
            return Builtin("path", run)
        return Module("os", {"path": Module("os.path", {
            k: path(getattr(_os.path, k)) for k in ("dirname", "realpath", "abspath", "join", "basename")})})
    if name in ("xml", "copy", "math"):
        from . import page
        return page.library(name, ip)
    if name == "time":
        return Module("time", {"sleep": Builtin("sleep", no_effect)})
    return Module(name, {})


def import_from(ip, rel, level, src, name):
    """names imported by the modules of the repository"""
    if level == 0 and src == "clubs":
        return package(ip, name)
    if level == 1 and rel.startswith("clubs/poker") and src == "":
        return package(ip, "poker." + name)
    if level == 1 and rel.startswith("clubs/render") and src == "":
        return package(ip, "render." + name)
    if level == 2 and src == "":
        return package(ip, name)
    if level == 0:
        if src.startswith("typing") or src == "timeit":
            return Builtin(name, no_effect)
        m = stdlib(ip, src.split(".")[0])
        if "stdlib" in ip.hooks:
            for x in src.split(".")[1:]:
                m = m.attrs.get(x, Module(x, {}))
        return m.attrs.get(name)
    return None


class ErrorModule(Module):
    def __init__(self):
        Module.__init__(self, "error")
        self.attrs = _Err()


class _Err(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return Exc(k)


class LazyPackage(Module):
    def __init__(self, ip, name, files):
        Module.__init__(self, name)
        self.attrs = _Lazy(ip, files)


class _Lazy(dict):
    def __init__(self, ip, files):
        self.ip, self.files = ip, files

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False

    def __getitem__(self, k):
        if k in self.files:
            return self.ip.module(self.files[k])
        for f in self.files.values():
            m = self.ip.module(f)
            if k in m.attrs:
                return m.attrs[k]
        raise KeyError(k)


POKER = {"card": "clubs/poker/card.py", "evaluator": "clubs/poker/evaluator.py",
         "engine": "clubs/poker/engine.py"}
RENDER = {"viewer": "clubs/render/viewer.py", "ascii_viewer": "clubs/render/ascii_viewer.py",
          "graphic": "clubs/render/graphic.py"}


def package(ip, name):
    if name == "error":
        return ErrorModule()
    if name == "poker":
        return LazyPackage(ip, "poker", {k: POKER[k] for k in ("card", "evaluator")})
    if name == "render":
        return LazyPackage(ip, "render", RENDER)
    if name.startswith("poker."):
        return ip.module(POKER[name[6:]])
    if name.startswith("render."):
        return ip.module(RENDER[name[7:]])
    return None


class SourceFile(object):
    """a file of the repository, opened for reading"""
    is_file = True

    def __init__(self, text):
        self.text = text

    def getattr(self, ip, name):
        if name == "read":
            return Builtin("read", lambda ip, a, kw, g: self.text)
        if name == "close":
            return Builtin("close", no_effect)
        raise Unsupported("file.%s" % name)


@_b("open")
def b_open(ip, a, kw, g):
    import os

    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    p = a[0]
    root = os.path.realpath(ip.p.repo) + os.sep
    if not isinstance(p, str) or mode not in ("r", "rt") or not os.path.realpath(p).startswith(root):
        raise Unsupported("open")
    with open(p, encoding="utf8") as f:
        return SourceFile(f.read())
