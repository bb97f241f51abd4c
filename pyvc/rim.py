"""Places on the rim of the web table (C27).

("rim", "edge")   _RoundedRectangle.edge: for every rectangle at least as wide
                  as high and every fraction, the point at this fraction of the
                  outline (to two decimals)
("rim", "page")   _SVGPoker: for any number of players the centres of the boxes
                  and street bets are these points (to a pixel); edge by contract

Floating point numbers are treated as real numbers.  sin and cos are unknown
functions; their values at the angles of the code are related to their values
at the angle of the specification by a proved linear relation of the angles."""
from fractions import Fraction

import z3

from .values import *
from .interp import *
from . import builtins as bi
from . import values, page
from .dealer import Task, raises, mval
from specs.ops import *

R = z3.RealSort()
PI = z3.Real("pi")
COS, SIN = z3.Function("cos", R, R), z3.Function("sin", R, R)
PART = z3.Function("fractional_part", R, R)
PI_RANGE = [PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")]
# the outline of a rectangle of width w and height h, as seen from its centre
OX, OY = z3.Function("outline_x", R, R, R, R), z3.Function("outline_y", R, R, R, R)


def rounding(digits):
    return z3.Function("round_%d" % digits, R, R)


def make(program, what, *args):
    return globals()["do_" + what](program, *args)


class Real(object):
    """a real number given by a term"""

    def __init__(self, t):
        self.t = z3.simplify(t)

    def arith(self, ip, op, a, b, g):
        x, y = real(a), real(b)
        if op == "Div":
            zero = z3.simplify(y == 0)
            if not z3.is_false(zero):
                ip.do_raise(And(g, zero), "ZeroDivisionError")
            return Real(x / y)
        if op == "Mod" and z3.is_rational_value(z3.simplify(y)) and z3.simplify(y).as_fraction() == 1:
            return Real(PART(x))
        if op == "Pow" and isinstance(b, (int, float)) and b == 2:
            return Real(x * x)
        f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y}.get(op)
        if f is None:
            raise Unsupported("operator %s on numbers" % op)
        return Real(f())

    def compare_to(self, ip, op, other):
        x, y = self.t, real(other)
        f = z3.simplify({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y}[op])
        return True if z3.is_true(f) else False if z3.is_false(f) else f

    def float_of(self, ip, g):
        return self

    def rounded(self, digits=0):
        if not isinstance(digits, int) or digits < 0:
            raise Unsupported("round")
        return Real(rounding(digits)(self.t))

    def shown(self):
        return SymStr([("real", self)])

    def is_a(self, name):
        return name == "float"

    def truth_of(self):
        return self.t != 0

    def __repr__(self):
        return "<real %s>" % self.t


def real(v):
    if isinstance(v, Real):
        return v.t
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    if isinstance(v, bool) or not isinstance(v, (int, float, Fraction)) or v in (INF, -INF) or v != v:
        raise Unsupported("number %r" % (v,))
    return z3.RealVal(str(Fraction(v)))


INF = float("inf")


def merge_reals(alts):
    if any(isinstance(v, Real) for _, v in alts) and all(
            isinstance(v, (Real, int, float, z3.ArithRef)) for _, v in alts):
        t = real(alts[-1][1])
        for g, v in reversed(alts[:-1]):
            t = Ite(g, real(v), t)
        return Real(t)
    return None


values.MERGE.insert(0, merge_reals)
values.SUBST.append((Real, lambda v, a, b: Real(z3.substitute(v.t, (a, lift(b))))))


def opaque(op, a, b):
    x, y = real(a), real(b)
    return Real({"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y}[op]())


def trig(k, a, g):
    if k in ("sin", "cos") and len(a) == 1:
        return Real((SIN if k == "sin" else COS)(real(a[0])))
    raise Unsupported("math.%s" % k)


def text_number(ip, v, g):
    if len(v.parts) == 1 and not isinstance(v.parts[0], str):
        p = v.parts[0]
        if p[0] == "real":
            return p[1]
        if p[0] == "fmt" and not p[2]:
            return Real(real(p[1]))
    raise Unsupported("number from %r" % (v,))


def interp(program):
    ip = Interp(program)
    ip.hooks.update(opaque=opaque, text_number=text_number, math=trig, pi=Real(PI))
    return ip


# ------------------------------------------------------------------- terms
def apps(t, out=None, seen=None):
    """all applications of uninterpreted functions in a term"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if not z3.is_app(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def about(terms):
    """what is known about roundings and fractional parts in terms"""
    r = []
    for x in {a.get_id(): a for t in terms for a in apps(t)}.values():
        n = x.decl().name()
        if n.startswith("round_"):
            half = z3.RealVal(str(Fraction(1, 2 * 10 ** int(n[6:]))))
            r += [x - x.arg(0) <= half, x.arg(0) - x <= half]
        elif n == PART.name():
            r += [x >= 0, x < 1]
    return r


# --------------------------------------------------------------------- edge
class Outline(object):
    """the outline of a w x h rectangle with round ends, clockwise on the
    screen from the bottom centre; f is the fraction of its length"""

    def __init__(self, w, h, f, pi=PI):
        half = z3.RealVal("1/2")
        s, r = w - h, h * half
        self.length = 2 * s + 2 * pi * r
        t = f * self.length
        e1 = s * half
        e2 = e1 + pi * r
        e3 = e2 + s
        e4 = e3 + pi * r
        # (condition, angle or None, x and y from cosine and sine of the angle)
        self.pieces = [
            ("bottom, left half", t < e1, None, lambda c, n: (-t, r)),
            ("left end", And(t >= e1, t < e2), pi * half + (t - e1) / r, lambda c, n: (r * c - s * half, r * n)),
            ("top", And(t >= e2, t < e3), None, lambda c, n: (t - e2 - s * half, -r)),
            ("right end", And(t >= e3, t < e4), 3 * pi * half + (t - e3) / r,
             lambda c, n: (r * c + s * half, r * n)),
            ("bottom, right half", t >= e4, None, lambda c, n: (s * half - (t - e4), r)),
        ]


def relation(angle, spec, cond, facts, sample):
    """(sign, quarter turns): angle = sign * spec + turns * pi / 2, proved"""
    ev = lambda t: z3.simplify(z3.substitute(t, *sample))
    a, b, p = ev(angle), ev(spec), ev(PI)
    if not all(z3.is_rational_value(x) for x in (a, b)):
        return None
    a, b, p = a.as_fraction(), b.as_fraction(), p.as_fraction()
    for sign in (1, -1):
        m = (a - sign * b) * 2 / p
        if m.denominator == 1 and abs(m) < 40:
            m = int(m)
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*facts)
            s.add(cond, angle != sign * spec + z3.RealVal(m) * PI / 2)
            if s.check() == z3.unsat:
                return sign, m
    return None


def turned(sign, m, c, n):
    """cosine and sine of sign * angle + m * pi / 2"""
    n = n if sign == 1 else -n
    for _ in range(m % 4):
        c, n = -n, c
    return c, n


def do_edge(program):
    ip = interp(program)
    cls = ip.module(page.GRAPHIC).attrs.get("_RoundedRectangle")
    if not isinstance(cls, Cls):
        raise Unsupported("class _RoundedRectangle not found")
    x, y, w0, h0, w, h, f = z3.Reals("x y width0 height0 width height fraction")
    for q in PI_RANGE + [h > 0, w >= h, f >= 0]:
        ip.assume(q)
    o = ip.construct(cls, [Real(v) for v in (x, y, w0, h0)], {}, True)
    # the size may be changed after the construction, the centre stays
    o.attrs["width"], o.attrs["height"] = Real(w), Real(h)
    before = dict(o.attrs)
    phi = z3.Real("part")
    res = ip.call_func(cls.lookup("edge"), [o, Real(f)], {}, True)
    if not isinstance(res, tuple) or len(res) != 2:
        raise Unsupported("result of edge")
    t = Task("_RoundedRectangle.edge")
    k = len(ip.assumptions)
    ax = [phi >= 0, phi < 1]
    cut = lambda v: z3.substitute(v, (PART(f), phi))
    got = [cut(real(v)) for v in res]
    out = Outline(w, h, phi)
    half = z3.RealVal("1/2")
    centre = x + w0 * half, y + h0 * half
    pre = list(ip.assumptions) + ax
    base = [(w, z3.RealVal(7)), (h, z3.RealVal(3)), (PI, z3.RealVal("355/113")), (x, z3.RealVal(1)),
            (y, z3.RealVal(2)), (w0, z3.RealVal(5)), (h0, z3.RealVal(6))]
    # fractions in the middle of the pieces of the 7 x 3 sample
    L = Fraction(8) + 3 * Fraction(355, 113)
    e = [Fraction(2), Fraction(2) + Fraction(3, 2) * Fraction(355, 113)]
    e += [e[1] + 4, e[1] + 4 + Fraction(3, 2) * Fraction(355, 113)]
    mid = [e[0] / 2, (e[0] + e[1]) / 2 + Fraction(1, 7), (e[1] + e[2]) / 2, (e[2] + e[3]) / 2 + Fraction(1, 7),
           (e[3] + L) / 2]
    near = lambda a, b, eps: And(a - b <= z3.RealVal(eps), b - a <= z3.RealVal(eps))
    for (name, cond, angle, point), m in zip(out.pieces, mid):
        c, n = z3.Reals("cosine sine")
        facts = []
        sub = []
        for a in {q.get_id(): q for v in got for q in apps(v) if q.decl().name() in ("cos", "sin")}.values():
            if angle is None:
                continue
            rel = relation(a.arg(0), angle, cond, pre, base + [(phi, z3.RealVal(str(m / L)))])
            if rel is not None:
                cs = turned(rel[0], rel[1], c, n)
                sub.append((a, cs[0] if a.decl().name() == "cos" else cs[1]))
        vals = [z3.substitute(v, *sub) if sub else v for v in got]
        if angle is not None:
            facts = [c * c + n * n == 1]
        # roundings become free numbers close to their argument
        seen = {}
        for v in vals:
            for q in apps(v):
                if q.decl().name().startswith("round_") and q.get_id() not in seen:
                    eps = z3.Real("eps%d" % len(seen))
                    lim = z3.RealVal(str(Fraction(1, 2 * 10 ** int(q.decl().name()[6:]))))
                    seen[q.get_id()] = (q, q.arg(0) + eps)
                    facts += [eps <= lim, -eps <= lim]
        if seen:
            vals = [z3.substitute(v, *seen.values()) for v in vals]
        vals = [under(v, cond, pre) for v in vals]
        want = point(c, n)
        for axis, v, q, cc in zip("xy", vals, want, centre):
            t.obs.append(("C27: edge: %s of the point (%s)" % (axis, name),
                          Implies(And(*(ax + facts + [cond])), near(v, q + cc, "0.0051")), "lemma", k))
    t.obs.append(("C27: edge changes nothing", all(o.attrs.get(a) is b for a, b in before.items())
                  and set(before) == set(o.attrs), "lemma", k))
    for g, e_, _ in ip.raises:
        g = cut(g) if sym(g) else g
        t.obs.append(("C27: edge raises no %s" % e_, Implies(And(*ax), Not(g)), "lemma", k))
    vc = Task("vc")
    vc.ip = ip
    t.pre, t.vc = ip.assumptions, vc

    def replay(m):
        q = lambda v, d: to_float(m.eval(v, model_completion=True), d)
        return {"module": "rim", "case": "edge", "args": [q(x, 0), q(y, 0), q(w, 2), q(h, 1), q(phi, 0)]}
    t.replay = replay
    return t


def to_float(v, d):
    try:
        f = v.as_fraction()
        return float(f) if abs(f) < 10 ** 6 else d
    except Exception:
        return d


def under(v, cond, pre):
    """v with the conditions decided that cond decides"""
    while True:
        c = innermost(v)
        if c is None:
            return z3.simplify(v)
        for r in (True, False):
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(*pre)
            s.add(cond, z3.Not(c) if r else c)
            if s.check() == z3.unsat:
                v = z3.substitute(v, (c, z3.BoolVal(r)))
                v = z3.simplify(v)
                break
        else:
            # both are possible (at the end of a piece): name the condition
            v = z3.substitute(v, (c, z3.Bool("either!%d" % c.get_id())))
            return keep(v, c, cond, pre)


def keep(v, c, cond, pre):
    b = z3.Bool("either!%d" % c.get_id())
    yes = under(z3.simplify(z3.substitute(v, (b, z3.BoolVal(True)))), And(cond, c), pre)
    no = under(z3.simplify(z3.substitute(v, (b, z3.BoolVal(False)))), And(cond, Not(c)), pre)
    return z3.If(c, yes, no)


def innermost(v):
    """condition of some if-then-else without further ones in it"""
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            return x.arg(0)
        todo += x.children()
    return None


# --------------------------------------------------------------------- page
def do_page(program):
    ip = interp(program)
    mod = ip.module(page.GRAPHIC)
    cls, rect = mod.attrs.get("_SVGPoker"), mod.attrs.get("_RoundedRectangle")
    if not isinstance(cls, Cls) or not isinstance(rect, Cls):
        raise Unsupported("classes of the page not found")
    n, h, c = z3.Ints("players hole_cards community_cards")
    for x in (n, h, c):
        ip.assume(x >= 0)
    made = {}
    half = z3.RealVal("1/2")

    def new(ip, f, args, kw, g):
        o = PyObj(f)
        ip.call_func(f.lookup("__init__"), [o] + list(args), kw, g)
        if len(args) != 4 or kw:
            raise Unsupported("rectangle")
        x, y, w0, h0 = [real(v) for v in args]
        made[id(o)] = (o, x + w0 * half, y + h0 * half, dict(o.attrs))
        return o

    def edge(ip, f, args, kw, g):
        """contract of edge, proved by ("rim", "edge")"""
        if kw or len(args) != 2 or id(args[0]) not in made:
            raise Unsupported("call of edge")
        o, cx, cy, attrs = made[id(args[0])]
        for k, v in o.attrs.items():
            if k not in ("width", "height") and attrs.get(k) is not v:
                raise Unsupported("changed rectangle")
        w, hh = real(o.attrs["width"]), real(o.attrs["height"])
        p = real(args[1])
        ip.require("C27: edge is used with a width of at least the height", g, And(w >= hh, hh > 0), "lemma")
        ip.require("C27: edge is used with a fraction", g, And(p >= 0, p < 1), "lemma")
        r = rounding(2)
        return (Real(r(OX(w, hh, p) + cx)), Real(r(OY(w, hh, p) + cy)))
    ip.contracts[("_RoundedRectangle", "__new__")] = new
    ip.contracts[("_RoundedRectangle", "edge")] = edge
    poker = ip.call(cls, [n, h, c], {}, True)
    text = bi.fmt(ip, ip.getattr(poker, "base_svg", True), "")
    if not isinstance(text, SymStr) or len(text.parts) != 1 or text.parts[0][0] != "xml":
        raise Unsupported("text of the page")
    every = page.nodes(ip, text.parts[0][1], [], [], [], [])
    t = Task("rim of the page")
    k = len(ip.assumptions)
    attr = lambda e, a: number(ip, e.e.attrib.d.get(a))
    mid = lambda e: (attr(e, "x") + attr(e, "width") * half, attr(e, "y") + attr(e, "height") * half)
    table = [e for e in every if e.e.attrib.d.get("class") == "table"]
    if len(table) != 1 or table[0].idx:
        raise Unsupported("the table of the page")
    centre = [z3.simplify(v) for v in mid(table[0])]
    i = z3.Int("seat")
    seat = And(i >= 0, i < n)
    f = z3.ToReal(i) / z3.ToReal(n)
    num = SymStr([("fmt", i, "")])
    for what, label in (("box", num), ("street bet", bi.strcat(["street-commit-", num]))):
        here = [e for e in every if e.id() is not None and page.shape(e.id()) == page.shape(label)]
        if len(here) != 1 or len(here[0].idx) != 1 or any(len(e.idx) for e in here[0].up):
            raise Unsupported("%s of the players" % what)
        e = here[0]
        v, lo, hi = e.idx[0]
        same_seat = page.same_text(ip, e.id(), label, And(e.inside(), seat))
        facts = And(e.inside(), seat, same_seat)
        pos = mid(e)
        use = {a.get_id(): a for p in pos for a in apps(p) if a.decl().name() == OX.name()}
        if len(use) != 1:
            raise Unsupported("place of the %s" % what)
        o = list(use.values())[0]
        w, hh = o.arg(0), o.arg(1)
        if any(q.eq(v) for q in variables(w) + variables(hh)):
            raise Unsupported("outline that depends on the player")
        known = about(pos)
        for axis, p, fn, cc in zip("xy", pos, (OX, OY), centre):
            want = fn(w, hh, f) + cc
            lim = z3.RealVal("0.51")
            t.obs.append(("C27: %s of the %s of every player" % (axis, what),
                          Implies(And(facts, *known), And(p - want <= lim, want - p <= lim)), "lemma", k))
        t.obs.append(("C27: a %s for every player" % what,
                      Implies(seat, z3.Exists([v], And(e.inside(), same_seat))), "lemma", k))
        t.obs.append(("C27: outline of the %s is wider than high" % what, And(w >= hh, hh > 0), "lemma", k))
    raises(t, ip)
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, "lemma", o.nassume))
    vc = Task("vc")
    vc.ip = ip
    t.pre, t.vc = ip.assumptions, vc

    def replay(m):
        size = lambda x, lo, top: max(lo, min(top, mval(m, x)))
        return {"module": "rim", "case": "page", "args": [size(n, 1, 25), size(h, 0, 12), size(c, 0, 15)]}
    t.replay = replay
    return t


def variables(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def number(ip, v):
    if v is None:
        return z3.RealVal(0)
    if isinstance(v, str):
        try:
            return real(float(v))
        except ValueError:
            raise Unsupported("number %r" % v)
    return real(text_number(ip, v, True))
