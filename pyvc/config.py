"""Dealer.__init__ (C18): configurations are normalised or rejected.

("config", n, forms): n players, any number of streets; forms says for each of
the five list options whether a single value ("s") or a list ("l") of any
length is given.  Values are symbolic: any integers, any raise sizes (integers,
'pot', 'inf', float infinity and anything else), any hand size and deck.  The
constructors of Deck, Evaluator and ASCIIViewer are used by their contracts
(C12 and C14/C15 verify the first two, C21 the last)."""
import z3

from .values import *
from .interp import *
from . import builtins as bi
from .dealer import Task, ENGINE, INF
from specs.ops import *

OPTIONS = ("blinds", "antes", "raise_sizes", "num_raises", "num_community_cards")
SEATS = OPTIONS[:2]
KNOWN = ("InvalidConfigError", "InvalidRaiseSizeError", "InvalidHandSizeError",
         "InvalidRankError", "InvalidSuitError")


class Other(object):
    """a value that equals none of the documented ones"""

    def __init__(self, *types):
        self.types = types
        self.flags = {}

    def eq_to(self, ip, y):
        if y is self:
            return True
        if not conc(y):
            raise Unsupported("comparison of an unknown value")
        if y in ("pot", "inf", INF) or type(y) in (int, bool) or type(y).__name__ not in self.types:
            return False
        if y not in self.flags:
            new = z3.Bool("raise size is %r" % (y,))
            ip.assume(And([Not(And(new, f)) for f in self.flags.values()]))
            self.flags[y] = new
        return self.flags[y]

    def is_a(self, t):
        return t in self.types

    def float_of(self, ip, g):
        ip.do_raise(And(g, Not(Or(list(self.flags.values())))), "ValueError")
        return merge_alts([(f, float(y)) for y, f in self.flags.items() if number(y)] + [(True, 0.0)])

    def truth_of(self):
        raise Unsupported("truth of an unknown value")

    def __repr__(self):
        return "<other value>"


def number(y):
    try:
        float(y)
        return True
    except ValueError:
        return False


OTHER = []


class Values(object):
    """values of one option: value(i) for seat or street i"""

    def __init__(self, ip, name):
        self.ip, self.name = ip, name
        self.I = z3.Function(name + "_value", z3.IntSort(), z3.IntSort())
        self.K = z3.Function(name + "_kind", z3.IntSort(), z3.IntSort())

    def at(self, i):
        i = lift(to_int(i))
        v, k = self.I(i), self.K(i)
        if self.name == "raise_sizes":
            alts = [(k == 0, v), (k == 1, "pot"), (k == 2, "inf"), (k == 3, INF)]
            alts += [(k == 4 + j, o) for j, o in enumerate(OTHER[:-1])]
            rest = Or(k < 0, k >= 3 + len(OTHER))
            return U(alts + [(rest, OTHER[-1])])
        if self.name == "num_raises":
            self.ip.assume(v >= 0)
            return U([(k == 0, v), (k == 1, "inf"), (k != 0, INF) if False else (And(k != 0, k != 1), INF)])
        return v

    def bad(self, i):
        if self.name != "raise_sizes":
            return False
        k = self.K(lift(i))
        return Or(k < 0, k > 3)

    def is_(self, i, got):
        """the value the table uses is the given one"""
        ip = self.ip
        i = lift(i)
        v, k = self.I(i), self.K(i)
        if self.name == "raise_sizes":
            return Ite(k == 0, num_is(ip, got, v), Ite(k == 1, is_one(ip, got, "pot"), is_one(ip, got, INF)))
        if self.name == "num_raises":
            return Ite(k == 0, num_is(ip, got, v), is_one(ip, got, INF))
        return num_is(ip, got, v)


def alts(v):
    return v.alts if isinstance(v, U) else [(True, v)]


def num_is(ip, got, v):
    out = []
    for g, x in alts(got):
        if is_int(x) or (isinstance(x, float) and x not in (INF, -INF) and x == x and x == int(x)):
            out.append(And(g, lift(to_int(x)) == v))
    return Or(out)


def is_one(ip, got, c):
    return Or([g for g, x in alts(got) if conc(x) and type(x) is type(c) and x == c])


def entry(ip, v, i, g=True):
    return bi.getitem(ip, v, i, g)


def make(program, n, forms, viewer=False):
    """viewer: only what the built-in table display is given (C21)"""
    ip = Interp(program)
    OTHER[:] = [Other("str"), Other("float"), Other()]
    mod = ip.module(ENGINE)
    cls = mod.attrs.get("Dealer")
    if not isinstance(cls, Cls):
        raise Unsupported("class Dealer not found")
    cls.members.pop("viewer", None)
    vc = Task("vc")
    vc.ip = ip
    t = Task("Dealer(...) with %d players, %s" % (n, " ".join(
        "%s:%s" % (o, "list" if f == "l" else "value") for o, f in zip(OPTIONS, forms))))
    ns = z3.Int("num_streets")
    ip.assume(ns >= 1)
    names = ("num_suits", "num_ranks", "num_hole_cards", "num_cards_for_hand",
             "mandatory_num_hole_cards", "start_stack")
    v = {x: z3.Int(x) for x in names}
    low, order = z3.Bool("low_end_straight"), Other()
    kw = dict(v, num_players=n, num_streets=ns, low_end_straight=low, order=order)
    vals, given, length = {}, {}, {}
    for o, f in zip(OPTIONS, forms):
        V = vals[o] = Values(ip, o)
        if f == "s":
            given[o] = V.at(0)
        else:
            length[o] = z3.Int(o + "_length")
            ip.assume(length[o] >= 0)
            given[o] = Fn(length[o], V.at, tag=o)
        kw[o] = given[o]
    made = {}

    def opaque(name, check):
        def contract(ip, c, args, kwargs, g):
            if g is not True or name in made:
                raise Unsupported("construction of %s" % name)
            o = PyObj(c)
            f = Frame(None, g)
            ip.bind_args(c.lookup("__init__"), f, [o] + list(args), kwargs, g)
            made[name] = (o, dict(f.env))
            check(o, dict(f.env))
            return o
        ip.contracts[(name, "__new__")] = contract
    okr, oks = And(v["num_ranks"] >= 1, v["num_ranks"] <= 13), And(v["num_suits"] >= 1, v["num_suits"] <= 4)
    okk = And(v["num_cards_for_hand"] >= 1, v["num_cards_for_hand"] <= 5)

    def deck(o, e):
        s, r = lift(to_int(e["num_suits"])), lift(to_int(e["num_ranks"]))
        ip.do_raise(Not(And(r >= 1, r <= 13)), "InvalidRankError")
        ip.do_raise(And(r >= 1, r <= 13, Not(And(s >= 1, s <= 4))), "InvalidSuitError")
        o.attrs["cards"] = SeqRef([Slice("deck", z3.IntVal(0), s * r)])

    def evaluator(o, e):
        k = lift(to_int(e["cards_for_hand"]))
        ip.do_raise(Not(And(k >= 1, k <= 5)), "InvalidHandSizeError")
    opaque("Deck", deck)
    opaque("Evaluator", evaluator)
    opaque("ASCIIViewer", lambda o, e: None)
    sums = []

    def fn_sum(f):
        sums.append((f, ip.fresh("total")))
        return sums[-1][1]
    ip.hooks["fn_sum"] = fn_sum

    k0 = len(ip.assumptions)
    d = ip.construct(cls, [], kw, True)
    # which configurations are refused
    st = z3.Int("seat_or_street")
    wrong = Or([length[o] != (n if o in SEATS else ns) for o in length])
    badsize = Not(And(okr, oks))
    V = vals["raise_sizes"]
    if "raise_sizes" in length:
        badrs = And(st >= 0, st < length["raise_sizes"], V.bad(st))
    else:
        badrs = And(st >= 0, st < ns, V.bad(0))
    conds = {"InvalidConfigError": wrong, "InvalidHandSizeError": Not(okk),
             "InvalidRankError": Not(okr), "InvalidSuitError": Not(oks)}
    refused = []
    inst = []
    earlier = []
    for g, e, na in ip.raises:
        gs, js = at_street(g, st)
        inst.append(gs)
        if js:
            refused.append(gs)
        else:
            refused.append(g)
        if e == "InvalidRaiseSizeError":
            f = V.bad(0) if "raise_sizes" not in length else V.bad(st) if js else None
            if f is None:
                raise Unsupported("raise size error without a street")
            t.obs.append(("C18: InvalidRaiseSizeError only for unknown raise sizes",
                          Implies(And(gs, Not(Or(earlier))), f), "post", na))
        elif e in KNOWN:
            t.obs.append(("C18: %s only for its reason" % e,
                          Implies(And(gs, Not(Or(earlier))), conds[e]), "post", na))
        else:
            t.obs.append(("no %s is raised" % e, Implies(gs, Or(earlier)), "safety", na))
        earlier = earlier + [gs]
    k = len(ip.assumptions)
    bad = Or(refused)
    t.obs.append(("C18: lists of the wrong length are rejected", Implies(wrong, bad), "post", k))
    t.obs.append(("C18: unknown raise sizes are rejected", Implies(badrs, bad), "post", k))
    t.obs.append(("C18: wrong hand sizes are rejected", Implies(Not(okk), bad), "post", k))
    t.obs.append(("C18: wrong decks are rejected", Implies(badsize, bad), "post", k))
    # what an accepted configuration means
    good = Not(bad)
    a = d.attrs
    i = z3.Int("street")
    for o in OPTIONS:
        w = a.get(o)
        w = w.alts if isinstance(w, U) else [(True, w)]
        m = n if o in SEATS else ns
        fl, fv = [], []
        for g, x in w:
            h = And(good, g)
            fl.append(Implies(h, lift(to_int(bi.b_len(ip, [x], {}, True))) == m))
            if o in SEATS:
                fv += [Implies(h, vals[o].is_(q if o in length else 0, entry(ip, x, q, h))) for q in range(n)]
            else:
                ok = And(h, i >= 0, i < ns)
                got = entry(ip, x, i, ok)
                q = vals[o].is_(i if o in length else 0, got)
                if o == "raise_sizes":
                    # no value at this street is an unknown one
                    q = Implies(Not(vals[o].bad(i if o in length else 0)), q)
                fv.append(Implies(ok, q))
        t.obs.append(("C18: %s: one value for every %s" % (o, "seat" if o in SEATS else "street"),
                      And(fl), "post", k))
        t.obs.append(("C18: %s: a single value for all, a list as given" % o, And(fv), "post", k))
    ints = lambda x: [to_int(y) for y in bi.unguarded(ip, a.get(x), True)]
    stacks = ints("stacks")
    pool = [("all stacks are the starting stack", And(len(stacks) == n, And(
        [lift(y) == v["start_stack"] for y in stacks]))),
        ("no player to act", lift(to_int(a.get("action"))) == -1),
        ("no chips in the pot", lift(to_int(a.get("pot"))) == 0),
        ("nobody is in a hand", And([Not(ip.truth(y)) for y in bi.unguarded(ip, a.get("active"), True)]))]
    for x in ("num_hole_cards", "num_cards_for_hand", "mandatory_num_hole_cards"):
        if x in a:
            pool.append(("%s as given" % x, lift(to_int(a[x])) == v[x]))
    pool += [("%s as given" % x, lift(to_int(a.get(x))) == w) for x, w in (
        ("num_players", n), ("num_streets", ns))]
    for name, f in pool:
        t.obs.append(("C18: new table: " + name, Implies(good, f), "post" if "given" not in name else "lemma", k))
    use = []
    if "Deck" not in made or "Evaluator" not in made:
        raise Unsupported("deck or evaluator is not constructed")
    e = made["Deck"][1]
    use += [lift(to_int(e[x])) == v[x] for x in ("num_suits", "num_ranks")]
    t.obs.append(("C18: the deck has the given shape", Implies(good, And(use)), "lemma", k))
    e = made["Evaluator"][1]
    ok = [lift(to_int(e["suits"])) == v["num_suits"], lift(to_int(e["ranks"])) == v["num_ranks"],
          lift(to_int(e["cards_for_hand"])) == v["num_cards_for_hand"],
          lift(to_int(e["mandatory_hole_cards"])) == v["mandatory_num_hole_cards"],
          e["low_end_straight"] is low, e["order"] is order]
    t.obs.append(("C18: the evaluator has the given parameters", Implies(good, And(ok)), "lemma", k))
    t.obs.append(("C18: the table uses its deck and evaluator",
                  a.get("deck") is made["Deck"][0] and a.get("evaluator") is made["Evaluator"][0], "inv", k))
    if viewer:
        t.obs = []
        if "ASCIIViewer" not in made or a.get("ascii_viewer") is not made["ASCIIViewer"][0]:
            raise Unsupported("built-in table display is not constructed")
        e = made["ASCIIViewer"][1]
        name = "C21: the built-in table display has the numbers of the table"
        cc = e.get("num_community_cards")
        given = vals["num_community_cards"]
        hit = [lift(to_int(cc)) == given.I(z3.IntVal(0)) * ns] if "num_community_cards" not in length else []
        for f, x in sums:
            ok = And(good, i >= 0, i < ns)
            same_ = And(lift(f.length) == ns, Implies(ok, num_is(
                ip, f.get(i), given.I(i if "num_community_cards" in length else z3.IntVal(0)))))
            hit.append(And(lift(to_int(cc)) == x, same_))
        t.obs.append((name, Implies(good, And(
            lift(to_int(e.get("num_players"))) == n, lift(to_int(e.get("num_hole_cards"))) == v["num_hole_cards"],
            Or(hit))), "lemma", len(ip.assumptions)))
    for o in ip.obligations:
        t.obs.append((o.name, Implies(good, o.formula), o.kind, o.nassume))
    t.pre, t.vc = ip.assumptions, vc
    t.pre0 = k0
    t.replay = replay(n, forms, vals, length, ns, v)
    if viewer:
        old = t.replay
        t.replay = lambda m: dealt(old(m))
    return t


def dealt(script):
    """a hand with this configuration whose table is looked at"""
    kw = dict(script["args"][0])
    cc = kw["num_community_cards"]
    kw["num_community_cards"] = [min(3, max(0, x)) for x in cc] if isinstance(cc, list) else min(3, max(0, cc))
    kw.update(num_suits=4, num_ranks=13, num_hole_cards=2, num_cards_for_hand=3, mandatory_num_hole_cards=0,
              start_stack=max(20, kw["start_stack"]), raise_sizes=None, num_raises=3, blinds=1, antes=0)
    if isinstance(kw["num_community_cards"], list):
        kw["num_streets"] = len(kw["num_community_cards"])
    return {"module": "render", "case": "dealt", "args": [kw, 5, [2, 4, 0, 2, 2, 2, 0, 1000, 1000, 1000, 0, 0, 0]]}


def at_street(g, st):
    """the condition of a raise inside a comprehension, at street st"""
    js = set()

    def walk(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("j!"):
            js.add(e)
        for c in e.children():
            walk(c)
    if sym(g):
        walk(g)
    if len(js) > 1:
        raise Unsupported("nested comprehension")
    for j in js:
        return z3.substitute(g, (j, st)), True
    return g, False


def replay(n, forms, vals, length, ns, v):
    def f(m):
        from .dealer import mval

        S = max(1, min(6, mval(m, ns)))
        kw = {"num_players": n, "num_streets": S}
        want = {"blinds": n, "antes": n}
        wrong = False
        badrs = False

        def value(o, i):
            for x in OTHER:
                for y, fl in x.flags.items():
                    if o == "raise_sizes" and mval(m, vals[o].K(z3.IntVal(i))) == 4 and mval(m, fl) is True:
                        return y
            x, k = mval(m, vals[o].I(z3.IntVal(i))), mval(m, vals[o].K(z3.IntVal(i)))
            if o == "raise_sizes":
                return {0: x, 1: "pot", 2: "inf", 3: {"float": "inf"}, 4: "Pot", 5: 1.5}.get(k)
            if o == "num_raises":
                return {0: x, 1: "inf"}.get(k, {"float": "inf"})
            return x % 3 if o == "num_community_cards" else x
        for o, fm in zip(OPTIONS, forms):
            if fm == "s":
                kw[o] = value(o, 0)
            else:
                w = want.get(o, S)
                L = mval(m, length[o])
                real = n if o in want else mval(m, ns)
                L = w if L == real else min(max(L, 0), 12)
                if L != real and L == w:
                    L = w + 1
                wrong = wrong or L != w
                kw[o] = [value(o, i) for i in range(L)]
            if o == "raise_sizes":
                xs = kw[o] if fm == "l" else [kw[o]]
                badrs = any(not (isinstance(x, int) or isinstance(x, dict) or x in ("pot", "inf")) for x in xs)
        kw["num_cards_for_hand"] = mval(m, v["num_cards_for_hand"])
        kw["num_suits"], kw["num_ranks"] = mval(m, v["num_suits"]), mval(m, v["num_ranks"])
        kw["start_stack"] = mval(m, v["start_stack"])
        kw["num_hole_cards"] = 1
        kw["mandatory_num_hole_cards"] = 0
        names = []
        if wrong:
            names.append("InvalidConfigError")
        if badrs:
            names.append("InvalidRaiseSizeError")
        if not 1 <= kw["num_cards_for_hand"] <= 5:
            names.append("InvalidHandSizeError")
        if not 1 <= kw["num_ranks"] <= 13:
            names.append("InvalidRankError")
        if not 1 <= kw["num_suits"] <= 4:
            names.append("InvalidSuitError")
        if names:
            return {"case": "refused", "args": [kw, names]}
        return {"case": "valid", "args": [kw]}
    return f

