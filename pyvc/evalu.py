"""Evaluator and LookupTable: contracts of clubs/poker/evaluator.py (C14-C16).

("evalu", "tables", s, r, k, low)  contracts of the counting functions,
      _flushes and _multiples for one deck shape (the shapes are finitely
      many): every hand the deck can produce is in the table that lookup uses
      for it, as an offset to the first rank of its class, the offset being
      the number of better hands of the class
("evalu", "order", how)            LookupTable.__init__, _get_rank and
      Evaluator.get_rank_class for any counts and any class order
("evalu", "reject")                orders that are no permutations
("evalu", "init")                  Evaluator.__init__ for any arguments
("evalu", "lookup", k)             LookupTable.lookup for any k different cards
("evalu", "evaluate", k, m)        Evaluator.evaluate for any hole and
      community cards, m mandatory hole cards
"""
import ast
import itertools

import z3

from .values import *
from .interp import *
from . import builtins as bi
from .dealer import Task, raises
from .cards import PRIMES
from specs import poker as P
from specs.ops import *

EVAL = "clubs/poker/evaluator.py"
COUNTS = ["_straight_flush", "_four_of_a_kind", "_full_house", "_flush", "_straight",
          "_three_of_a_kind", "_two_pair", "_pair", "_high_card"]


class VC(object):
    def __init__(self, program):
        self.ip = Interp(program)
        self.mod = self.ip.module(EVAL)
        for n in ("Evaluator", "LookupTable"):
            if not isinstance(self.mod.attrs.get(n), Cls):
                raise Unsupported("class %s not found" % n)
        self.Evaluator, self.Table = self.mod.attrs["Evaluator"], self.mod.attrs["LookupTable"]

    def need(self, cls, *names):
        for n in names:
            if not isinstance(cls.lookup(n), Func):
                raise Unsupported("no method %s" % n)


def finish(t, vc, clauses, public=()):
    """clauses about private helpers are lemmas: they are reported only if the
    real code fails too"""
    ip = vc.ip
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, o.kind, o.nassume))
    k = len(ip.assumptions)
    for name, f in clauses:
        kind = "inv" if name[0] != "C" else "post" if any(p in name for p in public) else "lemma"
        t.obs.append((name, f, kind, k))
    t.pre, t.vc = ip.assumptions, vc


SHAPES = [(4, 13, 5), (3, 13, 5), (2, 13, 5), (1, 13, 5), (4, 13, 4), (4, 13, 3), (3, 6, 3),
          (4, 4, 5), (2, 3, 2), (4, 13, 1), (2, 5, 4), (4, 5, 5), (4, 6, 5), (1, 4, 3)]


def shape_scripts(order):
    """a replay that tries another shape and another order each time"""
    import random
    rng = random.Random(5)
    n = [0]

    def replay(m):
        s, r, k = SHAPES[n[0] % len(SHAPES)]
        n[0] += 1
        o = None
        if order:
            o = list(P.CODES)
            rng.shuffle(o)
        return {"case": "shape", "args": [s, r, k, True, o, n[0], False, ["C14", "C16"]]}
    return replay


def make(program, what, *args):
    return globals()["do_" + what](program, *args)


# --------------------------------------------------------------- tables
def prime_key(ranks):
    p = 1
    for x in ranks:
        p *= PRIMES[x]
    return p


def isolate(vc, name):
    """the function may use the shape and the counts only: everything else in
    the table is hidden from it"""
    vc.need(vc.Table, name)

    def contract(ip, f, args, kw, g):
        self = args[0]
        attrs = dict(self.attrs)
        hd = attrs.get("hand_dict")
        if not isinstance(hd, PyDict):
            raise Unsupported("hand_dict")
        view = PyDict({c: PyDict({k: v for k, v in e.d.items() if k in ("suited", "unsuited")})
                       for c, e in hd.d.items()})
        before = {c: dict(e.d) for c, e in view.d.items()}
        self.attrs = {"hand_dict": view}
        r = ip.inline(f, args, kw, g)
        if set(self.attrs) != {"hand_dict"} or self.attrs["hand_dict"] is not view or \
                {c: dict(e.d) for c, e in view.d.items()} != before:
            raise Unsupported("%s changes the table" % name)
        self.attrs = attrs
        return r
    vc.ip.contracts[("LookupTable", name)] = contract


def do_tables(program, s, r, k, low):
    vc = VC(program)
    ip = vc.ip
    vc.need(vc.Table, "_get_rank", "_flushes", "_multiples")
    ip.contracts[("LookupTable", "_get_rank")] = lambda ip, f, a, kw, g: Off(a[1], 0)
    isolate(vc, "_flushes")
    isolate(vc, "_multiples")
    e = ip.construct(vc.Evaluator, [s, r, k], {"low_end_straight": low}, True)
    t = e.attrs.get("table")
    if not isinstance(t, PyObj):
        raise Unsupported("table")
    hd = t.attrs["hand_dict"]
    tabs = {True: t.attrs["suited_lookup"], False: t.attrs["unsuited_lookup"]}
    for x in tabs.values():
        if not isinstance(x, PyDict) or x.maybe:
            raise Unsupported("lookup table")
    hands = P.shape_hands(s, r, k, low)
    keys = {}
    for ranks, suited, cls, key, _ in hands:
        keys.setdefault(cls, set()).add(key)
    idx = {c: {key: i for i, key in enumerate(sorted(v, reverse=True))} for c, v in keys.items()}
    cl = []
    per = {}
    for ranks, suited, cls, key, _ in hands:
        v = tabs[suited].d.get(prime_key(ranks))
        ok = isinstance(v, Off) and v.base == cls and v.k == idx[cls][key]
        per[cls] = per.get(cls, True) and ok
    for c in P.NAMES:
        entry = hd.d.get(c)
        u = entry.d.get("unsuited") if isinstance(entry, PyDict) else None
        su = entry.d.get("suited") if isinstance(entry, PyDict) else None
        cl.append(("counts: number of different hands: %s" % c,
                   u == len(keys.get(c, ())) and isinstance(u, int)))
        cl.append(("counts: impossible exactly if the count is zero: %s" % c,
                   isinstance(su, int) and (su > 0) == (c in keys)))
        if c in per:
            cl.append(("C14: every hand has its place in its class: %s" % c, per[c]))
    freq = P.frequencies(hands)
    cnt = {c: hd.d[c].d["suited"] for c in freq}
    good = lambda f: all(f[a] <= f[b] for a in f for b in f if cnt[a] <= cnt[b])
    rare = good(freq)
    if s == 3 and k >= 4 and not rare:
        # recorded finding: three of a kind counted with comb(suits, 3) per kicker
        f2 = dict(freq)
        f2["three of a kind"] = r * P.ncr(r - 1, k - 3)
        rare = good(f2)
    cl.append(("C16: counts order the classes from rarest to most frequent", rare))
    task = Task("tables of %d suits, %d ranks, %d cards, low straight %s" % (s, r, k, low))
    raises(task, ip)
    for n, g, kk in [(e_, g_, k_) for g_, e_, k_ in ip.raises]:
        cl.append(("C16: working table (no %s)" % n, Not(g)))
    finish(task, vc, cl)
    task.replay = lambda m: {"case": "shape", "args": [s, r, k, low, None, 1,
                                                       P.ncr(s * r, k) <= 300000, ["C14", "C16"]]}
    return task


# ---------------------------------------------------------------- order
class Per(object):
    """value that belongs to the class in place q of the order: vals[i] if it
    is class number i"""

    def __init__(self, vc, q, vals):
        self.vc, self.q, self.vals = vc, q, tuple(vals)

    def __repr__(self):
        return "<of the class in place %d: %s ...>" % (self.q, self.vals[0])

    def key_of(self, d, g, ip):
        if d.maybe or any(v not in d.d for v in self.vals):
            raise Unsupported("table of classes")
        return per(self.vc, self.q, [d.d[v] for v in self.vals])

    def index_of(self, o, g, ip):
        items = list(o) if isinstance(o, tuple) else o.items
        if isinstance(o, PyList) and o.guards is not None:
            raise Unsupported("list of classes")
        if not all(isinstance(v, int) and 0 <= v < len(items) for v in self.vals):
            raise Unsupported("index of a class")
        return per(self.vc, self.q, [items[v] for v in self.vals])

    def index_in(self, o, g, ip):
        if o.guards is not None or not all(conc(x) for x in o.items) or any(
                v not in o.items for v in self.vals):
            raise Unsupported("index of a class")
        return per(self.vc, self.q, [o.items.index(v) for v in self.vals])

    def shown(self):
        if not all(isinstance(v, str) for v in self.vals):
            raise Unsupported("text of a value of a class")
        return self

    def same(self, o):
        return isinstance(o, Per) and o.q == self.q and o.vals == self.vals


class Stale(dict):
    """entry of a class, meanwhile used through its place in the order"""

    def __contains__(self, k):
        if not dict.__contains__(self, k):
            raise Unsupported("class entry by name")
        return True

    def __setitem__(self, k, v):
        raise Unsupported("class entry by name")


def per(vc, q, vals):
    """the value that belongs to the class in place q"""
    vals = list(vals)
    if all(isinstance(v, tuple) and len(v) == len(vals[0]) for v in vals):
        return tuple(per(vc, q, [v[j] for v in vals]) for j in range(len(vals[0])))
    if all(isinstance(v, PyDict) for v in vals):
        if len(set(map(id, vals))) != len(vals):
            raise Unsupported("shared entries")
        key = (q,) + tuple(id(v) for v in vals)
        if key not in vc.entries:
            ks = list(vals[0].d)
            if any(list(v.d) != ks or v.maybe for v in vals):
                raise Unsupported("entries of classes")
            vc.entries[key] = PyDict({k: per(vc, q, [dict.__getitem__(v.d, k) for v in vals]) for k in ks})
            vc.keep.append(vals)
        return vc.entries[key]
    if all(isinstance(v, z3.ExprRef) for v in vals):
        for kind, f in (("suited", vc.SQ), ("unsuited", vc.UQ)):
            if [v.decl().name() for v in vals] == [kind + n for n in COUNTS]:
                return f[q]
        raise Unsupported("numbers of classes")
    if all(conc(v) for v in vals):
        if len(set(vals)) == 1:
            return vals[0]
        return Per(vc, q, vals)
    raise Unsupported("values of classes")


def stale(vc):
    for vals in vc.keep:
        for v in vals:
            if not isinstance(v.d, Stale):
                v.d = Stale(v.d)


def sort_hook(vc):
    def hook(ip, arg, items, key, rev, g):
        if arg is vc.order and key is None and rev is False:
            return PyList(sorted(P.CODES))
        if any(isinstance(x, Per) for x in items):
            raise Unsupported("sorting classes")
        keys = [x if key is None else ip.call(key, [x], {}, g) for x in items]
        if all(conc(k) or (isinstance(k, tuple) and all(conc(y) for y in k)) for k in keys):
            return NotImplemented
        if rev not in (True, False) or g is not True or len(items) != 9 or vc.sorted:
            raise Unsupported("sort")
        vc.sorted = True
        out = [per(vc, q, items) for q in range(9)]
        kq = [per(vc, q, keys) for q in range(9)]
        kq = [k[0] if isinstance(k, tuple) else k for k in kq]
        for a, b in zip(kq, kq[1:]):
            if not (sym(a) and sym(b)):
                raise Unsupported("sort key")
            ip.assume(b <= a if rev else a <= b)
        return PyList(out)
    return hook


def symbolic_counts(vc):
    vc.need(vc.Table, *COUNTS)
    ip = vc.ip
    rel = lambda a, b: And(b >= 0, a >= b, Iff(a == 0, b == 0))
    for n in COUNTS:
        a, b = z3.Int("suited" + n), z3.Int("unsuited" + n)
        ip.assume(rel(a, b))
        ip.contracts[("LookupTable", n)] = lambda ip, f, args, kw, g, v=(a, b): v
    vc.SQ = [z3.Int("suited@%d" % q) for q in range(9)]
    vc.UQ = [z3.Int("unsuited@%d" % q) for q in range(9)]
    for a, b in zip(vc.SQ, vc.UQ):
        ip.assume(rel(a, b))
    vc.entries, vc.keep, vc.sorted, vc.order = {}, [], False, None


class Tab(object):
    """a lookup table given by its contract"""

    def __init__(self, name, empty):
        self.name, self.empty = name, empty

    def truth_of(self):
        return Not(self.empty)


def do_order(program, how, part=None):
    vc = VC(program)
    ip = vc.ip
    vc.need(vc.Table, "_get_rank", "_flushes", "_multiples")
    symbolic_counts(vc)
    empty = z3.Bool("no_suited_hands")
    S, N, N2 = Tab("suited", empty), Tab("unsuited0", z3.Bool("x0")), Tab("unsuited", z3.Bool("x1"))
    calls = []
    s, r, k = z3.Int("suits"), z3.Int("ranks"), z3.Int("cards_for_hand")
    low = z3.Bool("low_end_straight")

    def helper(name, arg, res):
        def contract(ip, f, args, kw, g):
            fr = Frame(f, g)
            ip.bind_args(f, fr, args, kw, g)
            v = list(fr.env.values())
            if g is not True or len(v) != 4 or v[1] is not r or v[2] is not k or v[3] is not arg:
                raise Unsupported("arguments of %s" % name)
            calls.append(name)
            return res
        ip.contracts[("LookupTable", name)] = contract
    helper("_flushes", low, (S, N))
    helper("_multiples", N, N2)
    if how == "custom":
        vc.order = PyList([Per(vc, q, P.CODES) for q in range(9)])
    ip.hooks["sorted"] = sort_hook(vc)
    t = ip.construct(vc.Table, [s, r, k], {"low_end_straight": low, "order": vc.order}, True)
    hd = t.attrs["hand_dict"]
    if calls != ["_flushes", "_multiples"] or not vc.keep:
        raise Unsupported("construction of the table")
    stale(vc)
    for c, n in zip(P.NAMES, COUNTS):
        for x in ("suited", "unsuited"):
            v = hd.d[c].d[x]
            if not sym(v) or v.decl().name() != x + n:
                raise Unsupported("counts of %s" % c)
    U_, S_ = vc.UQ, vc.SQ
    E = [per(vc, q, [hd.d[c] for c in P.NAMES]) for q in range(9)]
    for q in range(9):
        if E[q].d.get("unsuited") is not U_[q] or E[q].d.get("suited") is not S_[q]:
            raise Unsupported("counts change")
    cl = []
    sl, ul = t.attrs.get("suited_lookup"), t.attrs.get("unsuited_lookup")
    cl.append(("tables: unsuited hands are looked up in the unsuited table", ul is N2))
    is_ = lambda x: Or([h for h, v in (sl.alts if isinstance(sl, U) else [(True, sl)]) if v is x])
    cl.append(("tables: suited hands are looked up in the suited table if there is one",
               And(Implies(empty, is_(N2)), Implies(Not(empty), is_(S)))))
    maxr = lift(to_int(t.attrs["max_rank"]))
    f = vc.Table.lookup("_get_rank")
    name = [Per(vc, q, P.NAMES) for q in range(9)]
    base = [lift(to_int(ip.call_func(f, [t, name[q]], {}, U_[q] > 0))) for q in range(9)]
    cl.append(("C14: the best class starts at rank 0 or above",
               And([Implies(U_[q] > 0, base[q] >= 0) for q in range(9)])))
    cl.append(("C14: no rank above the worst rank",
               And([Implies(U_[q] > 0, base[q] + U_[q] - 1 <= maxr) for q in range(9)])))
    cl.append(("C14: the worst rank is not negative", maxr >= 0))
    for p in range(9):
        for q in range(p + 1, 9):
            both = And(U_[p] > 0, U_[q] > 0)
            cl.append(("C14: classes in places %d and %d have separate ranks" % (p + 1, q + 1),
                       Implies(both, Or(base[p] + U_[p] - 1 < base[q], base[q] + U_[q] - 1 < base[p]))))
            if how == "custom":
                cl.append(("C16: custom order is followed, places %d and %d" % (p + 1, q + 1),
                           Implies(both, base[p] < base[q])))
            else:
                cl.append(("C16: rarer classes are better, places %d and %d" % (p + 1, q + 1),
                           Implies(And(both, base[p] < base[q]), S_[p] <= S_[q])))
                cl.append(("C16: rarer classes are better, places %d and %d" % (q + 1, p + 1),
                           Implies(And(both, base[q] < base[p]), S_[q] <= S_[p])))
    e = PyObj(vc.Evaluator, {"table": t})
    x = z3.Int("hand_rank")
    n1 = len(ip.raises)
    ip.trying += 1
    res = ip.call_func(vc.Evaluator.lookup("get_rank_class"), [e, x], {}, True)
    ip.trying -= 1
    bad = Or([g for g, n, _ in ip.raises[n1:] if n == "InvalidHandRankError"])
    cl.append(("C16: exactly the ranks outside the valid range are rejected",
               Implies(Or([u > 0 for u in U_]), Iff(Or(x < 0, x > maxr), bad))))
    alts = res.alts if isinstance(res, U) else [(True, res)]
    if any(not isinstance(v, Per) and v is not None for _, v in alts):
        raise Unsupported("result of get_rank_class")
    for q in range(9):
        inside = And(U_[q] > 0, x >= base[q], x < base[q] + U_[q])
        cl.append(("C16: ranks map back to the class in place %d" % (q + 1), Implies(
            inside, And(Not(bad), Or([h for h, v in alts if name[q].same(v)])))))
    if part is not None:
        # the clauses of this part only
        cl = [c for j, c in enumerate(cl) if j % part[1] == part[0]]
        ip.obligations = ip.obligations if part[0] == 0 else []
    task = Task("class order: %s" % how)
    for j, (g, n, kk) in enumerate(ip.raises):
        if part is not None and part[0]:
            break
        if j < n1 and n == "InvalidOrderError":
            task.obs.append(("C16: every permutation is accepted", Not(g), "post", kk))
        elif not (j >= n1 and n == "InvalidHandRankError"):
            task.obs.append(("no %s is raised" % n, Not(g), "safety", kk))
    finish(task, vc, cl, ("outside the valid range",))
    task.replay = shape_scripts(how == "custom")
    return task


# --------------------------------------------------------------- reject
class Order(object):
    """the order argument: any list"""

    def __init__(self, notperm):
        self.notperm = notperm

    def sorted_of(self, ip, kw, g):
        if kw:
            raise Unsupported("sorted order")
        return SortedOrder(self.notperm)


class SortedOrder(object):
    def __init__(self, notperm):
        self.notperm = notperm

    def eq_to(self, ip, o):
        if isinstance(o, PyList) and o.guards is None and o.items == sorted(P.CODES):
            return Not(self.notperm)
        raise Unsupported("comparison of the sorted order")


def do_reject(program):
    vc = VC(program)
    ip = vc.ip
    symbolic_counts(vc)
    n = z3.Bool("not_a_permutation")
    ip.assume(n)
    k = len(ip.assumptions)
    ip.check_dead = True
    s, r, c = z3.Int("suits"), z3.Int("ranks"), z3.Int("cards_for_hand")
    try:
        ip.construct(vc.Table, [s, r, c], {"order": Order(n)}, True)
    except PathEnd:
        pass
    t = Task("order that is no permutation")
    t.obs.append(("C16: anything but a permutation of the class names is rejected",
                  Or([g for g, e, _ in ip.raises if e == "InvalidOrderError"]), "post", k))
    for g, e, _ in ip.raises:
        if e != "InvalidOrderError":
            t.obs.append(("no %s is raised" % e, Not(g), "safety", k))
    t.pre, t.vc = ip.assumptions[:k], vc
    t.replay = lambda m: {"case": "bad_order", "args": [4, 13, 5, P.CODES[:-1] + ["sf"]]}
    return t


# ----------------------------------------------------------------- init
def do_init(program):
    vc = VC(program)
    ip = vc.ip
    s, r, k, m = [z3.Int(x) for x in ("suits", "ranks", "cards_for_hand", "mandatory_hole_cards")]
    low = z3.Bool("low_end_straight")
    order = Order(z3.Bool("order"))
    made = []

    def new(ip, c, args, kw, g):
        o = PyObj(c)
        f = Frame(None, g)
        ip.bind_args(c.lookup("__init__"), f, [o] + list(args), kw, g)
        made.append((g, o, dict(f.env)))
        o.attrs = {"hand_dict": PyDict({}), "ranked_hands": PyList([]), "max_rank": z3.Int("max_rank")}
        return o
    ip.contracts[("LookupTable", "__new__")] = new
    e = ip.construct(vc.Evaluator, [s, r, k, m, low, order], {}, True)
    if len(made) != 1:
        raise Unsupported("construction of the table")
    g, o, a = made[0]
    names = [x.arg for x in vc.Table.lookup("__init__").node.args.args[1:]]
    if names != ["suits", "ranks", "cards_for_hand", "low_end_straight", "order"]:
        raise Unsupported("arguments of the table")
    t = Task("Evaluator(...)")
    cl = [("C14: table for the given %s" % n_, a[n_] is v) for n_, v in zip(names, (s, r, k, low, order))]
    cl.append(("C15: evaluator uses its own table", e.attrs.get("table") is o))
    for n_, v in (("cards_for_hand", k), ("mandatory_hole_cards", m)):
        cl.append(("C15: %s as given" % n_, e.attrs.get(n_) is v))
    bad = Or(k < 1, k > 5)
    n0 = 0
    rej = Or([h for h, n_, _ in ip.raises if n_ == "InvalidHandSizeError"])
    t.obs.append(("C18: hand sizes are accepted exactly from 1 to 5", Iff(bad, rej), "post", 0))
    for h, n_, kk in ip.raises:
        if n_ != "InvalidHandSizeError":
            t.obs.append(("no %s is raised" % n_, Not(h), "safety", kk))
    obs = list(t.obs)
    finish(t, vc, cl)
    t.replay = shape_scripts(True)
    return t


# --------------------------------------------------------------- lookup
def factor(n):
    """exponents of the thirteen primes, or None"""
    if not isinstance(n, int) or isinstance(n, bool) or n < 1:
        return None
    out = []
    for p in PRIMES:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        out.append(e)
    return out if n == 1 and max(out) <= 5 else None


class Prod(object):
    """product of powers of the thirteen primes"""

    def __init__(self, exps):
        self.exps = exps

    def arith(self, ip, op, a, b, g):
        if op != "Mult":
            raise Unsupported("operator %s on a prime product" % op)
        x, y = prod(a), prod(b)
        return Prod([simp(lift(p) + q) for p, q in zip(x.exps, y.exps)])


def prod(v):
    if isinstance(v, Prod):
        return v
    f = factor(v)
    if f is None:
        raise Unsupported("factor %r" % (v,))
    return Prod(f)


def merge_prods(alts):
    """products are merged exponent by exponent"""
    if not all(isinstance(v, Prod) or factor(v) is not None for _, v in alts):
        return None
    out = []
    vs = [(g, prod(v).exps) for g, v in alts]
    for i in range(13):
        r = vs[-1][1][i]
        for g, e in reversed(vs[:-1]):
            if not same(r, e[i]):
                r = Ite(g, e[i], r)
        out.append(r)
    return Prod(out)


class Bits(object):
    """integer given by its bits"""

    def __init__(self, bits):
        self.bits = bits

    def truth_of(self):
        return Or(self.bits)

    def getattr(self, ip, name):
        raise Unsupported("bits.%s" % name)

    def arith(self, ip, op, a, b, g):
        if op in ("LShift", "RShift"):
            if not isinstance(a, Bits) or not isinstance(b, int) or b < 0:
                raise Unsupported("shift")
            return Bits(([False] * b + a.bits) if op == "LShift" else a.bits[b:])
        x, y = bits(a), bits(b)
        n = max(len(x), len(y))
        x = x + [False] * (n - len(x))
        y = y + [False] * (n - len(y))
        if op == "BitAnd":
            return Bits([And(p, q) for p, q in zip(x, y)])
        if op == "BitOr":
            return Bits([Or(p, q) for p, q in zip(x, y)])
        raise Unsupported("operator %s on cards" % op)


def bits(v):
    if isinstance(v, CardV):
        return v.all_bits()
    if isinstance(v, Bits):
        return v.bits
    if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
        return [bool(v >> i & 1) for i in range(max(1, v.bit_length()))]
    raise Unsupported("bits of %r" % (v,))


class CardV(object):
    """a card of any rank and suit; its value has the layout proved by C13"""

    def __init__(self, rank, suit):
        self.rank, self.suit = rank, suit

    def all_bits(self):
        from .cards import value
        vals = [value(r, 0) - 4096 for r in range(13)]
        out = []
        for i in range(32):
            if 12 <= i < 16:
                out.append(self.suit == i - 12)
            else:
                on = [r for r in range(13) if vals[r] >> i & 1]
                out.append(Or([self.rank == r for r in on]))
        return out

    def getattr(self, ip, name):
        if name == "_int":
            return self
        raise Unsupported("card.%s" % name)

    def arith(self, ip, op, a, b, g):
        from .cards import value
        other = b if a is self else a
        if op in ("BitAnd", "RShift") and isinstance(other, int) and (op == "BitAnd" or a is self):
            f = (lambda v: v & other) if op == "BitAnd" else (lambda v: v >> other)
            where = {}
            for r in range(13):
                for s in range(4):
                    where.setdefault(f(value(r, s)), []).append((r, s))
            if len(where) <= 13:
                alts = []
                for v, ps in where.items():
                    R, S = sorted(set(p[0] for p in ps)), sorted(set(p[1] for p in ps))
                    if len(R) * len(S) != len(ps):
                        raise Unsupported("mask of a card")
                    alts.append((And(Or([self.rank == x for x in R]) if len(R) < 13 else True,
                                     Or([self.suit == x for x in S]) if len(S) < 4 else True), v))
                return merge_alts(alts)
        return Bits([]).arith(ip, op, Bits(bits(a)), b if op in ("LShift", "RShift") else Bits(bits(b)), g)


class FnTab(object):
    """lookup table given by its contract: a function of the exponents"""

    def __init__(self, name):
        self.f = z3.Function(name, *([z3.IntSort()] * 14))

    def getitem(self, ip, i, g):
        return self.f(*[lift(e) for e in prod(i).exps])

    def truth_of(self):
        raise Unsupported("truth of a lookup table")


def do_lookup(program, k):
    from . import values

    vc = VC(program)
    ip = vc.ip
    values.MERGE.append(merge_prods)
    try:
        cards = [CardV(z3.Int("rank%d" % i), z3.Int("suit%d" % i)) for i in range(k)]
        for i, c in enumerate(cards):
            ip.assume(And(c.rank >= 0, c.rank < 13, c.suit >= 0, c.suit < 4))
            for d in cards[:i]:
                ip.assume(Or(c.rank != d.rank, c.suit != d.suit))
        S, N = FnTab("suited_lookup"), FnTab("unsuited_lookup")
        t = PyObj(vc.Table, {"suited_lookup": S, "unsuited_lookup": N})
        arg = PyList(list(cards))
        res = ip.call_func(vc.Table.lookup("lookup"), [t, arg], {}, True)
        res = lift(to_int(res))
        if arg.guards is not None or len(arg.items) != k or any(x is not y for x, y in zip(arg.items, cards)):
            raise Unsupported("lookup changes the list of cards")
        if t.attrs.get("suited_lookup") is not S or t.attrs.get("unsuited_lookup") is not N or len(t.attrs) != 2:
            raise Unsupported("lookup changes the table")
        cnt = [lift(Sum([B2I(c.rank == i) for c in cards])) for i in range(13)]
        one = And([c.suit == cards[0].suit for c in cards[1:]])
        cl = [("C14: a hand of one suit has the rank of its ranks in the suited table",
               Implies(one, res == S.f(*cnt))),
              ("C14: any other hand has the rank of its ranks in the unsuited table",
               Implies(Not(one), res == N.f(*cnt)))]
        task = Task("lookup of %d cards" % k)
        raises(task, ip)
        finish(task, vc, cl)
    finally:
        values.MERGE.remove(merge_prods)
    task.replay = lambda m: {"case": "shape", "args": [4, 13, k, True, None, 1, True, ["C14"]]}
    return task


# ------------------------------------------------------------- evaluate
class Given(object):
    """a list of any number of given cards"""

    def __init__(self, desc):
        self.desc = desc

    def arith(self, ip, op, a, b, g):
        if op == "Add" and isinstance(a, Given) and isinstance(b, Given):
            return Given(a.desc + b.desc)
        raise Unsupported("operator on a list of cards")


class Member(object):
    """card number j of an arbitrary member of a family of hands"""

    def __init__(self, fam, j):
        self.fam, self.j = fam, j


def flat(desc):
    """families of hands up to the order of cards and lists"""
    if desc[0] == "comb":
        return [("comb", tuple(sorted(desc[1])), desc[2])] if desc[2] else []
    out = []
    for d in desc[1:]:
        out += flat(d)
    return sorted(out)


def do_evaluate(program, k, m):
    vc = VC(program)
    ip = vc.ip
    vc.need(vc.Table, "lookup")
    vc.need(vc.Evaluator, "evaluate")
    hole, comm = Given(("hole",)), Given(("comm",))
    score, maxr = z3.Int("score_of_a_hand"), z3.Int("max_rank")
    ip.assume(And(score >= 0, score <= maxr))
    seen = []
    folds = []

    def combs(ip, a, g):
        if not isinstance(a[0], Given):
            return NotImplemented
        if not isinstance(a[1], int):
            raise Unsupported("combinations")
        if a[1] < 0:
            ip.do_raise(g, "ValueError")
            return PyList([])
        d = ("comb", a[0].desc, a[1])
        return Family(d, tuple(Member(d, j) for j in range(a[1])))
    ip.hooks["combinations"] = combs

    def prods(ip, fams, g):
        return Family(("prod",) + tuple(f.desc for f in fams), tuple(f.item for f in fams))
    ip.hooks["product"] = prods

    def lookup(ip, f, args, kw, g):
        if kw or len(args) != 2 or args[0] is not table:
            raise Unsupported("call of lookup")
        c = args[1]
        items = list(c) if isinstance(c, tuple) else c.items if isinstance(c, PyList) and c.guards is None else None
        if items is None or not all(isinstance(x, Member) for x in items):
            raise Unsupported("hand that is looked up")
        got = {}
        for x in items:
            got.setdefault(x.fam, []).append(x.j)
        fams = sorted(("comb", tuple(sorted(d[1])), d[2]) for d in got)
        if any(sorted(v) != list(range(d[2])) for d, v in got.items()):
            raise Unsupported("part of a combination is looked up")
        seen.append(fams)
        return score
    ip.contracts[("LookupTable", "lookup")] = lookup
    table = PyObj(vc.Table, {"max_rank": maxr})
    e = PyObj(vc.Evaluator, {"table": table, "cards_for_hand": k, "mandatory_hole_cards": m})
    before = dict(e.attrs)

    def fold(init, fam):
        if not seen or seen[-1] != flat(fam.desc):
            raise Unsupported("the hands looked up are not the members of the family")
        r = z3.Int("minimum%d" % len(folds))
        folds.append((r, init, fam))
        ip.assume(And(r <= init, Or(r == init, r >= 0)))
        return r

    def loop(ip, st, fr, g, it):
        if not isinstance(it, Family) or not isinstance(st, ast.For) or g is not True:
            raise Unsupported("loop of evaluate")
        env = dict(fr.env)

        def body():
            lp = Loop()
            fr.loops.append(lp)
            ip.assign(st.target, it.item, fr, True)
            live = ip.exec_block(st.body, fr, True)
            fr.loops.pop()
            if Or(live, lp.cont) is not True or lp.brk is not False or st.orelse:
                raise Unsupported("loop of evaluate ends early")
        body()
        changed = [v for v in env if fr.env.get(v) is not env[v]]
        changed = [v for v in changed if v not in names_of(st.target)]
        if len(changed) != 1 or not is_int(env[changed[0]]):
            raise Unsupported("loop of evaluate: state %s" % changed)
        v = changed[0]
        fr.env.clear()
        fr.env.update(env)
        acc = z3.Int("minimum_so_far")
        ip.assume(And(acc >= 0, acc <= maxr))
        fr.env[v] = acc
        body()
        ip.require("evaluate loop: keeps the smaller of the minimum so far and the rank", True,
                   lift(to_int(fr.env[v])) == Ite(score < acc, score, acc), "loop")
        fr.env.clear()
        fr.env.update(env)
        fr.env[v] = fold(env[v], it)
        return g
    ip.loop_contracts[("Evaluator", "evaluate")] = loop
    ip.hooks["family_min"] = lambda fam, default: (
        fold(maxr if default is UNDEF else default, fam) if default is not UNDEF else _no_default())
    res = ip.call_func(vc.Evaluator.lookup("evaluate"), [e, hole, comm], {}, True)
    if any(e.attrs.get(a) is not v for a, v in before.items()) or len(table.attrs) != 1:
        raise Unsupported("evaluate changes the evaluator")
    legal = [("comb", ("comm", "hole"), k)] if m == 0 else sorted(
        [("comb", ("hole",), m)] + ([("comb", ("comm",), k - m)] if k > m else []))
    task = Task("evaluate with %d of %d hole cards mandatory" % (m, k))
    cl = []
    if len(folds) != 1:
        raise Unsupported("evaluate: number of loops")
    r, init, fam = folds[0]
    cl.append(("C15: best rank over exactly the legal hands", flat(fam.desc) == legal))
    cl.append(("C15: worst possible rank if there is no legal hand", lift(init) == maxr))
    cl.append(("C15: the result is the minimum", lift(to_int(res)) == r))
    raises(task, ip)
    finish(task, vc, cl, ("C15",))

    def replay(model):
        h = [[12, 0], [7, 1], [7, 2], [3, 3], [0, 0]]
        c = [[12, 1], [11, 0], [10, 0], [9, 0], [8, 0], [7, 0]]
        return {"case": "evaluate", "args": [4, 13, k, m, True, None, h, c]}
    task.replay = replay
    return task


def _no_default():
    raise Unsupported("minimum of possibly no hands")
