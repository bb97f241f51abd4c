"""Verification conditions of the table (Dealer), generated from /repo."""
import ast
import z3

from .values import *
from .interp import *
from . import builtins as bi
from specs import table as spec
from specs.ops import *

INF = float("inf")
ENGINE = "clubs/poker/engine.py"


class SymCfg(object):
    """symbolic configuration: everything the constructor accepts (integers)"""

    def __init__(self, ip, n, ns=None):
        self.ip, self.n = ip, n
        self.ns = z3.Int("num_streets") if ns is None else ns
        self.blinds = [z3.Int("blind%d" % i) for i in range(n)]
        self.antes = [z3.Int("ante%d" % i) for i in range(n)]
        self.bb = self.blinds[1]
        self.start = z3.Int("start_stack")
        self.nh = z3.Int("num_hole_cards")
        self.L = z3.Int("deck_size")
        self.K = z3.Function("raise_kind", z3.IntSort(), z3.IntSort())
        self.R = z3.Function("raise_size", z3.IntSort(), z3.IntSort())
        self.NI = z3.Function("num_raises_inf", z3.IntSort(), z3.BoolSort())
        self.NK = z3.Function("num_raises", z3.IntSort(), z3.IntSort())
        self.N = z3.Function("num_community", z3.IntSort(), z3.IntSort())
        self.CC = z3.Function("community_upto", z3.IntSort(), z3.IntSort())
        self.pre = []
        if ns is None:
            self.pre.append(("at least one street", self.ns >= 1))
        self.pre += [("forced bets not negative",
                      And([b >= 0 for b in self.blinds] + [a >= 0 for a in self.antes])),
                     ("start stack not negative", self.start >= 0),
                     ("hole cards not negative", self.nh >= 0)]
        self.inst = set()
        self.enough = And(self.CC(self.ns - 1) + n * self.nh <= self.L)
        self.pre.append(("deck not empty", self.L >= 1))
        self.pre.append(("community cards not negative",
                         And(self.CC(self.ns - 1) >= self.CC(0), self.CC(0) >= 0)))

    # specification view
    def rs(self, s):
        s = lift(s)
        self.ip.assume(self.R(s) >= 0)
        return self.K(s) == 0, self.R(s), self.K(s) == 1

    def nr(self, s):
        s = lift(s)
        self.ip.assume(self.NK(s) >= 0)
        return self.NI(s), self.NK(s)

    def cc(self, s):
        s = lift(s) if not sym(s) else s
        self.prefix(s)
        return self.CC(s)

    def prefix(self, s):
        """instance of the prefix sum facts (trusted: induction on streets)"""
        key = s.sexpr() if sym(s) else str(s)
        if key in self.inst:
            return
        self.inst.add(key)
        CC, N = self.CC, self.N
        ok = And(s >= 0, s < self.ns)
        self.ip.assume(Implies(ok, And(
            N(s) >= 0, CC(s) == Ite(s == 0, N(s), CC(s - 1) + N(s)),
            CC(s) >= CC(0), CC(0) >= 0, CC(s) <= CC(self.ns - 1),
            Implies(s > 0, And(CC(s - 1) >= CC(0), CC(s - 1) <= CC(s))))))

    def seq_eq(self, a, b):
        if isinstance(a, U):
            return Or([And(g, self.seq_eq(x, b)) for g, x in a.alts])
        if isinstance(b, U):
            return self.seq_eq(b, a)
        if a is b:
            return True
        return bi.seq_equal(as_seq(a), as_seq(b))

    def seq_len(self, a):
        if isinstance(a, U):
            return to_int(merge_alts([(g, self.seq_len(x)) for g, x in a.alts]))
        return as_seq(a).length()

    def cat(self, a, b):
        return SeqRef(a.parts + b.parts)

    def base(self, lo, hi):
        return SeqRef([Slice("deck", lift(lo), lift(hi))])

    def hist_grown(self, h0, h1):
        if not isinstance(h1, PyList) or len(h1.items) != len(h0) + 1:
            return False, None
        if any(x is not y for x, y in zip(h0, h1.items)):
            return False, None
        g = True
        if h1.guards is not None:
            g = And(h1.guards)
        e = h1.items[-1]
        if isinstance(e, U):
            e = merge_alts(e.alts)
        if not isinstance(e, tuple) or len(e) != 3:
            return False, None
        return g, (to_int(e[0]), to_int(e[1]), self.ip.truth(e[2]))

    def hist_same(self, h0, h1):
        return isinstance(h1, PyList) and len(h1.items) == len(h0) and all(
            x is y for x, y in zip(h0, h1.items))

    def hist_empty(self, h):
        return isinstance(h, PyList) and len(h.items) == 0

    # code view
    def attrs(self):
        ip = self.ip

        def rs(i):
            i = lift(to_int(i))
            k, r, p = self.rs(i)
            return U([(k, r), (p, "pot"), (And(Not(k), Not(p)), INF)])

        def nr(i):
            i = lift(to_int(i))
            f, k = self.nr(i)
            return U([(f, INF), (Not(f), k)])

        def cc(i):
            i = lift(to_int(i))
            self.prefix(i)
            ip.assume(self.N(i) >= 0)
            return self.N(i)

        ns = self.ns
        return {
            "num_players": self.n, "num_streets": ns,
            "blinds": PyList(self.blinds), "antes": PyList(self.antes),
            "big_blind": self.bb, "raise_sizes": SymArr("raise_sizes", ns, rs),
            "num_raises": SymArr("num_raises", ns, nr),
            "num_hole_cards": self.nh,
            "num_community_cards": SymArr(
                "num_community_cards", ns, cc, total=lambda: self.CC(ns - 1)),
            "start_stack": self.start,
        }


def as_seq(v):
    if isinstance(v, SeqRef):
        return v
    if isinstance(v, PyList):
        return SeqRef(bi.parts_of(v))
    raise Unsupported("card list expected, got %r" % (v,))


def as_list(ip, v, n):
    """n values of a list attribute after execution"""
    if isinstance(v, U):
        rows = [(g, as_list(ip, x, n)) for g, x in v.alts]
        return [merge_alts([(g, r[i]) for g, r in rows]) for i in range(n)]
    if isinstance(v, PyList) and v.guards is None and len(v.items) == n:
        return list(v.items)
    if isinstance(v, tuple) and len(v) == n:
        return list(v)
    raise Unsupported("list of %d expected, got %r" % (n, v))


class LenMismatch(Exception):
    pass


class DealerVC(object):
    """one symbolic table with n players"""

    def __init__(self, program, n, ns=None, use_contracts=True, strengths=False):
        self.ip = ip = Interp(program)
        self.n = n
        self.mod = ip.module(ENGINE)
        self.cls = self.mod.attrs.get("Dealer")
        if not isinstance(self.cls, Cls):
            raise Unsupported("class Dealer not found")
        self.c = SymCfg(ip, n, ns)
        self.eval_guards = []
        self.round_guards = []
        self.strengths = {}
        self.use_contracts = use_contracts
        self.results = None
        self.install_contracts()
        self.cls.members.pop("viewer", None)

    # ---------------------------------------------------------- contracts
    def install_contracts(self):
        ip = self.ip

        def draw(ip, f, args, kw, g):
            o = args[0]
            k = args[1] if len(args) > 1 else kw.get("n", 1)
            k = to_int(k)
            s = o.attrs["cards"]
            if not isinstance(s, SeqRef):
                raise Unsupported("deck")
            ip.require("draw: number of cards not negative", g, k >= 0, "pre")
            n = s.length()
            m = clip(k, n)
            out = bi.seq_slice(ip, s, 0, m)
            rest = bi.seq_slice(ip, s, m, n)
            o.attrs["cards"] = SeqRef(bi.merge_parts(g, rest.parts, s.parts))
            return out

        def clip(k, n):
            return simp(Ite(lift(k) <= n, lift(k), lift(n)))

        def shuffle(ip, f, args, kw, g):
            o = args[0]
            if g is not True:
                raise Unsupported("shuffle under guard")
            o.attrs["cards"] = SeqRef([Slice("deck", z3.IntVal(0), self.c.L)])
            return o

        def evaluate(ip, f, args, kw, g):
            hole, comm = args[1], args[2]
            self.eval_guards.append(g)
            key = (repr(hole), repr(comm))
            if isinstance(hole, SeqRef) and hole.tag is not None:
                key = (hole.tag, repr(comm))
            if key not in self.strengths:
                e = z3.Int("strength_%d" % len(self.strengths))
                self.strengths[key] = e
                ip.assume(And(e >= 0, e <= self.maxrank))
            return self.strengths[key]

        ip.contracts[("Deck", "draw")] = draw
        ip.contracts[("Deck", "shuffle")] = shuffle
        ip.contracts[("Evaluator", "evaluate")] = evaluate
        if self.use_contracts:
            ip.contracts[("Dealer", "_eval_round")] = self.eval_round_contract
            f = self.cls.lookup("step")
        self.maxrank = z3.Int("max_rank")

    def eval_round_contract(self, ip, f, args, kw, g):
        """contract of Dealer._eval_round, verified against its body by
        pyvc.showdown"""
        o = args[0]
        if len(args) != 1 or kw:
            return NotImplemented
        n = self.n
        pc = [to_int(x) for x in as_list(ip, o.attrs["pot_commits"], n)]
        act = [ip.truth(x) for x in as_list(ip, o.attrs["active"], n)]
        ip.require("_eval_round: chips put in not negative", g, And([p >= 0 for p in pc]), "pre")
        ip.require("_eval_round: at least two players", g, Count(act) >= 2, "pre")
        pot = to_int(o.attrs["pot"])
        ip.require("_eval_round: pot complete or already paid out", g,
                   Or(pot == Sum(pc), pot == 0), "pre")
        ip.require("_eval_round: pot of players in the hand", g, Implies(
            Or([And(Not(act[i]), pc[i] > 0) for i in range(n)]),
            Or([And(act[i], pc[i] > 0) for i in range(n)])), "pre")
        if self.results is None:
            self.results = [z3.Int("share%d" % i) for i in range(n)]
        R = self.results
        ip.assume(Implies(g, And(
            [Eq(Sum(R), Sum(pc))] + [R[i] >= 0 for i in range(n)]
            + [Implies(Not(act[i]), R[i] == 0) for i in range(n)])))
        self.eval_guards.append(g)
        self.round_guards.append(g)
        return PyList(R)

    # -------------------------------------------------------------- state
    def state(self, action, pfx="s"):
        """symbolic table; action concrete or -1"""
        n, ip = self.n, self.ip
        I = lambda k: [z3.Int("%s_%s%d" % (pfx, k, i)) for i in range(n)]
        B = lambda k: [z3.Bool("%s_%s%d" % (pfx, k, i)) for i in range(n)]
        S = spec.State(
            n=n, action=action, active=B("active"), button=z3.Int(pfx + "_button"),
            pot=z3.Int(pfx + "_pot"), pc=I("pc"), st=I("st"), street=z3.Int(pfx + "_street"),
            sc=I("sc"), opt=B("opt"), sraises=z3.Int(pfx + "_sraises"),
            lraise=z3.Int(pfx + "_lraise"))
        if action >= 0:
            S.active[action] = True
        c = self.c
        p = z3.Int(pfx + "_deckpos")
        bounds = [z3.Int(pfx + "_cut%d" % i) for i in range(n + 1)]
        self.card_pre = [And(
            bounds[0] >= 0, p >= bounds[n], p <= c.L,
            And([bounds[i] <= bounds[i + 1] for i in range(n)]))]
        self.deckpos, self.bounds = p, bounds
        street = S.street
        self.card_pre.append(Implies(c.enough, And(
            [bounds[i] == c.cc(0) + i * c.nh for i in range(n + 1)]
            + [p == bounds[n] + c.cc(Min(street, c.ns - 1) if action < 0 else street) - c.cc(0)])))
        S.comm = SeqRef([Slice("deck", z3.IntVal(0), bounds[0]), Slice("deck", bounds[n], p)])
        S.hole = [SeqRef([Slice("deck", bounds[i], bounds[i + 1])], tag="hole%d" % i) for i in range(n)]
        S.deck = SeqRef([Slice("deck", p, c.L)])
        self.prefix = HistPrefix()
        S.hist = [self.prefix]
        return S

    def build(self, S):
        """the Dealer object in state S"""
        ip, n, c = self.ip, self.n, self.c
        deckcls = ip.module("clubs/poker/card.py").attrs["Deck"]
        evcls = ip.module("clubs/poker/evaluator.py").attrs["Evaluator"]
        tab = PyObj(None, {"max_rank": self.maxrank})
        ip.assume(self.maxrank >= 0)
        a = c.attrs()
        b = S.button
        a.update({
            "action": S.action, "active": PyList(S.active),
            "button": U([(b == k, k) for k in range(n)]) if sym(b) else b,
            "community_cards": SeqRef(S.comm.parts), "deck": PyObj(deckcls, {"cards": SeqRef(S.deck.parts)}),
            "evaluator": PyObj(evcls, {"table": tab}),
            "history": PyList(S.hist), "hole_cards": PyList([SeqRef(h.parts, tag=h.tag) for h in S.hole]),
            "largest_raise": S.lraise, "pot": S.pot, "pot_commits": PyList(S.pc),
            "stacks": PyList(S.st), "street": S.street, "street_commits": PyList(S.sc),
            "street_option": PyList(S.opt), "street_raises": S.sraises,
            "viewer": None,
        })
        self.obj = PyObj(self.cls, a)
        self.attrs0 = dict(a)
        return self.obj

    def read(self):
        """state after execution"""
        ip, n, a = self.ip, self.n, self.obj.attrs
        act = a["action"]
        T = spec.State(n=n)
        T.action = to_int(act)
        T.active = [ip.truth(x) for x in as_list(ip, a["active"], n)]
        T.button = to_int(a["button"])
        T.pot = to_int(a["pot"])
        ints = lambda k: [to_int(x) for x in as_list(ip, a[k], n)]
        T.pc, T.st, T.sc = ints("pot_commits"), ints("stacks"), ints("street_commits")
        T.street = to_int(a["street"])
        T.opt = [ip.truth(x) for x in as_list(ip, a["street_option"], n)]
        T.sraises, T.lraise = to_int(a["street_raises"]), to_int(a["largest_raise"])
        T.hist = a["history"]
        T.comm = a["community_cards"]
        T.hole = as_list(ip, a["hole_cards"], n)
        T.deck = a["deck"].attrs["cards"]
        if isinstance(T.comm, PyList):
            T.comm = as_seq(T.comm)
        return T

    def unknown_attrs(self):
        return [k for k in self.obj.attrs if k not in self.attrs0]

    def obs(self, o):
        ip, n = self.ip, self.n
        if isinstance(o, U):
            rows = [(g, self.obs(x)) for g, x in o.alts]
            out = {}
            for k in rows[0][1]:
                if isinstance(rows[0][1][k], list):
                    m = len(rows[0][1][k])
                    if any(len(r[k]) != m for _, r in rows):
                        raise Unsupported("observation")
                    out[k] = [merge_alts([(g, r[k][i]) for g, r in rows]) for i in range(m)]
                else:
                    out[k] = merge_alts([(g, r[k]) for g, r in rows])
            return out
        if not isinstance(o, PyDict):
            raise Unsupported("observation is not a dict")
        d = o.d
        out = {}
        for k in ("action", "button", "call", "max_raise", "min_raise", "pot"):
            out[k] = to_int(d[k])
        out["active"] = [ip.truth(x) for x in as_list(ip, d["active"], n)]
        out["stacks"] = [to_int(x) for x in as_list(ip, d["stacks"], n)]
        out["street_commits"] = [to_int(x) for x in as_list(ip, d["street_commits"], n)]
        out["community_cards"] = d["community_cards"]
        out["hole_cards"] = d["hole_cards"]
        return out

    # --------------------------------------------------- the street loop
    def street_loop(self, ip, st, fr, g, it):
        """contract of the loop that deals the remaining streets: any loop
        that advances self.street"""
        if not advances_street(st):
            return NotImplemented
        if not isinstance(st, ast.While):
            return NotImplemented
        o, c = self.obj, self.c
        ag = ip.abs(fr, g)
        a = o.attrs
        s0 = to_int(a["street"])
        comm, cards = a["community_cards"], a["deck"].attrs["cards"]
        if not isinstance(comm, SeqRef) or not isinstance(cards, SeqRef):
            raise Unsupported("cards at the street loop")
        if len(cards.parts) != 1:
            raise Unsupported("deck at the street loop")
        p0 = cards.parts[0].lo
        L = cards.parts[0].hi
        comm0 = list(comm.parts)
        if not comm0 or not same(comm0[-1].hi, p0):
            comm0 = comm0 + [Slice("deck", p0, p0)]
        active = [ip.truth(x) for x in as_list(ip, a["active"], self.n)]
        stacks = [to_int(x) for x in as_list(ip, a["stacks"], self.n)]
        q = Count(And(x, y > 0) for x, y in zip(active, stacks)) <= 1
        before = {k: snap(v) for k, v in a.items()}
        env0 = dict(fr.env)

        def inv(street, p):
            return And(street >= s0, street < c.ns, Or(street == s0, q), p >= p0, p <= L,
                       Implies(c.enough, p == p0 + c.cc(street) - c.cc(s0)))

        # holds on entry
        ip.require("street loop: invariant holds on entry", ag, inv(s0, p0), "loop")
        # arbitrary iteration
        s1, p1 = z3.Int("loop_street"), z3.Int("loop_deckpos")
        ip.assume(Implies(ag, inv(s1, p1)))
        a["street"] = merge(ag, s1, s0)

        def place(p):
            cards.parts = bi.merge_parts(ag, [Slice("deck", p, L)], [Slice("deck", p0, L)])
            comm.parts = bi.merge_parts(
                ag, comm0[:-1] + [Slice(comm0[-1].base, comm0[-1].lo, p)], comm0)

        place(p1)
        lp = Loop()
        fr.loops.append(lp)
        cond = ip.truth(ip.ev(st.test, fr, g))
        body = And(g, cond)
        leave = And(g, Not(cond))
        live = Or(ip.exec_block(st.body, fr, body), lp.cont)
        fr.loops.pop()
        out = Or(leave, lp.brk)
        # frame: nothing but street and cards changed
        for k, v in a.items():
            if k in ("street", "community_cards", "deck"):
                continue
            if k not in before or not same_snap(before[k], v):
                raise Unsupported("street loop changes %s" % k)
        a["community_cards"] = cc2 = one_seq(a["community_cards"])
        a["deck"].attrs["cards"] = dd2 = one_seq(a["deck"].attrs["cards"])
        s2 = to_int(a["street"])
        back = ip.abs(fr, live) if live is not False else False
        if back is not False:
            if not (isinstance(dd2, SeqRef) and len(dd2.parts) == 1 and isinstance(cc2, SeqRef)):
                raise Unsupported("cards in the street loop")
            p2 = dd2.parts[0].lo
            ip.require("street loop: invariant is kept", back, inv(s2, p2), "loop")
            ip.require("street loop: cards are appended in order", back, And(
                self.c.seq_eq(cc2, SeqRef(comm0[:-1] + [Slice("deck", comm0[-1].lo, p2)]))), "loop")
            ip.require("street loop: terminates", back, And(c.ns - s2 < c.ns - s1, c.ns - s2 >= 0), "loop")
        # the last iteration leaves the loop
        ip.assume(Implies(ag, ip.abs(fr, out)))
        return g

    def use_street_loop(self):
        for name, f in self.cls.members.items():
            if isinstance(f, Func):
                self.ip.loop_contracts[("Dealer", f.node.name)] = self.street_loop


def advances_street(st):
    for x in ast.walk(st):
        if isinstance(x, (ast.AugAssign, ast.Assign)):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr == "street":
                    return True
    return False


def one_seq(v):
    """one sequence for alternatives (lists that replace each other)"""
    if not isinstance(v, U) or not all(isinstance(x, SeqRef) for _, x in v.alts):
        return v
    parts = v.alts[-1][1].parts
    for g, x in reversed(v.alts[:-1]):
        parts = bi.merge_parts(g, x.parts, parts)
    return SeqRef(parts)


def snap(v):
    if isinstance(v, PyList):
        return (v, list(v.items), None if v.guards is None else list(v.guards))
    if isinstance(v, SeqRef):
        return (v, list(v.parts))
    return v


def same_snap(s, v):
    if isinstance(s, tuple) and s and isinstance(s[0], PyList):
        return v is s[0] and len(v.items) == len(s[1]) and all(
            x is y for x, y in zip(v.items, s[1])) and v.guards == s[2]
    if isinstance(s, tuple) and s and isinstance(s[0], SeqRef):
        return v is s[0] and len(v.parts) == len(s[1]) and all(x is y for x, y in zip(v.parts, s[1]))
    return s is v


# ------------------------------------------------------------------ tasks
class Task(object):
    """a set of named obligations under common assumptions"""

    def __init__(self, name):
        self.name = name
        self.pre = []
        self.obs = []  # (name, formula, kind)
        self.info = {}
        self.vc = None


def run_step(program, n, a, props, ns=None, use_contracts=True):
    """obligations of step(bet) for player a of n to act"""
    vc = DealerVC(program, n, ns=ns, use_contracts=use_contracts)
    if ns is None:
        vc.use_street_loop()
    ip, c = vc.ip, vc.c
    S = vc.state(a)
    bet = z3.Int("bet")
    pre = [f for _, f in c.pre] + [f for _, f in spec.invariant(c, S)] + vc.card_pre
    for q in pre:
        ip.assume(q)
    obj = vc.build(S)
    f = vc.cls.lookup("step")
    res = ip.call_func(f, [obj, bet], {}, True)
    T = vc.read()
    if isinstance(res, U):
        res = merge_alts(res.alts)
    if not isinstance(res, tuple) or len(res) != 3:
        raise Unsupported("result of step")
    obs = vc.obs(res[0])
    payouts = [to_int(x) for x in as_list(ip, res[1], n)]
    done = [ip.truth(x) for x in as_list(ip, res[2], n)]
    t = Task("step n=%d player=%d" % (n, a))
    t.vc = vc
    x = spec.Step(c, S, bet, T, obs, payouts, done, evaluated=Or(vc.eval_guards))
    t.S, t.T, t.bet, t.x = S, T, bet, x
    clauses = []
    for p in props:
        if p == "C09":
            if vc.results is not None:
                sd = And(x.alldone, spec.nactive(x.M) >= 2)
                clauses.append(("C09: shares of the showdown are paid", Implies(
                    sd, And([Eq(payouts[i] + T.pc[i], vc.results[i]) for i in range(n)])), "post"))
                clauses.append(("C09: the showdown compares final cards", Implies(
                    sd, Or(vc.round_guards)), "post"))
        elif p == "C19":
            R = vc.results if vc.results is not None else [z3.Int("share%d" % i) for i in range(n)]
            fin = final_payouts(n, T.pc, T.active, R)
            clauses += [("C19: hand ends: " + k, Implies(x.alldone, v), "post")
                        for k, v in ended_invariant(c, T)]
            clauses.append(("C19: hand ends with its final payouts", Implies(
                x.alldone, And([Eq(payouts[i], fin[i]) for i in range(n)])), "post"))
        elif p in spec.STEP:
            clauses += [(k, v, "post") for k, v in spec.STEP[p](x)]
    # ghost and invariant: needed by the proofs of later steps
    run = Not(x.alldone)
    clauses += [(k, Implies(run, v), "inv") for k, v in spec.ghost_raises(x)]
    clauses += [("invariant kept: " + k, Implies(run, v), "inv") for k, v in spec.invariant(c, T)]
    raises(t, ip)
    finish(t, ip, clauses, vc)
    t.replay = step_replay(vc, S, bet)
    from .sample import step_sampler
    t.sampler = step_sampler(t, vc, S, bet, T, x, obs, payouts, done)
    return t


def unk(vc):
    return vc.unknown_attrs()


def raises(t, ip, expected=()):
    for g, e, k in ip.raises:
        if e not in expected:
            t.obs.append(("no %s is raised" % e, Not(g), "safety", k))


def finish(t, ip, clauses, vc):
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, o.kind, o.nassume))
    k = len(ip.assumptions)
    for name, cl, kind in clauses:
        t.obs.append((name, cl, kind, k))
    t.pre = ip.assumptions
    t.vc = vc


def reset_cases(n, rb, rs):
    """complete case split for reset: (button, first seats in the hand)"""
    out = []
    for b in ([None] if rb else range(n)):
        nb = 0 if rb else (b + 1) % n
        if rs:
            out.append((b, None))
            continue
        if n <= 3:
            out += [(b, None), (b, "few")]
            continue
        for k in range(1, n):
            out.append((b, (nb + k) % n))
        out.append((b, "few"))
    return out


def run_reset(program, n, rb, rs, props, case=(None, None)):
    """obligations of reset(rb, rs) on any table between two hands"""
    vc = DealerVC(program, n)
    ip, c = vc.ip, vc.c
    ip.narrow_fd = True
    S = vc.state(-1)
    b, f = case
    split = []
    if b is not None:
        S.button = b
    if f == "few":
        split.append(Count(x > 0 for x in S.st) < 2)
    elif f is not None:
        k = (0 if rb else (b + 1) % n)
        while True:
            k = (k + 1) % n
            if k == f:
                split.append(S.st[k] > 0)
                break
            S.st[k] = 0
    S.action = z3.Int("s_action")
    pre = [f for _, f in c.pre]
    pre += [And([x >= 0 for x in S.st]), And(S.button >= 0, S.button < n), c.ns >= 1]
    pre += vc.card_pre + split
    if rs:
        pre.append(c.start >= 1)
    for q in pre:
        ip.assume(q)
    obj = vc.build(S)
    k0 = len(ip.assumptions)
    fn = vc.cls.lookup("reset")
    names = [x.arg for x in fn.node.args.args]
    if names[:3] != ["self", "reset_button", "reset_stacks"]:
        raise Unsupported("signature of reset")
    ip.check_dead = f == "few"
    try:
        res = ip.call_func(fn, [obj, rb, rs], {}, True)
    except PathEnd:
        res = None
    t = Task("reset n=%d reset_button=%s reset_stacks=%s button=%s first=%s" % (n, rb, rs, b, f))
    few = And(not rs, Count(x > 0 for x in S.st) < 2)
    ERR = "TooFewActivePlayersError"
    refused = Or([g for g, e, _ in ip.raises if e == ERR])
    raises(t, ip, (ERR,))
    if "C10" in props:
        t.obs.append(("C10: refuses to start exactly with fewer than two players with chips",
                      Iff(refused, few), "post", k0))
    else:
        t.obs.append(("starts with two players with chips", Implies(Not(few), Not(refused)), "inv", k0))
    if f == "few":
        if "C10" in props:
            if res is None:
                T, same = vc.read(), spec.same_table
                t.obs += [(a, z, "post", k0) for a, z in same(c, S, T)]
        t.pre, t.vc = ip.assumptions, vc
        t.empty_ok = True
        t.replay = reset_replay(vc, S, rb, rs)
        return t
    ip.assume(Not(few))
    T = vc.read()
    obs = vc.obs(res)
    x = spec.Reset(c, S, rb, rs, T, obs)
    cl = []
    for p in props:
        if p in spec.RESET:
            cl += [(a, b, "post") for a, b in spec.RESET[p](x)]
    cl += [(a, b, "inv") for a, b in spec.reset_ghost(x)]
    cl += [(a, b, "inv") for a, b in spec.reset_C06(x)] if "C06" not in props else []
    cl += [("invariant established: " + a, b, "inv") for a, b in spec.invariant(c, T)]
    cl.append(("invariant established: button value", And(T.button >= 0, T.button < n), "inv"))
    finish(t, ip, cl, vc)
    t.S, t.T, t.x = S, T, x
    t.replay = reset_replay(vc, S, rb, rs)
    from .sample import reset_sampler
    t.sampler = reset_sampler(t, vc, S, T, obs)
    return t


# ----------------------------------------------------- replay of counter-models
def mval(m, v):
    if isinstance(v, bool) or isinstance(v, int):
        return v
    r = m.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    return z3.is_true(r)


def native_config(m, c, street, n):
    """a configuration the real Dealer accepts with the values of the model;
    far away streets are left out"""
    ns = mval(m, c.ns)
    lo = min(street, 2)  # streets kept before the current one
    hi = min(max(ns - street, 1), 4)
    idx = [street - lo + k for k in range(lo + hi)]

    def rs(i):
        if mval(m, c.K(z3.IntVal(i)) == 0):
            return mval(m, c.R(z3.IntVal(i)))
        return "pot" if mval(m, c.K(z3.IntVal(i)) == 1) else {"float": "inf"}

    def nr(i):
        return {"float": "inf"} if mval(m, c.NI(z3.IntVal(i))) else mval(m, c.NK(z3.IntVal(i)))

    cc = [mval(m, c.N(z3.IntVal(i))) for i in idx]
    cc = [min(max(x, 0), 4) for x in cc]
    while sum(cc) + n > 52:
        cc[cc.index(max(cc))] -= 1
    kw = dict(
        num_players=n, num_streets=len(idx), blinds=[mval(m, x) for x in c.blinds],
        antes=[mval(m, x) for x in c.antes], raise_sizes=[rs(i) for i in idx],
        num_raises=[max(0, x) if isinstance(x, int) else x for x in [nr(i) for i in idx]],
        num_suits=4, num_ranks=13, num_hole_cards=1, num_community_cards=cc,
        num_cards_for_hand=1, mandatory_num_hole_cards=0, start_stack=mval(m, c.start))
    kw["raise_sizes"] = [max(0, x) if isinstance(x, int) else x for x in kw["raise_sizes"]]
    return kw, lo


def step_replay(vc, S, bet, strengths=None):
    def f(m):
        kw, street = native_config(m, vc.c, mval(m, S.street), vc.n)
        st = dict(
            action=mval(m, S.action), active=[bool(mval(m, x)) for x in S.active],
            button=mval(m, S.button), pot=mval(m, S.pot), pc=[mval(m, x) for x in S.pc],
            st=[mval(m, x) for x in S.st], street=street, sc=[mval(m, x) for x in S.sc],
            opt=[bool(mval(m, x)) for x in S.opt], sraises=mval(m, S.sraises),
            lraise=mval(m, S.lraise),
            strength=None if strengths is None else [mval(m, x) for x in strengths])
        return {"config": kw, "ops": [["inject", st], ["step", mval(m, bet)]]}
    return f


def reset_replay(vc, S, rb, rs):
    def f(m):
        kw, _ = native_config(m, vc.c, 0, vc.n)
        return {"config": kw, "ops": [["stacks", [mval(m, x) for x in S.st]],
                                      ["button", mval(m, S.button)], ["reset", rb, rs]]}
    return f


# ------------------------------------------------------------ ended hands
def final_payouts(n, pc, active, R):
    """what the hand paid: R are the shares of a showdown"""
    one = Eq(Count(active), 1)
    return [Ite(one, Ite(active[i], Sum(pc) - pc[i], -pc[i]), R[i] - pc[i]) for i in range(n)]


def ended_invariant(c, S):
    R = range(S.n)
    return [
        ("nobody to act", Eq(S.action, -1)),
        ("pot is empty", Eq(S.pot, 0)),
        ("one player left or last street played",
         Or(Eq(Count(S.active), 1), And(Count(S.active) >= 2, S.street >= c.ns))),
        ("chips put in not negative", And([S.pc[i] >= 0 for i in R])),
        ("chips of players in the hand", Implies(
            Or([And(Not(S.active[i]), S.pc[i] > 0) for i in R]),
            Or([And(S.active[i], S.pc[i] > 0) for i in R]))),
    ]


def run_ended(program, n, what):
    """step() outside a running hand"""
    vc = DealerVC(program, n)
    vc.use_street_loop()
    ip, c = vc.ip, vc.c
    t = Task("step n=%d %s" % (n, what))
    S = vc.state(-1)
    pre = [f for _, f in c.pre] + [c.ns >= 1] + vc.card_pre
    if what == "before first reset":
        S.active = [False] * n
    else:
        pre += [f for _, f in ended_invariant(c, S)]
        pre += [S.street >= 0, And([x >= 0 for x in S.st]), And(S.button >= 0, S.button < n)]
    for q in pre:
        ip.assume(q)
    bet = z3.Int("bet")
    obj = vc.build(S)
    res = ip.call_func(vc.cls.lookup("step"), [obj, bet], {}, True)
    if what == "before first reset":
        ERR = "TableResetError"
        t.obs.append(("C19: step before first reset is refused with TableResetError",
                      Or([g for g, e, _ in ip.raises if e == ERR]), "post", len(pre)))
        raises(t, ip, (ERR,))
        t.pre, t.vc, t.empty_ok = ip.assumptions, vc, True
        return t
    T = vc.read()
    if not isinstance(res, tuple) or len(res) != 3:
        raise Unsupported("result of step")
    x = spec.Step.__new__(spec.Step)
    x.c, x.S, x.T, x.n = c, S, T, n
    x.obs = vc.obs(res[0])
    x.payouts = [to_int(v) for v in as_list(ip, res[1], n)]
    x.done = [ip.truth(v) for v in as_list(ip, res[2], n)]
    R = vc.results if vc.results is not None else [z3.Int("share%d" % i) for i in range(n)]
    x.payouts0 = final_payouts(n, S.pc, S.active, R)
    cl = [(k, v, "post") for k, v in spec.ended_C19(x)]
    raises(t, ip)
    finish(t, ip, cl, vc)
    t.replay = None
    return t
