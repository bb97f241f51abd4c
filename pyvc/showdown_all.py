"""Dealer._eval_round for any number of players: loop contract of the loop
over the sorted hands.

("showdown", "all", n): the whole body for n players, everything symbolic (who
is in the hand, chips, hands, button).  Position q is the place in the sorted
list; the player there is p_q, with strength s_q and chips c_q.  Before
iteration k, with
  T_k    the largest commitment handled so far,
  D_k    the last pot was paid,
hands[q] is [p_q, s_q (worst if q < k), rem_k(q)], rem_k(q) = 0 if D_k else
max(c_q - T_k, 0); the player at q has been given PAY_k(q), the chips left over
are RM_k, and pot is what it was minus the chips taken.

("showdown", "perm", n, i): shares() of specs/table.py does not depend on the
seating: exchanging the neighbours i and i + 1 exchanges their shares.
"""
import ast
import z3

from .values import *
from .interp import *
from . import builtins as bi
from .dealer import DealerVC, Task, as_list, raises, native_config
from specs import table as spec
from specs.ops import *


def make(program, mode, *args):
    return {"all": do_all, "perm": do_perm}[mode](program, *args)


class Seats(PyList):
    """one entry per seat that can also be read and written by position: the
    seat term p_q stands for entry q"""

    def __init__(self, items, seats, places):
        PyList.__init__(self, items)
        self.seats, self.places = seats, list(places)
        self.dirty = False

    def place(self, i, g):
        while z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ITE and sym(g):
            # the value under this guard
            for side in (1, 2):
                o = z3.Solver()
                o.set("timeout", 2000)
                o.add(g, Not(i.arg(0)) if side == 1 else i.arg(0))
                if o.check() == z3.unsat:
                    i = i.arg(side)
                    break
            else:
                return None
        for q, s in enumerate(self.seats):
            if s.eq(i):
                return q
        return None

    def perm_get(self, i, g):
        q = self.place(i, g)
        return None if q is None else self.places[q]

    def perm_set(self, i, v, g):
        q = self.place(i, g)
        if q is None:
            raise Unsupported("store by seat")
        self.places[q] = merge(g, v, self.places[q])
        self.items = [bi.POISON] * len(self.items)


def amount_div(n, am, kk, spl, rmd):
    """spl, rmd are quotient and remainder of am by kk (1 .. n)"""
    return And([Implies(kk == m, And(rmd >= 0, rmd < m, am == m * spl + rmd)) for m in range(1, n + 1)])


def do_all(program, n):
    R = range(n)
    vc = DealerVC(program, n, use_contracts=False)
    ip, c = vc.ip, vc.c
    t = Task("showdown of %d players" % n)
    S = vc.state(0)
    S.active = [z3.Bool("active%d" % i) for i in R]
    worst = vc.maxrank + 1
    strength = [z3.Int("strength%d" % i) for i in R]
    pc, act = S.pc, S.active

    def evaluate(ip, f, args, kw, g):
        tag = getattr(args[1], "tag", None)
        if not (isinstance(tag, str) and tag.startswith("hole")):
            raise Unsupported("cards compared at showdown")
        return strength[int(tag[4:])]
    ip.contracts[("Evaluator", "evaluate")] = evaluate
    SEAT = [And([p >= 0 for p in pc]), And([And(e >= 0, e < worst) for e in strength]),
            Or(S.pot == Sum(pc), S.pot == 0), And(S.button >= 0, S.button < n), vc.maxrank >= 0,
            Implies(Or([And(Not(act[i]), pc[i] > 0) for i in R]), Or([And(act[i], pc[i] > 0) for i in R]))]
    worth = [Ite(act[i], strength[i], worst) for i in R]

    # positions
    V = lambda k: [z3.Int("%s_%d" % (k, q)) for q in R]
    p, s, ch = V("p"), V("s"), V("c")
    pact = [z3.Bool("in_%d" % q) for q in R]
    before = lambda q, r: Or(s[q] < s[r], And(s[q] == s[r], ch[q] <= ch[r]))
    # a permutation
    LINK = [And(p[q] >= 0, p[q] < n) for q in R] + [z3.Distinct(*p)] + [
        Or([p[q] == i for q in R]) for i in R] + [
        Implies(p[q] == i, And(s[q] == worth[i], ch[q] == pc[i], Iff(pact[q], act[i])))
        for q in R for i in R]
    SORTED = [before(q, q + 1) for q in range(n - 1)]
    transport = [And([x >= 0 for x in ch])] + [
        And(Iff(pact[q], s[q] < worst), Implies(Not(pact[q]), s[q] == worst), s[q] >= 0) for q in R] + [
        Implies(Or([And(Not(pact[q]), ch[q] > 0) for q in R]), Or([And(pact[q], ch[q] > 0) for q in R])),
        Or(S.pot == Sum(ch), S.pot == 0)]
    closure = [before(q, r) for q in R for r in range(q + 2, n)]
    POS = transport + SORTED + closure

    extra = []  # (name, formula, assumptions)

    def lemma(name, f, *assume):
        extra.append((name, f, [x for a in assume for x in (a if isinstance(a, (list, tuple)) else [a])]))

    for k, f in enumerate(transport[:-1]):
        lemma("showdown: sorting keeps the facts about the players (%d)" % k, f, LINK, SEAT)
    # sum over a permutation: sum of all entries of a matrix with one nonzero entry per row
    z = [[z3.Int("z_%d_%d" % (q, i)) for i in R] for q in R]
    lemma("showdown: sorting keeps the chips of one player",
          Sum([Ite(p[0] == i, ch[0], 0) for i in R]) == ch[0], And(p[0] >= 0, p[0] < n))
    for i in R:
        lemma("showdown: exactly one player sits at seat %d" % i,
              Sum([Ite(p[q] == i, ch[q], 0) for q in R]) == pc[i], LINK)
    lemma("showdown: sorting keeps the chips", Sum(ch) == Sum(pc),
          [Sum(z[q]) == ch[q] for q in R], [Sum([z[q][i] for q in R]) == pc[i] for i in R])
    lemma("showdown: order of the hands", And(closure), SORTED)

    for q in SEAT + POS:
        ip.assume(q)
    obj = vc.build(S)
    obj.attrs["active"] = Seats(act, p, pact)
    obj.attrs["pot_commits"] = Seats(pc, p, ch)

    def sort_hook(ip, l, items, key, rev, g):
        """contract of sorted: a permutation, ascending by the key"""
        if len(items) != n or not all(isinstance(y, PyList) and y.guards is None and len(y.items) == 3 for y in items):
            return NotImplemented
        if g is not True or rev is not False or key is None or st["sorted"]:
            raise Unsupported("sorting of the hands")
        for i, y in enumerate(items):
            if y.items[0] is not i and y.items[0] != i:
                raise Unsupported("hands to sort")
            ip.require("showdown: strengths of the hands to sort", True, to_int(y.items[1]) == worth[i], "loop")
            ip.require("showdown: chips of the hands to sort", True, to_int(y.items[2]) == pc[i], "loop")
            y.items[:] = [bi.POISON] * 3
        out = [PyList([p[q], s[q], ch[q]]) for q in R]
        ks = [ip.call(key, [y], {}, g) for y in out]
        for q in range(n - 1):
            # what the contract of sorted says implies what is assumed
            le = Not(bi.compare(ip, "Lt", ks[q + 1], ks[q], g))
            own.append(("showdown: hands are sorted by strength, then chips", Implies(le, SORTED[q]), [And(transport)]))
        st["sorted"] = out
        return PyList(out)
    ip.hooks["sorted"] = sort_hook
    st = {"sorted": None, "loop": None}
    own = []

    # quantities of the loop contract
    K = range(n + 1)
    T = [z3.Int("T_%d" % k) for k in K]
    D = [z3.Bool("D_%d" % k) for k in K]
    rem = [[z3.Int("rem_%d_%d" % (k, q)) for q in R] for k in K]
    PAY = [[z3.Int("pay_%d_%d" % (k, q)) for q in R] for k in K]
    POT = [z3.Int("pot_%d" % k) for k in K]
    RM = [z3.Int("over_%d" % k) for k in K]
    rep = [z3.Bool("pays_%d" % k) for k in R]
    last = [z3.Bool("last_%d" % k) for k in R]
    AM, KK, SPL, RMD = ([z3.Int("%s_%d" % (x, k)) for k in R] for x in ("amount", "winners", "share", "rest"))
    elig = lambda k, q: And(rep[k], s[q] == s[k]) if q >= k else False
    START = [T[0] == 0, Not(D[0]), RM[0] == 0, POT[0] == S.pot] + [x == 0 for x in PAY[0]]
    DEF = [[T[k] >= 0] + [T[k] >= ch[q] for q in range(k)] + [
        rem[k][q] == Ite(D[k], 0, Max(ch[q] - T[k], 0)) for q in R] for k in K]
    INV = [Or(D[k], And([x == 0 for x in ch]), Or([And(pact[q], ch[q] > T[k]) for q in R])) for k in K]
    STEP = [[T[k + 1] == Max(T[k], ch[k]), Iff(rep[k], And(Not(D[k]), ch[k] > T[k])),
             Iff(last[k], And([Implies(pact[q], ch[q] <= ch[k]) for q in R])),
             Iff(D[k + 1], Or(D[k], And(rep[k], last[k]))),
             AM[k] == Sum([rem[k][q] - rem[k + 1][q] for q in R]),
             KK[k] == Count(s[q] == s[k] for q in range(k, n)), KK[k] >= 1, KK[k] <= n - k,
             amount_div(n - k, AM[k], KK[k], SPL[k], RMD[k])] for k in R]
    NEXT = [[PAY[k + 1][q] == PAY[k][q] + Ite(elig(k, q), SPL[k], 0) for q in R] + [
        RM[k + 1] == RM[k] + Ite(rep[k], RMD[k], 0),
        POT[k + 1] == POT[k] - AM[k]] for k in R]

    def loop(ip, node, fr, g, it):
        hands = st["sorted"]
        if hands is None:
            return NotImplemented
        items = bi.iterate(ip, it, ip.abs(fr, g))
        rec = lambda y: y if isinstance(y, PyList) else (
            [x for x in y if isinstance(x, PyList)] + [None])[0] if isinstance(y, tuple) else None
        if len(items) != n or not all(rec(y) is hands[q] for q, (_, y) in enumerate(items)):
            return NotImplemented
        if st["loop"]:
            return NotImplemented
        if not isinstance(node, ast.For) or node.orelse or g is not True or ip.abs(fr, g) is not True:
            raise Unsupported("loop over the hands")
        st["loop"] = node
        env = dict(fr.env)
        written = {y.id for b in node.body for y in ast.walk(b) if isinstance(y, ast.Name)
                   and isinstance(y.ctx, ast.Store)} | set(names_of(node.target))
        shares = [v for v, y in env.items() if isinstance(y, PyList) and y.guards is None and len(y.items) == n
                  and all(type(e) is int and e == 0 for e in y.items)]
        pots = [v for v in written if v in env and env[v] is S.pot]
        overs = [v for v in written if v in env and type(env[v]) is int and env[v] == 0]
        if len(shares) != 1 or len(pots) != 1 or len(overs) != 1 or shares[0] in written:
            raise Unsupported("variables of the loop over the hands")
        lists = {v for v, y in env.items() if isinstance(y, PyList) and len(y.items) == n
                 and all(a is b for a, b in zip(y.items, hands))}
        if lists & written:
            raise Unsupported("loop assigns the hands")
        roles = set(shares) | set(pots) | set(overs) | lists
        kept = {v: y for v, y in env.items() if v not in roles and v not in written}
        snaps = {v: (y, list(y.items)) for v, y in kept.items() if isinstance(y, PyList)}
        attrs = dict(obj.attrs)
        asnap = {v: (y, list(y.items)) for v, y in attrs.items() if isinstance(y, PyList)}
        shared = env[shares[0]]
        for q in START:
            ip.assume(q)
        for k in R:
            pre = len(ip.assumptions)
            here = DEF[k] + [INV[k]] + STEP[k] + DEF[k + 1]
            for q in here:
                ip.assume(q)
            for q in R:
                hands[q].items[:] = [p[q], worst if q < k else s[q], rem[k][q]]
            fr.env.clear()
            fr.env.update(kept)
            fr.env.update({v: env[v] for v in lists})
            pay = fr.env[shares[0]] = Seats([bi.POISON] * n, p, PAY[k])
            fr.env[pots[0]], fr.env[overs[0]] = POT[k], RM[k]
            mark = len(ip.obligations), len(ip.raises)
            divided = {}

            def dividend(a, g):
                """a name for what is divided"""
                if not sym(a):
                    return a
                if a.get_id() not in divided:
                    divided[a.get_id()] = (ip.fresh("dividend"), a, [])
                v, _, gs = divided[a.get_id()]
                gs.append(g)
                return v
            ip.hooks["dividend"] = dividend
            lp = Loop()
            fr.loops.append(lp)
            ip.assign(node.target, items[k][1], fr, True)
            live = ip.exec_block(node.body, fr, True)
            fr.loops.pop()
            for v, y in kept.items():
                if fr.env.get(v) is not y or (v in snaps and (
                        len(y.items) != len(snaps[v][1]) or any(a is not b for a, b in zip(y.items, snaps[v][1])))):
                    raise Unsupported("loop over the hands changes %s" % v)
            if set(obj.attrs) != set(attrs) or any(obj.attrs[v] is not y for v, y in attrs.items()) or any(
                    len(y.items) != len(o) or any(a is not b for a, b in zip(y.items, o)) for y, o in asnap.values()):
                raise Unsupported("loop over the hands changes the table")
            if fr.env.get(shares[0]) is not pay:
                raise Unsupported("loop over the hands replaces the payouts")
            w = POS + here
            go = Or(live, lp.cont)
            name = "showdown, pot %d: " % (k + 1)
            del ip.hooks["dividend"]
            parts_ = []
            for v, a, gs in divided.values():
                f = Implies(Or(gs), v == AM[k])
                own.append((name + "what is divided is the side pot", f, w + [v == a]))
                own.append((name + "payment", And([Implies(x_, rep[k]) for x_ in gs]), w))
                parts_.append(f)
            w2 = w + parts_
            own.append((name + "every hand is looked at until the pot is empty", Or(go, lp.brk), w))
            for q in R:
                own.append((name + "share of the player at place %d" % q, lift(to_int(pay.places[q])) ==
                            PAY[k][q] + Ite(elig(k, q), SPL[k], 0), w2))
                y = hands[q].items
                ok = y[0] is p[q]
                own.append((name + "strength at place %d" % q, And(ok, Implies(go, lift(to_int(y[1])) == (
                    worst if q <= k else s[q]))), w))
                own.append((name + "chips left at place %d" % q, Implies(go, lift(to_int(y[2])) == rem[k + 1][q]), w))
            for m in range(1, n - k + 1):
                # these are all values of KK[k]
                own.append((name + "chips left over, %d winners" % m, lift(to_int(fr.env[overs[0]])) ==
                            RM[k] + Ite(rep[k], RMD[k], 0), w2 + [KK[k] == m] + [
                                s[q] == s[k] for q in range(k, k + m)] + [s[q] != s[k] for q in range(k + m, n)]))
            own.append((name + "chips in the pot", Implies(go, lift(to_int(fr.env[pots[0]])) == POT[k] - AM[k]), w))
            own.append((name + "stops only when all chips are paid", Implies(lp.brk, And([x == 0 for x in rem[k + 1]])),
                        w + [POT[k] == S.pot - Sum(ch) + Sum(rem[k])]))
            # the obligations raised inside keep this iteration's assumptions
            facts = list(ip.assumptions)
            for o in ip.obligations[mark[0]:]:
                own.append((o.name, o.formula, facts))
            for h, e in [(x[0], x[1]) for x in ip.raises[mark[1]:]]:
                own.append((name + "no %s" % (e,), Not(h), facts))
            del ip.obligations[mark[0]:]
            del ip.raises[mark[1]:]
            del ip.assumptions[pre:]
        for q in R:
            hands[q].items[:] = [bi.POISON] * 3
        fr.env.clear()
        fr.env.update(kept)
        fr.env[shares[0]] = PyList(Y)
        fr.env[overs[0]] = RM[n]
        for q in Y:
            ip.assume(q >= 0)
        ip.assume(RM[n] >= 0)
        return g

    Y = [z3.Int("received%d" % i) for i in R]
    ip.loop_contracts[("Dealer", "_eval_round")] = loop
    res = ip.call_func(vc.cls.lookup("_eval_round"), [obj], {}, True)
    if not st["loop"]:
        raise Unsupported("no loop over the sorted hands")
    got = [to_int(x) for x in as_list(ip, res, n)]

    # the loop contract is inductive
    lemma("showdown: the loop contract holds at the start", And(INV[0], And(
        [Implies(And(DEF[0]), POT[0] == S.pot - Sum(ch) + Sum(rem[0]))])), POS, START)
    for k in R:
        name = "showdown, pot %d: " % (k + 1)
        w = POS + DEF[k] + [INV[k]] + STEP[k] + DEF[k + 1]
        lemma(name + "largest commitment", And([T[k + 1] >= 0] + [T[k + 1] >= ch[q] for q in range(k + 1)]),
              POS, DEF[k], STEP[k][0])
        lemma(name + "the last pot is not missed", INV[k + 1], POS, DEF[k], INV[k], STEP[k][:4])
        lemma(name + "at least one and at most all remaining players have equal hands",
              And(Count(s[q] == s[k] for q in range(k, n)) >= 1, Count(s[q] == s[k] for q in range(k, n)) <= n - k))
        lemma(name + "nothing is paid from an empty pot", Implies(And([x == 0 for x in rem[k]]), And(
            Not(rep[k]), And([x == 0 for x in rem[k + 1]]), AM[k] == 0)), w)
        lemma(name + "chips in the pot and chips not paid", Implies(
            POT[k] == S.pot - Sum(ch) + Sum(rem[k]), POT[k] - AM[k] == S.pot - Sum(ch) + Sum(rem[k + 1])),
            STEP[k][4])
        lemma(name + "only a player in the hand is paid", Implies(rep[k], pact[k]), w)
        lemma(name + "shares are at least one chip", Implies(rep[k], And(SPL[k] >= 1, RMD[k] >= 0)),
              w, [AM[k] >= KK[k]])
        lemma(name + "chips are only taken for a payment", Implies(Not(rep[k]), AM[k] == 0), w)
        cut = lambda q, k=k: rem[k][q] - rem[k + 1][q]
        lemma(name + "one chip at least from every winner", Implies(rep[k], AM[k] >= KK[k]),
              [AM[k] == Sum([z[0][q] for q in R]), KK[k] == Sum([z[1][q] for q in R])] if n > 1 else [],
              [Implies(rep[k], z[0][q] >= z[1][q]) for q in R])
        for q in R:
            lemma(name + "one chip at least from the winner at place %d" % q, Implies(rep[k], cut(q) >= (
                B2I(s[q] == s[k]) if q >= k else 0)), w)
        # winners are next to each other
        for m in range(1, n - k + 1):
            lemma(name + "%d equal hands are the next %d" % (m, m), Implies(KK[k] == m, And(
                [s[q] == s[k] for q in range(k, k + m)] + [s[q] != s[k] for q in range(k + m, n)])),
                POS, STEP[k][5])
        lemma(name + "what is taken is paid or left over", Implies(rep[k], Sum(
            [Ite(elig(k, q), SPL[k], 0) for q in R]) + RMD[k] == AM[k]), STEP[k][6:], [
            Implies(KK[k] == m, And([s[q] == s[k] for q in range(k, k + m)] + [
                s[q] != s[k] for q in range(k + m, n)])) for m in range(1, n - k + 1)])
    # after the loop
    SUMS = [PAY[n][q] == Sum([Ite(elig(k, q), SPL[k], 0) for k in range(q + 1)]) for q in R] + [
        RM[n] == Sum([Ite(rep[k], RMD[k], 0) for k in R])]
    lemma("showdown: shares after all pots", And(SUMS), START, [f for k in R for f in NEXT[k]])
    NN = [Implies(rep[k], And(SPL[k] >= 1, RMD[k] >= 0, pact[k])) for k in R]
    lemma("showdown: no share is negative", And([x >= 0 for x in PAY[n]] + [RM[n] >= 0]), SUMS, NN)
    lemma("showdown: chips are left over only if somebody is paid", Implies(RM[n] > 0, Or([x > 0 for x in PAY[n]])),
          SUMS, NN, [x >= 0 for x in PAY[n]])
    lemma("showdown: all chips are taken", And([x == 0 for x in rem[n]]), POS, DEF[n], INV[n])
    lemma("showdown: all chips are there at the start", And([rem[0][q] == ch[q] for q in R]), POS, START, DEF[0])
    f = [[z3.Int("f_%d_%d" % (k, q)) for q in R] for k in R]
    r = [z3.Int("r_%d" % k) for k in R]
    lemma("showdown: all chips are paid or left over", Sum(PAY[n]) + RM[n] == Sum(ch),
          [PAY[n][q] == Sum([f[k][q] for k in range(q + 1)]) for q in R], [RM[n] == Sum(r)],
          [Sum([f[k][q] for q in range(k, n)]) + r[k] == AM[k] for k in R],
          [AM[k] == Sum(rem[k]) - Sum(rem[k + 1]) for k in R], [rem[0][q] == ch[q] for q in R],
          [x == 0 for x in rem[n]])

    # the side pots of the specification, place by place
    X = Names("x")
    pbase, podd = spec.shares(n, ch, pact, s, cut=X)
    x = X.name
    top = lambda k: Or(D[k], T[k] == 0, Or([And(x("unbeaten", l), ch[l] == T[k]) for l in range(k)]))
    done = lambda k: Implies(D[k], Or([And([x("unbeaten", l)] + [
        Implies(pact[q], ch[q] <= ch[l]) for q in R]) for l in range(k)]))
    UNB = X.defs("unbeaten")
    MOST = X.defs("most")
    lemma("showdown: no pot before the first", And(top(0), done(0)), START)
    for k in R:
        name = "showdown, pot %d: " % (k + 1)
        base = POS + DEF[k] + [INV[k]] + STEP[k][:4]
        only = Implies(rep[k], pact[k])
        lemma(name + "ends at the commitment of a player nobody beats",
              Implies(rep[k], And(x("unbeaten", k), x("stands", k))), base, only, UNB, X.defs("stands", k))
        lemma(name + "every player nobody beats has a pot",
              Implies(And(x("stands", k), Not(rep[k])), ch[k] == 0), base, UNB, X.defs("stands", k), top(k), done(k))
        lemma(name + "starts where the pot before ended", top(k + 1), base, only, top(k), Implies(
            rep[k], x("unbeaten", k)))
        lemma(name + "the last pot ends at the largest commitment", done(k + 1), base, done(k), Implies(
            rep[k], x("unbeaten", k)))
        lemma(name + "side pot starts at the side pot before", Implies(rep[k], x("from", k) == T[k]), base, UNB,
              Implies(rep[k], x("unbeaten", k)), X.defs("from", k), top(k))
        taken = lambda i: Min(ch[i], ch[k]) - Min(ch[i], T[k]) + Ite(
            ch[k] == x("most", 0), Ite(pact[i], 0, Max(0, ch[i] - x("most", 0))), 0)
        cut = lambda i: rem[k][i] - rem[k + 1][i]
        for i in R:
            lemma(name + "chips taken from the player at place %d" % i, Implies(rep[k], cut(i) == taken(i)),
                  base, DEF[k + 1], MOST, only)
        lemma(name + "size of the side pot", Implies(rep[k], AM[k] == x("amount", k)),
              [Implies(rep[k], cut(i) == taken(i)) for i in R], STEP[k][4], Implies(rep[k], x("from", k) == T[k]),
              X.defs("amount", k), X.defs("excess"))
        lemma(name + "an empty pot has no shares", Implies(And(x("stands", k), Not(rep[k])), And(
            x("split", k) == 0, x("rest", k) == 0)), Implies(And(x("stands", k), Not(rep[k])), ch[k] == 0),
              POS, MOST, X.defs("excess"), X.defs("amount", k), X.defs("from", k), X.defs("split", k), X.defs("rest", k),
              X.defs("winners", k), X.defs("quotient", k), UNB)
        for q in R:
            lemma(name + "who is eligible at place %d" % q, Implies(rep[k], Iff(
                And(x("unbeaten", q), ch[q] >= ch[k], s[q] == s[k]), And(q >= k, s[q] == s[k]))),
                base, UNB, Implies(rep[k], And(pact[k], x("unbeaten", k))))
        ELIG = [Implies(rep[k], Iff(And(x("unbeaten", q), ch[q] >= ch[k], s[q] == s[k]), And(q >= k, s[q] == s[k])))
                for q in R]
        lemma(name + "number of winners", Implies(rep[k], x("winners", k) == KK[k]), ELIG, X.defs("winners", k), STEP[k][5])
        lemma(name + "share and rest of the side pot", Implies(rep[k], And(
            x("split", k) == SPL[k], x("rest", k) == RMD[k])), Implies(rep[k], And(
                x("winners", k) == KK[k], AM[k] == x("amount", k), x("stands", k))),
            X.defs("split", k), X.defs("rest", k), X.defs("quotient", k), STEP[k][6:])
        lemma(name + "no side pot for others", Implies(Not(x("stands", k)), And(
            x("split", k) == 0, x("rest", k) == 0)), X.defs("split", k), X.defs("rest", k))
    SAME = [Implies(rep[k], And(x("unbeaten", k), x("split", k) == SPL[k], x("rest", k) == RMD[k])) for k in R] + [
        Implies(Not(rep[k]), And(x("split", k) == 0, x("rest", k) == 0)) for k in R]
    for q in R:
        g = [z3.Int("g_%d" % k) for k in R]
        for k in R:
            lemma("showdown, pot %d: side pot of the player at place %d" % (k + 1, q), Ite(And(
                x("unbeaten", q), x("unbeaten", k), s[k] == s[q], ch[k] <= ch[q]), x("split", k), 0) == Ite(
                    elig(k, q), SPL[k], 0), SAME[k], SAME[n + k], Implies(rep[k], Iff(And(
                        x("unbeaten", q), ch[q] >= ch[k], s[q] == s[k]), And(q >= k, s[q] == s[k]))))
        lemma("showdown: share at place %d" % q, PAY[n][q] == pbase[q], [
            g[k] == Ite(And(x("unbeaten", q), x("unbeaten", k), s[k] == s[q], ch[k] <= ch[q]), x("split", k), 0)
            for k in R], [g[k] == Ite(elig(k, q), SPL[k], 0) for k in R], SUMS[q])
    lemma("showdown: chips left over", RM[n] == podd, SAME, SUMS[n])

    # seat by seat
    for i in R:
        lemma("showdown: exactly one place for seat %d" % i, And([Implies(p[q] == i, Sum(
            [Ite(p[l] == i, PAY[n][l], 0) for l in R]) == PAY[n][q]) for q in R]), LINK)
    lemma("showdown: exactly one seat for a place", Sum([Ite(p[0] == i, PAY[n][0], 0) for i in R]) == PAY[n][0],
          And(p[0] >= 0, p[0] < n))
    lemma("showdown: shares of all seats", Sum(Y) == Sum(PAY[n]),
          [Sum(z[q]) == PAY[n][q] for q in R], [Sum([z[q][i] for q in R]) == Y[i] for i in R])
    OF = [Implies(p[q] == i, Y[i] == PAY[n][q]) for q in R for i in R]
    lemma("showdown: somebody is paid", Implies(RM[n] > 0, Or([y > 0 for y in Y])), LINK, OF,
          Implies(RM[n] > 0, Or([y > 0 for y in PAY[n]])))
    recv = spec.odd_receiver(n, Y, S.button)
    base = [And(S.button >= 0, S.button < n), And([y >= 0 for y in Y]), RM[n] >= 0]
    w = [z3.Int("w%d" % i) for i in R]
    for i in R:
        lemma("C09: exact side pot division (seat %d)" % i, got[i] == Y[i] + Ite(recv[i], RM[n], 0), base)
    lemma("showdown: one player gets the chips left over", Implies(Or([y > 0 for y in Y]), Sum(
        [B2I(x_) for x_ in recv]) == 1), base)
    h = [z3.Bool("h%d" % i) for i in R]
    lemma("C09: all chips are paid out", Sum(w) == Sum(pc), [w[i] == Y[i] + Ite(h[i], RM[n], 0) for i in R],
          Implies(RM[n] > 0, Sum([B2I(y) for y in h]) == 1), Sum(Y) + RM[n] == Sum(pc), RM[n] >= 0)
    for i in R:
        q = z3.Int("q")
        lemma("C09: folded players win nothing (seat %d)" % i, Implies(Not(act[i]), Y[i] + Ite(recv[i], RM[n], 0) == 0),
              base, Implies(Not(act[i]), Y[i] == 0))
    for q in R:
        lemma("C09: a player who is beaten by one who put in as much wins nothing (place %d)" % q,
              Implies(Not(x("unbeaten", q)), pbase[q] == 0))
        lemma("C09: folded players win nothing (place %d)" % q, Implies(Not(pact[q]), pbase[q] == 0), UNB[q])

    t.pre = SEAT + LINK + SORTED
    ip.assumptions[:] = t.pre
    for name, fm, *w in own:
        t.obs.append((name, fm, "lemma", tuple(w[0])))
    for name, fm, w in extra:
        t.obs.append((name, fm, "lemma", tuple(w)))
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, "lemma", tuple(SEAT + POS + base)))
    for g_, e_, _ in ip.raises:
        t.obs.append(("no %s is raised" % e_, Not(g_), "safety", tuple(SEAT + POS + base)))
    t.vc = vc
    t.replay = replays(n, c, S, pc, act, strength)
    return t


class Names(object):
    """names for the intermediate quantities of a specification"""

    def __init__(self, pfx):
        self.pfx, self.vars, self.eqs = pfx, {}, {}

    def __call__(self, name, j, x):
        x = lift(x)
        v = z3.Const("%s_%s_%d" % (self.pfx, name, j), x.sort())
        self.vars[name, j] = v
        self.eqs[name, j] = v == x
        return v

    def name(self, name, j):
        return self.vars[name, j]

    def defs(self, name, j=None):
        if j is not None:
            return [self.eqs[name, j]]
        return [e for (k, _), e in sorted(self.eqs.items()) if k == name]


def replays(n, c, S, pc, act, strength):
    def replay(m):
        from .dealer import mval

        if all(m[v] is None for v in pc):
            return None
        on = [mval(m, x) is True for x in act]
        if sum(on) < 2:
            return None
        kw, _ = native_config(m, c, 0, n)
        for k in ("raise_sizes", "num_raises", "num_community_cards"):
            kw[k] = kw[k][-1:]
        kw["num_streets"] = 1
        a = on.index(True)
        chips = [mval(m, x) for x in pc]
        return {"config": kw, "ops": [["inject", dict(
            action=a, active=on, button=mval(m, S.button), pot=sum(chips), pc=chips, st=[5] * n, street=0, sc=[0] * n,
            opt=[i != a for i in range(n)], sraises=0, lraise=0, strength=[mval(m, x) for x in strength])], ["step", 0]]}
    return replay


def do_perm(program, n, i):
    """exchanging the neighbours i and i + 1"""
    R = range(n)
    t = Task("side pots do not depend on the seats %d and %d of %d" % (i, i + 1, n))
    tau = {i: i + 1, i + 1: i}
    tau = [tau.get(j, j) for j in R]
    pc, s = ([z3.Int("%s%d" % (k, j)) for j in R] for k in ("chips", "strength"))
    act = [z3.Bool("in%d" % j) for j in R]
    ok = [x >= 0 for x in pc]
    X, W = Names("x"), Names("y")
    bx, ox = spec.shares(n, pc, act, s, cut=X)
    by, oy = spec.shares(n, [pc[j] for j in tau], [act[j] for j in tau], [s[j] for j in tau], cut=W)
    x, y = X.name, W.name

    def lemma(name, f, *assume):
        t.obs.append(("side pots, seats exchanged: " + name, f, "lemma", tuple(
            a for b in assume for a in (b if isinstance(b, list) else [b]))))
    und = [Iff(y("unbeaten", j), x("unbeaten", tau[j])) for j in R]
    for j in R:
        lemma("unbeaten %d" % j, und[j], X.defs("unbeaten", tau[j]), W.defs("unbeaten", j))
    lemma("most", y("most", 0) == x("most", 0), X.defs("most"), W.defs("most"), ok)
    lemma("excess", y("excess", 0) == x("excess", 0), X.defs("excess"), W.defs("excess"), y("most", 0) == x("most", 0))
    same = lambda k, j: y(k, j) == x(k, tau[j])
    glob = [y("most", 0) == x("most", 0), y("excess", 0) == x("excess", 0)]
    for j in R:
        lemma("from %d" % j, same("from", j), und, X.defs("from", tau[j]), W.defs("from", j))
        lemma("amount %d" % j, same("amount", j), same("from", j), glob, X.defs("amount", tau[j]), W.defs("amount", j))
        lemma("winners %d" % j, same("winners", j), und, X.defs("winners", tau[j]), W.defs("winners", j))
    tie = And(x("unbeaten", i), x("unbeaten", i + 1), pc[i] == pc[i + 1])
    lemma("equal boundaries are equal hands", Implies(tie, s[i] == s[i + 1]), X.defs("unbeaten"))
    for k in ("from", "amount", "winners"):
        lemma("equal boundaries: " + k, Implies(tie, x(k, i) == x(k, i + 1)), Implies(tie, s[i] == s[i + 1]),
              X.defs(k, i), X.defs(k, i + 1), Implies(tie, x("from", i) == x("from", i + 1)) if k == "amount" else [])
    eq = [same(k, j) for k in ("amount", "winners") for j in R] + [
        Implies(tie, x(k, i) == x(k, i + 1)) for k in ("amount", "winners")]
    st = []
    for j in R:
        f = Iff(y("stands", j), x("stands", tau[j]))
        if j in (i, i + 1):
            f = And(Implies(Not(tie), f), Implies(tie, And(
                Iff(y("stands", i), x("stands", i)), Not(y("stands", i + 1)), Not(x("stands", i + 1)))))
        st.append(f)
        lemma("stands %d" % j, f, und, X.defs("stands"), W.defs("stands"))
    sp = []
    for j in R:
        f = y("quotient", j) == x("quotient", tau[j])
        if j in (i, i + 1):
            f = And(Implies(Not(tie), f), Implies(tie, y("quotient", i) == x("quotient", i)))
        qs = [X.defs("quotient", j), X.defs("quotient", tau[j]), W.defs("quotient", j)]
        lemma("quotient %d" % j, f, st, eq, *(qs + [X.defs("quotient", i), W.defs("quotient", i)]))
        eq.append(f)
    for j in R:
        for k in ("split", "rest"):
            f = same(k, j)
            if j in (i, i + 1):
                f = And(Implies(Not(tie), f), Implies(tie, y(k, j) == x(k, j)), Implies(
                    tie, True if j == i else And(y(k, j) == 0, x(k, j) == 0)))
            sp.append(f)
            lemma("%s %d" % (k, j), f, st, eq, X.defs(k, j), X.defs(k, tau[j]), W.defs(k, j))
    for j in R:
        lemma("share %d" % j, by[j] == bx[tau[j]], sp, und, Implies(tie, s[i] == s[i + 1]))
    lemma("left over", oy == ox, sp)
    t.pre, t.vc = ok, None
    return t
