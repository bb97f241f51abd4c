"""Contracts of the table (clubs.poker.engine.Dealer) at its public operations.

One specification, evaluated on z3 terms (verifier) and on plain values
(native runs).  Everything here is written from the property statements.

State `S` (snapshot of a Dealer): n, action, active[], button, pot, pc[]
(chips put in per player), st[] (stacks), street, sc[] (street bets), opt[]
(had a chance to act on this street; relevant for players in the hand with
chips), sraises (full raises on this street), lraise (largest full raise),
hist (sequence), comm, hole[], deck (card sequences).

Config `c`: n, ns, bb, blinds[], antes[], start, ncc(street), cc(street)
(cards of streets 0..street), nh, L (deck size), rs(street) -> (is_int, size,
is_pot), nr(street) -> (is_inf, count).
"""
from .ops import *


class State(object):
    FIELDS = (
        "n action active button pot pc st street sc opt sraises lraise hist "
        "comm hole deck"
    ).split()

    def __init__(self, **kw):
        for k in self.FIELDS:
            setattr(self, k, kw.get(k))


# ---------------------------------------------------------------- helpers
def first_active_after(active, start, n, lo=1, hi=None):
    """index of first player in the hand clockwise after seat `start`
    (start itself is considered last); start may be symbolic"""
    if sym(start):
        r = first_active_after(active, n - 1, n)
        for s in range(n - 2, -1, -1):
            r = Ite(start == s, first_active_after(active, s, n), r)
        return r
    order = [(start + k) % n for k in range(1, n + 1)]
    r = order[-1]
    for p in reversed(order[:-1]):
        r = Ite(active[p], p, r)
    return r


def nactive(S):
    return Count(S.active)


def unsettled(S):
    """players in the hand with chips who still have to act or to match"""
    m = Max(S.sc)
    return [
        And(S.active[i], S.st[i] > 0, Or(Not(S.opt[i]), S.sc[i] < m))
        for i in range(S.n)
    ]


def agreed(S):
    return Not(Or(unsettled(S)))


def sizes(c, S, a):
    """(call, smallest raise, largest raise) that are valid for player a"""
    if sym(a):
        rs = [sizes(c, S, k) for k in range(S.n)]
        return tuple(Sel([r[j] for r in rs], a) for j in range(3))
    need = Max(S.sc) - S.sc[a]
    is_int, size, is_pot = c.rs(S.street)
    floor = Max(c.bb, S.lraise + need)
    potmax = S.pot + need * 2
    minr = Ite(is_int, size + need, Ite(is_pot, Min(floor, potmax), floor))
    maxr = Ite(is_int, size + need, Ite(is_pot, potmax, S.st[a]))
    nr_inf, nr = c.nr(S.street)
    capped = Or(
        And(Not(nr_inf), S.sraises >= nr), And(S.sraises > 0, need < S.lraise)
    )
    minr = Ite(capped, 0, minr)
    maxr = Ite(capped, 0, maxr)
    return Min(need, S.st[a]), Min(minr, S.st[a]), Min(maxr, S.st[a])


def chosen(c, S, a, bet):
    """(chips put in, folded) for a requested bet: nearest valid amount, the
    smaller one on a tie; less than the call is a fold"""
    call, lo, hi = sizes(c, S, a)
    b = Max(0, bet)
    # nearest amount between the raise sizes
    r = Ite(b < lo, lo, Ite(b > hi, hi, b))

    def nearer(x, y):
        dx, dy = Abs(x - b), Abs(y - b)
        return Ite(Or(dx < dy, And(dx == dy, x <= y)), x, y)

    amount = nearer(nearer(0, call), r)
    fold = And(call > 0, Or(amount < call, bet < 0))
    return Ite(fold, 0, amount), fold


def after_bet(c, S, a, paid, fold):
    """the table after the player's action, before any street change"""
    n = S.n
    call = Min(Max(S.sc) - S.sc[a], S.st[a])
    raised = And(paid > 0, paid - call >= S.lraise)
    M = State(n=n, button=S.button, street=S.street)
    M.active = [And(S.active[i], Not(fold)) if i == a else S.active[i] for i in range(n)]
    M.pc = [S.pc[i] + paid if i == a else S.pc[i] for i in range(n)]
    M.sc = [S.sc[i] + paid if i == a else S.sc[i] for i in range(n)]
    M.st = [S.st[i] - paid if i == a else S.st[i] for i in range(n)]
    M.opt = [True if i == a else S.opt[i] for i in range(n)]
    M.pot = S.pot + paid
    M.lraise = Ite(raised, paid - call, S.lraise)
    M.sraises = Ite(raised, S.sraises + 1, S.sraises)
    return M


def all_in_but_one(M):
    return Count(And(M.active[i], M.st[i] > 0) for i in range(M.n)) <= 1


def street_after(c, M):
    """street after the action that led to M"""
    return Ite(agreed(M), Ite(all_in_but_one(M), c.ns, M.street + 1), M.street)


def over_after(c, M):
    return Or(nactive(M) <= 1, street_after(c, M) >= c.ns)


# ------------------------------------------------------- showdown division
def shares(n, pc, active, strength, button=None, kmax=None, cut=None):
    """chips every player gets out of the pot at showdown (lower strength is
    better), from the property: side pots end at the commitments of the
    players that nobody who put in at least as much beats.
    cut(name, j, x): a name for x (the verifier), by default x itself"""
    kmax = kmax or n
    cut = cut or (lambda name, j, x: x)
    R = range(n)
    und = [
        cut("unbeaten", j, And([active[j]] + [
            Implies(And(active[l], pc[l] >= pc[j]), strength[l] >= strength[j])
            for l in R if l != j
        ])) for j in R
    ]
    amax = cut("most", 0, Max([Ite(active[j], pc[j], 0) for j in R]))
    excess = cut("excess", 0, Sum(Ite(active[j], 0, Max(0, pc[j] - amax)) for j in R))
    split, rem = [], []
    for j in R:
        prev = cut("from", j, Max([0] + [Ite(And(und[l], pc[l] < pc[j]), pc[l], 0) for l in R if l != j]))
        amount = Sum(Min(pc[i], pc[j]) - Min(pc[i], prev) for i in R)
        amount = cut("amount", j, amount + Ite(pc[j] == amax, excess, 0))
        k = cut("winners", j, Count(And(und[l], pc[l] >= pc[j], strength[l] == strength[j]) for l in R))
        # one pot per boundary: j stands for it if no earlier seat has the
        # same boundary
        rep = cut("stands", j, And([und[j]] + [Not(And(und[l], pc[l] == pc[j])) for l in range(j)]))
        k = Ite(rep, k, 1)
        q = cut("quotient", j, DivK(amount, k, kmax))
        split.append(cut("split", j, Ite(rep, q, 0)))
        rem.append(cut("rest", j, Ite(rep, amount - _mulk(q, k, kmax), 0)))
    base = [
        Sum(
            Ite(And(und[p], und[j], strength[j] == strength[p], pc[j] <= pc[p]),
                split[j], 0)
            for j in R
        )
        for p in R
    ]
    odd = Sum(rem)
    return base, odd


def _mulk(q, k, kmax):
    if not sym(k):
        return q * k
    r = q * kmax
    for c in range(kmax - 1, 0, -1):
        r = Ite(k == c, q * c, r)
    return r


def odd_receiver(n, base, button):
    """flags: first player clockwise after the button with a share"""
    def flags(b):
        out = [False] * n
        none = True
        for k in range(1, n + 1):
            p = (b + k) % n
            out[p] = And(none, base[p] > 0)
            none = And(none, Not(base[p] > 0))
        return out

    if not sym(button):
        return flags(button)
    res = flags(n - 1)
    for b in range(n - 2, -1, -1):
        f = flags(b)
        res = [Ite(button == b, x, y) for x, y in zip(f, res)]
    return res


def showdown(n, pc, active, strength, button):
    base, odd = shares(n, pc, active, strength, button)
    recv = odd_receiver(n, base, button)
    return [base[p] + Ite(recv[p], odd, 0) for p in range(n)]


# ------------------------------------------------------------- invariant
def invariant(c, S):
    """class invariant of a running hand (action >= 0)"""
    R = range(S.n)
    m = Max(S.sc)
    cl = [
        ("stacks not negative", And([S.st[i] >= 0 for i in R])),
        ("street bets are part of the chips put in",
         And([And(S.sc[i] >= 0, S.sc[i] <= S.pc[i]) for i in R])),
        ("pot is the sum of chips put in", Eq(S.pot, Sum(S.pc))),
        ("street in range", And(S.street >= 0, S.street < c.ns)),
        ("at least two players in the hand", nactive(S) >= 2),
        ("player to act is in the hand",
         And(S.action >= 0, S.action < S.n, Sel(S.active, S.action))),
        ("largest bet held by a player in the hand",
         Or([And(S.active[i], S.sc[i] == m) for i in R])),
        ("pot not empty only with chips of a player in the hand",
         Implies(Or([And(Not(S.active[i]), S.pc[i] > 0) for i in R]),
                 Or([And(S.active[i], S.pc[i] > 0) for i in R]))),
        ("raise counters", And(S.lraise >= 0, S.sraises >= 0)),
    ]
    if S.button is not None:
        cl.append(("button on the table", And(S.button >= 0, S.button < S.n)))
    return cl


# ------------------------------------------------------------------- step
class Step(object):
    """everything a clause may look at for one call of step(bet)"""

    def __init__(self, c, S, bet, T, obs, payouts, done, evaluated=None):
        self.c, self.S, self.bet, self.T = c, S, bet, T
        self.obs, self.payouts, self.done = obs, payouts, done
        self.a = S.action
        self.n = S.n
        self.evaluated = evaluated  # condition: cards were compared
        a = self.a
        # what really happened
        self.paid = T.pc[a] - S.pc[a]
        self.folded = And(S.active[a], Not(T.active[a]))
        self.M = after_bet(c, S, a, self.paid, self.folded)
        self.alldone = And(list(done))


def step_C01(x):
    S, T, R = x.S, x.T, range(x.n)
    run = Not(x.alldone)
    return [
        ("C01.running: stack + chips in pot unchanged per player",
         Implies(run, And([Eq(T.st[i] + T.pc[i], S.st[i] + S.pc[i]) for i in R]))),
        ("C01.running: pot is what players put in",
         Implies(run, Eq(T.pot, Sum(T.pc)))),
        ("C01.end: pot empty", Implies(x.alldone, Eq(T.pot, 0))),
        ("C01.end: payouts add up to zero",
         Implies(x.alldone, Eq(Sum(x.payouts), 0))),
        ("C01.end: stack is stack at start plus payout",
         Implies(x.alldone, And([Eq(T.st[i], S.st[i] + S.pc[i] + x.payouts[i]) for i in R]))),
        ("C01: chips on the table unchanged",
         Eq(Sum(T.st) + T.pot, Sum(S.st) + S.pot)),
    ]


def step_C02(x):
    S, T, R, a = x.S, x.T, range(x.n), x.a
    run = Not(x.alldone)
    return [
        ("C02: no stack negative", And([T.st[i] >= 0 for i in R])),
        ("C02: bet between zero and stack", And(x.paid >= 0, x.paid <= S.st[a])),
        ("C02: only the acting player pays",
         And([Eq(T.pc[i], S.pc[i]) for i in R if i != a])),
        ("C02: other stacks untouched while running",
         Implies(run, And([Eq(T.st[i], S.st[i]) for i in R if i != a]))),
        ("C02: own stack reduced by the bet while running",
         Implies(run, Eq(T.st[a], S.st[a] - x.paid))),
    ]


def obs_C03(c, T, obs, running):
    call, lo, hi = sizes(c, T, T.action) if not isinstance(T.action, int) or T.action >= 0 else (0, 0, 0)
    st = Sel(T.st, T.action) if not isinstance(T.action, int) or T.action >= 0 else 0
    return [
        ("C03: call offered", Implies(running, Eq(obs["call"], call))),
        ("C03: smallest raise offered", Implies(running, Eq(obs["min_raise"], lo))),
        ("C03: largest raise offered", Implies(running, Eq(obs["max_raise"], hi))),
        ("C03: sizes ordered and within the stack",
         Implies(running, And(
             obs["call"] >= 0, obs["min_raise"] >= 0, obs["call"] <= st,
             obs["min_raise"] <= obs["max_raise"], obs["max_raise"] <= st))),
    ]


def step_C03(x):
    return obs_C03(x.c, x.T, x.obs, Not(x.alldone))


def raises_after(x):
    """ghost: raise accounting of the street after this action"""
    newstreet = agreed(x.M)
    return Ite(newstreet, 0, x.M.sraises), x.M.lraise


def ghost_raises(x):
    sr, lr = raises_after(x)
    run = Not(x.alldone)
    return [
        ("ghost: full raises counted per street", Implies(run, Eq(x.T.sraises, sr))),
        ("ghost: largest full raise recorded", Implies(run, Eq(x.T.lraise, lr))),
    ]


def step_C04(x):
    paid, fold = chosen(x.c, x.S, x.a, x.bet)
    call, lo, hi = sizes(x.c, x.S, x.a)
    valid = Or(Eq(x.bet, 0), Eq(x.bet, call), And(x.bet >= lo, x.bet <= hi))
    return [
        ("C04: nearest valid amount is put in", Eq(x.paid, paid)),
        ("C04: the amount comes out of the stack",
         Implies(Not(x.alldone), Eq(x.T.st[x.a], x.S.st[x.a] - paid))),
        ("C04: fold exactly if below the call", Iff(x.folded, fold)),
        ("C04: valid bet taken unchanged",
         Implies(And(x.bet >= call, valid), Eq(x.paid, x.bet))),
        ("C04: street bet grows by the amount",
         Implies(And(Not(x.alldone), Not(agreed(x.M))),
                 Eq(x.T.sc[x.a], x.S.sc[x.a] + paid))),
    ]


def step_C05(x):
    S, T, M, n = x.S, x.T, x.M, x.n
    run = Not(x.alldone)
    nxt = first_active_after(M.active, x.a, n)
    new = first_active_after(M.active, S.button, n)
    return [
        ("C05: player to act is in the hand",
         Implies(run, And(T.action >= 0, T.action < n, Sel(T.active, Ite(run, T.action, 0))))),
        ("C05: next player clockwise acts",
         Implies(And(run, Not(agreed(M))), Eq(T.action, nxt))),
        ("C05: first player after the button acts on a new street",
         Implies(And(run, agreed(M)), Eq(T.action, new))),
        ("C05: button stays", Eq(T.button, S.button)),
    ]


def step_C06(x):
    S, T, M, n, c = x.S, x.T, x.M, x.n, x.c
    R = range(n)
    run = Not(x.alldone)
    ag = agreed(M)
    alone = nactive(M) <= 1
    return [
        ("C06: same street while somebody has to act or match",
         Implies(And(Not(alone), Not(ag)), Eq(T.street, S.street))),
        ("C06: next street or showdown when all have acted and matched",
         Implies(And(Not(alone), ag),
                 Ite(all_in_but_one(M), T.street >= c.ns, Eq(T.street, S.street + 1)))),
        ("C06: hand ends exactly when one player is left or last street complete",
         Iff(x.alldone, over_after(c, M))),
        ("C06: nothing committed on a new street",
         Implies(And(run, ag), And([Eq(T.sc[i], 0) for i in R]))),
        ("C06: street bets kept on the same street",
         Implies(And(run, Not(ag)), And([Eq(T.sc[i], M.sc[i]) for i in R]))),
        ("C06: nobody has acted on a new street",
         Implies(And(run, ag), And([Implies(T.active[i], Not(T.opt[i])) for i in R]))),
        ("C06: exactly the acting player has acted more",
         Implies(And(run, Not(ag)), And([
             Implies(And(T.active[i], T.st[i] > 0), Iff(T.opt[i], M.opt[i])) for i in R]))),
        ("C06: no player to act exactly at the end",
         Iff(x.alldone, Eq(T.action, -1))),
    ]


def last_unsettled(S, a):
    """clockwise distance from player a to the last player who still has to
    act or match; 0 if none"""
    n = S.n
    u = unsettled(S)
    if sym(a):
        return Sel([last_unsettled(S, k) for k in range(n)], a)
    d = 0
    for k in range(1, n):
        d = Ite(u[(a + k) % n], k, d)
    return d


def step_C07(x):
    S, T, c = x.S, x.T, x.c
    run = Not(x.alldone)
    d0 = last_unsettled(S, x.a)
    d1 = last_unsettled(T, T.action)
    streets = Eq(T.street, S.street)
    same_players = Eq(nactive(T), nactive(S))
    same_pot = Eq(T.pot, S.pot)
    return [
        ("C07: measure decreases (street, players, pot, distance to last open player)",
         Implies(run, Or(
             T.street > S.street,
             And(streets, nactive(T) < nactive(S)),
             And(streets, same_players, T.pot > S.pot),
             And(streets, same_players, same_pot, d1 < d0)))),
        ("C07: measure bounded",
         Implies(run, And(T.street < c.ns, nactive(T) >= 0, T.pot <= Sum(S.st) + Sum(S.pc), d1 >= 0))),
    ]


def step_C08(x):
    S, T, R, a = x.S, x.T, range(x.n), x.a
    one = Eq(nactive(x.M), 1)
    und = Not(Or(one, x.alldone))
    cl = [
        ("C08: only the folding player leaves the hand",
         And([Iff(T.active[i], S.active[i]) for i in R if i != a])),
        ("C08: players out of the hand are reported to have lost their chips",
         And([Implies(Not(T.active[i]), Eq(x.payouts[i], -S.pc[i])) for i in R])),
        ("C08: chips of players out of the hand stay where they are",
         And([Implies(Not(T.active[i]), And(
             Eq(T.pc[i], S.pc[i]), Implies(Not(x.alldone), Eq(T.st[i], S.st[i])))) for i in R])),
        ("C08: hand ends when one player is left", Implies(one, x.alldone)),
        ("C08: last player gets the whole pot",
         Implies(one, And([Implies(T.active[i], Eq(x.payouts[i], Sum(T.pc) - T.pc[i])) for i in R]))),
        ("C08: nothing won or lost while undecided",
         Implies(und, And([Implies(T.active[i], Eq(x.payouts[i], 0)) for i in R]))),
    ]
    if x.evaluated is not None:
        cl.append(("C08: no cards compared unless there is a showdown",
                   Implies(x.evaluated, And(Not(one), x.alldone))))
    return cl


def step_C09(x, strength):
    S, T, R = x.S, x.T, range(x.n)
    sd = And(x.alldone, nactive(x.M) >= 2)
    want = showdown(x.n, T.pc, T.active, strength, S.button)
    return showdown_clauses(x.n, T.pc, T.active, strength,
                            [x.payouts[i] + T.pc[i] for i in R], want, sd)


def showdown_clauses(n, pc, active, strength, got, want, cond=True):
    R = range(n)
    return [
        ("C09: folded players win nothing",
         Implies(cond, And([Implies(Not(active[i]), Eq(got[i], 0)) for i in R]))),
        ("C09: all chips are paid out", Implies(cond, Eq(Sum(got), Sum(pc)))),
        ("C09: beaten by a player who put in as much wins nothing",
         Implies(cond, And([
             Implies(And(active[i], active[j], pc[j] >= pc[i], strength[j] < strength[i]),
                     Eq(got[i], 0)) for i in R for j in R if i != j]))),
        ("C09: exact side pot division", Implies(cond, And([Eq(got[i], want[i]) for i in R]))),
    ]


def step_C11(x):
    S, T, n, c = x.S, x.T, x.n, x.c
    cl = [("C11: hole cards never change",
           And([c.seq_eq(T.hole[i], S.hole[i]) for i in range(n)]))]
    cl += cards_in_place(c, T)
    return cl


def cards_in_place(c, T):
    """all cards are where dealing from the top of the shuffled deck puts them"""
    n = c.n
    c0 = c.cc(0)
    top = c0 + n * c.nh
    last = Min(T.street, c.ns - 1)
    total = c.cc(last)
    enough = c.enough
    return [
        ("C11: community cards are the next cards of the deck",
         Implies(enough, c.seq_eq(T.comm, c.cat(c.base(0, c0), c.base(top, top + total - c0))))),
        ("C11: number of community cards", Implies(enough, Eq(c.seq_len(T.comm), total))),
        ("C11: hole cards dealt seat by seat",
         Implies(enough, And([
             c.seq_eq(T.hole[i], c.base(c0 + i * c.nh, c0 + (i + 1) * c.nh)) for i in range(n)]))),
        ("C11: rest of the deck untouched",
         Implies(enough, c.seq_eq(T.deck, c.base(top + total - c0, c.L)))),
    ]


def obs_C20(c, T, obs, running):
    R = range(c.n)
    act = T.action
    cl = [
        ("C20: player to act", Eq(obs["action"], act)),
        ("C20: players in the hand", And([Iff(obs["active"][i], T.active[i]) for i in R])),
        ("C20: button", Eq(obs["button"], T.button)),
        ("C20: pot", Eq(obs["pot"], T.pot)),
        ("C20: stacks", And([Eq(obs["stacks"][i], T.st[i]) for i in R])),
        ("C20: street bets", And([Eq(obs["street_commits"][i], T.sc[i]) for i in R])),
        ("C20: community cards", c.seq_eq(obs["community_cards"], T.comm)),
        ("C20: lists have one entry per player",
         And([Eq(len(obs[k]), c.n) for k in ("active", "stacks", "street_commits")])),
    ]
    if isinstance(act, int):
        if act >= 0:
            cl.append(("C20: own hole cards",
                       Implies(running, c.seq_eq(obs["hole_cards"], T.hole[act]))))
            call, lo, hi = sizes(c, T, act)
            cl.append(("C20: bet sizes valid for the player to act", Implies(running, And(
                Eq(obs["call"], call), Eq(obs["min_raise"], lo), Eq(obs["max_raise"], hi)))))
    else:
        cl.append(("C20: own hole cards", And([
            Implies(And(running, act == i), c.seq_eq(obs["hole_cards"], T.hole[i])) for i in R])))
        call, lo, hi = sizes(c, T, act)
        cl.append(("C20: bet sizes valid for the player to act", Implies(running, And(
            Eq(obs["call"], call), Eq(obs["min_raise"], lo), Eq(obs["max_raise"], hi)))))
    return cl


def step_C20(x):
    return obs_C20(x.c, x.T, x.obs, Not(x.alldone))


def step_C22(x):
    c, S, T = x.c, x.S, x.T
    same, entry = c.hist_grown(S.hist, T.hist)
    cl = [("C22: history grows by exactly one entry", same)]
    if entry is not None:
        cl += [
            ("C22: entry names the player who acted", Eq(entry[0], x.a)),
            ("C22: entry has the chips put in", Eq(entry[1], x.paid)),
            ("C22: entry has the chips taken from the stack",
             Implies(Not(x.alldone), Eq(entry[1], S.st[x.a] - T.st[x.a]))),
            ("C22: entry tells whether the player folded", Iff(entry[2], x.folded)),
        ]
    return cl


STEP = {
    "C01": step_C01, "C02": step_C02, "C03": step_C03, "C04": step_C04,
    "C05": step_C05, "C06": step_C06, "C07": step_C07, "C08": step_C08,
    "C11": step_C11, "C20": step_C20, "C22": step_C22,
}


# ------------------------------------------------------------------ reset
class Reset(object):
    def __init__(self, c, S, reset_button, reset_stacks, T, obs):
        self.c, self.S, self.T, self.obs = c, S, T, obs
        self.rb, self.rs = reset_button, reset_stacks
        n = self.n = c.n
        self.st0 = [c.start if reset_stacks else S.st[i] for i in range(n)]
        self.active0 = [True if reset_stacks else S.st[i] > 0 for i in range(n)]
        if reset_button:
            self.button = 0
        elif sym(S.button):
            self.button = Ite(S.button == n - 1, 0, S.button + 1)
        else:
            self.button = (S.button + 1) % n
        # seat of the first blind
        self.first = self.button if n == 2 else first_active_after(self.active0, self.button, n)
        posts = [self.posts(f) for f in range(n)] if sym(self.first) else None
        if posts is None:
            self.ante, self.blind = self.posts(self.first)
        else:
            self.ante = [Sel([p[0][i] for p in posts], self.first) for i in range(n)]
            self.blind = [Sel([p[1][i] for p in posts], self.first) for i in range(n)]
        second = first_active_after(self.active0, self.first, n)
        self.action = first_active_after(self.active0, second, n)

    def posts(self, first):
        c, n = self.c, self.n
        ante, blind = [], []
        for i in range(n):
            k = (i - first) % n
            an = Ite(self.active0[i], Min(self.st0[i], c.antes[k]), 0)
            ante.append(an)
            blind.append(Ite(self.active0[i], Min(self.st0[i] - an, c.blinds[k]), 0))
        return ante, blind


def reset_C01(x):
    T, R = x.T, range(x.n)
    return [
        ("C01.reset: stack + chips in pot is the stack brought along",
         And([Eq(T.st[i] + T.pc[i], x.st0[i]) for i in R])),
        ("C01.reset: pot is what players put in", Eq(T.pot, Sum(T.pc))),
        ("C01.reset: chips on the table unchanged", Eq(Sum(T.st) + T.pot, Sum(x.st0))),
    ]


def reset_C02(x):
    T, R = x.T, range(x.n)
    return [
        ("C02.reset: no stack negative", And([T.st[i] >= 0 for i in R])),
        ("C02.reset: forced bets between zero and stack",
         And([And(x.st0[i] - T.st[i] >= 0, x.st0[i] - T.st[i] <= x.st0[i], T.pc[i] >= 0,
                  T.pc[i] <= x.st0[i]) for i in R])),
        ("C02.reset: forced bets only from players in the hand",
         And([Implies(Not(x.active0[i]), And(Eq(T.pc[i], 0), Eq(T.st[i], x.st0[i]))) for i in R])),
    ]


def reset_C03(x):
    return obs_C03(x.c, x.T, x.obs, True)


def reset_ghost(x):
    T = x.T
    return [("ghost.reset: raise counters", And(Eq(T.sraises, 0), Eq(T.lraise, x.c.bb)))]


def reset_C05(x):
    T = x.T
    return [
        ("C05.reset: player to act is in the hand",
         And(T.action >= 0, T.action < x.n, Sel(T.active, T.action))),
        ("C05.reset: second player after the first blind acts first", Eq(T.action, x.action)),
    ]


def reset_C06(x):
    T = x.T
    return [("C06.reset: nobody has acted in a new hand",
             And([Implies(T.active[i], Not(T.opt[i])) for i in range(x.n)]))]


def reset_C08(x):
    return [("C08.reset: in the hand exactly with chips",
             And([Iff(x.T.active[i], x.active0[i]) for i in range(x.n)]))]


def reset_C10(x):
    T, R, c = x.T, range(x.n), x.c
    return [
        ("C10: button", Eq(T.button, x.button)),
        ("C10: players in the hand", And([Iff(T.active[i], x.active0[i]) for i in R])),
        ("C10: antes and blinds posted",
         And([Eq(T.pc[i], x.ante[i] + x.blind[i]) for i in R])),
        ("C10: only blinds count as street bets", And([Eq(T.sc[i], x.blind[i]) for i in R])),
        ("C10: stacks reduced by what was posted",
         And([Eq(T.st[i], x.st0[i] - x.ante[i] - x.blind[i]) for i in R])),
        ("C10: first street", Eq(T.street, 0)),
        ("C10: no raises yet", And(Eq(T.sraises, 0), Eq(T.lraise, c.bb))),
        ("C10: nobody has acted", And([Implies(T.active[i], Not(T.opt[i])) for i in R])),
        ("C10: history empty", c.hist_empty(T.hist)),
        ("C10: pot holds the forced bets only", Eq(T.pot, Sum(x.ante) + Sum(x.blind))),
    ]


def same_table(c, S, T):
    R = range(S.n)
    return [
        ("C10: a refused reset changes nothing at the table", And(
            Eq(T.action, S.action), Eq(T.button, S.button), Eq(T.pot, S.pot), Eq(T.street, S.street),
            And([And(Iff(T.active[i], S.active[i]), Eq(T.pc[i], S.pc[i]), Eq(T.st[i], S.st[i]),
                     Eq(T.sc[i], S.sc[i])) for i in R]))),
        ("C10: a refused reset keeps cards and history", And(
            c.seq_eq(T.comm, S.comm), c.seq_eq(T.deck, S.deck),
            And([c.seq_eq(T.hole[i], S.hole[i]) for i in R]), c.hist_same(S.hist, T.hist))),
    ]


def reset_C11(x):
    return cards_in_place(x.c, x.T)


def reset_C20(x):
    return obs_C20(x.c, x.T, x.obs, True)


def reset_C22(x):
    return [("C22.reset: history empty", x.c.hist_empty(x.T.hist))]


RESET = {
    "C01": reset_C01, "C02": reset_C02, "C03": reset_C03, "C05": reset_C05,
    "C06": reset_C06, "C08": reset_C08, "C10": reset_C10, "C11": reset_C11,
    "C20": reset_C20, "C22": reset_C22,
}


# ------------------------------------------------------- outside a hand
def ended_C19(x):
    """step() after the end of a hand: S is the table before, x.payouts0 the
    payouts of the action that ended the hand (None: not tracked)"""
    S, T, R = x.S, x.T, range(x.n)
    c = x.c
    cl = [
        ("C19: nothing changes", And(
            Eq(T.action, S.action), Eq(T.button, S.button), Eq(T.pot, S.pot),
            Eq(T.street, S.street), Eq(T.sraises, S.sraises), Eq(T.lraise, S.lraise),
            And([And(Iff(T.active[i], S.active[i]), Eq(T.pc[i], S.pc[i]),
                     Eq(T.st[i], S.st[i]), Eq(T.sc[i], S.sc[i])) for i in R]))),
        ("C19: cards and history stay", And(
            c.seq_eq(T.comm, S.comm), c.seq_eq(T.deck, S.deck),
            And([c.seq_eq(T.hole[i], S.hole[i]) for i in R]), c.hist_same(S.hist, T.hist))),
        ("C19: all players done", And(list(x.done))),
        ("C19: one entry per player", And(Eq(len(x.done), x.n), Eq(len(x.payouts), x.n))),
        ("C19: no player to act", Eq(x.obs["action"], -1)),
        ("C19: zero call and raise sizes", And(
            Eq(x.obs["call"], 0), Eq(x.obs["min_raise"], 0), Eq(x.obs["max_raise"], 0))),
        ("C19: final payouts repeated",
         And([Eq(x.payouts[i], x.payouts0[i]) for i in R])),
    ]
    return cl
