"""Dealer.win_probabilities (C17).

The run-outs are a family (all combinations of the missing cards from the
undealt cards); one arbitrary member stands for all of them.  The loop over the
family has a contract: every run-out adds one to exactly the players in the
hand whose hand is best, and the state of the loop is nothing but these counts.
What follows the loop is verified for any counts the contract allows."""
import ast
import itertools

import z3

from .values import *
from .interp import *
from . import builtins as bi
from .dealer import DealerVC, Task, raises, snap, same_snap
from specs.ops import *


class Draw(object):
    """the missing community cards: one arbitrary run-out"""

    def __init__(self, desc):
        self.desc = desc

    def arith(self, ip, op, a, b, g):
        if op != "Add":
            raise Unsupported("operator on a run-out")
        if isinstance(b, Draw) and isinstance(a, (SeqRef, PyList)):
            return Board(a, b)
        if isinstance(a, Draw) and isinstance(b, (SeqRef, PyList)):
            return Board(b, a)
        raise Unsupported("operator on a run-out")

    def listed(self):
        return Draw(self.desc)


class Board(object):
    """community cards completed by a run-out"""

    def __init__(self, known, draw):
        self.known, self.draw = known, draw

    def listed(self):
        return Board(self.known, self.draw)

    def __repr__(self):
        return "<%r + run-out %d>" % (self.known, id(self.draw))


def make(program, n):
    vc = DealerVC(program, n)
    ip, c = vc.ip, vc.c
    f = vc.cls.lookup("win_probabilities")
    if not isinstance(f, Func):
        raise Unsupported("no method win_probabilities")
    t = Task("win probabilities n=%d" % n)
    S = vc.state(0)
    S.action = z3.Int("s_action")
    S.active[0] = z3.Bool("s_active0")
    pre = [g for _, g in c.pre] + vc.card_pre
    pre += [S.street >= 0, S.street < c.ns, Or(S.active), c.enough, And(S.button >= 0, S.button < n)]
    pre += [And(S.action >= 0, S.action < n)]
    for q in pre:
        ip.assume(q)
    obj = vc.build(S)
    a = obj.attrs
    a["deck"].attrs["full_deck"] = SeqRef([Slice("deck", z3.IntVal(0), c.L)])
    before = {k: snap(v) for k, v in a.items()}
    deck0 = snap(a["deck"].attrs["cards"])
    hole0 = [snap(h) for h in a["hole_cards"].items]
    e = [z3.Int("strength%d" % i) for i in range(n)]
    for x in e:
        ip.assume(And(x >= 0, x <= vc.maxrank))
    other = {}
    draws = []
    clauses = []

    def combs(ip, args, g):
        if len(args) != 2 or not isinstance(args[0], SeqRef):
            return NotImplemented
        k = lift(to_int(args[1]))
        ip.require("C17: run-outs complete the community cards", g,
                   k == c.cc(c.ns - 1) - S.comm.length(), "lemma")
        ip.require("C17: run-outs are drawn from the undealt cards", g,
                   c.seq_eq(args[0], S.deck), "lemma")
        ip.require("number of missing cards not negative", g, k >= 0, "pre")
        d = Draw(("run-outs", len(draws)))
        draws.append(d)
        return Family(d.desc, d)
    ip.hooks["combinations"] = combs

    def evaluate(ip, f, args, kw, g):
        if kw or len(args) != 3:
            raise Unsupported("call of evaluate")
        hole, board = args[1], args[2]
        tag = getattr(hole, "tag", None)
        if isinstance(tag, str) and tag.startswith("hole") and isinstance(board, Board) \
                and isinstance(board.known, SeqRef) and c.seq_eq(board.known, S.comm) is True:
            return e[int(tag[4:])]
        key = (tag or repr(hole), repr(board))
        if key not in other:
            x = z3.Int("other_strength%d" % len(other))
            ip.assume(And(x >= 0, x <= vc.maxrank))
            other[key] = x
        return other[key]
    ip.contracts[("Evaluator", "evaluate")] = evaluate

    W = [z3.Int("won%d" % i) for i in range(n)]
    act = S.active
    best = [And(act[i], And([Implies(act[j], e[i] <= e[j]) for j in range(n)])) for i in range(n)]
    loops = []

    def loop(ip, st, fr, g, it):
        if not isinstance(it, Family):
            return NotImplemented
        if not isinstance(st, ast.For) or g is not True or ip.abs(fr, g) is not True:
            raise Unsupported("loop over the run-outs")
        if loops or not draws or it.desc != draws[-1].desc:
            raise Unsupported("second loop over the run-outs")
        loops.append(st)
        env = dict(fr.env)
        lists = {v: x for v, x in env.items() if isinstance(x, PyList) and x.guards is None
                 and len(x.items) == n and all(type(y) is int for y in x.items)}
        first = {v: list(x.items) for v, x in lists.items()}
        ints = {v for v, x in env.items() if type(x) is int and x == 0}
        kept = {v: snap(x) for v, x in env.items()}

        def body():
            lp = Loop()
            fr.loops.append(lp)
            ip.assign(st.target, it.item, fr, True)
            live = ip.exec_block(st.body, fr, True)
            fr.loops.pop()
            if st.orelse:
                raise Unsupported("else of the loop over the run-outs")
            ip.require("C17: every run-out is counted", True, And(Or(live, lp.cont), Not(lp.brk)), "lemma")

        written = {x.id for y in st.body for x in ast.walk(y) if isinstance(x, ast.Name)
                   and isinstance(x.ctx, ast.Store)} | set(names_of(st.target))
        acc = {}
        for v, x in lists.items():
            x.items[:] = W
        for v in ints & written:
            acc[v] = fr.env[v] = z3.Int("total_" + v)
            ip.assume(fr.env[v] == Sum(W))
        for v in written - set(lists) - set(acc):
            fr.env.pop(v, None)
        ip.assume(And([w >= 0 for w in W] + [Implies(Not(act[i]), W[i] == 0) for i in range(n)]))
        body()
        moved = []
        for v in lists:
            x = fr.env.get(v)
            if v in written and x is not lists[v]:
                if not isinstance(x, PyList) or x.guards is not None or len(x.items) != n:
                    raise Unsupported("counts of the run-outs")
            new = [lift(to_int(y)) for y in x.items]
            if all(p is q for p, q in zip(new, W)):
                continue
            moved.append(v)
            ip.require("C17: counts start at zero", True, all(y == 0 for y in first[v]), "lemma")
            for i in range(n):
                ip.require("C17: a run-out counts for player %d exactly if the hand is best" % i, True,
                           new[i] == W[i] + B2I(best[i]), "lemma")
        if len(moved) != 1:
            raise Unsupported("counts of the run-outs: %s" % moved)
        for v in acc:
            ip.require("loop over the run-outs: %s is the sum of the counts" % v, True,
                       lift(to_int(fr.env[v])) == Sum(W) + Sum([B2I(b) for b in best]), "loop")
        for v, x in env.items():
            if v not in written and v not in lists and not same_snap(kept[v], fr.env.get(v)):
                raise Unsupported("loop over the run-outs changes %s" % v)
        # after all run-outs (there is at least one): counts as the contract allows
        fr.env.clear()
        fr.env.update({v: x for v, x in env.items() if v not in written or v in lists or v in acc})
        for v, x in lists.items():
            fr.env[v] = PyList(list(W) if v in moved else first[v])
            if v not in written:
                fr.env[v] = x
                x.items[:] = W if v in moved else first[v]
        for v in acc:
            fr.env[v] = Sum(W)
        ip.assume(Sum(W) >= 1)
        return g
    ip.hooks["family_loop"] = loop

    res = ip.call_func(f, [obj], {}, True)
    if not loops:
        raise Unsupported("no loop over the run-outs")
    t.pre = ip.assumptions
    k = len(ip.assumptions)
    if isinstance(res, PyList) and res.guards is None and len(res.items) == n:
        for i, x in enumerate(res.items):
            x = real(x)
            clauses += [("C17: probability of player %d is the share of winning run-outs" % i,
                         x * z3.ToReal(lift(Sum(W))) == z3.ToReal(W[i])),
                        ("C17: probability of player %d is not negative" % i, x >= 0),
                        ("C17: probability of player %d is zero after folding" % i,
                         Implies(Not(act[i]), x == 0))]
        clauses.append(("C17: probabilities sum to one", z3.Sum([real(x) for x in res.items]) == 1))
    else:
        raise Unsupported("result of win_probabilities")
    same = [(x, same_snap(before[x], a.get(x))) for x in before if x != "action"]
    same.append(("action", a["action"] is S.action))
    same.append(("deck", same_snap(deck0, a["deck"].attrs["cards"])))
    same += [("hole_cards", same_snap(h, x)) for h, x in zip(hole0, a["hole_cards"].items)]
    clauses.append(("C17: computing them changes nothing at the table",
                    bool(all(x for _, x in same))))
    raises(t, ip)
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, o.kind, o.nassume))
    for name, g in clauses:
        t.obs.append((name, g, "lemma" if "changes" in name else "post", k))
    t.pre, t.vc = ip.assumptions, vc
    t.replay = replays(n)
    return t


def real(x):
    if isinstance(x, z3.ArithRef) and x.is_real():
        return x
    return z3.ToReal(lift(to_int(x)))


def replays(n):
    """hands in which several players can win, tie and fold"""
    import random

    rng = random.Random(n)

    def f(m):
        k, s, r = rng.choice([(2, 4, 4), (3, 4, 5), (5, 4, 6), (1, 4, 8), (2, 2, 13)])
        cc = rng.choice([[1, 1], [0, 1, 1], [2, 0, 1], [2, 1]])
        players = min(n, (s * r - sum(cc) - 2) // 2)
        kw = dict(num_players=max(2, players), num_streets=len(cc), blinds=1, antes=rng.choice([0, 1]),
                  raise_sizes=None, num_raises=9, num_suits=s, num_ranks=r, num_hole_cards=2 if k > 1 else 1,
                  num_community_cards=cc, num_cards_for_hand=k, mandatory_num_hole_cards=0,
                  start_stack=100)
        bets = [rng.choice([1, 1, 2, -1]) for _ in range(rng.randrange(0, 8))]
        return {"case": "hand", "args": [kw, rng.randrange(10 ** 6), bets]}
    return f
