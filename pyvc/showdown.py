"""Dealer._eval_round: division of the pot at showdown.

("showdown", "ranked", n, active seats, strength ranks, button): the whole body
is executed with the chips symbolic and the order of the hands fixed (complete
case split for small tables).
"""
import itertools
import z3

from .values import *
from .interp import *
from . import builtins as bi
from .dealer import DealerVC, Task, as_list, raises, finish, native_config
from specs import table as spec
from specs.ops import *


def weak_orders(m):
    """all weak orders of m items as rank tuples (dense, from 1)"""
    out = set()
    for t in itertools.product(range(1, m + 1), repeat=m):
        if set(t) == set(range(1, max(t) + 1)):
            out.add(t)
    return sorted(out)


def ranked_cases(n):
    """complete case split: who is in the hand, how their hands compare"""
    out = []
    for m in range(2, n + 1):
        for seats in itertools.combinations(range(n), m):
            for w in weak_orders(m):
                out.append((seats, w))
    return out


def make(program, mode, *args):
    if mode == "ranked":
        return ranked(program, *args)
    from . import showdown_all
    return showdown_all.make(program, mode, *args)


def ranked(program, n, seats, order):
    vc = DealerVC(program, n, use_contracts=False)
    ip, c = vc.ip, vc.c
    S = vc.state(seats[0])
    S.active = [i in seats for i in range(n)]
    top = 1000
    strength = [order[seats.index(i)] if i in seats else top for i in range(n)]
    vc.maxrank = top - 1

    def evaluate(ip, f, args, kw, g):
        hole = args[1]
        tag = getattr(hole, "tag", None)
        if not (isinstance(tag, str) and tag.startswith("hole")):
            raise Unsupported("cards compared at showdown")
        return strength[int(tag[4:])]

    ip.contracts[("Evaluator", "evaluate")] = evaluate
    pc = S.pc
    pre = [And([p >= 0 for p in pc]), Or(S.pot == Sum(pc), S.pot == 0),
           And(S.button >= 0, S.button < n),
           Implies(Or([pc[i] > 0 for i in range(n) if i not in seats]),
                   Or([pc[i] > 0 for i in seats]))]
    for q in pre:
        ip.assume(q)
    obj = vc.build(S)
    res = ip.call_func(vc.cls.lookup("_eval_round"), [obj], {}, True)
    got = [to_int(x) for x in as_list(ip, res, n)]
    t = Task("showdown n=%d in the hand=%s hands=%s" % (n, list(seats), list(order)))
    want = spec.showdown(n, pc, S.active, strength, S.button)
    cl = [(k, f, "post") for k, f in spec.showdown_clauses(n, pc, S.active, strength, got, want)]
    T = vc.obj.attrs
    cl.append(("showdown changes nothing at the table", And(
        And([Eq(to_int(x), y) for x, y in zip(as_list(ip, T["pot_commits"], n), pc)]),
        And([Iff(ip.truth(x), y) for x, y in zip(as_list(ip, T["active"], n), S.active)]),
        And([Eq(to_int(x), y) for x, y in zip(as_list(ip, T["stacks"], n), S.st)]),
        Eq(to_int(T["pot"]), S.pot)), "inv"))
    raises(t, ip)
    finish(t, ip, cl, vc)

    def replay(m):
        from .dealer import mval

        kw, _ = native_config(m, c, 0, n)
        for k in ("raise_sizes", "num_raises", "num_community_cards"):
            kw[k] = kw[k][-1:]
        kw["num_streets"] = 1
        a = seats[0]
        st = dict(action=a, active=list(S.active), button=mval(m, S.button),
                  pot=sum(mval(m, x) for x in pc), pc=[mval(m, x) for x in pc],
                  st=[5] * n, street=0, sc=[0] * n,
                  opt=[i != a for i in range(n)], sraises=0, lraise=0, strength=strength)
        return {"config": kw, "ops": [["inject", st], ["step", 0]]}

    t.replay = replay
    t.sampler = sampler(t, S, pc, got)
    return t


def sampler(t, S, pc, got):
    """random chips: the verifier's shares for the cross-check"""
    def f(seed, count):
        from .sample import values, ints
        import random

        rng = random.Random(seed)
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*t.pre)
        s.add(S.pot == Sum(pc))
        out = []
        for _ in range(count):
            m = values(s, rng, list(pc) + [S.button])
            if m is None:
                break
            sc = t.replay(m)
            paid = ints(m, got)
            sc["ops"].append(["expect", {"payouts": [a - b for a, b in zip(paid, ints(m, pc))]}])
            out.append(sc)
        return out
    return f
