"""Cross-check of the verifier against the interpreter.

For a verified operation on the table, random states that satisfy its
assumptions are taken from the solver; the result the verifier computes for
them (its terms, evaluated) is compared with what the real code does when run
from the same state (native/table.py, op "expect").  A difference is a fault of
the verifier's translation of Python, not of the code under test."""
import random

import z3

from .dealer import mval
from specs.ops import *


def values(solver, rng, wishes, top=12):
    """a random model: as many wishes (variable -> range) as possible"""
    picked = []
    rng.shuffle(wishes)
    for v in wishes:
        if not z3.is_expr(v) or z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v):
            continue
        if z3.is_bool(v):
            w = v if rng.random() < 0.7 else z3.Not(v)
        else:
            w = v == rng.choice([0, rng.randrange(1, 4), rng.randrange(top), rng.randrange(3 * top)])
        if solver.check(picked + [w]) == z3.sat:
            picked.append(w)
    if solver.check(picked) != z3.sat:
        return None
    return solver.model()


def small_config(c):
    out = [c.ns >= 1, c.ns <= 3, c.nh == 1, c.L == 52]
    wish = [c.ns]
    for i in range(3):
        out += [c.N(z3.IntVal(i)) >= 0, c.N(z3.IntVal(i)) <= 3]
        wish += [c.N(z3.IntVal(i)), c.K(z3.IntVal(i)), c.NI(z3.IntVal(i)), c.NK(z3.IntVal(i)), c.R(z3.IntVal(i))]
    return out, wish


def ints(m, vs):
    return [mval(m, v) for v in vs]


def bools(m, vs):
    return [bool(mval(m, v)) for v in vs]


def expected(m, T, obs, n, compared):
    """public results of the operation; compared: cards were compared, so
    that chips depend on them"""
    act = mval(m, T.action)
    e = dict(action=act, active=bools(m, T.active), button=mval(m, T.button),
             pc=ints(m, T.pc), street=mval(m, T.street), sc=ints(m, T.sc), pot=mval(m, T.pot))
    if not compared:
        e["st"] = ints(m, T.st)
    e["sizes"] = [mval(m, obs[k]) for k in ("call", "min_raise", "max_raise")]
    return e


def step_sampler(t, vc, S, bet, T, x, obs, payouts, done):
    def f(seed, count):
        rng = random.Random(seed)
        conf, wish = small_config(vc.c)
        s = z3.Solver()
        s.set("timeout", 3000)
        s.set("random_seed", seed % 1000)
        s.add(*t.pre)
        s.add(*conf)
        out = []
        every = S.st + S.pc + S.sc + S.active + S.opt + [S.button, S.street, S.sraises, S.lraise, bet] + list(
            vc.c.blinds) + list(vc.c.antes) + wish
        for _ in range(count):
            m = values(s, rng, list(every))
            if m is None:
                break
            sc = t.replay(m)
            low = mval(m, S.street) - sc["ops"][0][1]["street"]
            cmp = bool(mval(m, lift(x.evaluated))) if x.evaluated is not None else False
            e = expected(m, T, obs, vc.n, cmp)
            e["street"] -= low
            e["done"] = bools(m, [lift(d) for d in done])
            if not cmp:
                e["payouts"] = ints(m, payouts)
            sc["ops"].append(["expect", e])
            out.append(sc)
        return out
    return f


def reset_sampler(t, vc, S, T, obs):
    def f(seed, count):
        rng = random.Random(seed)
        conf, wish = small_config(vc.c)
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*t.pre)
        s.add(*conf)
        out = []
        every = [v for v in S.st] + [S.button, vc.c.start] + list(vc.c.blinds) + list(vc.c.antes) + wish
        for _ in range(count):
            m = values(s, rng, list(every))
            if m is None:
                break
            sc = t.replay(m)
            sc["ops"].append(["expect", expected(m, T, obs, vc.n, False)])
            out.append(sc)
        return out
    return f
