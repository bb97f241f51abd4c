"""C18 on the real constructor: configurations are normalised or rejected."""
import random

from native.cases import *  # noqa: F401,F403

import clubs
from clubs import error
from clubs.poker.engine import Dealer

INF = float("inf")
BASE = dict(num_players=3, num_streets=2, blinds=[0, 1, 2], antes=0, raise_sizes="inf", num_raises=4,
            num_suits=4, num_ranks=13, num_hole_cards=2, num_community_cards=[3, 1],
            num_cards_for_hand=5, mandatory_num_hole_cards=0, start_stack=100)
NAMES = {"blinds": 0, "antes": 0, "raise_sizes": 1, "num_raises": 1, "num_community_cards": 1}


def val(v):
    """JSON stands in for values it can not express"""
    if isinstance(v, dict):
        return float(v["float"])
    if isinstance(v, list):
        return [val(x) for x in v]
    return v


def kwargs(kw):
    out = dict(BASE)
    out.update({k: val(v) for k, v in kw.items()})
    return out


def num(v):
    return INF if v in ("inf", INF) else v


def valid(kw):
    """a valid configuration is accepted and normalised"""
    kw = kwargs(kw)
    given = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    d = Dealer(**kw)
    n, ns = kw["num_players"], kw["num_streets"]
    ex = lambda k, m: list(given[k]) if isinstance(given[k], list) else [given[k]] * m
    eq = lambda a, b: len(a) == len(b) and all(x == y for x, y in zip(a, b))
    need(eq(d.blinds, ex("blinds", n)), "C18: blinds of every seat")
    need(eq(d.antes, ex("antes", n)), "C18: antes of every seat")
    need(eq(d.num_community_cards, ex("num_community_cards", ns)), "C18: community cards of every street")
    need(eq([num(x) for x in d.raise_sizes], [num(x) for x in ex("raise_sizes", ns)]),
         "C18: raise sizes of every street")
    need(eq([num(x) for x in d.num_raises], [num(x) for x in ex("num_raises", ns)]),
         "C18: number of raises of every street")
    need(all(kw[k] == given[k] for k in given), "C18: the given configuration is not changed")
    need(list(d.stacks) == [given["start_stack"]] * n, "C18: all stacks at the starting stack")
    need(d.action == -1 and not any(d.active) and d.pot == 0 and len(d.active) == n,
         "C18: no hand in progress")
    try:
        d.step(0)
    except error.TableResetError:
        pass
    else:
        raise Violated("C18: no hand in progress")
    need(len(d.deck.full_deck) == kw["num_suits"] * kw["num_ranks"], "C18: deck of the given shape")


def refused(kw, name):
    kw = kwargs(kw)
    expect_error(lambda: Dealer(**kw), name, "C18: invalid configuration is rejected with %s" % name)


def play(kw, kw2, seed):
    """single value and list configuration are the same game"""
    a, b = Dealer(**kwargs(kw)), Dealer(**kwargs(kw2))
    rng = random.Random(seed)
    random.seed(seed)
    a.reset()
    random.seed(seed)
    b.reset()
    for _ in range(40):
        if a.action == -1:
            break
        bet = rng.choice([0, 1, 2, 4, 10, 100, -1])
        x, y = a.step(bet), b.step(bet)
        need(x[1:] == y[1:] and all(x[0][k] == y[0][k] for k in x[0] if k != "hole_cards" and k != "community_cards"),
             "C18: a single value means that value for every seat or street")


CASES = dict(valid=valid, refused=refused, play=play)
run_script = make_run_script(CASES)
F = lambda x: {"float": str(x)}


def explore(job):
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    # wrong lengths
    for k in NAMES:
        unit = {"blinds": 1, "antes": 1, "raise_sizes": 2, "num_raises": 3, "num_community_cards": 1}[k]
        for n in range(2, 11):
            for ns in (1, 2, 3, 4):
                m = (n, ns)[NAMES[k]]
                for l in range(0, 13):
                    kw = {"num_players": n, "num_streets": ns, "blinds": 1, "num_community_cards": 1,
                          k: [unit] * l}
                    if l == m:
                        t.run("valid", kw)
                    else:
                        t.run("refused", kw, "InvalidConfigError")
                t.run("valid", {"num_players": n, "num_streets": ns, "blinds": 1, "num_community_cards": 1, k: unit})
    # raise sizes
    good = [0, 1, 2, 7, 10 ** 6, "pot", "inf", F("inf")]
    bad = [1.5, 2.0, F("-inf"), F("nan"), "Pot", "INF", "", "none", None, "1", "potinf", 0.5, "po", "in"]
    for v in good:
        t.run("valid", {"raise_sizes": v})
        t.run("valid", {"raise_sizes": [v, 3]})
        t.run("valid", {"raise_sizes": ["pot", v]})
    for v in bad:
        t.run("refused", {"raise_sizes": v}, "InvalidRaiseSizeError")
        t.run("refused", {"raise_sizes": [v, 3]}, "InvalidRaiseSizeError")
        t.run("refused", {"raise_sizes": ["inf", v]}, "InvalidRaiseSizeError")
    # hand sizes, decks
    for k in list(range(-3, 12)) + [52, 100]:
        if 1 <= k <= 5:
            t.run("valid", {"num_cards_for_hand": k})
        else:
            t.run("refused", {"num_cards_for_hand": k}, "InvalidHandSizeError")
    for s in range(-2, 8):
        for r in range(-2, 18):
            kw = {"num_suits": s, "num_ranks": r, "num_cards_for_hand": 1}
            if 1 <= s <= 4 and 1 <= r <= 13:
                t.run("valid", kw)
            elif 1 <= s <= 4:
                t.run("refused", kw, "InvalidRankError")
            elif 1 <= r <= 13:
                t.run("refused", kw, "InvalidSuitError")
    while not t.over():
        n, ns = rng.randrange(2, 11), rng.randrange(1, 6)
        kw = {"num_players": n, "num_streets": ns, "start_stack": rng.choice([0, 1, 2, 50, 10 ** 6])}
        one = dict(kw)
        pick = {"blinds": lambda: rng.choice([0, 1, 2, 5]), "antes": lambda: rng.choice([0, 1, 3]),
                "raise_sizes": lambda: rng.choice(good), "num_raises": lambda: rng.choice([0, 1, 3, "inf", F("inf")]),
                "num_community_cards": lambda: rng.choice([0, 1, 2])}
        same = True
        for k in sorted(pick):
            m = (n, ns)[NAMES[k]]
            x = rng.random()
            if x < 0.5:
                v = pick[k]()
                one[k] = v
                kw[k] = [v] * m
            else:
                one[k] = kw[k] = [pick[k]() for _ in range(m)]
        cc = kw["num_community_cards"]
        if sum(cc) + 2 * n > 52:
            continue
        t.run("valid", one)
        t.run("valid", kw)
        if kw["start_stack"]:
            t.run("play", one, kw, rng.randrange(10 ** 6))
    return t.result()
