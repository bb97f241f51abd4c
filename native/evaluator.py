"""C14, C15 and C16 on the real evaluator."""
import itertools
import random

from native.cases import *  # noqa: F401,F403
from specs import poker as P

from clubs import error
from clubs.poker import Card, Deck, Evaluator

RANKS = "23456789TJQKA"
SUITS = "SHDC"
DECK = {}
for _i, _a in enumerate(RANKS):
    for _j, _b in enumerate(SUITS):
        DECK[_i, _j] = Card(_a + _b)

_ev = {}
_hands = {}


def ev(s, r, k, mand=0, low=True, order=None):
    key = (s, r, k, mand, low, None if order is None else tuple(order))
    if key not in _ev:
        if len(_ev) > 12:
            _ev.clear()
        _ev[key] = Evaluator(s, r, k, mand, low, None if order is None else list(order))
    return _ev[key]


def hands_of(s, r, k, low):
    key = (s, r, k, low)
    if key not in _hands:
        if len(_hands) > 6:
            _hands.clear()
        _hands[key] = P.shape_hands(*key)
    return _hands[key]


def cards_of(ranks, suited, s, rng):
    """a hand of the given ranks with random suits"""
    k = len(ranks)
    if suited:
        j = rng.randrange(s)
        out = [(x, j) for x in ranks]
    else:
        for _ in range(100):
            out = []
            for x in sorted(set(ranks)):
                for j in rng.sample(range(s), ranks.count(x)):
                    out.append((x, j))
            if len(set(ranks)) < k or k < 2 or len(set(j for _, j in out)) > 1:
                break
    rng.shuffle(out)
    return out


def shape(s, r, k, low, order, seed, full, props):
    """the whole table of one deck shape against the rules"""
    rng = random.Random(seed)
    e = Evaluator(s, r, k, 0, low, None if order is None else list(order))
    hands = hands_of(s, r, k, low)
    rank = {}
    best = {}
    rows = []
    maxr = e.table.max_rank
    for ranks, suited, cls, key, cnt in hands:
        got = None
        for rep in range(2 if cnt > 1 else 1):
            cs = [DECK[c] for c in cards_of(ranks, suited, s, rng)]
            v = e.table.lookup(list(cs)) if rep else e.evaluate(cs, [])
            if got is None:
                got = v
            elif "C14" in props:
                need(v == got, "C14: equal hands of other suits have equal rank")
        rows.append((cls, key, got))
        if "C14" in props:
            need(0 <= got <= maxr, "C14: every possible hand has a rank between 0 and the worst")
        rank[ranks, suited] = got
        if cls not in best or got < best[cls]:
            best[cls] = got
        if "C16" in props:
            need(e.get_rank_class(got) == cls, "C16: rank maps back to the class of the hand")
    classes = sorted(best, key=lambda c: best[c])
    if "C14" in props:
        force = [P.NAME[o] for o in order if P.NAME[o] in best] if order is not None else classes
        idx = {c: i for i, c in enumerate(force)}
        rows.sort(key=lambda x: (idx[x[0]], [-y for y in x[1]]))
        for x, y in zip(rows, rows[1:]):
            if x[0] == y[0] and x[1] == y[1]:
                need(x[2] == y[2], "C14: equal rank means true tie (%s)" % x[0])
            else:
                need(x[2] < y[2], "C14: better hands have lower ranks (%s, %s)" % (x[0], y[0]))
        if full:
            deck = [(x, j) for x in range(12, 12 - r, -1) for j in range(s)]
            look = e.table.lookup
            for comb in itertools.combinations(deck, k):
                rs = tuple(x for x, _ in comb)
                su = len(set(j for _, j in comb)) == 1
                if k == 1:
                    su = True
                need(look([DECK[c] for c in comb]) == rank[rs, su],
                     "C14: all hands of the same ranks and suitedness have the same rank")
    if "C16" in props:
        listed = getattr(e.table, "ranked_hands", None)
        if listed is not None:
            need(sorted(listed) == sorted(best), "C16: exactly the possible classes have ranks")
            need(list(listed) == classes, "C16: the classes are listed from best to worst")
        if order is not None:
            want = [P.NAME[o] for o in order if P.NAME[o] in best]
            need(classes == want, "C16: custom order is followed for the possible classes")
        else:
            freq = P.frequencies(hands)
            for a, b in zip(classes, classes[1:]):
                need(freq[a] <= freq[b], "C16: classes ordered by rarity (%s before %s)" % (a, b))
        ranks_ = sorted(set(rank.values()))
        for bad in (-1, -2, -1000, maxr + 1, maxr + 2, 10 ** 9):
            expect_error(lambda: e.get_rank_class(bad), "InvalidHandRankError",
                         "C16: ranks outside the valid range are rejected")
        need(ranks_[0] >= 0 and ranks_[-1] <= maxr, "C16: ranks of hands are valid")


def bad_order(s, r, k, order):
    expect_error(lambda: Evaluator(s, r, k, 0, True, order), "InvalidOrderError",
                 "C16: anything but a permutation of the class names is rejected")


def evaluate(s, r, k, mand, low, order, hole, comm):
    """hole and comm: lists of [rank, suit]"""
    e = ev(s, r, k, mand, low, order)
    plain = ev(s, r, k, 0, low, order)
    H = [DECK[tuple(c)] for c in hole]
    B = [DECK[tuple(c)] for c in comm]
    h0, b0 = list(H), list(B)
    got = e.evaluate(H, B)
    need(len(H) == len(h0) and len(B) == len(b0) and all(x is y for x, y in zip(H + B, h0 + b0)),
         "C15: evaluation leaves the cards alone")
    if mand:
        legal = [a + b for a in itertools.combinations(h0, mand)
                 for b in itertools.combinations(b0, k - mand)]
    else:
        legal = list(itertools.combinations(h0 + b0, k))
    if not legal:
        need(got == e.table.max_rank, "C15: too few cards have the worst possible rank")
        return
    want = min(plain.table.lookup(list(c)) for c in legal)
    need(got == want, "C15: best rank over exactly the legal combinations")
    # the best hand by the rules
    sc = []
    for c in legal[:4000]:
        rs = tuple(sorted((RANKS.index(x.rank) for x in c), reverse=True))
        su = len(set(x.suit for x in c)) == 1
        cl, key = P.classify(rs, su, s, r, low)
        sc.append((cl, key))
    if order is not None and len(legal) <= 4000:
        idx = {P.NAME[o]: i for i, o in enumerate(order)}
        top = min(sc, key=lambda x: (idx[x[0]], [-y for y in x[1]]))
        need(e.get_rank_class(got) == top[0], "C15: best legal hand by the rules")
    rng = random.Random(len(H) * 31 + len(B))
    for _ in range(2):
        rng.shuffle(H)
        rng.shuffle(B)
        need(e.evaluate(H, B) == got, "C15: independent of the order of the cards")
    for x, y in ((h0[:-1], b0), (h0, b0[:-1])):
        if len(x) + len(y) < len(h0) + len(b0):
            need(e.evaluate(x, y) >= got, "C15: more cards never make it worse")


CASES = dict(shape=shape, bad_order=bad_order, evaluate=evaluate)


def run_script(script, props):
    if script["case"] == "shape" and len(script["args"]) > 7:
        # the property under check only
        mine = [p for p in script["args"][7] if p in props] or script["args"][7]
        script = dict(script, args=script["args"][:7] + [mine])
    return make_run_script(CASES)(script, props)


FINDING = ("three-suit decks with hands of four or five cards count three of a kind with comb(suits, 3) "
           "instead of suits for each kicker (clubs/poker/evaluator.py LookupTable._three_of_a_kind; the "
           "repository's own test_5_card asserts the resulting class order), so the rarity order is wrong")


def known(script, clause):
    """the recorded defect: exactly the order that follows from the wrong count
    of three of a kind"""
    if script["case"] != "shape" or not clause.startswith("C16: classes ordered by rarity"):
        return None
    s, r, k, low, order = script["args"][:5]
    if s != 3 or k < 4 or order is not None:
        return None
    hands = P.shape_hands(s, r, k, low)
    freq = P.frequencies(hands)
    freq["three of a kind"] = r * P.ncr(r - 1, k - 3)
    e = Evaluator(s, r, k, 0, low)
    best = {}
    rng = random.Random(0)
    for ranks, suited, cls, key, cnt in hands:
        v = e.evaluate([DECK[c] for c in cards_of(ranks, suited, s, rng)], [])
        best[cls] = min(v, best.get(cls, v))
    order = sorted(best, key=lambda c: best[c])
    if all(freq[a] <= freq[b] for a, b in zip(order, order[1:])):
        return FINDING
    return None


def shapes():
    return [(s, r, k, low) for s in range(1, 5) for r in range(1, 14) for k in range(1, 6)
            for low in (True, False) if s * r >= k]


def random_order(rng):
    o = list(P.CODES)
    k = rng.random()
    if k < 0.4:
        rng.shuffle(o)
    else:
        for _ in range(rng.randrange(0, 3)):
            i, j = rng.randrange(9), rng.randrange(9)
            o[i], o[j] = o[j], o[i]
    return o


def tables(job):
    """part `part` of `parts` of all deck shapes"""
    t = Tally(job, CASES, known)
    rng = random.Random(job["seed"])
    props = job["props"]
    sh = sorted(shapes(), key=lambda x: -P.ncr(x[0] * x[1], x[2]))
    full = job.get("full", 0)
    done = 0
    for i, (s, r, k, low) in enumerate(sh):
        if i % job["parts"] != job["part"]:
            continue
        t.run("shape", s, r, k, low, None, rng.randrange(10 ** 6),
              P.ncr(s * r, k) <= full, props, limit=600.0)
        for _ in range(job.get("orders", 1)):
            t.run("shape", s, r, k, low, random_order(rng), rng.randrange(10 ** 6), False, props)
        done += 1
        if t.over():
            break
    return t.result(shapes=done, obligations=t.n, discharged=t.n - len([v for v in t.viol if v["known"] is None]),
                    exhaustive=t.complete)


def orders(job):
    t = Tally(job, CASES, known)
    rng = random.Random(job["seed"])
    C = P.CODES
    bad = [[], C[:-1], C + ["hc"], C[:-1] + ["sf"], ["sf"] * 9, C[:-1] + ["xx"], C[1:], C + C,
           P.NAMES, [c.upper() for c in C], C[:-1] + [""], ["hc"]]
    for s, r, k in ((4, 13, 5), (3, 13, 5), (4, 13, 3), (1, 3, 1), (2, 3, 2)):
        for b in bad:
            t.run("bad_order", s, r, k, b)
        for i in range(9):
            for j in range(9):
                if i != j:
                    b = list(C)
                    b[i] = b[j]
                    t.run("bad_order", s, r, k, b)
    sh = shapes()
    while not t.over():
        s, r, k, low = rng.choice(sh)
        if r * s > 30 and rng.random() < 0.7:
            continue
        t.run("shape", s, r, k, low, random_order(rng), rng.randrange(10 ** 6), False, job["props"])
    return t.result()


def combos(job):
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    sh = shapes()
    while not t.over():
        s, r, k, low = rng.choice(sh) if rng.random() < 0.5 else (4, 13, rng.choice([3, 4, 5, 5]), True)
        order = random_order(rng)
        for _ in range(60):
            mand = rng.choice([0, 0, 1, 2, 3, 4, 5])
            mand = min(mand, k)
            if t.over():
                break
            nh, nc = rng.randrange(0, 6), rng.randrange(0, 7)
            deck = [[12 - x, j] for x in range(r) for j in range(s)]
            cs = rng.sample(deck, min(nh + nc, len(deck)))
            nh = min(nh, len(cs))
            o = order if rng.random() < 0.7 else None
            t.run("evaluate", s, r, k, mand, low, o, cs[:nh], cs[nh:])
    return t.result()
