"""C26 on the real deck: statistics of many shuffles.

random is seeded, so that a run can be repeated; every bound is so wide that
uniform shuffles exceed it in less than one of 10^12 runs."""
import itertools
import math
import random
import subprocess

from native.cases import *  # noqa: F401,F403

from clubs.poker import Deck
from clubs.poker.engine import Dealer

FAR = 9.0  # standard deviations


def far(counts, cells, clause):
    """chi square of the counts over equally likely cells"""
    n = sum(counts)
    if cells < 2 or n < 20 * cells:
        raise HarnessError("sample too small: %d in %d cells" % (n, cells))
    e = n / float(cells)
    x = sum((c - e) ** 2 / e for c in counts) + (cells - len(counts)) * e
    k = cells - 1.0
    z = ((x / k) ** (1 / 3.0) - (1 - 2 / (9 * k))) / math.sqrt(2 / (9 * k))
    need(z < FAR, "%s: chi square %.0f with %d degrees of freedom" % (clause, x, k))


def table(s, r):
    """two players with a card each, one common card if there are enough"""
    c = 1 if s * r > 3 else 0
    return dict(num_players=2, num_streets=1, blinds=0, antes=0, raise_sizes=2, num_raises=1, num_suits=s,
                num_ranks=r, num_hole_cards=1, num_community_cards=c, num_cards_for_hand=1,
                mandatory_num_hole_cards=0, start_stack=10)


def orders(kind, s, r, seed):
    """endless orders, as tuples of numbers of cards in the full deck"""
    random.seed(seed)
    rng = random.Random(seed + 1)
    if kind == "table":
        t = Dealer(**table(s, r))
        number = {int(c): k for k, c in enumerate(t.deck.full_deck)}
        while True:
            t.reset(reset_stacks=True)
            seen = list(t.community_cards) + [c for h in t.hole_cards for c in h] + list(t.deck.cards)
            yield tuple(number[int(c)] for c in seen)
    d = Deck(s, r)
    number = {int(c): k for k, c in enumerate(d.full_deck)}
    if kind.startswith("tricked"):
        # the cards below the tricked ones
        on_top = int(kind.split()[1])
        top = rng.sample(list(d.full_deck), on_top)
        d.trick(top)
        rest = [c for c in d.full_deck if not any(c is x for x in top)]
        number = {int(c): k for k, c in enumerate(rest)}
        while True:
            d.shuffle()
            got = d.draw(on_top) if rng.random() < 0.5 else None
            cards = d.cards[on_top:] if got is None else d.cards
            need(len(cards) == len(rest) and all(int(c) in number for c in cards),
                 "C26: all cards which are not tricked lie below the tricked ones")
            yield tuple(number[int(c)] for c in cards)
    while True:
        if kind == "new":
            d = Deck(s, r)
        elif kind == "again":
            d.shuffle()
        elif kind == "drawn":
            d.draw(rng.randrange(s * r + 1))
            d.shuffle()
        elif kind == "fixed draw":
            d.draw(max(1, s * r // 3))
            d.shuffle()
        elif kind == "untricked":
            cards = list(d.full_deck)
            top = cards[:max(1, len(cards) // 2)]
            d.trick(top)
            d.shuffle()
            if rng.random() < 0.5:
                d.draw(1)
            d.untrick()
            d.shuffle()
        yield tuple(number[int(c)] for c in d.cards)


def size(kind, s, r):
    return s * r - (int(kind.split()[1]) if kind.startswith("tricked") else 0)


def stream(kind, s, r, n, seed):
    return itertools.islice(orders(kind, s, r, seed), n)


def small(kind, s, r, n, seed):
    """all orders of a small deck"""
    c = {}
    for o in stream(kind, s, r, n, seed):
        c[o] = c.get(o, 0) + 1
    far(list(c.values()), math.factorial(size(kind, s, r)), "C26: every order is equally likely")


def pairs(kind, s, r, n, seed):
    """every order after every order"""
    c, last = {}, None
    for o in stream(kind, s, r, n + 1, seed):
        if last is not None:
            c[last, o] = c.get((last, o), 0) + 1
        last = o
    far(list(c.values()), math.factorial(size(kind, s, r)) ** 2,
        "C26: every order is equally likely, whatever the order was before")


def sign(o):
    seen, s = set(), 0
    for k in range(len(o)):
        if k not in seen:
            m = 0
            while k not in seen:
                seen.add(k)
                k = o[k]
                m += 1
            s ^= (m - 1) & 1
    return s


def large(kind, s, r, n, seed):
    """place of every card, neighbours and sign, also relative to the order before"""
    m = size(kind, s, r)
    names = ("", ", whatever the order was before")
    place, near, signs = [{}, {}], [{}, {}], [[0, 0], [0, 0]]
    last = None
    for o in stream(kind, s, r, n, seed):
        both = [o]
        if last is not None:
            inv = [0] * m
            for k, x in enumerate(last):
                inv[x] = k
            both.append(tuple(inv[x] for x in o))
        last = o
        for w, p in enumerate(both):
            pl, ne = place[w], near[w]
            for k in range(m):
                x = k * 64 + p[k]
                pl[x] = pl.get(x, 0) + 1
                if k:
                    x = p[k - 1] * 64 + p[k]
                    ne[x] = ne.get(x, 0) + 1
            signs[w][sign(p)] += 1
    for w in (0, 1):
        far(list(place[w].values()), m * m, "C26: every card is equally likely at every place" + names[w])
        if m > 2:
            far(list(near[w].values()), m * (m - 1), "C26: every card is equally likely behind every other" + names[w])
        far(signs[w], 2, "C26: even and odd orders are equally likely" + names[w])


def stuck(kind, s, r, seed):
    """orders of a large deck do not repeat"""
    n = 30
    need(len(set(stream(kind, s, r, n, seed))) == n, "C26: orders of a large deck do not repeat")


def tables(s, r, n, seed):
    """first hand of new tables"""
    random.seed(seed)
    c = {}
    for _ in range(n):
        t = Dealer(**table(s, r))
        number = {int(x): k for k, x in enumerate(t.deck.full_deck)}
        t.reset()
        seen = list(t.community_cards) + [x for h in t.hole_cards for x in h] + list(t.deck.cards)
        o = tuple(number[int(x)] for x in seen)
        c[o] = c.get(o, 0) + 1
    far(list(c.values()), math.factorial(s * r), "C26: every order is equally likely at a new table")


def fresh(kind):
    """runs of the program do not repeat each other"""
    here = os.path.dirname(HERE)
    out = []
    for _ in range(2):
        src = ("import sys; sys.path.insert(0, %r); sys.path.insert(0, %r)\nimport random\n"
               "from clubs.poker import Deck\nfrom clubs.poker.engine import Dealer\n" % (here, REPO))
        if kind == "deck":
            src += "c = Deck(4, 13).cards\n"
        else:
            src += "t = Dealer(**%r); t.reset(); c = t.deck.cards\n" % (table(4, 13),)
        src += "print('RESULT', [int(x) for x in c])\n"
        p = subprocess.run([sys.executable, "-B", "-c", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        lines = [x for x in p.stdout.decode("utf8").splitlines() if x.startswith("RESULT")]
        if len(lines) != 1:
            raise HarnessError(p.stderr.decode("utf8", "replace")[-300:])
        out.append(lines[0])
    need(out[0] != out[1], "C26: runs of the program do not repeat each other's orders")


CASES = dict(small=small, pairs=pairs, large=large, stuck=stuck, tables=tables, fresh=fresh)
run_script = make_run_script(CASES)
KINDS = ["again", "new", "drawn", "untricked", "table", "fixed draw"]


def explore(job):
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    part, parts = job.get("part", 0), job.get("parts", 1)
    todo = [("fresh", "deck"), ("fresh", "table"), ("tables", 1, 3, 3000, 5), ("tables", 2, 2, 6000, 5)]
    for k in KINDS:
        todo += [("small", k, 1, 2, 3000, 7), ("small", k, 1, 3, 6000, 7), ("small", k, 2, 2, 12000, 7),
                 ("small", k, 1, 5, 20000, 7), ("stuck", k, 4, 13, 7), ("stuck", k, 3, 9, 7)]
        if k == "table":
            todo = [x for x in todo if not (x[0] == "small" and x[1:4] == (k, 1, 1))]
        todo += [("large", k, 4, 13, 60000, 7), ("large", k, 2, 4, 20000, 7), ("large", k, 4, 6, 20000, 7)]
        todo += [("pairs", k, 1, 3, 6000, 7), ("pairs", k, 2, 2, 30000, 7)]
    todo += [("small", "tricked 1", 2, 2, 6000, 7), ("small", "tricked 2", 1, 5, 6000, 7),
             ("small", "tricked 3", 4, 2, 20000, 7), ("pairs", "tricked 2", 1, 5, 6000, 7),
             ("large", "tricked 1", 4, 13, 60000, 7), ("large", "tricked 2", 4, 13, 60000, 7),
             ("large", "tricked 9", 4, 13, 60000, 7), ("large", "tricked 4", 4, 9, 30000, 7),
             ("stuck", "tricked 5", 4, 13, 7)]
    todo.sort(key=lambda x: -max([y for y in x[1:] if isinstance(y, int)] + [0]))
    for k, x in enumerate(todo):
        if k % parts == part and not t.over():
            t.run(*x, limit=120.0)
    while not t.over() and job.get("more"):
        s, r = rng.randrange(1, 5), rng.randrange(1, 14)
        k = rng.choice(KINDS)
        if s * r < 2:
            continue
        if rng.random() < 0.3:
            k = "tricked %d" % rng.randrange(1, s * r)
        n = size(k, s, r)
        if n < 2:
            continue
        seed = rng.randrange(10 ** 6)
        if n <= 5:
            t.run("small", k, s, r, 20000, seed)
        elif n <= 6:
            t.run("small", k, s, r, 40000, seed)
        else:
            t.run("large", k, s, r, 30 * n ** 2 // (n - 1) * 20, seed, limit=120.0)
    return t.result()
