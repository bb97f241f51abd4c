"""Card and Deck: contracts of clubs/poker/card.py (C12, C13).

("cards", "shapes", s)     Deck.__init__ for s suits and all numbers of ranks
("cards", "sizes")         Deck.__init__ rejects all other integers
                           (with a C26 obligation: the arrangement drawn by
                           random.shuffle is determined by the resulting order,
                           so that all orders are equally likely)
("cards", "draw")          Deck.draw, any deck and any number of cards
("cards", "ops", ops...)   sequences of trick / untrick / shuffle on a deck of
                           any size with any distinct cards on top
("cards", "spellings", r)  Card.__init__ for all spellings of rank r
("cards", "characters")    Card.__init__ rejects all other characters
("cards", "operators")     operators of cards with any value
("cards", "equality", r)   equality of all pairs of cards
"""
import ast

import z3

from .values import *
from .interp import *
from . import builtins as bi
from .dealer import Task, raises
from specs.ops import *

CARD = "clubs/poker/card.py"
RANKS = "23456789TJQKA"
SUITS = "SHDC"
SYMBOL = {"S": u"\u2660", "H": u"\u2665", "D": u"\u2666", "C": u"\u2663"}
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]


def value(r, s):
    """the documented 32 bit layout"""
    return (1 << (16 + r)) + (1 << (12 + s)) + r * 256 + PRIMES[r]


class VC(object):
    def __init__(self, program):
        self.ip = Interp(program)
        self.mod = self.ip.module(CARD)
        for n in ("Card", "Deck"):
            if not isinstance(self.mod.attrs.get(n), Cls):
                raise Unsupported("class %s not found" % n)
        self.Card, self.Deck = self.mod.attrs["Card"], self.mod.attrs["Deck"]


def finish(t, vc, clauses):
    ip = vc.ip
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, o.kind, o.nassume))
    k = len(ip.assumptions)
    for name, f in clauses:
        t.obs.append((name, f, "inv" if name[0] != "C" else "lemma" if getattr(vc, "weak", False) else "post", k))
    t.pre, t.vc = ip.assumptions, vc


def make(program, what, *args):
    return globals()["do_" + what](program, *args)


# ------------------------------------------------------------------ C12
def card_int(ip, c):
    if isinstance(c, PyObj):
        return bi.intlike(ip, c, True, "int")
    raise Unsupported("card expected")


def state_attrs(o):
    """constant attributes other than the cards"""
    return {k: v for k, v in o.attrs.items() if k not in ("cards", "full_deck", "num_ranks", "num_suits")}


def plain(v):
    if isinstance(v, PyList) and not v.items:
        return "[]"
    if isinstance(v, PyDict) and not v.d:
        return "{}"
    if isinstance(v, PySet) and not v.items:
        return "set()"
    if conc(v):
        return repr(v)
    raise Unsupported("deck attribute that depends on the shape: %r" % (v,))


def init_deck(vc, s, r, arrange=None):
    """Deck.__init__ with shuffling by contract; returns (deck, the list that
    was shuffled)"""
    ip = vc.ip
    done = []

    def shuffle(ip, l, g):
        if not isinstance(l, PyList) or l.guards is not None:
            raise Unsupported("random.shuffle")
        if arrange is not None:
            l.items[:] = arrange(l.items)
        done.append((l, list(l.items)))
    ip.hooks["shuffle"] = shuffle
    d = ip.construct(vc.Deck, [s, r], {}, True)
    return d, done


def arranged(vc, s, r, arrange):
    """places of the final order in the drawn one"""
    d, done = init_deck(vc, s, r, arrange)
    mine = {id(x): k for k, x in enumerate(done[-1][1])}
    return [mine.get(id(x)) for x in d.attrs["cards"].items]


def do_shapes(program, s):
    vc = VC(program)
    ip = vc.ip
    cl = []
    first = None
    for r in range(1, 14):
        d, done = init_deck(vc, s, r)
        full = d.attrs.get("full_deck")
        cards = d.attrs.get("cards")
        if not isinstance(full, PyList) or not isinstance(cards, PyList):
            raise Unsupported("deck lists")
        want = sorted(value(k, j) for k in range(13 - r, 13) for j in range(s))
        cl.append(("C12: holds each card of the shape exactly once",
                   sorted(card_int(ip, c) for c in full.items) == want))
        cl.append(("C12: a new deck holds all its cards",
                   sorted(card_int(ip, c) for c in cards.items) == want))
        cl.append(("C12: a new deck has its own list of cards", cards is not full))
        # nothing but the drawn arrangement of all cards decides the order
        last = done[-1][1] if done else []
        mine = {id(x): k for k, x in enumerate(last)}
        order = [mine.get(id(x)) for x in cards.items]
        if order == list(range(s * r)):
            cl.append(("C26: a new deck is shuffled", True))
        elif None not in order and len(set(order)) == s * r:
            if not all(arranged(vc, s, r, a) == order for a in (lambda l: l[::-1], lambda l: l[1:] + l[:1])):
                cl.append(("C26: a new deck is shuffled", False))
            else:
                raise Unsupported("the shuffled deck is rearranged")
        else:
            cl.append(("C26: a new deck is shuffled", s * r < 2))
        st = {k: plain(v) for k, v in state_attrs(d).items()}
        if first is None:
            first = st
        if st != first:
            raise Unsupported("deck attributes depend on the shape")
        if not (d.attrs.get("num_ranks") == r and d.attrs.get("num_suits") == s):
            raise Unsupported("deck sizes")
    t = Task("Deck(%d, 1..13)" % s)
    raises(t, ip)
    finish(t, vc, cl)
    return t


def do_sizes(program):
    vc = VC(program)
    ip = vc.ip
    s, r = z3.Int("num_suits"), z3.Int("num_ranks")
    okr, oks = And(r >= 1, r <= 13), And(s >= 1, s <= 4)
    ip.assume(Not(And(okr, oks)))
    ip.check_dead = True
    k = len(ip.assumptions)
    dead = False
    try:
        ip.construct(vc.Deck, [s, r], {}, True)
    except PathEnd:
        dead = True
    t = Task("Deck(s, r) with invalid sizes")
    rank = Or([g for g, e, _ in ip.raises if e == "InvalidRankError"])
    suit = Or([g for g, e, _ in ip.raises if e == "InvalidSuitError"])
    t.obs.append(("C12: invalid deck sizes are rejected", Or(rank, suit), "post", k))
    t.obs.append(("C12: invalid number of ranks is rejected with InvalidRankError",
                  Implies(And(Not(okr), oks), rank), "post", k))
    t.obs.append(("C12: invalid number of suits is rejected with InvalidSuitError",
                  Implies(And(okr, Not(oks)), suit), "post", k))
    raises(t, ip, ("InvalidRankError", "InvalidSuitError"))
    t.pre, t.vc, t.empty_ok = ip.assumptions[:k], vc, True
    t.obs = [(a, b, c, min(d, k)) for a, b, c, d in t.obs]
    t.replay = lambda m: {"case": "bad_deck", "args": [
        m.eval(s, model_completion=True).as_long(), m.eval(r, model_completion=True).as_long()]}
    return t


def generic_deck(vc):
    """a deck of any size in the state the constructor leaves"""
    ip = vc.ip
    d, _ = init_deck(vc, 2, 3)
    e, _ = init_deck(vc, 4, 13)
    del ip.hooks["shuffle"]
    a = {k: plain(v) for k, v in state_attrs(d).items()}
    if a != {k: plain(v) for k, v in state_attrs(e).items()}:
        raise Unsupported("deck attributes depend on the shape")
    s, r = z3.Int("num_suits"), z3.Int("num_ranks")
    n = z3.Int("deck_size")
    ip.assume(And(s >= 1, s <= 4, r >= 1, r <= 13, n == s * r))
    isin = lambda x: And(x >= 0, x < n)
    d.attrs["num_suits"], d.attrs["num_ranks"] = s, r
    d.attrs["full_deck"] = Fn(n, lambda i: Elem("card", lift(i)), isin, lambda x: lift(x), tag="full")
    d.attrs["cards"] = Fn(z3.Int("left"), None, tag="cards left")
    return d, n


def top_list(vc, n, name):
    """any list of distinct cards of the deck"""
    ip = vc.ip
    T = z3.Int(name + "_len")
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    pos = z3.Function(name + "_pos", z3.IntSort(), z3.IntSort())
    j = z3.Int("j")
    ip.assume(And(T >= 0, T <= n))
    ip.assume(z3.ForAll([j], Implies(And(j >= 0, j < T), And(f(j) >= 0, f(j) < n, pos(f(j)) == j)),
                        patterns=[f(j)]))
    has = lambda x: And(pos(x) >= 0, pos(x) < T, f(pos(x)) == x, x >= 0, x < n)
    return Fn(T, lambda i: Elem("card", f(lift(i))), has, lambda x: pos(x), tag=name), f, T


def do_ops(program, *ops):
    vc = VC(program)
    ip = vc.ip
    d, n = generic_deck(vc)
    top = None
    cl = []
    init = {k: plain(v) for k, v in state_attrs(d).items()}
    for k, op in enumerate(ops):
        full = d.attrs["full_deck"]
        before = dict(d.attrs)
        if op == "trick":
            lst, f, T = top_list(vc, n, "top%d" % k)
            ip.call_func(vc.Deck.lookup("trick"), [d, lst], {}, True)
            top = (f, T)
            cl.append(("after trick the deck knows the new cards only", forgets(
                d, ["top%d" % i for i in range(k)], init)))
        elif op == "untrick":
            ip.call_func(vc.Deck.lookup("untrick"), [d], {}, True)
            top = None
            cl.append(("after untrick the deck is as it was created", all(
                k in init and plain(v) == init[k] for k, v in state_attrs(d).items())))
        else:
            drawn = len(getattr(ip, "draws", ()))
            res = ip.call_func(vc.Deck.lookup("shuffle"), [d], {}, True)
            cl += shuffle_post(vc, d, n, full, res, top, k)
            cl += uniform(vc, d, n, ip.draws[drawn:] if hasattr(ip, "draws") else [], k, top[1] if top else 0)
        cl.append(("%s changes nothing else" % op, all(
            d.attrs.get(a) is before[a] for a in before
            if a == "full_deck" or a[:4] == "num_" or (op == "shuffle" and a != "cards"))))
    t = Task("Deck: " + ", ".join(ops))
    raises(t, ip)
    finish(t, vc, cl)
    t.replay = lambda m: {"case": "deck_ops", "args": [2, 3, 1, [
        ["trick", ["4S", "AH"] if k % 2 else ["KH", "QS"]] if op == "trick" else [op]
        for k, op in enumerate(ops)]]} if False else None
    return t


def forgets(d, names, init):
    """the state consists of constants and of lists of the last trick"""
    j = z3.Int("j")
    for k, v in state_attrs(d).items():
        if k not in init:
            return False
        if isinstance(v, Fn):
            if v.get is None:
                continue
            txt = str(code(v.get(j))) + " " + str(v.length)
            if any(x + "(" in txt or x + "_" in txt for x in names):
                return False
        elif not conc(v):
            return False
    return True


def alternatives(vc, c):
    return [(h, x) for h, x in (c.alts if isinstance(c, U) else [(True, c)]) if vc.ip.feasible(h)]


def shuffle_post(vc, d, n, full, res, top, k):
    cl = [("C12: shuffle returns the deck", res is d)]
    c = d.attrs["cards"]
    for h, x in alternatives(vc, c):
        cl += [(a, Implies(h, b)) for a, b in shuffled(vc, d, x, n, full, top, k)]
    return cl


def shuffled(vc, d, c, n, full, top, k):
    cl = []
    f2 = d.attrs["full_deck"]
    if not isinstance(c, Fn) or c.has is None or not isinstance(f2, Fn):
        raise Unsupported("cards after shuffle")
    j, x = z3.Int("place%d" % k), z3.Int("card%d" % k)
    inr = And(j >= 0, j < c.length)
    cl.append(("C12: a shuffled deck has its own list of cards", c is not f2))
    if f2 is not full or f2.get(j).idx is not j and not same(f2.get(j).idx, j):
        raise Unsupported("shuffle reorders the full deck")
    if not isinstance(c.get(j), Elem):
        raise Unsupported("cards after shuffle")
    cl.append(("C12: shuffle restores cards of the deck only",
               Implies(inr, And(code(c.get(j)) >= 0, code(c.get(j)) < n))))
    cl.append(("C12: no card twice after a shuffle", Implies(inr, c.index(code(c.get(j))) == j)))
    isc = And(x >= 0, x < n)
    cl.append(("C12: every card is there after a shuffle", Implies(isc, And(
        c.index(x) >= 0, c.index(x) < c.length, code(c.get(c.index(x))) == x))))
    if top is not None:
        f, T = top
        cl.append(("C12: tricked cards on top in the given order",
                   Implies(And(j >= 0, j < T), And(j < c.length, code(c.get(j)) == f(j)))))
    return cl


def names_in(t, out):
    """functions and constants of a term"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if not z3.is_expr(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


def uniform(vc, d, n, draws, k, T=0):
    """C26.  random.shuffle is trusted to draw every arrangement of its list
    with the same probability, independently of everything before.  If the
    list has all n cards and two different arrangements always lead to two
    different orders, then the n! arrangements reach the n! orders once each.
    T cards of a tricked deck are not drawn (their places: see C12)."""
    cl = []
    c = d.attrs["cards"]
    for h, x in alternatives(vc, c):
        if sym(h) and any("!" in a for a in names_in(h, set())):
            raise Unsupported("shuffle depends on the drawn order")
        j, i = z3.Int("place%d" % k), z3.Int("i")
        if not isinstance(x, Fn) or x.get is None or not isinstance(x.get(j), Elem):
            raise Unsupported("cards after shuffle")
        used = names_in(lift(code(x.get(j))), set())
        mine = [(p, q, m) for p, q, m in draws if p.name() in used]
        name = "C26: every order of the cards is equally likely"
        N = n
        if sym(T) or T:
            # C12: these are exactly the cards which are not tricked
            name += " (those below the tricked ones)"
            N = x.length
        if not mine:
            # the order is the same whatever was drawn
            cl.append((name, Implies(And(h, N - T >= 2), False)))
            continue
        p, q, m = mine[-1]
        p2 = z3.Function("other!%d" % k, z3.IntSort(), z3.IntSort())
        q2 = z3.Function("other_inv!%d" % k, z3.IntSort(), z3.IntSort())
        inr = lambda t: And(t >= 0, t < m)
        ax = [z3.ForAll([i], Implies(inr(i), And(inr(f(i)), g(f(i)) == i)), patterns=[f(i)])
              for f, g in ((p2, q2), (q2, p2))]
        v = z3.Var(0, z3.IntSort())
        here = lambda t: lift(code(x.get(t)))
        there = lambda t: z3.substitute_funs(here(t), (p, p2(v)), (q, q2(v)))
        all_of = lambda t: And(t >= 0, t < N)
        same_order = z3.ForAll([i], Implies(all_of(i), here(i) == there(i)), patterns=[p(i), p2(i)])
        cl.append(("C26: all cards are shuffled", Implies(And(h, N - T >= 2), m == N - T)))
        cl.append((name, Implies(And(h, *(ax + [same_order, inr(j)])), p(j) == p2(j))))
    return cl


def draw_loop(vc, base, lo, hi, n):
    """contract of the loop that draws cards one by one"""
    def lc(ip, st, fr, g, it):
        if g is not True:
            raise Unsupported("loop of draw under guard")
        d = vc.deck
        acc = [k for k, v in fr.env.items() if isinstance(v, PyList) and not v.items and v.guards is None]
        if len(acc) != 1:
            raise Unsupported("loop of draw: accumulator")
        acc = acc[0]
        before = dict(fr.env)
        attrs = dict(d.attrs)
        cards = d.attrs["cards"]
        if not isinstance(cards, SeqRef) or len(cards.parts) != 1:
            raise Unsupported("loop of draw: cards")
        p0, L = cards.parts[0].lo, cards.parts[0].hi
        k = z3.Int("drawn")
        count = None
        # invariants of other loops are guessed: refuted clauses are
        # reported if they are reproduced on the real code
        vc.weak = not isinstance(st, ast.For)
        if isinstance(st, ast.For):
            if isinstance(it, bi.SymRange):
                it = bi.as_fn(it)
            elif isinstance(it, PyList):
                it = bi.fn_of(it)
            if not isinstance(it, Fn):
                raise Unsupported("loop of draw: range")
            count = it.length
        inv = And(k >= 0, k <= L - p0) if count is None else And(k >= 0, k <= L - p0, k <= count)
        ip.require("draw loop: invariant holds on entry", True,
                   z3.substitute(inv, (k, z3.IntVal(0))), "loop")
        ip.assume(inv)

        def place(k):
            fr.env[acc] = SeqRef([Slice(base, p0, simp(p0 + k))])
            d.attrs["cards"] = cards
            cards.parts = [Slice(base, simp(p0 + k), L)]
        place(k)
        lp = Loop()
        fr.loops.append(lp)
        if count is not None:
            cond = k < count
            ip.assign(st.target, it.get(k), fr, cond)
        else:
            cond = ip.truth(ip.ev(st.test, fr, g))
        accv = fr.env[acc]
        live = Or(ip.exec_block(st.body, fr, cond), lp.cont)
        fr.loops.pop()
        if fr.env[acc] is not accv or d.attrs["cards"] is not cards:
            raise Unsupported("loop of draw replaces its lists")
        for a, v in attrs.items():
            if d.attrs[a] is not v:
                raise Unsupported("loop of draw changes %s" % a)
        targets = names_of(st.target) if count is not None else []
        for a, v in fr.env.items():
            if a != acc and a in before and before[a] is not v and a not in targets:
                raise Unsupported("loop of draw changes %s" % a)
        if live is not False:
            want = SeqRef([Slice(base, p0, simp(p0 + k + 1))])
            rest = SeqRef([Slice(base, simp(p0 + k + 1), L)])
            ip.require("draw loop: draws the next card", live, bi.seq_equal(accv, want), "loop")
            ip.require("draw loop: removes the drawn card", live, bi.seq_equal(cards, rest), "loop")
            ip.require("draw loop: invariant is kept", live, z3.substitute(inv, (k, k + 1)), "loop")
            ip.require("draw loop: terminates", live, L - p0 - k > 0, "loop")
        if count is None and not ip.feasible(And(k <= n, live, k >= n)):
            # "at most n cards are drawn" is an invariant, too
            ip.require("draw loop: at most n cards", live, Implies(k <= n, k + 1 <= n), "loop")
            ip.assume(k <= n)
        leave = Or(Not(cond), lp.brk)
        ip.assume(leave)
        if not (sym(leave) or leave):
            raise Unsupported("loop of draw does not end")
        return g
    return lc


def do_draw(program, default=False):
    vc = VC(program)
    ip = vc.ip
    d, _ = generic_deck(vc)
    vc.deck = d
    lo, hi, n = z3.Int("lo"), z3.Int("hi"), z3.Int("n")
    ip.assume(And(lo >= 0, lo <= hi, n >= 0))
    cards = SeqRef([Slice("deck", lo, hi)])
    d.attrs["cards"] = cards
    before = dict(d.attrs)
    if default:
        ip.assume(n == 1)
    ip.loop_contracts[("Deck", "draw")] = draw_loop(vc, "deck", lo, hi, n)
    res = ip.call_func(vc.Deck.lookup("draw"), [d] if default else [d, n], {}, True)
    m = simp(Ite(n <= hi - lo, n, hi - lo))
    rest = d.attrs["cards"]
    res = bi.fn_empty(res)
    if not isinstance(res, SeqRef) or not isinstance(rest, SeqRef):
        raise Unsupported("result of draw")
    cl = [("C12: draws the next cards from the top in order",
           bi.seq_equal(res, SeqRef([Slice("deck", lo, simp(lo + m))]))),
          ("C12: removes exactly the drawn cards",
           bi.seq_equal(rest, SeqRef([Slice("deck", simp(lo + m), hi)]))),
          ("C12: drawn list is independent of the deck", res is not rest and res is not cards)]
    for k, v in before.items():
        if k != "cards" and d.attrs.get(k) is not v:
            raise Unsupported("draw changes %s" % k)
    ln = ip.call_func(vc.Deck.lookup("__len__"), [d], {}, True)
    cl.append(("C12: length is the number of cards left", lift(to_int(ln)) == hi - lo - m))
    t = Task("Deck.draw(%s)" % ("" if default else "n"))
    raises(t, ip)
    finish(t, vc, cl)

    def replay(m_):
        e = lambda x: m_.eval(x, model_completion=True).as_long()
        left = min(max(e(hi) - e(lo), 0), 51)
        k = min(max(e(n), 0), 60)
        return {"case": "deck_ops", "args": [4, 13, 1, [
            ["draw", 52 - left], ["draw", None if default else k]]]}
    t.replay = replay
    return t


# ------------------------------------------------------------------ C13
def show(v):
    return v if isinstance(v, str) else repr(v)


def do_spellings(program, r):
    vc = VC(program)
    ip = vc.ip
    cl = []
    for j, s in enumerate(SUITS):
        for rc in sorted({RANKS[r], RANKS[r].lower()}):
            for sc in (s, s.lower()):
                c = ip.construct(vc.Card, [rc + sc], {}, True)
                cl.append(("C13: value has the documented layout", card_int(ip, c) == value(r, j)))
                cl.append(("C13: prints as rank and suit symbol",
                           bi.fmt(ip, c, "") == RANKS[r] + SYMBOL[s]))
    t = Task("Card(string) rank %s" % RANKS[r])
    raises(t, ip)
    finish(t, vc, cl)
    return t


class Ch(object):
    """a character: code k of the given letters (either case), or another one"""

    def __init__(self, var, letters, low):
        self.var, self.letters, self.low = var, letters, low

    def getattr(self, ip, name):
        if name == "upper":
            return Builtin("upper", lambda ip, a, kw, g: U(
                [(self.var == k, x) for k, x in enumerate(self.letters)]
                + [(Or(self.var < 0, self.var >= len(self.letters)), OtherStr())]))
        raise Unsupported("character.%s" % name)


class OtherStr(object):
    """the upper case of some character that is none of the letters"""

    def key_of(self, d, g, ip):
        if not all(isinstance(k, str) and len(k) == 1 for k in d.d):
            raise Unsupported("table of characters")
        ip.do_raise(g, "KeyError")
        return UNDEF

    def not_in(self, c):
        return True


class Text(object):
    def __init__(self, chars):
        self.chars = chars

    def getitem(self, ip, i, g):
        if i in (0, 1):
            return self.chars[i]
        raise Unsupported("character %r of a card string" % (i,))


def do_characters(program):
    vc = VC(program)
    ip = vc.ip
    r, s = z3.Int("rank_char"), z3.Int("suit_char")
    okr, oks = And(r >= 0, r < 13), And(s >= 0, s < 4)
    ip.assume(Not(And(okr, oks)))
    ip.check_dead = True
    k = len(ip.assumptions)
    try:
        ip.construct(vc.Card, [Text([Ch(r, RANKS, 0), Ch(s, SUITS, 0)])], {}, True)
    except PathEnd:
        pass
    rank = Or([g for g, e, _ in ip.raises if e == "InvalidRankError"])
    suit = Or([g for g, e, _ in ip.raises if e == "InvalidSuitError"])
    t = Task("Card(string) with other characters")
    t.obs.append(("C13: other rank characters are rejected",
                  Implies(Not(okr), Or(rank, And(Not(oks), suit))), "post", k))
    t.obs.append(("C13: other suit characters are rejected",
                  Implies(And(okr, Not(oks)), suit), "post", k))
    for g, e, _ in ip.raises:
        if e not in ("InvalidRankError", "InvalidSuitError"):
            t.obs.append(("no %s is raised" % e, Not(g), "safety", k))
    t.pre, t.vc, t.empty_ok = ip.assumptions[:k], vc, True

    def replay(m):
        e = lambda x: m.eval(x, model_completion=True).as_long()
        a, b = e(r), e(s)
        return {"case": "reject", "args": [(RANKS[a] if 0 <= a < 13 else "x")
                                           + (SUITS[b] if 0 <= b < 4 else "x")]}
    t.replay = replay
    return t


def do_operators(program):
    vc = VC(program)
    ip = vc.ip
    ip.hooks["bits"] = True
    cl = []
    x = ip.construct(vc.Card, ["AS"], {}, True)
    y = ip.construct(vc.Card, ["2H"], {}, True)
    vx, vy = card_int(ip, x), card_int(ip, y)
    names = [k for k, v in x.attrs.items() if v == vx and not isinstance(v, bool) and isinstance(v, int)]
    if len(names) != 1 or y.attrs.get(names[0]) != vy:
        raise Unsupported("value of a card")
    a, b, k = z3.Int("a"), z3.Int("b"), z3.Int("k")
    for c, v in ((x, a), (y, b)):
        c.attrs = {names[0]: v}  # nothing but the value may be used
    B = lambda op, p, q: bi.binop(ip, op, p, q, True)
    snap = lambda: (x.attrs[names[0]], y.attrs[names[0]])
    s0 = snap()
    for nm, op in (("&", "BitAnd"), ("|", "BitOr")):
        cl.append(("C13: card %s card" % nm, B(op, x, y) == bi.bitop(op, a, b)))
        cl.append(("C13: card %s int" % nm, B(op, x, k) == bi.bitop(op, a, k)))
        cl.append(("C13: int %s card" % nm, B(op, k, x) == bi.bitop(op, k, a)))
    for nm, op in (("<<", "LShift"), (">>", "RShift")):
        cl.append(("C13: card %s int" % nm, B(op, x, k) == bi.bitop(op, a, k)))
    cl.append(("C13: int of a card is its value", card_int(ip, x) == a))
    cl.append(("C13: equal exactly with the same value",
               Iff(bi.compare(ip, "Eq", x, y, True), a == b)))
    cl.append(("C13: unequal exactly with another value",
               Iff(bi.compare(ip, "NotEq", x, y, True), a != b)))
    cl.append(("C13: different cards have different values",
               len(set(value(r, s) for r in range(13) for s in range(4))) == 52))
    cl.append(("C13: operators leave the card unchanged", snap() == s0 and len(x.attrs) == 1))
    t = Task("operators of cards")
    raises(t, ip)
    finish(t, vc, cl)
    t.replay = lambda m: {"case": "operators", "args": ["AS", m.eval(k, model_completion=True).as_long(), 1]}
    return t
