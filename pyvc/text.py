"""ASCIIViewer (C21, and the description of the previous action of C22).

("text", "table", n, action): _parse_string for n players with the given player
to act (-1: the hand is done); who is in the hand, all-ins, the button, chips,
cards and the number of hole and community cards are symbolic.  The resulting
text is a sequence of literal pieces and tokens (formatted numbers, lists of
cards); every seat, board and footer is read off the text by line, and what it
shows must be the value of the table.
("text", "dealer", n, action, first): str(dealer) and dealer.render("ascii") on
any table with a running hand (or, action -1, after a hand), down to the text.
"""
import re

import z3

from .values import *
from .interp import *
from . import builtins as bi
from .dealer import DealerVC, Task, raises, as_list, final_payouts, spec
from specs.ops import *

ASCII = "clubs/render/ascii_viewer.py"


def make(program, what, *args):
    bi.LAZY[0] = True
    try:
        return globals()["do_" + what](program, *args)
    finally:
        bi.LAZY[0] = False


class Config(object):
    """a table state as it is rendered"""

    def __init__(self, ip, n, action):
        I = lambda k: [z3.Int("%s%d" % (k, i)) for i in range(n)]
        B = lambda k: [z3.Bool("%s%d" % (k, i)) for i in range(n)]
        self.n, self.action, self.done = n, action, action < 0
        self.active, self.all_in = B("active"), B("all_in")
        self.stacks, self.bets, self.payouts = I("stack"), I("bet"), I("payout")
        self.pot, self.button = z3.Int("pot"), z3.Int("button")
        self.nh, self.nc, self.ncc = z3.Int("num_hole_cards"), z3.Int("num_community_cards"), z3.Int("board")
        self.none = z3.Bool("no_prev_action")
        self.prev = (z3.Int("prev_player"), z3.Int("prev_bet"), z3.Bool("prev_fold"))
        if action >= 0:
            self.active[action] = True
        ip.assume(And(self.button >= 0, self.button < n, self.nh >= 1, self.ncc >= 0, self.nc >= self.ncc,
                      self.prev[0] >= 0, self.prev[0] < n))
        self.cuts = [self.ncc + i * self.nh for i in range(n + 1)]
        self.hole = [SeqRef([Slice("cards", self.cuts[i], simp(self.cuts[i] + self.nh))], tag="hole%d" % i)
                     for i in range(n)]
        self.board = SeqRef([Slice("cards", z3.IntVal(0), self.ncc)])

    def hand_card(self, y, i, j):
        return card_is(y, "cards", lift(self.cuts[i]) + j)

    def board_card(self, y, j):
        return card_is(y, "cards", j)

    def value(self):
        return PyDict({
            "action": self.action, "active": PyList(self.active), "all_in": PyList(self.all_in),
            "community_cards": self.board, "button": U([(self.button == k, k) for k in range(self.n)]),
            "done": self.done, "hole_cards": PyList(self.hole), "pot": self.pot,
            "payouts": PyList(self.payouts),
            "prev_action": U([(self.none, None), (Not(self.none), self.prev)]),
            "street_commits": PyList(self.bets), "stacks": PyList(self.stacks)})


class Tokens(object):
    """stand-ins for symbolic values in a piece of text"""

    def __init__(self, wide, literal):
        self.k = 0
        self.val = {}
        self.wide = wide
        self.taken = set(int(x.replace(",", "")) for x in re.findall(r"\d[\d,]*", literal))

    def number(self, term):
        while True:
            v = (7000000000 if self.wide else 21) + self.k
            self.k += 1
            if v not in self.taken and v not in self.val:
                break
        self.val[v] = term
        return v

    def mark(self, x):
        c = chr(0xE000 + self.k)
        self.k += 1
        self.val[c] = x
        return c

    def int_of(self, s):
        v = int(s.replace(",", ""))
        return lift(to_int(self.val[v])) if v in self.val else z3.IntVal(v)


class Unreadable(Exception):
    pass


def flat(p, tok):
    """text of a piece without alternatives"""
    if isinstance(p, str):
        return p
    if isinstance(p, SymStr):
        return "".join(flat(x, tok) for x in p.parts)
    k = p[0]
    if k == "pad":
        return format(flat(p[1], tok), p[2])
    if k == "fmt":
        try:
            return format(tok.number(p[1]), p[2])
        except ValueError:
            raise Unsupported("format of a number")
    if k in ("card", "join", "joinfn"):
        return tok.mark(p)
    raise Unsupported("text with %r" % (k,))


def variants(p):
    """(guard, piece without alternatives)"""
    if isinstance(p, str):
        return [(True, p)]
    if isinstance(p, U):
        return [(And(g, h), x) for g, v in p.alts for h, x in variants(v)]
    if isinstance(p, SymStr):
        out = [(True, [])]
        for x in p.parts:
            vs = variants(x)
            out = [(And(g, h), a + [b]) for g, a in out for h, b in vs]
            if len(out) > 5000:
                raise Unsupported("too many forms of a line")
        return [(g, SymStr(a)) for g, a in out]
    if p[0] == "alt":
        return [(And(g, h), x) for g, v in p[1] for h, x in variants(v)]
    if p[0] == "pad":
        return [(g, ("pad", SymStr([x]), p[2])) for g, x in variants(p[1])]
    if words(p):
        out = [(True, [])]
        for h, x in p[2]:
            out = [(And(g, Not(h)), a) for g, a in out if h is not True] + [
                (And(g, h, hv), a + ([p[1]] if a else []) + [v]) for g, a in out for hv, v in variants(x)]
            out = [(simp(g) if sym(g) else g, a) for g, a in out]
            out = [(g, a) for g, a in out if g is not False]
            if len(out) > 5000:
                raise Unsupported("too many forms of a line")
        return [(g, SymStr(a)) for g, a in out]
    return [(True, p)]


def words(p):
    """the join of pieces of text (not of numbers or cards)"""
    return p[0] == "join" and any(re.search("[A-Za-z]", literal(x)) for _, x in p[2]
                                  if isinstance(x, (str, SymStr)))


def literal(p):
    if isinstance(p, str):
        return p
    if isinstance(p, SymStr):
        return "".join(literal(x) for x in p.parts)
    if p[0] == "pad":
        return literal(p[1])
    if p[0] == "alt":
        return "".join(literal(x) for _, x in p[1])
    if words(p):
        return p[1].join(literal(x) for _, x in p[2] if isinstance(x, (str, SymStr)))
    return " "


def lines_of(text):
    """the text line by line; only literal pieces break lines"""
    out = [[]]
    for p in text.parts:
        if isinstance(p, str):
            q = p.split("\n")
            out[-1].append(q[0])
            for x in q[1:]:
                out.append([x])
        else:
            if "\n" in literal(p):
                raise Unsupported("line break in a part of the text")
            out[-1].append(p)
    return [SymStr(x) for x in out]


TOK = "[\ue000-\uf8ff]"
ENTRY = re.compile(r"(?<![\w,.])(\d+)\. (%s?) ?(-?[\d,]+)(?![\w,.])" % TOK)
NUM = re.compile(r"-?\d[\d,]*")
MARK = re.compile(r"(?<!\S)[DXA](?!\S)")
FOOT = re.compile(r"\s*(Players?|Action)\b")


class Reader(object):
    """reads the text like the table it shows; every reading is an obligation"""

    def __init__(self, ip, t, C, text, where=""):
        self.where = where
        self.ip, self.t, self.C = ip, t, C
        self.na = len(ip.assumptions)
        self.j = ip.fresh("place")
        self.lines = lines_of(text)
        self.obs = {}

    def claim(self, name, g, f):
        self.obs.setdefault(name, []).append(Implies(g, f))

    def feasible(self, g):
        return self.ip.feasible(g)

    def forms(self, *lines):
        """all forms of some lines: guard, texts, tokens"""
        out = [(True, [])]
        for l in lines:
            out = [(And(g, h), a + [x]) for g, a in out for h, x in variants(l)]
        res = []
        for g, ls in out:
            g = simp(g) if sym(g) else g
            if g is False:
                continue
            for wide in (False, True):
                tok = Tokens(wide, "\n".join(literal(l) for l in ls))
                res.append((g, [flat(l, tok) for l in ls], tok))
        return res

    def read(self):
        C = self.C
        seen = {}
        used = set()
        board = 0
        for k, l in enumerate(self.lines):
            lit = literal(l)
            if "[" in lit and "]" in lit and "__" not in lit:
                self.board(l)
                board += 1
                used.add(k)
                continue
            if "Player" in lit:
                continue
            fs = self.forms(l)
            nos = set(tuple(m.group(1) for m in ENTRY.finditer(x[0])) for _, x, _ in fs)
            if nos == {()}:
                continue
            if len(nos) != 1 or k + 1 >= len(self.lines):
                raise Unsupported("seats of a line")
            used |= {k, k + 1}
            for no in nos.pop():
                seen[int(no)] = seen.get(int(no), 0) + 1
            self.seats(l, self.lines[k + 1])
        n = C.n
        self.claim("C21: every seat's number appears once", True,
                   sorted(seen) == list(range(1, n + 1)) and set(seen.values()) == {1})
        self.claim("C21: the board is shown once", True, board == 1)
        self.footer([l for k, l in enumerate(self.lines) if k not in used])
        for name, fs in self.obs.items():
            fs = [f for f in fs if f is not True]
            self.t.obs.append((name + self.where, And(fs), "post", self.na))

    def seats(self, l1, l2):
        C = self.C
        for g, (a, b), tok in self.forms(l1, l2):
            found = list(ENTRY.finditer(a))
            nums = list(NUM.finditer(b))
            if len(nums) != len(found) or not all(m.group(2) for m in found):
                if self.feasible(g):
                    self.claim("C21: every seat shows its bet (or payout)", g, False)
                continue
            marks = [[] for _ in found]
            for m in MARK.finditer(b):
                d = [min(abs(m.start() - x.end()), abs(x.start() - m.end())) for x in nums]
                marks[d.index(min(d))].append(m.group(0))
            for m, x, mk in zip(found, nums, marks):
                i = int(m.group(1)) - 1
                if not 0 <= i < C.n:
                    self.claim("C21: every seat's number appears once", g, False)
                    continue
                self.claim("C21: seat %d shows the stack" % (i + 1), g, tok.int_of(m.group(3)) == C.stacks[i])
                self.claim("C21: seat %d shows the %s" % (i + 1, "payout" if C.done else "street bet"), g,
                           tok.int_of(x.group(0)) == (C.payouts if C.done else C.bets)[i])
                self.cards(i, g, tok.val.get(m.group(2)))
                self.claim("C21: the button is shown at seat %d exactly if it is there" % (i + 1), g,
                           Iff("D" in mk, C.button == i))
                if not C.done and i == C.action:
                    self.claim("C21: the player to act is marked", g,
                               Or("X" in mk, And(C.all_in[i], "A" in mk)))
                else:
                    self.claim("C21: nobody else is marked as the player to act", g, "X" not in mk)

    def shows(self, v, item, length):
        """v lists item(j) for every place j"""
        if not isinstance(v, tuple) or v[0] != "joinfn" or v[1] != ",":
            raise Unsupported("cards of a seat")
        fn, j = v[2], self.j
        x = fn.get(j)
        inside = And(j >= 0, j < lift(fn.length))
        fs = [lift(fn.length) == length]
        for h, y in (x.alts if isinstance(x, U) else [(True, x)]):
            fs.append(Implies(And(inside, h), item(y, j)))
        return And(fs)

    def cards(self, i, g, v):
        C = self.C
        def hand(y, j):
            return C.hand_card(y, i, j)
        own = And(C.active[i], True if C.done else i == C.action)
        nh = lift(C.nh)
        self.claim("C21: cards of seat %d" % (i + 1), And(g, own), self.shows(v, hand, nh))
        self.claim("C21: hidden cards of seat %d are '??'" % (i + 1), And(g, C.active[i], Not(own)),
                   self.shows(v, lambda y, j: y == "??", nh))
        self.claim("C21: no cards of seat %d after folding" % (i + 1), And(g, Not(C.active[i])),
                   self.shows(v, lambda y, j: y == "--", nh))

    def board(self, l):
        C, j = self.C, self.j
        for g, (a,), tok in self.forms(l):
            m = re.search(r"\[(%s?)\](.*)$" % TOK, a)
            nums = NUM.findall(m.group(2)) if m else []
            if m is None or len(nums) != 1 or not m.group(1):
                if m is not None and m.group(1) == "" or self.feasible(g):
                    raise Unsupported("board")
                continue
            self.claim("C21: the pot is shown", g, tok.int_of(nums[0]) == C.pot)
            v = tok.val[m.group(1)]
            if v[0] != "joinfn" or v[1] != ",":
                raise Unsupported("cards of the board")
            x, n = v[2].get(j), lift(v[2].length)
            fs = [n >= C.ncc]
            for h, y in (x.alts if isinstance(x, U) else [(True, x)]):
                c = Or(And(j < C.ncc, C.board_card(y, j)), And(j >= C.ncc, y == "--"))
                fs.append(Implies(And(j >= 0, j < n, h), c))
            self.claim("C21: the board is shown", g, And(fs))

    def footer(self, lines):
        C = self.C
        hit = []
        for l in lines:
            row = []
            for g, (a,), tok in self.forms(l):
                if FOOT.match(a):
                    row.append(g)
                    (self.won if C.done else self.act)(g, a.strip(), tok)
            if row:
                hit.append(Or(row))
        name = "C21: the winners are named" if C.done else "C21: the player to act is named"
        self.claim(name, True, Or(hit))
        for i, x in enumerate(hit):
            for y in hit[:i]:
                self.claim(name, True, Not(And(x, y)))

    def act(self, g, a, tok):
        C = self.C
        m = re.search(r"Action on Player (\d+)", a)
        if m is None:
            if self.feasible(g):
                self.claim("C21: the player to act is named", g, False)
            return
        self.claim("C21: the player to act is named", g, tok.int_of(m.group(1)) == C.action + 1)
        self.claim("C21: winners are named at the end only", g, " won " not in a)
        desc = a[:m.start()].strip()
        p, b, f = C.prev
        name = "C22: the previous action is described"
        if desc == "":
            self.claim(name, g, C.none)
            return
        m = re.match(r"^Player (\d+) (folded|checked|bet ([\d,]+))$", desc)
        if m is None:
            if self.feasible(g):
                self.claim(name, g, False)
            return
        fs = [Not(C.none), tok.int_of(m.group(1)) == p + 1]
        if m.group(2) == "folded":
            fs.append(f)
        elif m.group(2) == "checked":
            fs += [Not(f), b == 0]
        else:
            fs += [Not(f), b != 0, tok.int_of(m.group(3)) == b]
        self.claim(name, g, And(fs))

    def won(self, g, a, tok):
        C = self.C
        name = "C21: exactly the winners are named with their winnings"
        self.claim("C21: no player to act when the hand is done", g, "Action on" not in a)
        m = re.match(r"^Players? (%s?) ?won ?(%s?)(?: respectively)?$" % (TOK, TOK), a)
        if m is None:
            if self.feasible(g):
                self.claim(name, g, False)
            return
        if not m.group(1) or not m.group(2):
            raise Unsupported("winners")
        who, what = tok.val[m.group(1)], tok.val[m.group(2)]
        if who[0] != "join" or what[0] != "join" or who[1] != ", " or what[1] != ", ":
            raise Unsupported("winners")
        if len(who[2]) != len(what[2]):
            raise Unsupported("winners and winnings")
        last, by = 0, {}
        for (h, x), (k, y) in zip(who[2], what[2]):
            if not isinstance(x, str) or not x.isdigit() or int(x) <= last:
                raise Unsupported("winners")
            last = int(x)
            by[last] = h
            if not isinstance(y, SymStr) or len(y.parts) != 1 or y.parts[0][0] != "fmt":
                raise Unsupported("winnings")
            self.claim(name, g, And(Iff(h, k), Implies(h, lift(to_int(y.parts[0][1])) == C.payouts[last - 1])))
        for i in range(C.n):
            self.claim(name, g, Iff(by.get(i + 1, False), C.payouts[i] > 0))


def card_is(y, base, idx):
    if isinstance(y, SymStr) and len(y.parts) == 1 and y.parts[0][0] == "card":
        e = y.parts[0][1]
        return e.base == base and lift(e.idx) == idx
    return False


def do_table(program, n, action):
    ip = Interp(program)
    cls = ip.module(ASCII).attrs.get("ASCIIViewer")
    if not isinstance(cls, Cls):
        raise Unsupported("class ASCIIViewer not found")
    t = Task("text of %d players, %s" % (n, "done" if action < 0 else "player %d to act" % (action + 1)))
    C = Config(ip, n, action)
    if C.done:
        ip.assume(C.pot == 0)
        ip.assume(Or([p > 0 for p in C.payouts]))
    v = ip.construct(cls, [n, C.nh, C.nc], {}, True)
    f = cls.lookup("_parse_string")
    if not isinstance(f, Func):
        raise Unsupported("no method _parse_string")
    k0 = len(ip.assumptions)
    cfg = C.value()
    items = {k: (x, list(x.items) if isinstance(x, PyList) else None) for k, x in cfg.d.items()}
    res = ip.call_func(f, [v, cfg], {}, True)
    if isinstance(res, U):
        res = SymStr([("alt", tuple(res.alts))])
    if not isinstance(res, SymStr):
        raise Unsupported("text")
    Reader(ip, t, C, res).read()
    for k, (x, l) in items.items():
        if cfg.d.get(k) is not x or (l is not None and (x.guards is not None or len(x.items) != len(l) or any(
                p is not q for p, q in zip(x.items, l)))):
            raise Unsupported("the table state is changed")
    raises(t, ip)
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, o.kind, o.nassume))
    vc = Task("vc")
    vc.ip = ip
    t.pre, t.vc = ip.assumptions, vc
    t.replay = replay(C)
    return t


class Shown(object):
    """what a table must show"""

    def __init__(self, vc, S, action, first, entry):
        c, n = vc.c, vc.n
        self.n, self.action, self.done = n, action, action < 0
        self.active, self.stacks, self.bets = S.active, S.st, S.sc
        self.all_in = [And(S.active[i], S.st[i] == 0) for i in range(n)]
        self.pot, self.button = S.pot, S.button
        self.nh, self.nc = c.nh, c.CC(c.ns - 1)
        self.none, self.prev = first, entry
        self.first, self.left, self.right = vc.bounds[0], vc.bounds[n], vc.deckpos
        self.ncc = simp(self.first + self.right - self.left)
        self.cuts = vc.bounds

    def hand_card(self, y, i, j):
        return card_is(y, "deck", lift(self.cuts[i]) + j)

    def board_card(self, y, j):
        if not (isinstance(y, SymStr) and len(y.parts) == 1 and y.parts[0][0] == "card"):
            return False
        e = y.parts[0][1]
        return And(e.base == "deck", lift(e.idx) == Ite(j < self.first, j, j - self.first + self.left))


def do_dealer(program, n, action, first):
    """first: nothing has happened in this hand"""
    vc = DealerVC(program, n)
    ip, c = vc.ip, vc.c
    done = action < 0
    t = Task("table of %d players, %s" % (n, "done" if done else "player %d to act%s" % (
        action + 1, ", nothing happened yet" if first else "")))
    S = vc.state(action)
    pre = [f for _, f in c.pre] + [c.ns >= 1, c.enough, c.nh >= 1] + vc.card_pre
    if done:
        from .dealer import ended_invariant
        pre += [f for _, f in ended_invariant(c, S)]
        pre += [S.street >= 0, And([x >= 0 for x in S.st]), And(S.button >= 0, S.button < n)]
    else:
        pre += [f for _, f in spec.invariant(c, S)]
    entry = (z3.Int("prev_player"), z3.Int("prev_bet"), z3.Bool("prev_fold"))
    pre.append(And(entry[0] >= 0, entry[0] < n))
    S.hist = [] if first else [vc.prefix, entry]
    for q in pre:
        ip.assume(q)
    c.cc(c.ns - 1)
    obj = vc.build(S)
    cls = ip.module(ASCII).attrs.get("ASCIIViewer")
    if not isinstance(cls, Cls):
        raise Unsupported("class ASCIIViewer not found")
    obj.attrs["ascii_viewer"] = ip.construct(cls, [n, c.nh, c.CC(c.ns - 1)], {}, True)
    before = snapshot(obj)
    C = Shown(vc, S, action, first, entry)
    f = vc.cls.lookup("__str__")
    text = ip.call_func(f, [obj], {}, True)
    R = vc.results if vc.results is not None else [z3.Int("share%d" % i) for i in range(n)]
    C.payouts = final_payouts(n, S.pc, S.active, R)
    C.na = len(ip.assumptions)
    Reader(ip, t, C, whole(text)).read()
    out = []
    ip.hooks["print"] = lambda a, kw, g: out.append((a, kw, g))
    ip.call_func(vc.cls.lookup("render"), [obj, "ascii"], {}, True)
    if len(out) != 1 or len(out[0][0]) != 1 or out[0][1] or out[0][2] is not True:
        raise Unsupported("printed text")
    Reader(ip, t, C, whole(out[0][0][0]), " (printed)").read()
    obj.attrs.pop("viewer", None)
    before.pop("viewer", None)
    now = snapshot(obj)
    if set(now) != set(before) or any(not same_value(before[k], now[k]) for k in before):
        raise Unsupported("the table is changed")
    raises(t, ip)
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, "inv" if o.kind == "pre" else o.kind, o.nassume))
    t.pre, t.vc = ip.assumptions, vc
    t.replay = dealer_replay(vc, S, C)
    return t


def whole(res):
    if isinstance(res, U):
        res = SymStr([("alt", tuple(res.alts))])
    if not isinstance(res, SymStr):
        raise Unsupported("text")
    return res


def snapshot(obj):
    out = {}
    for k, v in obj.attrs.items():
        if isinstance(v, PyList):
            v = (v, list(v.items), v.guards)
        elif isinstance(v, SeqRef):
            v = (v, list(v.parts))
        out[k] = v
    return out


def same_value(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    return a is b


def dealer_replay(vc, S, C):
    def f(m):
        import random

        from .dealer import mval, native_config

        kw, street = native_config(m, vc.c, mval(m, S.street), vc.n)
        if C.done:
            r = random.Random(str(sorted(str(d) for d in m.decls())))
            bets = [r.choice([0, -1, 2, 2, 4, 4, 8, 200, 0, 1, 10 ** 6]) for _ in range(40)]
            kw["start_stack"] = max(kw["start_stack"], 2)
            return {"module": "render", "case": "dealt", "args": [kw, r.randrange(10 ** 6), bets]}
        st = dict(
            action=mval(m, S.action), active=[bool(mval(m, x)) for x in S.active],
            button=mval(m, S.button), pot=mval(m, S.pot), pc=[mval(m, x) for x in S.pc],
            st=[mval(m, x) for x in S.st], street=street, sc=[mval(m, x) for x in S.sc],
            opt=[bool(mval(m, x)) for x in S.opt], sraises=mval(m, S.sraises),
            lraise=mval(m, S.lraise), strength=None)
        last = None if C.none else [mval(m, C.prev[0]), mval(m, C.prev[1]), bool(mval(m, C.prev[2]))]
        return {"module": "render", "case": "shown", "args": [kw, st, last]}
    return f


def replay(C):
    def f(m):
        from .dealer import mval

        n = C.n
        nh = min(3, max(1, mval(m, C.nh)))
        ncc = min(5, mval(m, C.ncc))
        nc = max(ncc, min(5, mval(m, C.nc)))
        deck = [r + s for r in "23456789TJQKA" for s in "SHDC"]
        hole = [[deck.pop() for _ in range(nh)] for _ in range(n)]
        I = lambda xs: [mval(m, x) for x in xs]
        pb = mval(m, C.prev[1])
        cfg = {"action": C.action, "active": [bool(x) for x in I(C.active)], "all_in": [bool(x) for x in I(C.all_in)],
               "community_cards": [deck.pop() for _ in range(ncc)], "button": mval(m, C.button), "done": C.done,
               "hole_cards": hole, "pot": mval(m, C.pot), "payouts": I(C.payouts),
               "prev_action": None if mval(m, C.none) is True else [mval(m, C.prev[0]), pb, bool(mval(m, C.prev[2]))],
               "street_commits": I(C.bets), "stacks": I(C.stacks)}
        return {"module": "render", "case": "text", "args": [cfg, nh, nc]}
    return f
