"""The web view.

("web", "payload", n): C23, what GraphicViewer.render sends for a table state
with n hands; hands and board are lists of any length, chips are symbolic.
"""
import z3

from .values import *
from .interp import *
from . import builtins as bi
from .dealer import Task, raises
from specs.ops import *

GRAPHIC = "clubs/render/graphic.py"


def make(program, what, *args):
    return globals()["do_" + what](program, *args)


class Extra(object):
    """a value the code cannot know anything about"""

    def is_a(self, name):
        raise Unsupported("type of an unknown value")


def alts(v):
    return v.alts if isinstance(v, U) else [(True, v)]


def equal(ip, a, b):
    """same value (numbers, booleans, strings, None, lists and tuples of them)"""
    out = []
    for g, x in alts(a):
        for h, y in alts(b):
            out.append(Implies(And(g, h), equal1(ip, x, y)))
    return And(out)


def equal1(ip, x, y):
    if isinstance(x, PyList) or isinstance(x, tuple) or isinstance(y, (PyList, tuple)):
        def items(v):
            if isinstance(v, PyList) and v.guards is None:
                return v.items
            return list(v) if isinstance(v, tuple) else None
        p, q = items(x), items(y)
        if any(r is None and (conc(v) or is_int(v) or is_bool(v)) for r, v in ((p, x), (q, y))):
            return False
        if p is None or q is None:
            raise Unsupported("list in the payload")
        return And(len(p) == len(q), And([equal(ip, i, j) for i, j in zip(p, q)]))
    if is_bool(x) != is_bool(y) or is_int(x) != is_int(y):
        return False
    if is_bool(x):
        return Iff(x, y)
    if is_int(x):
        return lift(x) == lift(y)
    if conc(x) and conc(y):
        return type(x) is type(y) and x == y
    if isinstance(x, Extra) or isinstance(y, Extra):
        return x is y
    raise Unsupported("value in the payload: %r" % (x,))


def texts(ip, v, lo, length, j):
    """v lists the texts of the cards lo, lo + 1, ..."""
    out = []
    for g, x in alts(v):
        x = bi.generic(x)
        if isinstance(x, PyList) and x.guards is None and not x.items:
            out.append(Implies(g, length == 0))
            continue
        if isinstance(x, PyList):
            x = bi.fn_of(x)
        if not isinstance(x, Fn):
            out.append(Not(g))
            continue
        inside = And(g, j >= 0, j < lift(x.length))
        out.append(Implies(g, lift(x.length) == length))
        for h, y in alts(x.get(j)):
            ok = False
            if isinstance(y, SymStr) and len(y.parts) == 1 and y.parts[0][0] == "card":
                e = y.parts[0][1]
                ok = And(e.base == "cards", lift(e.idx) == lo + j)
            out.append(Implies(And(inside, h), ok))
    return And(out)


def shallow(v):
    if isinstance(v, PyList):
        return (v, v.__class__, list(v.items), None if v.guards is None else list(v.guards))
    if isinstance(v, SeqRef):
        return (v, v.__class__, list(v.parts), None)
    return (v, None, [], None)


def do_payload(program, n, extra=False):
    ip = Interp(program)
    mod = ip.module(GRAPHIC)
    cls = mod.attrs.get("GraphicViewer")
    if not isinstance(cls, Cls):
        raise Unsupported("class GraphicViewer not found")
    t = Task("payload of a table with %d hands" % n)
    I = lambda k: [z3.Int("%s%d" % (k, i)) for i in range(n)]
    B = lambda k: [z3.Bool("%s%d" % (k, i)) for i in range(n)]
    cuts = [z3.Int("cut%d" % i) for i in range(n + 1)]
    ip.assume(cuts[0] >= 0)
    for p, q in zip(cuts, cuts[1:]):
        ip.assume(p <= q)
    none = z3.Bool("no_prev_action")
    prev = (z3.Int("prev_player"), z3.Int("prev_bet"), z3.Bool("prev_fold"))
    hole = [SeqRef([Slice("cards", cuts[i], cuts[i + 1])]) for i in range(n)]
    d = {"action": z3.Int("action"), "active": PyList(B("active")), "all_in": PyList(B("all_in")),
         "community_cards": SeqRef([Slice("cards", z3.IntVal(0), cuts[0])]), "button": z3.Int("button"),
         "done": z3.Bool("done"), "hole_cards": PyList(hole), "pot": z3.Int("pot"), "payouts": PyList(I("payout")),
         "prev_action": U([(none, None), (Not(none), prev)]), "street_commits": PyList(I("bet")),
         "stacks": PyList(I("stack"))}
    if extra:
        d["something"] = Extra()
    cfg = PyDict(d)
    before = {k: shallow(v) for k, v in d.items()}
    hands0 = [shallow(h) for h in hole]
    sent = []

    def send(ip, args, kw, g):
        if g is not True or len(args) != 1 or kw:
            raise Unsupported("send")
        sent.append(args[0])

    v = PyObj(cls, {"socket": PyObj(None, {"send": Builtin("send", send)}), "num_players": n})
    ip.call_func(cls.lookup("render"), [v, cfg], {}, True)
    if len(sent) != 1 or not isinstance(sent[0], PyDict) or not isinstance(sent[0].d.get("content"), PyDict):
        raise Unsupported("what is sent")
    p = sent[0].d["content"]
    k = len(ip.assumptions)
    j = z3.Int("place")

    def there(x):
        return And(x in p.d, p.maybe.get(x, True))
    for x in d:
        t.obs.append(("C23: the payload has the field %s" % x, there(x), "post", k))
        if x not in p.d:
            continue
        name = "C23: value of %s" % x
        if x == "community_cards":
            f = texts(ip, p.d[x], 0, cuts[0], j)
        elif x == "hole_cards":
            fs = []
            for g, y in alts(p.d[x]):
                y = bi.generic(y)
                if isinstance(y, Fn) and n <= 3:
                    fs.append(Implies(g, lift(y.length) == n))
                    for i in range(n):
                        fs.append(Implies(And(g, lift(y.length) == n), texts(
                            ip, y.get(i), cuts[i], cuts[i + 1] - cuts[i], j)))
                    continue
                if not isinstance(y, PyList):
                    raise Unsupported("hands in the payload")
                if y.guards is not None:
                    # entries that are there only in some cases
                    total = Sum([B2I(h) for h in y.guards])
                    fs.append(Implies(g, lift(total) == n))
                    for i in range(min(n, len(y.items))):
                        fs.append(Implies(And(g, lift(total) == n), texts(
                            ip, bi.present(ip, y, i), cuts[i], cuts[i + 1] - cuts[i], j)))
                    continue
                fs.append(Implies(g, len(y.items) == n))
                for i, z in enumerate(y.items[:n]):
                    fs.append(Implies(g, texts(ip, z, cuts[i], cuts[i + 1] - cuts[i], j)))
            f = And(fs)
        else:
            f = equal(ip, p.d[x], before[x][0] if before[x][1] is None else PyList(before[x][2]))
        t.obs.append((name, f, "post", k))
    same_ = cfg is not p and list(cfg.d) == list(before)
    for x, b in before.items():
        now = shallow(cfg.d.get(x))
        same_ = same_ and now[0] is b[0] and now[1] is b[1] and len(now[2]) == len(b[2]) and all(
            q is r for q, r in zip(now[2], b[2])) and now[3] == b[3]
    for h, b in zip(hole, hands0):
        now = shallow(h)
        same_ = same_ and now[1] is b[1] and len(now[2]) == len(b[2]) and all(q is r for q, r in zip(now[2], b[2]))
    t.obs.append(("C23: the table state is not altered", bool(same_ and not cfg.maybe), "post", k))
    raises(t, ip)
    for o in ip.obligations:
        t.obs.append((o.name, o.formula, o.kind, o.nassume))
    vc = Task("vc")
    vc.ip = ip
    t.pre, t.vc = ip.assumptions, vc

    def replay(m):
        from .dealer import mval

        deck = [r + s for r in "23456789TJQKA" for s in "SHDC"]
        size = lambda x, top=4 if n < 10 else 2: min(top, max(0, mval(m, x)))
        I = lambda x: [mval(m, y) for y in before[x][2]]
        B = lambda x: [bool(mval(m, y)) for y in before[x][2]]
        c = {"action": mval(m, d["action"]), "active": B("active"), "all_in": B("all_in"),
             "community_cards": [deck.pop() for _ in range(size(cuts[0], 12))], "button": mval(m, d["button"]),
             "done": bool(mval(m, d["done"])),
             "hole_cards": [[deck.pop() for _ in range(size(cuts[i + 1] - cuts[i]))] for i in range(n)],
             "pot": mval(m, d["pot"]), "payouts": I("payouts"),
             "prev_action": None if mval(m, none) is True else [
                 mval(m, prev[0]), mval(m, prev[1]), bool(mval(m, prev[2]))],
             "street_commits": I("street_commits"), "stacks": I("stacks")}
        return {"module": "render", "case": "payload", "args": [c, {"something": 3} if extra else {}]}
    t.replay = replay
    return t
