"""Runs the real Dealer (under PyPy) and evaluates the contract clauses of
specs/table.py on what really happened.  Used to replay counter-models of the
verifier and as labelled bounded check of whole hands."""
import itertools
import json
import os
import random
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from specs import table as spec  # noqa: E402
from specs.ops import *  # noqa: E402,F401,F403

import clubs  # noqa: E402
from clubs import error, poker  # noqa: E402

INF = float("inf")


class Failed(Exception):
    def __init__(self, clause, detail):
        Exception.__init__(self, clause)
        self.clause, self.detail = clause, detail


# ------------------------------------------------------------------ config
class Cfg(object):
    """native view of a configuration for the specification"""

    def __init__(self, kw):
        self.kw = kw
        n = self.n = kw["num_players"]
        ns = self.ns = kw["num_streets"]
        ex = lambda v, k: list(v) if isinstance(v, list) else [v] * k
        self.blinds = ex(kw["blinds"], n)
        self.antes = ex(kw["antes"], n)
        self.bb = self.blinds[1]
        self._rs = ex(kw["raise_sizes"], ns)
        self._nr = ex(kw["num_raises"], ns)
        self._cc = ex(kw["num_community_cards"], ns)
        self.start = kw["start_stack"]
        self.nh = kw["num_hole_cards"]
        self.L = kw["num_suits"] * kw["num_ranks"]
        self.enough = sum(self._cc) + n * self.nh <= self.L
        self.deal = None  # shuffled deck of this hand

    def rs(self, s):
        v = self._rs[s] if 0 <= s < self.ns else 0
        if v == "pot":
            return False, 0, True
        if v in ("inf", INF):
            return False, 0, False
        return True, v, False

    def nr(self, s):
        v = self._nr[s] if 0 <= s < self.ns else 0
        if v in ("inf", INF):
            return True, 0
        return False, v

    def cc(self, s):
        return sum(self._cc[: s + 1])

    def seq_eq(self, a, b):
        if a is None or b is None:
            return True
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is not y and not x == y:
                return False
        return True

    def seq_len(self, a):
        return len(a)

    def cat(self, a, b):
        return None if a is None or b is None else a + b

    def base(self, lo, hi):
        return None if self.deal is None else self.deal[lo:hi]

    def hist_grown(self, h0, h1):
        if len(h1) != len(h0) + 1 or h1[:-1] != h0 or len(h1[-1]) != 3:
            return False, None
        return True, h1[-1]

    def hist_empty(self, h):
        return h == []

    def hist_same(self, h0, h1):
        return h0 == h1


_EVAL = {}


def make_dealer(kw, cache=True):
    """a real Dealer; evaluators (immutable) are shared between tables"""
    key = (kw["num_suits"], kw["num_ranks"], kw["num_cards_for_hand"],
           kw["mandatory_num_hole_cards"], kw.get("low_end_straight", True),
           tuple(kw["order"]) if kw.get("order") else None)
    real = poker.Evaluator
    if cache and key in _EVAL:
        poker.Evaluator = lambda *a, **k: _EVAL[key]
    try:
        d = clubs.Dealer(**kw)
    finally:
        poker.Evaluator = real
    if cache:
        _EVAL.setdefault(key, d.evaluator)
    return d


def snapshot(d, ghost):
    return spec.State(
        n=d.num_players, action=d.action, active=[bool(x) for x in d.active],
        button=d.button, pot=d.pot, pc=list(d.pot_commits), st=list(d.stacks),
        street=d.street, sc=list(d.street_commits), opt=list(ghost["opt"]),
        sraises=ghost["sraises"], lraise=ghost["lraise"], hist=list(d.history),
        comm=list(d.community_cards), hole=[list(h) for h in d.hole_cards],
        deck=list(d.deck.cards),
    )


class Table(object):
    """a real table plus the ghost state the specification talks about"""

    def __init__(self, kw, props):
        self.kw = kw
        self.c = Cfg(kw)
        self.d = make_dealer(kw)
        self.props = props
        self.ghost = {"opt": [False] * self.c.n, "sraises": 0, "lraise": 0}
        self.last_payouts = None
        self.count = 0
        self.shuffled = None
        self.evals = 0
        self.twin = None
        self.touched = False  # chips or button set while a hand was running
        deck = self.d.deck
        orig = deck.shuffle

        def shuffle(*a, **k):
            r = orig(*a, **k)
            self.shuffled = list(deck.cards)
            return r

        deck.shuffle = shuffle

    def check(self, clauses):
        for name, cond in clauses:
            self.count += 1
            if not cond:
                raise Failed(name, None)

    # -- operations -------------------------------------------------------
    def reset(self, rb=False, rs=False):
        d, c = self.d, self.c
        S = snapshot(d, self.ghost)
        expect_error = (not rs) and sum(x > 0 for x in S.st) < 2
        self.shuffled = None
        try:
            obs = d.reset(reset_button=rb, reset_stacks=rs)
        except error.TooFewActivePlayersError:
            if expect_error:
                if "C10" in self.props:
                    self.check(spec.same_table(c, S, snapshot(d, self.ghost)))
                return None
            raise Failed("C10: starts with two players with chips", None)
        if expect_error:
            if "C10" in self.props:
                raise Failed("C10: refuses to start with fewer than two players with chips", None)
            return None
        c.deal = self.shuffled
        self.touched = False
        self.ghost = {"opt": [False] * c.n, "sraises": 0, "lraise": c.bb}
        T = snapshot(d, self.ghost)
        x = spec.Reset(c, S, rb, rs, T, obs)
        for p in self.props:
            if p in spec.RESET:
                self.check(spec.RESET[p](x))
        self.last_payouts = None
        if "C10" in self.props:
            self.fresh_twin(S, T, rb, rs, obs)
        return obs

    def fresh_twin(self, S, T, rb, rs, obs):
        """C10: nothing carries over, so a table that never played a hand, with
        the same chips, button and deck, behaves the same from here on"""
        t = self.twin = make_dealer(self.kw)
        t.stacks = [a + b for a, b in zip(T.st, T.pc)]
        t.button = S.button
        if self.shuffled is not None:
            t.deck.trick(list(self.shuffled))
        self.like_twin(obs, t.reset(reset_button=rb, reset_stacks=rs))

    def like_twin(self, *both):
        ghost = {"opt": [], "sraises": 0, "lraise": 0}
        a, b = snapshot(self.d, ghost), snapshot(self.twin, ghost)
        same = all(getattr(a, k) == getattr(b, k) for k in (
            "action", "active", "button", "pot", "pc", "st", "street", "sc", "hist"))
        keys = ("action", "call", "min_raise", "max_raise")
        self.check([("C10: nothing carries over from the previous hand", same and all(
            both[0][k] == both[1][k] for k in keys))])

    def step(self, bet):
        d, c = self.d, self.c
        S = snapshot(d, self.ghost)
        evals = []
        orig = d._eval_hands if hasattr(d, "_eval_hands") else None
        ev = d.evaluator
        if "C08" in self.props:
            real = ev.evaluate

            def evaluate(*a, **k):
                evals.append(1)
                return real(*a, **k)

            ev.evaluate = evaluate
        try:
            obs, payouts, done = d.step(bet)
        finally:
            if "C08" in self.props:
                del ev.evaluate
        if self.twin is not None:
            self.like_twin(obs, self.twin.step(bet)[0])
        # ghost transitions, independent of the table's own bookkeeping
        T0 = snapshot(d, self.ghost)
        x0 = spec.Step(c, S, bet, T0, obs, payouts, done)
        sr, lr = spec.raises_after(x0)
        opt = [False] * c.n if spec.agreed(x0.M) else list(x0.M.opt)
        self.ghost = {"opt": opt, "sraises": sr, "lraise": lr}
        T = snapshot(d, self.ghost)
        x = spec.Step(c, S, bet, T, obs, payouts, done, evaluated=bool(evals))
        if not (len(payouts) == len(done) == c.n):
            raise Failed("payouts and done have one entry per player", None)
        for p in self.props:
            if p == "C09":
                if x.alldone and sum(T.active) >= 2:
                    stre = [
                        d.evaluator.evaluate(T.hole[i], T.comm) if T.active[i] else 10 ** 9
                        for i in range(c.n)
                    ]
                    self.check(spec.step_C09(x, stre))
            elif p in spec.STEP:
                self.check(spec.STEP[p](x))
        if all(done):
            self.last_payouts = list(payouts)
        return obs, payouts, done

    def step_ended(self, bet):
        """step() after the hand has ended"""
        d, c = self.d, self.c
        S = snapshot(d, self.ghost)
        obs, payouts, done = d.step(bet)
        T = snapshot(d, self.ghost)
        x = spec.Step.__new__(spec.Step)
        x.c, x.S, x.T, x.n = c, S, T, c.n
        x.obs, x.payouts, x.done = obs, payouts, done
        x.payouts0 = self.last_payouts
        if "C19" in self.props:
            self.check(spec.ended_C19(x))


# ------------------------------------------------------------- generation
SHAPES = [  # suits, ranks, hand size, mandatory, hole cards
    (4, 13, 1, 0, 1), (4, 4, 1, 0, 1), (2, 13, 1, 0, 1), (4, 13, 2, 0, 2),
    (1, 13, 1, 0, 1), (3, 7, 1, 0, 1), (4, 13, 2, 1, 2), (4, 13, 3, 0, 2),
]


def gen_config(rng, n=None):
    n = n or rng.choice([2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10])
    ns = rng.choice([1, 2, 2, 3, 4])
    unit = rng.choice([1, 1, 2, 5])

    def forced(maxi):
        k = rng.randrange(6)
        if k == 0:
            return 0
        if k == 1:
            return rng.randrange(0, maxi + 1)
        if k == 2:
            return [rng.randrange(0, maxi + 1) for _ in range(n)]
        if k == 3:
            v = [0] * n
            v[rng.randrange(n)] = rng.randrange(1, maxi + 1)
            return v
        v = [0] * n
        if n > 2:
            v[0], v[1] = unit, 2 * unit
        else:
            v = [unit, 2 * unit]
        return v

    def raise_size():
        return rng.choice([INF, INF, "pot", "pot", "inf", 1, 2, 3, 4, 7])

    rs = raise_size() if rng.random() < 0.6 else [raise_size() for _ in range(ns)]

    def num_raise():
        return rng.choice([INF, INF, "inf", 0, 1, 2, 3, 4])

    nr = num_raise() if rng.random() < 0.6 else [num_raise() for _ in range(ns)]
    suits, ranks, size, mand, hole = rng.choice(SHAPES)
    left = suits * ranks - n * hole
    while left < 0:
        suits, ranks, size, mand, hole = SHAPES[0]
        left = suits * ranks - n * hole
    cc = []
    for _ in range(ns):
        k = rng.choice([0, 1, 1, 2, 3])
        k = min(k, left)
        left -= k
        cc.append(k)
    return dict(
        num_players=n, num_streets=ns, blinds=forced(4), antes=forced(3),
        raise_sizes=rs, num_raises=nr, num_suits=suits, num_ranks=ranks,
        num_hole_cards=hole, num_community_cards=cc, num_cards_for_hand=size,
        mandatory_num_hole_cards=mand, start_stack=rng.choice([1, 2, 5, 10, 20, 50, 200]),
    )


def gen_stacks(rng, n):
    top = rng.choice([2, 4, 8, 15, 40, 100])
    st = [rng.randrange(0, top + 1) for _ in range(n)]
    if rng.random() < 0.5:
        st = [max(1, s) for s in st]
    if sum(s > 0 for s in st) < 2:
        st[0] = st[-1] = top
    return st


def gen_bet(rng, obs, style):
    call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
    k = rng.random()
    if style == "passive":
        if k < 0.85:
            return call
        return rng.choice([-1, 0, lo, hi])
    if style == "aggressive":
        if k < 0.5:
            return rng.choice([lo, hi, hi + 5, (lo + hi) // 2])
        if k < 0.9:
            return call
        return rng.choice([0, -1])
    r = rng.randrange(12)
    if r == 0:
        return -1
    if r == 1:
        return 0
    if r in (2, 3, 4):
        return call
    if r == 5:
        return lo
    if r == 6:
        return hi
    if r == 7:
        return rng.randrange(0, max(1, hi) + 3)
    if r == 8:
        return call + rng.choice([-1, 1])
    if r == 9:
        return lo + rng.choice([-1, 1])
    if r == 10:
        return hi + rng.choice([-1, 1, 20])
    return rng.choice([call // 2, (call + lo) // 2, (call + lo + 1) // 2, (lo + hi) // 2])


def jcfg(kw):
    return {k: ("inf" if v == INF else [("finf" if x == INF else x) for x in v]
                if isinstance(v, list) else v) for k, v in kw.items()}


def encode(v):
    if v == INF:
        return {"float": "inf"}
    if isinstance(v, list):
        return [encode(x) for x in v]
    return v


def decode(v):
    if isinstance(v, dict) and "float" in v:
        return INF
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def run_script(script, props, table=None):
    """replays a recorded sequence of public operations; returns the failed
    clause or None"""
    t = Table({k: decode(v) for k, v in script["config"].items()}, props)
    try:
        for op in script["ops"]:
            apply_op(t, op)
    except Failed as f:
        return f.clause
    except Exception as e:  # any other exception of the code under test
        return classify(e)
    return None


class HarnessError(Exception):
    """the harness does not fit the code (not a violation)"""


def classify(e):
    """clause for an exception raised in the code under test; exceptions of
    the harness itself are not violations"""
    tb = traceback.extract_tb(sys.exc_info()[2])
    last = tb[-1][0] if tb else ""
    here = os.path.dirname(HERE)
    if os.path.abspath(last).startswith(here + os.sep):
        raise HarnessError("%s: %s" % (type(e).__name__, e))
    return "exception %s: %s" % (type(e).__name__, e)


def on_alarm(sig, frame):
    raise Failed("call returns", None)


def limited(seconds, f, *a):
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def apply_op(t, op):
    return limited(30.0, apply_op_, t, op)


def apply_op_(t, op):
    kind = op[0]
    d = t.d
    if kind == "stacks":
        t.touched = t.touched or d.action != -1
        d.stacks = list(op[1])
    elif kind == "button":
        t.touched = t.touched or d.action != -1
        d.button = op[1]
    elif kind == "trick":
        d.deck.trick([d.deck.full_deck[i] for i in op[1]])
    elif kind == "untrick":
        d.deck.untrick()
    elif kind == "reset":
        t.last = (t.reset(rb=op[1], rs=op[2]),)
    elif kind == "step":
        t.last = t.step(op[1])
    elif kind == "expect":
        expect(t, op[1])
    elif kind == "over":
        t.step_ended(op[1])
    elif kind == "render":
        if op[1] == "config":
            d._render_config() if hasattr(d, "_render_config") else str(d)
        elif op[1] == "str":
            str(d)
    elif kind == "winprob":
        d.win_probabilities()
    elif kind == "inject":
        inject(t, op[1])
    else:
        raise ValueError(kind)


def expect(t, e):
    """compares the table with what the verifier computed for it"""
    d, obs = t.d, t.last[0]
    got = dict(action=d.action, active=[bool(x) for x in d.active], button=d.button, pc=d.pot_commits,
               street=d.street, sc=d.street_commits, pot=d.pot, st=d.stacks,
               sizes=[obs[k] for k in ("call", "min_raise", "max_raise")])
    if len(t.last) > 1:
        got.update(payouts=t.last[1], done=[bool(x) for x in t.last[2]])
    for k in sorted(e):
        if got[k] != e[k]:
            raise Failed("cross-check of %s: verifier %s, code %s" % (k, e[k], got[k]), None)


def crosscheck(job):
    """runs the samples of the verifier on the real code"""
    ok, bad, broken = 0, [], 0
    for s in job["scripts"]:
        try:
            c = run_script(s, [])
        except HarnessError:
            broken += 1
            continue
        if c is None:
            ok += 1
        else:
            bad.append({"clause": c, "script": s})
    return {"stats": {"agree": ok, "differ": len(bad), "not run": broken}, "bad": bad[:3]}


def inject(t, st):
    """puts the table into a state of the class invariant (counter-model of
    the verifier)"""
    d, c = t.d, t.c
    d.reset(reset_stacks=True)
    d.action = st["action"]
    d.active = list(st["active"])
    d.button = st["button"]
    d.pot = st["pot"]
    d.pot_commits = list(st["pc"])
    d.stacks = list(st["st"])
    d.street = st["street"]
    d.street_commits = list(st["sc"])
    d.street_option = list(st["opt"])
    d.street_raises = st["sraises"]
    d.largest_raise = st["lraise"]
    d.history = []
    k = c.cc(st["street"]) - len(d.community_cards)
    d.community_cards = d.community_cards + d.deck.draw(max(0, k))
    if st.get("strength") is not None:
        strength = list(st["strength"])
        holes = [id(h) for h in d.hole_cards]
        ev = d.evaluator

        class Stub(object):
            table = ev.table

            def evaluate(self, hole, comm):
                return strength[holes.index(id(hole))]

        worst = max([s for s in strength] + [0]) + 1
        d.evaluator = Stub()

        class Tab(object):
            max_rank = worst

        d.evaluator.table = Tab()
    t.c.deal = None
    t.ghost = {"opt": list(st["opt"]), "sraises": st["sraises"], "lraise": st["lraise"]}


MIDHAND = {"C01", "C02", "C05", "C08", "C10", "C11", "C20", "C22"}


def random_hand(t, rng, script, extra=False, stacks=None):
    """one random hand on table t; appends the operations to script"""
    c, d = t.c, t.d

    def do(*op):
        script["ops"].append(list(op))
        apply_op(t, list(op))

    k = rng.random()
    rs = False
    plain = d.action != -1 and not t.touched and rng.random() < 0.3
    if plain:
        k = 1
    if stacks is not None:
        do("stacks", stacks)
    elif plain:
        pass
    elif k < 0.7:
        do("stacks", gen_stacks(rng, c.n))
    elif k < 0.85:
        rs = True
    elif sum(s > 0 for s in d.stacks) < 2 and rng.random() < 0.7:
        rs = True
    if not plain and rng.random() < 0.5:
        do("button", rng.randrange(c.n))
    if rng.random() < 0.3:
        idx = list(range(c.L))
        rng.shuffle(idx)
        do("trick", idx)
    elif d.deck._tricked if hasattr(d.deck, "_tricked") else True:
        do("untrick")
    do("reset", rng.random() < 0.1, rs)
    if d.action == -1 or t.touched:
        return
    style = rng.choice(["passive", "aggressive", "mixed", "mixed"])
    steps = 0
    # some hands are abandoned, the next reset then comes in the middle of a hand
    quit = rng.choice([0, 0, 0, 0.3]) if set(t.props) & MIDHAND else 0
    limit = 60 * c.n + 40
    while True:
        obs = dict(call=0, min_raise=0, max_raise=0)
        S = snapshot(d, t.ghost)
        call, lo, hi = spec.sizes(c, S, d.action)
        obs = dict(call=call, min_raise=lo, max_raise=hi)
        if steps > limit // 2:
            style = "passive"
        bet = gen_bet(rng, obs, style)
        do("step", bet)
        steps += 1
        if rng.random() < quit and d.action != -1:
            return
        if extra and rng.random() < 0.15:
            do("render", rng.choice(["config", "str"]))
        if d.action == -1:
            break
        if steps > limit:
            if "C07" in t.props:
                raise Failed("C07: hand ends after finitely many actions", None)
            return
    if extra:
        for _ in range(rng.randrange(1, 4)):
            k = rng.random()
            if k < 0.3:
                do("render", rng.choice(["config", "str"]))
            do("over", rng.choice([0, 1, -1, 5, 100]))


def shortest(script, log, props, clause):
    """the last hand, or as many of the hands before it at the same table as it
    takes to fail again"""
    for k in range(1, len(log) + 1):
        sc = dict(script, ops=[op for ops in log[-k:] for op in ops])
        try:
            if run_script(sc, props) == clause:
                return sc
        except HarnessError:
            pass
    return script


def directed(props, scripts, seed, seconds, extra=False):
    """random hands at tables with the configuration and the chips of
    counter-models of the verifier"""
    import time

    rng = random.Random(seed)
    random.seed(seed)
    end = time.time() + seconds
    hands = 0
    tables = []
    for sc in scripts:
        kw = {k: decode(v) for k, v in sc["config"].items()}
        stacks = None
        for op in sc["ops"]:
            if op[0] == "inject":
                stacks = [a + b for a, b in zip(op[1]["st"], op[1]["pc"])]
            elif op[0] == "stacks":
                stacks = op[1]
        try:
            tables.append((sc, Table(kw, props), stacks))
        except Exception:
            continue
    logs = {}
    while tables and time.time() < end:
        sc, t, stacks = rng.choice(tables)
        script = {"config": sc["config"], "ops": []}
        log = logs.setdefault(id(t), [])
        log.append(script["ops"])
        del log[:-20]
        script["ops"] += [["stacks", list(t.d.stacks)], ["button", t.d.button]]
        st = None
        if stacks is not None and rng.random() < 0.8:
            st = [max(0, x + rng.choice([0, 0, 0, 0, 1, -1])) for x in stacks]
        try:
            random_hand(t, rng, script, extra, st)
        except Failed as f:
            return {"hands": hands}, shortest(script, log, props, f.clause), f.clause
        except Exception as e:
            clause = classify(e)
            return {"hands": hands}, shortest(script, log, props, clause), clause
        hands += 1
    return {"hands": hands}, None, None


def search(props, seed, tables, hands, deadline=None, extra=False, nmin=2, nmax=10):
    import time

    rng = random.Random(seed)
    random.seed(seed)
    stats = {"hands": 0, "steps": 0, "clauses": 0, "configs": 0, "showdowns": 0, "showdowns_uneven": 0,
             "folds": 0, "by_players": {}}
    sample = None
    for k in range(tables):
        if deadline and time.time() > deadline:
            break
        kw = gen_config(rng)
        t = Table(kw, props)
        stats["configs"] += 1
        script = {"config": {k2: encode(v) for k2, v in kw.items()}, "ops": []}
        log = []
        for _ in range(hands):
            script["ops"] = []
            log.append(script["ops"])
            before = (list(t.d.stacks), t.d.button)
            script["ops"] += [["stacks", before[0]], ["button", before[1]]]
            try:
                random_hand(t, rng, script, extra)
            except Failed as f:
                return stats, shortest(script, log, props, f.clause), f.clause
            except Exception as e:
                clause = classify(e)
                return stats, shortest(script, log, props, clause), clause
            stats["hands"] += 1
            stats["steps"] += sum(o[0] == "step" for o in script["ops"])
            key = str(t.c.n)
            stats["by_players"][key] = stats["by_players"].get(key, 0) + 1
            if sum(t.d.active) >= 2:
                stats["showdowns"] += 1
                pcs = set(p for p, a in zip(t.d.pot_commits, t.d.active) if a)
                stats["showdowns_uneven"] += len(pcs) > 1
            if sample is None or rng.random() < 0.001:
                sample = json.loads(json.dumps(script))
        stats["clauses"] += t.count
    stats["sample"] = sample
    return stats, None, None
