"""C21 (ASCII table), C23 (browser payload) and C24 (web page) on the real code."""
import copy
import json
import random
import re
from xml.etree import ElementTree as et

from native.cases import *  # noqa: F401,F403

import clubs
from clubs import render
from clubs.poker import Card

INF = float("inf")
SYM = u"\u2660\u2665\u2666\u2663"
CARD = u"[2-9TJQKA][%s]" % SYM
ENTRY = re.compile(u"(?<![\\w,.])(\\d+)\\. ((?:(?:%s|\\?\\?|--)(?:,(?:%s|\\?\\?|--))*)?) ?(-?[\\d,]+)(?![\\w,.])" % (CARD, CARD))
NUM = re.compile(r"-?\d[\d,]*")
MARK = re.compile(r"(?<!\S)[DXA](?!\S)")


def cards_of(strings):
    return [Card(s) for s in strings]


def to_int(s):
    return int(s.replace(",", ""))


def parse(text):
    """{seat number: dict(cards, stack, bet, marks)}, board line, footer"""
    lines = text.split("\n")
    seats, board, pot, used = {}, None, None, set()
    for i, line in enumerate(lines):
        body = line.strip(" /\\|")
        if "[" in line and "]" in line and "__" not in line:
            board = line[line.index("[") + 1:line.index("]")]
            nums = NUM.findall(line[line.index("]") + 1:])
            pot = to_int(nums[0]) if len(nums) == 1 else None
            used.add(i)
            continue
        found = list(ENTRY.finditer(line))
        if not found or "Player" in line:
            continue
        need(i + 1 < len(lines), "C21: every seat shows a bet")
        under = lines[i + 1]
        used |= {i, i + 1}
        nums = list(NUM.finditer(under))
        need(len(nums) == len(found), "C21: every seat shows its bet (or payout)")
        marks = [[] for _ in found]
        for m in MARK.finditer(under):
            d = [min(abs(m.start() - x.end()), abs(x.start() - m.end())) for x in nums]
            marks[d.index(min(d))].append(m.group(0))
        for k, m in enumerate(found):
            no = int(m.group(1))
            need(no not in seats, "C21: every seat number appears once")
            seats[no] = dict(cards=m.group(2), stack=to_int(m.group(3)), bet=to_int(nums[k].group(0)),
                             marks=marks[k])
    footer = [l.strip() for i, l in enumerate(lines) if i not in used and re.match(r"\s*(Players?|Action)\b", l)]
    return seats, board, pot, footer


def pretty(cs):
    return ",".join(str(c) for c in cs)


def check_text(text, config, nh, nc):
    n = len(config["active"])
    done, action = config["done"], config["action"]
    seats, board, pot, footer = parse(text)
    need(sorted(seats) == list(range(1, n + 1)), "C21: shows every seat's number")
    for i in range(n):
        s = seats[i + 1]
        need(s["stack"] == config["stacks"][i], "C21: shows every player's stack")
        need(s["bet"] == (config["payouts"] if done else config["street_commits"])[i],
             "C21: shows every player's street bet (the payout when done)")
        if not config["active"][i]:
            want = ",".join(["--"] * nh)
        elif done:
            want = pretty(config["hole_cards"][i])
        elif i == action:
            want = pretty(config["hole_cards"][i])
        else:
            want = ",".join(["??"] * nh)
        need(s["cards"] == want, "C21: shows exactly the cards of the player to act")
        need(("D" in s["marks"]) == (i == config["button"]), "C21: shows the button")
        if not done and i == action:
            need("X" in s["marks"] or (config["all_in"][i] and "A" in s["marks"]), "C21: shows the player to act")
        else:
            need("X" not in s["marks"], "C21: shows the player to act")
    need(board is not None, "C21: shows the board")
    shown = [c for c in board.split(",") if c not in ("--", "")]
    need(shown == [str(c) for c in config["community_cards"]], "C21: shows the board")
    need(pot == config["pot"], "C21: shows the pot")
    foot = " ".join(footer)
    if not done:
        m = re.search(r"Action on Player (\d+)", foot)
        need(m is not None and int(m.group(1)) == action + 1, "C21: names the player to act")
        need(" won " not in foot, "C21: names winners at the end only")
        desc = foot[:m.start()].strip()
        pa = config["prev_action"]
        if pa is None:
            want = ""
        else:
            p, b, f = pa
            want = "Player %d %s" % (p + 1, "folded" if f else ("bet %d" % b if b else "checked"))
        need(desc == want, "C22: describes the previous action")
    else:
        need("Action on" not in foot, "C21: no player to act when the hand is done")
        m = re.match(r"^Players? (.*?) ?won ?(.*?)(?: respectively)?$", foot)
        need(m is not None, "C21: names the winners")
        who = [x for x in m.group(1).split(", ") if x]
        what = [x for x in m.group(2).split(", ") if x]
        want = [(str(i + 1), p) for i, p in enumerate(config["payouts"]) if p > 0]
        need([(w, to_int(x)) for w, x in zip(who, what)] == want and len(who) == len(what) == len(want),
             "C21: names exactly the winners with their winnings")


def live(config):
    c = dict(config)
    c["hole_cards"] = [cards_of(h) for h in config["hole_cards"]]
    c["community_cards"] = cards_of(config["community_cards"])
    if c["prev_action"] is not None:
        c["prev_action"] = tuple(c["prev_action"])
    return c


def text(config, nh, nc):
    """rendered text of one table state"""
    n = len(config["active"])
    v = render.ASCIIViewer(n, nh, nc)
    c = live(config)
    s = v._parse_string(c)
    check_text(s, c, nh, nc)


def hidden(config, other, nh, nc):
    """the text does not depend on hidden cards"""
    v = render.ASCIIViewer(len(config["active"]), nh, nc)
    a = v._parse_string(live(config))
    c = live(config)
    o = cards_of([x for h in other for x in h])
    k = 0
    hc = []
    for i, h in enumerate(c["hole_cards"]):
        if i == config["action"] and config["active"][i]:
            hc.append(h)
        else:
            hc.append(o[k:k + nh])
            k += nh
    c["hole_cards"] = hc
    need(v._parse_string(c) == a, "C21: text does not depend on hidden cards")


def printed(config, nh, nc):
    import io
    from contextlib import redirect_stdout

    v = render.ASCIIViewer(len(config["active"]), nh, nc)
    out = io.StringIO()
    c = live(config)
    with redirect_stdout(out):
        v.render(c)
    check_text(out.getvalue(), c, nh, nc)


def dealt(kw, seed, bets):
    """str(dealer) and render('ascii') during a real hand"""
    import io
    from contextlib import redirect_stdout

    random.seed(seed)
    kw = dict(kw)
    if kw.get("raise_sizes") is None:
        kw["raise_sizes"] = INF
    d = clubs.poker.engine.Dealer(**kw)
    n, nh, nc = kw["num_players"], kw["num_hole_cards"], sum(d.num_community_cards)
    d.reset()
    done, pay, last = [False] * n, [0] * n, None
    seen = len(d.history)
    for bet in list(bets) + [None]:
        config = {
            "action": d.action, "active": list(d.active), "button": d.button, "done": all(done),
            "all_in": [bool(a and s == 0) for a, s in zip(d.active, d.stacks)],
            "community_cards": list(d.community_cards), "hole_cards": [list(h) for h in d.hole_cards],
            "pot": d.pot, "payouts": list(pay), "prev_action": last,
            "street_commits": list(d.street_commits), "stacks": list(d.stacks)}
        check_text(str(d), config, nh, nc)
        out = io.StringIO()
        with redirect_stdout(out):
            d.render(mode="ascii")
        check_text(out.getvalue(), config, nh, nc)
        if bet is None or d.action == -1:
            break
        who, stacks = d.action, list(d.stacks)
        pot = d.pot
        obs, pay, done = d.step(bet)
        if all(done):
            put = 0
        else:
            put = stacks[who] - d.stacks[who]
        last = (who, put, not d.active[who])


def shown(kw, st, last):
    """str(dealer) and render('ascii') of a table put into a state"""
    import io
    from contextlib import redirect_stdout
    from native import table

    kw = dict(kw)
    kw["raise_sizes"] = [INF if isinstance(x, dict) else x for x in kw["raise_sizes"]]
    kw["num_raises"] = [INF if isinstance(x, dict) else x for x in kw["num_raises"]]
    kw["start_stack"] = max(1, kw["start_stack"])

    class T(object):
        pass

    t = T()
    t.c = T()
    t.c.cc = lambda s: sum(kw["num_community_cards"][:s + 1])
    t.d = d = clubs.poker.engine.Dealer(**kw)
    table.inject(t, st)
    if last is not None:
        d.history = [tuple(last)]
    config = {
        "action": d.action, "active": list(d.active), "button": d.button, "done": False,
        "all_in": [bool(a and s == 0) for a, s in zip(d.active, d.stacks)],
        "community_cards": list(d.community_cards), "hole_cards": [list(h) for h in d.hole_cards],
        "pot": d.pot, "payouts": [0] * len(d.active), "prev_action": last,
        "street_commits": list(d.street_commits), "stacks": list(d.stacks)}
    nh, nc = kw["num_hole_cards"], sum(kw["num_community_cards"])
    check_text(str(d), config, nh, nc)
    out = io.StringIO()
    with redirect_stdout(out):
        d.render(mode="ascii")
    check_text(out.getvalue(), config, nh, nc)


# ------------------------------------------------------------------ payload
def plain(v):
    if isinstance(v, Card):
        return str(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def snapshot(v):
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v)) + tuple(snapshot(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, snapshot(v[k])) for k in v)
    return (id(v), str(v), type(v).__name__)


class Sock(object):
    def __init__(self):
        self.sent = []

    def send(self, x):
        self.sent.append(x)


class Proc(object):
    def is_alive(self):
        return False


def payload(config, extra):
    from clubs.render import graphic

    c = live(config)
    c.update(extra)
    want = plain(c)
    s0 = snapshot(c)
    got = []
    if hasattr(graphic, "_jsonify"):
        got.append(graphic._jsonify(c))
    v = graphic.GraphicViewer.__new__(graphic.GraphicViewer)
    v.socket, v.process = Sock(), Proc()
    try:
        v.render(c)
        need(len(v.socket.sent) == 1, "C23: every rendered state is sent once")
        got += [m["content"] for m in v.socket.sent]
    except AttributeError as e:
        if "GraphicViewer" not in str(e) or not got:
            raise
    need(snapshot(c) == s0, "C23: the table state is not altered")
    for g in got:
        g = json.loads(json.dumps(g))
        for k in want:
            need(k in g, "C23: payload has every field of the table state")
            need(g[k] == json.loads(json.dumps(want[k])), "C23: payload has the values of the table state")
    need(got, "C23: a payload is sent")


class Quick(Sock):
    """takes down what is sent when it is sent"""

    def send(self, x):
        self.sent.append(json.loads(json.dumps(x)))

    def start(self):
        pass

    def is_alive(self):
        return False

    status = 200


def opened(n):
    """a viewer without a process"""
    import contextlib
    import io
    import multiprocessing
    import urllib.request
    from multiprocessing import connection
    from clubs.render import graphic

    keep = multiprocessing.Process, connection.Client, urllib.request.urlopen
    link = Quick()
    try:
        multiprocessing.Process = lambda *a, **k: Quick()
        connection.Client = lambda *a, **k: link
        urllib.request.urlopen = lambda *a, **k: Quick()
        with contextlib.redirect_stdout(io.StringIO()):
            v = graphic.GraphicViewer(n, 2, 5)
    except Exception:
        return None, None
    finally:
        multiprocessing.Process, connection.Client, urllib.request.urlopen = keep
    return v, link


def payloads(config, again):
    """successive states of one viewer, the same dictionary changed in place"""
    v, link = opened(max(1, len(config["active"])))
    if v is None or getattr(v, "socket", None) is not link:
        return
    c = live(config)
    want = []
    for k in range(4):
        if k == again:
            c["pot"] += 1
        elif k == again + 1 and c["stacks"]:
            c["stacks"][0] += 5
            c["community_cards"] = c["community_cards"][1:]
        want.append(json.loads(json.dumps(plain(c))))
        v.render(c)
        if k in (again, again + 1, 0):
            need(link.sent and isinstance(link.sent[-1], dict) and link.sent[-1].get("content") == want[-1],
                 "C23: the payload has the values of the table state rendered last")


# --------------------------------------------------------------------- page
def page(n, h, c):
    from clubs.render import graphic

    svg = graphic._SVGPoker(n, h, c).base_svg
    root = et.fromstring(str(svg).encode("utf8"))
    up = {ch: p for p in root.iter() for ch in p}
    ids = {}
    for e in root.iter():
        if e.get("id") is not None:
            need(e.get("id") not in ids, "C24: no two elements share an id")
            ids[e.get("id")] = e

    def has(i):
        need(i in ids, "C24: element for %s" % re.sub(r"\d+", "N", i))
        return ids[i]

    def within(e, box):
        while e is not None and e is not box:
            e = up.get(e)
        need(e is box, "C24: elements of a player lie in that player's box")

    boxes = [e for e in root.iter() if e.get("class") == "player"]
    for i in range(n):
        box = has(str(i))
        need(i < len(boxes) and boxes[i] is box, "C24: boxes in seat order")
        within(has("player-background-%d" % i), box)
        within(has("chips-text-%d" % i), has("chips-%d" % i))
        within(ids["chips-%d" % i], box)
        street = has("street-commit-%d" % i)
        within(has("street-commit-text-%d" % i), street)
        within(has("button-%d" % i), street)
        within(has("button-background-%d" % i), ids["button-%d" % i])
        within(has("cards-%d" % i), box)
        for k in range(h):
            within(has("card-%d-%d" % (i, k)), ids["cards-%d" % i])
            need(len([e for e in ids["card-%d-%d" % (i, k)].iter() if e.get("class") == "card-text"]) == 1
                 and len([e for e in ids["card-%d-%d" % (i, k)].iter() if e.get("class") == "card-background"]) == 1,
                 "C24: every card has one face")
        need("card-%d-%d" % (i, h) not in ids, "C24: exactly one place per hole card")
    need(len(boxes) == n and str(n) not in ids, "C24: exactly one box per player")
    com = has("community")
    for k in range(c + 1):
        within(has("card-community-%d" % k), com)
        face = [e.get("class") for e in ids["card-community-%d" % k].iter()]
        need(face.count("card-text") == 1 and face.count("card-background") == 1, "C24: every card has one face")
    need("card-community-%d" % (c + 1) not in ids, "C24: exactly one place per community card")
    within(has("pot-text"), has("pot"))
    within(ids["pot"], com)


CASES = dict(text=text, shown=shown, hidden=hidden, printed=printed, dealt=dealt, payload=payload, payloads=payloads, page=page)
run_script = make_run_script(CASES)


def chips(rng):
    return rng.choice([0, 1, 9, 10, 99, 100, 999, 1000, 1234, 12345, 99999, rng.randrange(1000),
                       rng.randrange(10 ** 5), rng.randrange(10 ** 6)])


def gen_config(rng, wide=False, nh=None, done=None):
    n = rng.randrange(2, 11)
    nh = rng.choice([1, 2, 2, 2, 3, 4]) if nh is None else nh
    nc = rng.choice([0, 1, 3, 5, 5])
    deck = [r + s for r in "23456789TJQKA" for s in "SHDC"]
    rng.shuffle(deck)
    hc = [[deck.pop() for _ in range(nh)] for _ in range(n)]
    cc = [deck.pop() for _ in range(rng.choice([0, nc, rng.randrange(nc + 1)]))] if len(deck) > nc else []
    nc = max(nc, len(cc))
    done = rng.random() < 0.35 if done is None else done
    active = [rng.random() < 0.7 for _ in range(n)]
    if not any(active):
        active[rng.randrange(n)] = True
    action = rng.choice([i for i in range(n) if active[i]])
    amount = (lambda: rng.randrange(10 ** 9)) if wide else (lambda: chips(rng))
    stacks = [amount() for _ in range(n)]
    commits = [rng.choice([0, amount()]) for _ in range(n)]
    all_in = [a and rng.random() < 0.2 for a in active]
    payouts = [rng.choice([0, amount() % 100000, -(amount() % 100000)]) for _ in range(n)]
    if rng.random() < 0.3:
        payouts = [0] * n
        payouts[rng.randrange(n)] = amount()
    prev = None
    if rng.random() < 0.8:
        prev = [rng.randrange(n), rng.choice([0, amount()]), rng.random() < 0.3]
        if prev[2]:
            prev[1] = 0
    cfg = {"action": -1 if done else action, "active": active, "all_in": all_in, "community_cards": cc,
           "button": rng.randrange(n), "done": done, "hole_cards": hc, "pot": 0 if done else amount(),
           "payouts": payouts, "prev_action": prev, "street_commits": commits, "stacks": stacks}
    return cfg, nh, nc, deck


def ascii_search(job):
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    while not t.over():
        cfg, nh, nc, deck = gen_config(rng)
        if rng.random() < 0.05:
            t.run("printed", cfg, nh, nc)
        else:
            t.run("text", cfg, nh, nc)
        if not cfg["done"]:
            cards = [x for h in cfg["hole_cards"] for x in h] + deck
            rng.shuffle(cards)
            other = [cards[k * nh:(k + 1) * nh] for k in range(len(cfg["active"]))]
            if all(len(o) == nh for o in other):
                t.run("hidden", cfg, other, nh, nc)
        if rng.random() < 0.02:
            n = rng.randrange(2, 11)
            ns = rng.choice([1, 2, 3])
            kw = dict(num_players=n, num_streets=ns, blinds=rng.choice([0, 1, 2]), antes=rng.choice([0, 1]),
                      raise_sizes=rng.choice([None, "pot", 2]), num_raises=9, num_suits=4, num_ranks=13,
                      num_hole_cards=rng.choice([1, 2]),
                      num_community_cards=[rng.choice([0, 1, 3]) for _ in range(ns)], num_cards_for_hand=3,
                      mandatory_num_hole_cards=0, start_stack=rng.choice([4, 10, 100, 5000]))
            bets = [rng.choice([0, -1, 2, 2, 4, 4, 8, 200, 0, 1, 10 ** 6]) for _ in range(rng.randrange(3, 30))]
            t.run("dealt", kw, rng.randrange(10 ** 6), bets)
    return t.result()


def payload_search(job):
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    while not t.over():
        cfg, nh, nc, deck = gen_config(rng, wide=rng.random() < 0.5, nh=rng.choice([0, 1, 2, 4]))
        k = rng.random()
        if k < 0.1:
            cfg["hole_cards"] = []
        elif k < 0.15:
            for f in ("active", "all_in", "hole_cards", "payouts", "street_commits", "stacks"):
                cfg[f] = cfg[f][:1]
        elif k < 0.2:
            cfg["hole_cards"][rng.randrange(len(cfg["hole_cards"]))] = []
        t.run("payload", cfg, {"more": 3} if rng.random() < 0.1 else {})
        if rng.random() < 0.002:
            t.run("payloads", cfg, rng.randrange(3))
    return t.result()


def pages(job):
    """complete for 1-12 and 20 players, 0-6 hole and 0-10 community cards"""
    t = Tally(job, CASES)
    k = 0
    for n in list(range(1, 13)) + [20]:
        for h in range(0, 7):
            for c in range(0, 11):
                k += 1
                if (not job.get("all") and (k % 3 != job["seed"] % 3) and n > 3 and h > 2 and c > 5):
                    continue
                if k % job["parts"] == job["part"]:
                    t.run("page", n, h, c)
                if t.over():
                    break
    return t.result(exhaustive=t.complete)
