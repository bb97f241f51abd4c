"""C25 (bounded): the real viewer with its server process on the loopback
interface, browsers played by polling clients of the Socket.IO protocol.

Everything that can fail because the machine is slow or a port is taken is
repeated; only what fails every time is reported."""
import io
import json
import os
import random
import signal
import sys
import time
import urllib.request

from native.cases import Violated, need, Tally, make_run_script


def packets(r):
    out = []
    while r:
        n, r = r.split(":", 1)
        out.append(r[:int(n)])
        r = r[int(n):]
    return out


class Browser(object):
    def __init__(self, base):
        self.base, self.seen = base, []
        p = packets(self.get(""))
        self.sid = json.loads(p[0][1:])["sid"]
        self.take(p[1:])

    def get(self, more, timeout=20):
        u = self.base + "/socket.io/?EIO=3&b64=1&transport=polling" + more
        return urllib.request.urlopen(u, timeout=timeout).read().decode("utf8")

    def take(self, ps):
        for p in ps:
            if p[:2] == "42":
                name, data = json.loads(p[2:])
                if name == "config":
                    self.seen.append(data)

    def wait(self, last, end):
        """until the state `last` has arrived"""
        while not (self.seen and self.seen[-1] == last) and time.time() < end:
            try:
                self.take(packets(self.get("&sid=" + self.sid, max(0.5, end - time.time()))))
            except OSError:
                return


def once(xs):
    out = []
    for x in xs:
        if not out or out[-1] != x:
            out.append(x)
    return out


class Late(Exception):
    pass


class Limit(object):
    """at most some seconds"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def stop(*a):
            raise Late()
        signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def attempt(n, hole, board, states, host, closing):
    from clubs.render import graphic

    err, sys.stdout = sys.stdout, io.StringIO()
    v = None
    try:
        kw = {} if host is None else {"host": host}
        with Limit(45):
            v = graphic.GraphicViewer(n, hole, board, **kw)
        said = sys.stdout.getvalue()
        sys.stdout = err
        base = "http://%s:%d" % (v.host, v.port)
        need(base in said, "C25: the announced address is the page's")
        r = urllib.request.urlopen(base + "/", timeout=20)
        page = r.read().decode("utf8")
        need(r.status == 200, "C25: the page is available at the announced address")
        need(str(v.svg_poker.base_svg).strip().split("?>")[-1].strip() in page, "C25: the page shows the table")
        a = Browser(base)
        b = Browser(base)
        sent = []
        for k, s in enumerate(states):
            with Limit(15):
                v.render(s)
            sent.append(json.loads(json.dumps(graphic._jsonify(s))))
            if k == len(states) // 2:
                # a browser that joins later
                a.wait(sent[-1], time.time() + 10)
                m = Browser(base)
                m.wait(sent[-1], time.time() + 5)
                need(m.seen and m.seen[-1] == sent[-1], "C25: a browser that connects later gets the last state")
        end = time.time() + 10
        for x in (a, b):
            x.wait(sent[-1], end)
            seen = [y for y in once(x.seen) if y != {}]
            need(seen == once(sent), "C25: every rendered state reaches every browser in order")
        c = Browser(base)
        c.wait(sent[-1], time.time() + 5)
        need(c.seen and c.seen[-1] == sent[-1], "C25: a browser that connects later gets the last state")
        urllib.request.urlopen(base + "/", timeout=20).read()
        try:
            with Limit(15):
                if closing == "del":
                    v.__del__()
                else:
                    v.close()
                need(not v.process.is_alive(), "C25: closing ends the process")
                v.process.join(10)
        except Late:
            need(False, "C25: closing ends the process")
        need(not v.process.is_alive(), "C25: closing ends the process")
        try:
            urllib.request.urlopen(base + "/", timeout=2).read()
        except OSError:
            pass
        else:
            need(False, "C25: the page is gone after closing")
        with Limit(15):
            v.close()  # a second time does nothing
    finally:
        sys.stdout = err
        kill(v)


def kill(v):
    import multiprocessing

    for p in multiprocessing.active_children():
        try:
            p.kill()
            p.join(5)
        except Exception:
            pass


def viewer(n, hole, board, seed, host=None, closing="close"):
    from clubs import Card

    rng = random.Random(seed)
    states = []
    for k in range(6):
        deck = [r + s for r in "23456789TJQKA" for s in "SHDC"]
        rng.shuffle(deck)
        states.append({
            "action": rng.randrange(-1, n), "active": [rng.random() < 0.7 for _ in range(n)],
            "all_in": [rng.random() < 0.3 for _ in range(n)],
            "community_cards": [Card(deck.pop()) for _ in range(rng.randrange(board + 1))],
            "button": rng.randrange(n), "done": rng.random() < 0.3,
            "hole_cards": [[Card(deck.pop()) for _ in range(hole)] for _ in range(n)],
            "pot": 1000 * k + rng.randrange(1000), "payouts": [rng.randrange(-50, 50) for _ in range(n)],
            "prev_action": None if not k else (rng.randrange(n), rng.randrange(50), rng.random() < 0.3),
            "street_commits": [rng.randrange(50) for _ in range(n)],
            "stacks": [rng.randrange(500) for _ in range(n)]})
        if k % 2:
            # the same state but for one thing
            x = rng.choice(["pot", "stacks", "done", "action", "button", "payouts", "community_cards"])
            states[-1] = dict(states[-2], **{x: states[-1][x]})
    for k, d in ((3, seed % 2 == 0), (5, seed % 2 == 1)):
        # a finished hand is a state like any other
        states[k]["done"] = d
    clauses = []
    for k in range(3):
        try:
            attempt(n, hole, board, states, host, closing)
            return
        except Violated as e:
            clauses.append(str(e))
        except Exception as e:
            clauses.append("C25: the viewer opens, serves and closes (%s)" % type(e).__name__)
        time.sleep(0.5 + k)
    if len(set(c.split("(")[0] for c in clauses)) == 1:
        raise Violated(clauses[-1])


def other():
    """another address of the loopback interface, if it can be used"""
    import socket

    try:
        s = socket.socket()
        s.bind(("127.0.0.2", 0))
        s.close()
        return "127.0.0.2"
    except OSError:
        return None


def conflict(which, host=None):
    """a port that is in use is an error"""
    import socket
    from clubs import error
    from clubs.render import graphic

    clauses = []
    for k in range(3):
        a, b = socket.socket(), socket.socket()
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            a.bind((host or "127.0.0.1", 0))
            port = a.getsockname()[1]
            a.listen(5)
            with Limit(45):
                v = graphic.GraphicViewer(2, 2, 5, port=port - which, **({} if host is None else {"host": host}))
        except error.RenderInitializationError:
            return
        except Exception as e:
            clauses.append("C25: a viewer that can not be opened is an error (%s)" % type(e).__name__)
        else:
            clauses.append("C25: a viewer that can not be opened is an error")
        finally:
            sys.stdout = out
            a.close()
            b.close()
            kill(None)
    raise Violated(clauses[-1])


CASES = dict(viewer=viewer, conflict=conflict)
run_script = make_run_script(CASES)


def views(job):
    import logging

    logging.disable(logging.CRITICAL)
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    k = 0
    while not t.over() and k < job.get("count", 4):
        if k % 4 >= 2:
            t.run("conflict", k % 2, limit=200.0)
            k += 1
            continue
        n = rng.choice([2, 2, 3, 6, 10])
        t.run("viewer", n, rng.randrange(1, 4), rng.choice([0, 3, 5]), rng.randrange(10 ** 6) * 2 + k % 2,
              [None, other(), None, None][k % 4], "del" if k % 3 == 1 else "close", limit=200.0)
        k += 1
        if t.viol:
            break
    return t.result()
