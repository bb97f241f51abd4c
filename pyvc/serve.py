"""The web viewer's process (C25).

("serve", "server")  GraphicViewer._run_flask: the page, the address it is served
                     at, the loop that receives states, browsers that connect
("serve", "open", given)   __init__: one process, the announced address
("serve", "close")   close and __del__: the process has ended

The libraries (flask, flask_socketio, gevent, multiprocessing, socket, urllib)
are replaced by contracts that record what they are asked to do.  What travels
between the processes is taken from the real render() and close().

Invariant of the receiving loop: the process is either as it was at the start or
as after one received state, with the last state in the place of that one.  It is
verified by rounds from both: a round without a message changes nothing and sends
nothing, a round with a state leads to (or back to) the second, whatever states
these are - the code cannot look into them."""
import z3

from .values import *
from .interp import *
from . import builtins as bi
from .dealer import Task
from specs.ops import *

GRAPHIC = "clubs/render/graphic.py"


def make(program, what, *args):
    return globals()["do_" + what](program, *args)


class Shown(Ref):
    """a table state that was sent; nothing is known about it"""

    def __init__(self, name):
        self.name = name

    def eq_to(self, ip, o):
        if isinstance(o, str) or o is None:
            return False
        raise Unsupported("comparison of table states")


class Stop(Exception):
    pass


class Machine(Module):
    """a library: everything it does not know is outside the subset"""


HOST = SymStr([("the host",)])
SVG = SymStr([("the table",)])


class World(object):
    def __init__(self, program):
        self.ip = ip = Interp(program)
        self.trace = []
        self.handlers, self.routes, self.tasks = {}, {}, []
        self.mode = None
        self.now = 0.0
        self.queue, self.allowed = [], False
        ip.hooks.update(stdlib=self.library, nonlocal_=True, decorated=True, closing=True, print=self.printed)
        world = self

        class Loops(dict):
            def get(self, key, default=None):
                return world.loop

        ip.loop_contracts = Loops()
        self.mod = ip.module(GRAPHIC)
        self.mod.attrs["REQUIREMENTS"] = True
        self.cls = self.mod.attrs.get("GraphicViewer")
        if not isinstance(self.cls, Cls):
            raise Unsupported("class GraphicViewer not found")

    # ------------------------------------------------------------ contracts
    def does(self, name, *values):
        self.trace.append((name,) + values)

    def b(self, name, f, pure=False):
        """an effect that happens only if its guard holds"""
        def run(ip, a, kw, g):
            if not pure and not ip.feasible(g):
                return None
            if not pure and not ip.valid(g):
                raise Unsupported("%s under a condition" % name)
            return f(*a, **kw)

        def checked(ip, a, kw, g):
            try:
                return run(ip, a, kw, g)
            except TypeError as e:
                raise Unsupported("arguments of %s" % name)
        return Builtin(name, checked)

    def obj(self, **fs):
        pure = fs.pop("pure", False)
        o = PyObj(None, {k: self.b(k, f, pure) if callable(f) else f for k, f in fs.items()})
        return o

    def printed(self, a, kw, g):
        if not (self.ip.feasible(g) and self.ip.valid(g)):
            raise Unsupported("print under a condition")
        self.does("print", bi.strcat([bi.fmt(self.ip, x, "") for x in a]))

    def fail(self, name):
        self.ip.do_raise(True, name)

    def library(self, name):
        b, o = self.b, self.obj
        none = lambda *a, **k: None
        if name == "gevent":
            return Machine("gevent", {
                "monkey": Machine("monkey", {"patch_all": b("patch_all", none)}),
                "sleep": b("sleep", lambda seconds=0, ref=True: self.does("sleep")),
                "spawn": b("spawn", self.background)})
        if name == "flask":
            return Machine("flask", {"Flask": b("Flask", self.flask), "render_template": b(
                "render_template", lambda *a, **kw: ("rendered", a, PyDict(kw)))})
        if name == "flask_socketio":
            return Machine("flask_socketio", {"SocketIO": b("SocketIO", self.socketio),
                                              "emit": b("emit", self.emit)})
        if name == "markupsafe":
            return Machine("markupsafe", {"Markup": b("Markup", lambda x: ("markup", x))})
        if name == "time":
            clock = b("time", self.time)
            return Machine("time", {"sleep": b("sleep", self.sleep), "time": clock, "monotonic": clock,
                                    "perf_counter": clock})
        if name == "multiprocessing":
            return Machine("multiprocessing", {
                "Process": b("Process", self.process),
                "connection": Machine("connection", {"Listener": b("Listener", self.listener),
                                                     "Client": b("Client", self.client)})})
        if name == "socket":
            return Machine("socket", {"socket": b("socket", self.probe, True), "AF_INET": 2, "SOCK_STREAM": 1,
                                      "SOL_SOCKET": 1, "SO_REUSEADDR": 2})
        if name == "urllib":
            return Machine("urllib", {
                "request": Machine("request", {"urlopen": b("urlopen", self.urlopen)}),
                "error": Machine("error", {"URLError": Exc("URLError"), "HTTPError": Exc("HTTPError")})})
        return None

    # server side
    def flask(self, *a, **kw):
        def deco(path, f):
            self.routes[path] = f
            return f

        def route(path, **kw):
            if kw or not isinstance(path, str):
                raise Unsupported("route")
            return self.b("route", lambda f: deco(path, f))

        def add(path, endpoint=None, view_func=None, **kw):
            if kw or not isinstance(path, str) or view_func is None:
                raise Unsupported("route")
            deco(path, view_func)
        self.app = self.obj(route=route, get=route, add_url_rule=add)
        return self.app

    def socketio(self, *a, **kw):
        def register(event, f):
            self.handlers.setdefault(event, []).append(f)
            return f

        def on(event, **kw):
            if kw or not isinstance(event, str):
                raise Unsupported("event")
            return self.b("on", lambda f: register(event, f))

        def on_event(event, f, **kw):
            if kw or not isinstance(event, str):
                raise Unsupported("event")
            register(event, f)

        def event(f):
            return register(f.name, f)

        def run(app, host=None, port=None, **kw):
            self.does("run", app, host, port)

        self.sio = self.obj(on=on, on_event=on_event, event=event, emit=self.emit, run=run,
                            start_background_task=self.background, sleep=lambda seconds=0: self.does("sleep"))
        return self.sio

    def background(self, f, *a, **kw):
        self.tasks.append((f, a, kw, len(self.trace)))
        self.does("background")
        return self.obj()

    def emit(self, event, *a, **kw):
        kw.pop("broadcast", None)
        if len(a) != 1 or kw or not isinstance(event, str):
            raise Unsupported("emit")
        self.does("emit", event, a[0])

    def listener(self, address, **kw):
        if kw:
            raise Unsupported("listener")
        self.does("listen", address)
        return self.obj(accept=self.accept, close=lambda: None)

    def accept(self):
        self.does("accept")
        self.conn = self.obj(poll=self.poll, recv=self.recv, close=lambda: self.does("hang up"))
        return self.conn

    def poll(self, timeout=0.0):
        if self.mode != "listen":
            raise Unsupported("poll")
        if timeout is None:
            self.does("blocked")
        elif not isinstance(timeout, (int, float)):
            raise Unsupported("poll")
        self.polls += 1
        if self.polls > 1:
            raise Unsupported("several polls in a round")
        self.allowed = bool(self.queue)
        return self.allowed

    def recv(self):
        if self.mode != "listen":
            raise Unsupported("recv")
        if not self.allowed:
            self.does("blocked")
        self.allowed = False
        if not self.queue:
            raise Stop()
        m = self.queue.pop(0)
        self.does("received")
        return m

    # viewer side
    def time(self):
        self.now += 1.0
        return self.now

    def sleep(self, seconds):
        if isinstance(seconds, (int, float)):
            self.now += seconds
        self.does("sleep")

    def process(self, **kw):
        if set(kw) - {"target", "daemon", "name"}:
            raise Unsupported("process")
        p = self.obj(start=lambda: self.does("start", kw.get("target")))
        return p

    def client(self, address, **kw):
        if kw:
            raise Unsupported("client")
        self.does("connect", address)
        if self.refuse > 0:
            self.refuse -= 1
            self.fail("ConnectionRefusedError")
        return self.obj(send=lambda x: self.does("send", x), close=lambda: None)

    def urlopen(self, url, *a, **kw):
        if isinstance(url, (PyObj, U)):
            raise Unsupported("url")
        self.does("fetch", url)
        if self.missing > 0:
            self.missing -= 1
            self.fail("URLError")
        return self.obj(status=200, code=200, getcode=lambda: 200, close=lambda: None)

    def probe(self, *a, **kw):
        p = z3.Int("probed")
        self.ip.assume(And(p >= 1, p <= 65534))
        def bind(a):
            if is_host(a[0]) if isinstance(a, tuple) and len(a) == 2 else False:
                self.tested += 1
                if self.tested == self.busy:
                    self.fail("OSError")
        return self.obj(bind=bind, getsockname=lambda: ("0.0.0.0", p), close=lambda: None,
                        setsockopt=lambda *a: None, pure=True)

    # ------------------------------------------------------- receiving loop
    def loop(self, ip, st, fr, g, it):
        if it is not None or self.mode != "listen":
            return NotImplemented
        if self.inside or g is not True:
            raise Unsupported("loop in the receiving loop")
        self.inside = True
        self.frame = fr
        self.snaps = [self.snap()]
        self.rounds = []
        self.ask()
        for msg in self.script:
            k = len(self.trace)
            self.polls, self.allowed = 0, False
            self.queue = [] if msg is None else [copied(msg)]
            for m in shown(msg):
                self.last = m
            gone = False
            c = simp(ip.truth(ip.ev(st.test, fr, True)))
            if c is False:
                gone = True
            elif c is not True:
                raise Unsupported("condition of the receiving loop")
            else:
                lp = Loop()
                fr.loops.append(lp)
                blocked = False
                try:
                    out = Or(ip.exec_block(st.body, fr, True), lp.cont)
                except Stop:
                    blocked, out = True, True
                fr.loops.pop()
                if sym(out):
                    out = simp(out)
                if sym(out) or sym(lp.brk):
                    raise Unsupported("receiving loop under a condition")
                gone = not out
            if not gone and msg is not None and not shown(msg):
                # the condition may end the loop
                c = simp(ip.truth(ip.ev(st.test, fr, True)))
                if c is False:
                    gone = True
            self.rounds.append((msg, gone, self.trace[k:], not self.queue))
            if gone:
                break
            self.snaps.append(self.snap())
            self.ask()
        raise Stop()

    def ask(self):
        """what a browser that connects now gets"""
        before = self.snap()
        k = len(self.trace)
        for f in self.handlers.get("connect", ()):
            self.ip.call(f, [], {}, True)
        self.asked.append(self.trace[k:])
        del self.trace[k:]
        if self.snap() != before:
            raise Unsupported("a connecting browser changes the state")

    def snap(self):
        """everything the process can reach, up to renaming of the last state"""
        seen, out = {}, []
        keep = []

        def go(v):
            keep.append(v)
            if isinstance(v, Shown):
                out.append("last" if v is self.last else "older")
                return
            if conc(v) or isinstance(v, (SymStr, z3.ExprRef)):
                out.append(repr(v))
                return
            if id(v) in seen:
                out.append(("again", seen[id(v)]))
                return
            if isinstance(v, tuple):
                out.append(("tuple", len(v)))
                for x in v:
                    go(x)
                return
            seen[id(v)] = len(seen)
            if isinstance(v, PyList):
                out.append(("list", len(v.items), repr(v.guards)))
                for x in v.items:
                    go(x)
            elif isinstance(v, PyDict):
                out.append(("dict", repr(list(v.d)), repr(list(v.maybe.items()))))
                for x in v.d.values():
                    go(x)
            elif isinstance(v, PyObj):
                out.append(("object", repr(sorted(v.attrs))))
                for k in sorted(v.attrs):
                    go(v.attrs[k])
            elif isinstance(v, (Func, Bound, Builtin, Module, Cls, Exc)):
                out.append((type(v).__name__, id(v)))
            else:
                raise Unsupported("value in the receiving loop: %r" % (v,))

        todo = frames(self.frame)
        for fs in list(self.handlers.values()) + [list(self.routes.values())]:
            for f in fs:
                f = f.func if isinstance(f, Bound) else f
                if isinstance(f, Func) and f.closure is not None:
                    todo += [x for x in frames(f.closure) if x not in todo]
        for f in todo:
            for k in sorted(f.env):
                out.append(("variable", k))
                go(f.env[k])
        for k in sorted(self.mod.attrs):
            v = self.mod.attrs[k]
            if isinstance(v, (PyList, PyDict, PyObj)):
                out.append(("global", k))
                go(v)
        self.keep.append(keep)
        return out


def copied(v):
    if isinstance(v, PyDict):
        r = PyDict({k: copied(x) for k, x in v.d.items()})
        if v.maybe:
            raise Unsupported("message")
        return r
    if isinstance(v, PyList) and v.guards is None:
        return PyList([copied(x) for x in v.items])
    if isinstance(v, tuple):
        return tuple(copied(x) for x in v)
    if isinstance(v, Shown) or conc(v):
        return v
    raise Unsupported("message %r" % (v,))


def shown(v):
    if isinstance(v, Shown):
        return [v]
    if isinstance(v, PyDict):
        return [y for x in v.d.values() for y in shown(x)]
    if isinstance(v, PyList):
        return [y for x in v.items for y in shown(x)]
    if isinstance(v, tuple):
        return [y for x in v for y in shown(x)]
    return []


def viewer(w, alive=(True, False), probed=False):
    """a viewer that is open; what it sends is recorded"""
    calls = list(alive)
    state = {"alive": alive[0]}

    def end():
        w.does("terminate")
        state["end"] = True

    def join(timeout=None):
        if timeout is not None:
            raise Unsupported("join with a timeout")
        w.does("join")
        if state.get("end"):
            state["alive"] = False
        elif state["alive"]:
            w.does("waits forever")

    p = w.obj(is_alive=lambda: state["alive"], terminate=end, kill=end, join=join)
    s = w.obj(send=lambda x: w.does("send", x), close=lambda: None)
    return PyObj(w.cls, {"host": HOST, "port": z3.Int("port"), "process": p, "socket": s,
                         "svg_poker": PyObj(None, {"base_svg": SVG})}), state


def messages(program, closing=True):
    """what render and close send"""
    w = World(program)
    out = []
    if ("_jsonify" not in w.mod.attrs):
        raise Unsupported("_jsonify not found")
    for k in range(2):
        x = Shown("state %d" % k)
        w.ip.contracts[(None, "_jsonify")] = lambda ip, f, a, kw, g, x=x: x
        v, _ = viewer(w)
        n = len(w.trace)
        w.ip.call_func(w.cls.lookup("render"), [v, PyDict({})], {}, True)
        sent = [e[1] for e in w.trace[n:] if e[0] == "send"]
        if len(sent) != 1:
            raise Unsupported("render sends %d messages" % len(sent))
        if shown(sent[0]) != [x]:
            raise Unsupported("message of render")
        out.append(sent[0])
    v, _ = viewer(w)
    n = len(w.trace)
    w.ip.call_func(w.cls.lookup("close"), [v], {}, True)
    return out[0], out[1], [e[1] for e in w.trace[n:] if e[0] == "send"], w


def run_server(program, script):
    w = World(program)
    v, _ = viewer(w)
    w.ip.assume(And(v.attrs["port"] >= 1, v.attrs["port"] <= 65534))
    w.ip.call_func(w.cls.lookup("_run_flask"), [v], {}, True)
    if w.ip.raises:
        raise Unsupported("exception in the server")
    w.viewer = v
    w.script, w.inside, w.last = script, False, None
    w.asked, w.snaps, w.rounds, w.keep = [], [], [], []
    w.setup = list(w.trace)
    if len(w.tasks) == 1:
        f, a, kw, _ = w.tasks[0]
        w.mode = "listen"
        try:
            w.ip.call(f, list(a), kw, True)
        except Stop:
            pass
        w.mode = None
    if w.ip.raises:
        raise Unsupported("exception in the receiving loop")
    return w


def same_term(ip, a, b):
    if is_int(a) and is_int(b):
        return lift(a) == lift(b)
    return False


def is_host(x):
    return isinstance(x, SymStr) and x.parts == HOST.parts


def do_server(program):
    t = Task("server process of the viewer")
    m1, m2, bye, wm = messages(program)
    one, two = shown(m1)[0], shown(m2)[0]
    w = run_server(program, [None, m1, None, m2, None] + bye)
    ip = w.ip

    def add(name, f, kind="post"):
        t.obs.append(("C25: " + name, f, kind, len(ip.assumptions)))

    # the page and where it is served
    runs = [e for e in w.setup if e[0] == "run"]
    if not runs:
        raise Unsupported("how the server is run")
    v = w.viewer
    add("the page is served once, by the process's own app", len(runs) == 1 and runs[0][1] is w.app)
    add("the page is served at the announced host", is_host(runs[0][2]))
    add("the page is served at the announced port", same_term(ip, runs[0][3], v.attrs["port"]))
    add("a page is there", "/" in w.routes)
    if "/" in w.routes:
        r = ip.call(w.routes["/"], [], {}, True)
        ok = False
        if not (isinstance(r, tuple) and len(r) == 3 and r[0] == "rendered"):
            raise Unsupported("what the page is")
        svg = r[2].d.get("svg")
        if isinstance(svg, tuple) and len(svg) == 2 and svg[0] == "markup":
            ok = isinstance(svg[1], SymStr) and svg[1].parts == SVG.parts
        add("the page shows the table", r[1] == ("index.html",) and ok)

    # the receiving loop
    if len(w.tasks) != 1:
        raise Unsupported("%d background tasks" % len(w.tasks))
    names = [e[0] for e in w.setup]
    add("states are received before the server takes over", names.index("background") < names.index("run"))
    listens = [e for e in w.trace if e[0] == "listen"]
    if len(listens) != 1 or not w.rounds:
        raise Unsupported("how states are received")
    a = listens[0][1]
    add("states are received where the viewer sends them", And(
        isinstance(a, tuple) and len(a) == 2 and is_host(a[0]), same_term(ip, a[1], v.attrs["port"] + 1))
        if isinstance(a, tuple) and len(a) == 2 else False)
    what = [None, one, None, two, None]
    for k, (msg, gone, trace, taken) in enumerate(w.rounds[:5]):
        when = "round %d" % k
        emits = [e for e in trace if e[0] == "emit"]
        if msg is None:
            add("nothing is sent to the browsers without a new state (%s)" % when, not emits)
            add("the server works while nothing is rendered (%s)" % when,
                any(e[0] == "sleep" for e in trace) and not any(e[0] == "blocked" for e in trace), "lemma")
        else:
            add("every state is taken (%s)" % when, taken)
            add("every state is sent to all browsers, once (%s)" % when,
                len(emits) == 1 and emits[0][1] == "config" and emits[0][2] is what[k])
            add("the server is not blocked (%s)" % when, not any(e[0] == "blocked" for e in trace), "lemma")
        add("states are received until the viewer closes (%s)" % when, not gone)
        if gone:
            break
    if len(w.snaps) >= 6:
        s = w.snaps
        if s[1] != s[0] or s[3] != s[2] or s[4] != s[2] or s[5] != s[4]:
            raise Unsupported("the receiving loop keeps more than the last state")
        t.obs.append(("the receiving loop keeps the last state only", True, "inv", len(ip.assumptions)))
        for k, want in ((0, None), (2, one), (4, two)):
            got = w.asked[k]
            if want is None:
                add("a browser that connects first gets no state", all(
                    e[0] == "emit" and not isinstance(e[2], Shown) for e in got) and len(got) <= 1)
            else:
                add("a browser that connects later gets the last state (after %s)" % want.name,
                    len(got) == 1 and got[0][:2] == ("emit", "config") and got[0][2] is want)
    # closing before anything was rendered
    t.pre = ip.assumptions
    vc = Task("vc")
    vc.ip = ip
    t.vc = vc
    ip.inlined |= wm.ip.inlined
    t.replay = lambda m: script()
    return t


def script(host=None, closing="close"):
    return {"module": "viewer", "case": "viewer", "args": [2, 2, 5, 1, host, closing]}


def do_close(program):
    t = Task("closing the viewer")
    ip = None
    for name in ("close", "__del__"):
        for alive in (True, False):
            w = World(program)
            v, state = viewer(w, (alive,))
            f = w.cls.lookup(name)
            k0 = "%s, process %s" % (name, "running" if alive else "ended")
            if f is None:
                raise Unsupported("%s not found" % name)
            w.ip.call_func(f, [v], {}, True)
            if w.ip.raises:
                raise Unsupported("exception in close")
            ip = w.ip if ip is None else ip
            ip.inlined |= w.ip.inlined
            acts = [e[0] for e in w.trace]
            t.obs.append(("C25: the process has ended (%s)" % k0, not state["alive"] and
                          "waits forever" not in acts, "post", 0))
            # a second time
            w.ip.call_func(f, [v], {}, True)
            t.obs.append(("C25: closing again changes nothing (%s)" % k0, not state["alive"] and not w.ip.raises and
                          "waits forever" not in [e[0] for e in w.trace], "post", 0))
    vc = Task("vc")
    vc.ip = ip
    t.pre, t.vc = [], vc
    t.replay = lambda m: script(closing="del")
    return t


def parts_of(ip, s, port):
    """a text with the host and the port named"""
    out = ""
    for p in (s.parts if isinstance(s, SymStr) else [s]):
        if isinstance(p, str):
            out += p
        elif p == HOST.parts[0]:
            out += "<host>"
        elif isinstance(p, tuple) and p[0] == "fmt" and p[2] == "" and is_int(p[1]):
            out += "<port>" if ip.valid(lift(p[1]) == port) else "<another number>"
        else:
            raise Unsupported("text of the address")
    return out


def do_open(program, given):
    t = Task("opening the viewer (%s)" % ("port given" if given else "any free port"))
    first = None
    for busy, refuse, missing in ((0, 0, 0), (0, 1, 0), (0, 2, 1), (0, 1, 2), (0, 10 ** 6, 0), (0, 0, 10 ** 6)) + (
            ((1, 0, 0), (2, 0, 0)) if given else ()):
        w = World(program)
        ip = w.ip
        w.refuse, w.missing, w.busy, w.tested = refuse, missing, busy, 0
        port = z3.Int("port")
        ip.assume(And(port >= 1, port <= 65534) if given else port == 0)
        ip.contracts[("_SVGPoker", "__new__")] = lambda ip, c, a, kw, g: PyObj(None, {"base_svg": SVG})
        v = PyObj(w.cls)
        ip.call_func(w.cls.lookup("__init__"), [v, 2, 2, 5], {"host": HOST, "port": port}, True)
        first = first or w
        first.ip.inlined |= ip.inlined
        bad = [e for _, e, _ in ip.raises]
        when = "refused %d times, page missing %d times" % (refuse, missing) if max(refuse, missing) < 9 else (
            "never connects" if refuse > 9 else "never serves")

        def add(name, f, kind="post"):
            if sym(f):
                f = ip.valid(f)
            t.obs.append(("C25: %s (%s)" % (name, when), f, kind, 0))
        if busy:
            when = "%s in use" % ["port", "next port"][busy - 1]
            add("a viewer that can not be opened is an error", bool(bad), "lemma")
            add("no process is started", not any(e[0] == "start" for e in w.trace), "lemma")
            continue
        if max(refuse, missing) > 9:
            add("a viewer that can not be opened is an error", bool(bad))
            continue
        if bad:
            raise Unsupported("exception while opening: %s" % bad[0])
        want = port if given else z3.Int("probed")
        p, h = v.attrs.get("port"), v.attrs.get("host")
        if p is None or h is None:
            raise Unsupported("where the address is kept")
        add("the host is the given one", is_host(h))
        add("the port is %s" % ("the given one" if given else "a free one"), same_term(ip, p, want),
            "post" if given else "lemma")
        want = lift(p)
        names = [e[0] for e in w.trace]
        starts = [e for e in w.trace if e[0] == "start"]
        if any(not isinstance(e[1], Bound) for e in starts):
            raise Unsupported("target of the process")
        add("one process is started", len(starts) == 1 and all(
            e[1].func is w.cls.lookup("_run_flask") and e[1].self_obj is v for e in starts))
        links = [e for e in w.trace if e[0] == "connect"]
        add("the viewer connects to where states are received", bool(links) and "start" in names and
            names.index("start") < names.index("connect") and all(
                isinstance(e[1], tuple) and len(e[1]) == 2 and is_host(e[1][0]) and
                ip.valid(lift(e[1][1]) == want + 1) for e in links))
        add("it connects until it is connected", len(links) == refuse + 1)
        gets = [e for e in w.trace if e[0] == "fetch"]
        add("the page was there before it is announced", len(gets) == missing + 1 and all(
            parts_of(ip, e[1], want).rstrip("/") == "http://<host>:<port>" for e in gets) and "print" in names and
            names.index("print") > max(i for i, x in enumerate(names) if x == "fetch"))
        said = [parts_of(ip, e[1], want) for e in w.trace if e[0] == "print"]
        add("the address of the page is announced", any("http://<host>:<port>" in x for x in said))
    vc = Task("vc")
    vc.ip = first.ip
    t.pre, t.vc = [], vc
    t.replay = lambda m: script("127.0.0.2")
    return t
