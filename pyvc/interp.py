"""Symbolic interpreter for the verified subset of Python.

The functions are parsed from /repo's current source on every run and
executed on symbolic values with predicated (guarded) semantics: both
branches of every conditional are executed under their guards and merged.
Loops over lists of known length are unrolled completely, other loops need a
loop contract.  Nothing but type annotations, docstrings and the text of
exception messages is dropped.
"""
import ast
import os
import z3

from .values import *
from specs.ops import And, Or, Not, Ite, Implies, Sum, B2I, sym, lift, Sel

MAXUNROLL = 64


class Obligation(object):
    def __init__(self, name, formula, nassume, kind="safety"):
        self.name, self.formula, self.nassume, self.kind = name, formula, nassume, kind


class PathEnd(Exception):
    """no execution continues"""


class Frame(object):
    def __init__(self, func, base, closure=None):
        self.func = func
        self.base = base  # absolute guard on entry
        self.env = {}
        self.defd = {}
        self.ret = UNDEF
        self.ret_g = False
        self.closure = closure
        self.loops = []
        self.comp_parent = None
        self.exits = 0


class Loop(object):
    def __init__(self):
        self.brk = False
        self.cont = False


class Program(object):
    """the parsed source tree"""

    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.trees = {}

    def tree(self, rel):
        if rel not in self.trees:
            with open(os.path.join(self.repo, rel)) as f:
                self.trees[rel] = ast.parse(f.read())
        return self.trees[rel]


def frames(fr):
    out = []
    while fr is not None and fr not in out:
        out.append(fr)
        fr = fr.comp_parent if fr.comp_parent is not None else fr.closure
    return out


def heap(fr):
    """contents of all objects reachable from the variables of a frame"""
    seen, out = {}, {}
    todo = [v for f in frames(fr) for v in f.env.values()]
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen[id(v)] = v
        if isinstance(v, PyList):
            kids, more = v.items, v.guards
        elif isinstance(v, PyObj):
            kids, more = list(v.attrs.values()), sorted(v.attrs)
        elif isinstance(v, PyDict):
            kids, more = list(v.d.values()), (list(v.d), list(v.maybe.items()))
        elif isinstance(v, PySet):
            kids, more = v.items, None
        elif isinstance(v, SeqRef):
            kids, more = [], [(p.base, p.lo, p.hi) if isinstance(p, Slice) else p for p in v.parts]
        elif isinstance(v, U):
            kids, more = [x for _, x in v.alts], None
        elif isinstance(v, tuple):
            kids, more = list(v), None
        else:
            continue
        out[id(v)] = (type(v), [id(x) for x in kids], repr(more))
        todo += kids
    out["keep"] = None
    return Heap(out, seen)


class Heap(object):
    def __init__(self, out, seen):
        self.out, self.seen = out, seen  # seen keeps the objects alive

    def __eq__(self, o):
        return all(self.out.get(k) == v for k, v in o.out.items() if k in self.out) and all(
            k in o.out for k in self.out)

    def __ne__(self, o):
        return not self == o


class Interp(object):
    def __init__(self, program):
        self.p = program
        self.assumptions = []
        self.obligations = []
        self.raises = []  # (guard, exception name)
        self.contracts = {}
        self.loop_contracts = {}
        self.inlined = set()
        self.contract_calls = {}
        self.fresh_n = 0
        self.solver = None
        self.modules = {}
        self.depth = 0
        self.queries = 0
        self.writes = set()
        self.sort_mode = "network"
        self.hooks = {}
        self.try_stack = []
        self.narrowed = {}
        self.trying = 0
        self.check_dead = False
        self.narrow_fd = False

    # ------------------------------------------------------------- basics
    def fresh(self, name, sort="int"):
        self.fresh_n += 1
        n = "%s!%d" % (name, self.fresh_n)
        return z3.Int(n) if sort == "int" else z3.Bool(n)

    def assume(self, f):
        if f is True:
            return
        self.assumptions.append(lift(f) if not sym(f) else f)

    def require(self, name, g, cond, kind="safety"):
        f = Implies(g, cond)
        if f is True:
            return
        if sym(f):
            f = simp(f)
            if f is True:
                return
        self.obligations.append(Obligation(name, f, len(self.assumptions), kind))

    def feasible(self, g):
        """False only if the guard is impossible under the assumptions"""
        if not sym(g):
            return bool(g)
        g = simp(g)
        if not sym(g):
            return bool(g)
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.assumptions)
        s.add(g)
        self.queries += 1
        return s.check() != z3.unsat

    def alive(self):
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*self.assumptions)
        return s.check() != z3.unsat

    def valid(self, f):
        return not self.feasible(Not(f))

    # ------------------------------------------------------------ modules
    def module(self, rel):
        """loads a source file of the repository"""
        if rel in self.modules:
            return self.modules[rel]
        m = Module(rel)
        self.modules[rel] = m
        fr = Frame(None, True)
        fr.env = m.attrs
        fr.module = m
        self.cur_module = m
        unknown = set()
        for st in self.p.tree(rel).body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self.do_import(st, m, rel)
            elif isinstance(st, ast.ClassDef):
                self.def_class(st, m, fr)
            elif isinstance(st, ast.FunctionDef):
                if not any(isinstance(d, ast.Name) and d.id == "overload"
                           for d in st.decorator_list):
                    m.attrs[st.name] = Func(st, m)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                try:
                    self.exec_stmt(st, fr, True)
                except Unsupported:
                    pass
            elif isinstance(st, (ast.For, ast.While, ast.AugAssign)) or (
                    isinstance(st, ast.Expr) and not isinstance(st.value, ast.Constant)):
                self.exec_stmt(st, fr, True)
            elif isinstance(st, (ast.If, ast.Try)):
                for x in ast.walk(st):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        self.do_import(x, m, rel)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(
                            x.func.value, ast.Name) and x.func.value.id in ("imp", "importlib"):
                        pass
                    elif isinstance(x, ast.Assign) and all(isinstance(y, ast.Name) for y in x.targets):
                        for y in x.targets:
                            unknown.add(y.id)
                    elif isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Call, ast.FunctionDef)):
                        raise Unsupported("conditional definitions in %s" % rel)
        for x in unknown:
            m.attrs.pop(x, None)
        return m

    def do_import(self, st, m, rel):
        from . import builtins as bi

        if isinstance(st, ast.Import):
            for a in st.names:
                top = a.name.split(".")[0]
                m.attrs[a.asname or top] = bi.stdlib(self, top)
            return
        src = st.module or ""
        for a in st.names:
            name = a.asname or a.name
            v = bi.import_from(self, rel, st.level, src, a.name)
            if v is not None:
                m.attrs[name] = v

    def def_class(self, st, m, fr):
        bases = []
        for b in st.bases:
            try:
                bases.append(self.ev(b, fr, True))
            except Unsupported:
                pass
        c = Cls(st.name, bases, st, m)
        m.attrs[st.name] = c
        cf = Frame(None, True)
        cf.module = m
        cf.env = c.members
        cf.globals_first = True
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                kind = "method"
                name = s.name
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "staticmethod":
                        kind = "static"
                    elif isinstance(d, ast.Name) and d.id == "classmethod":
                        kind = "class"
                    elif isinstance(d, ast.Name) and d.id == "property":
                        kind = "property"
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        kind, name = "setter", name + ".setter"
                    else:
                        kind = "decorated"
                c.members[name] = Func(s, m, cls=c, kind=kind)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                try:
                    self.exec_stmt(s, cf, True)
                except Unsupported:
                    pass

    # -------------------------------------------------------------- calls
    def call(self, f, args, kwargs, g, node=None):
        """g: absolute guard"""
        if isinstance(f, U):
            return merge_alts([(h, self.call(x, args, kwargs, And(g, h), node)) for h, x in f.alts])
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs, g)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_obj] + list(args), kwargs, g)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, g)
        if isinstance(f, Cls):
            return self.construct(f, args, kwargs, g)
        if isinstance(f, PyObj):
            m = f.cls.lookup("__call__") if f.cls else None
            if m:
                return self.call_func(m, [f] + list(args), kwargs, g)
        raise Unsupported("call of %r" % (f,))

    def construct(self, c, args, kwargs, g):
        key = (c.name, "__new__")
        if key in self.contracts:
            r = self.contracts[key](self, c, args, kwargs, g)
            if r is not NotImplemented:
                self.contract_calls[key] = self.contract_calls.get(key, 0) + 1
                return r
        o = PyObj(c)
        init = c.lookup("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs, g)
        return o

    def call_func(self, f, args, kwargs, g):
        key = (f.cls.name if f.cls else None, f.name)
        if key in self.contracts:
            r = self.contracts[key](self, f, args, kwargs, g)
            if r is not NotImplemented:
                self.contract_calls[key] = self.contract_calls.get(key, 0) + 1
                return r
        return self.inline(f, args, kwargs, g)

    def inline(self, f, args, kwargs, g):
        key = (f.cls.name if f.cls else None, f.name)
        self.inlined.add("%s.%s" % key if key[0] else key[1])
        if f.kind == "decorated":
            raise Unsupported("decorated function %s" % f.name)
        if isinstance(f.node, ast.FunctionDef) and any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            return self.native_generator(f, args, kwargs)
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion")
        try:
            fr = Frame(f, g, f.closure)
            fr.module = f.module
            self.bind_args(f, fr, args, kwargs, g)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr, True)
            live = self.exec_block(f.node.body, fr, True)
            r = fr.ret
            if live is not False:
                r = None if r is UNDEF else merge(live, None, r)
            return None if r is UNDEF else r
        finally:
            self.depth -= 1

    def native_generator(self, f, args, kwargs):
        """a generator on concrete values is run as it is written"""
        if not all(conc(x) for x in args) or kwargs or f.closure is not None or f.cls is not None:
            raise Unsupported("generator %s" % f.name)
        node = ast.parse(ast.unparse(f.node))
        for x in node.body[0].args.args:
            x.annotation = None
        node.body[0].returns = None
        ns = {k: v for k, v in f.module.attrs.items() if conc(v)}
        exec(compile(node, f.name, "exec"), ns)
        return NativeGen(ns[f.node.name](*args))

    def bind_args(self, f, fr, args, kwargs, g):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for n in names:
            if args:
                fr.env[n] = args.pop(0)
            elif n in kwargs:
                fr.env[n] = kwargs.pop(n)
        if args:
            if a.vararg is None:
                raise Unsupported("too many arguments for %s" % f.name)
            fr.env[a.vararg.arg] = tuple(args)
        elif a.vararg is not None:
            fr.env[a.vararg.arg] = ()
        defaults = f.defaults
        if defaults is None:
            dfr = Frame(None, g)
            dfr.module = f.module
            dfr.closure = f.closure
            defaults = self.defaults_of(f, dfr, True, set(fr.env) | set(kwargs))
        for n, v in defaults.items():
            if n not in fr.env and n not in kwargs:
                if isinstance(v, (PyList, PyDict, PySet)) and f.closure is None:
                    raise Unsupported("default value of %s that can be changed" % n)
                fr.env[n] = v
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                fr.env[x.arg] = kwargs.pop(x.arg)
        if a.kwarg is not None:
            fr.env[a.kwarg.arg] = PyDict(kwargs)
            kwargs = {}
        if kwargs:
            raise Unsupported("unexpected keyword for %s" % f.name)
        for n in names:
            if n not in fr.env:
                raise Unsupported("missing argument %s of %s" % (n, f.name))

    def defaults_of(self, f, fr, g, given=()):
        """default values of the parameters (of local functions: at their definition)"""
        a = f.node.args
        pos = a.posonlyargs + a.args
        return {n: self.ev(d, fr, g) for n, d in list(zip(
            [x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)) + [
                (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None] if n not in given}

    # --------------------------------------------------------- statements
    def exec_block(self, stmts, fr, g):
        for st in stmts:
            if g is False:
                return False
            n0 = len(self.raises)
            g = self.exec_stmt(st, fr, g)
            if len(self.raises) > n0 and g is not False:
                r = Or([x[0] for x in self.raises[n0:]])
                if self.trying:
                    g = And(g, Not(r))
                    if sym(g):
                        g = simp(g)
                else:
                    # execution continues only if nothing was raised: each
                    # raise is an obligation of its own
                    if g is True and r is True:
                        return False
                    self.assume(Not(r))
                    if self.check_dead and not self.alive():
                        raise PathEnd()
        return g

    def abs(self, fr, g):
        return And(fr.base, g)

    def exec_stmt(self, st, fr, g):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(st).__name__, getattr(st, "lineno", "?")))
        return m(st, fr, g)

    def st_Expr(self, st, fr, g):
        if isinstance(st.value, ast.Constant):
            return g
        self.ev(st.value, fr, g)
        return self.after_raise(fr, g)

    def after_raise(self, fr, g):
        return g

    def st_Pass(self, st, fr, g):
        return g

    def st_Assert(self, st, fr, g):
        c = self.truth(self.ev(st.test, fr, g))
        self.do_raise(self.abs(fr, And(g, Not(c))), "AssertionError")
        return And(g, c)

    def st_Import(self, st, fr, g):
        from . import builtins as bi

        for a in st.names:
            top = a.name.split(".")[0]
            self.setvar(fr, a.asname or top, bi.stdlib(self, top), g)
        return g

    def st_FunctionDef(self, st, fr, g):
        f = Func(st, fr.module, closure=fr)
        f.defaults = self.defaults_of(f, fr, g)
        if st.decorator_list:
            if "decorated" not in self.hooks:
                raise Unsupported("decorated local function")
            for d in reversed(st.decorator_list):
                f = self.call(self.ev(d, fr, g), [f], {}, self.abs(fr, g))
        self.setvar(fr, st.name, f, g)
        return g

    def st_ImportFrom(self, st, fr, g):
        from . import builtins as bi

        for a in st.names:
            v = bi.import_from(self, fr.module.name, st.level, st.module or "", a.name)
            if v is None:
                raise Unsupported("import of %s" % a.name)
            self.setvar(fr, a.asname or a.name, v, g)
        return g

    def st_Return(self, st, fr, g):
        v = None if st.value is None else self.ev(st.value, fr, g)
        if fr.ret is UNDEF:
            fr.ret = v
        else:
            fr.ret = merge(g, v, fr.ret)
        fr.ret_g = Or(fr.ret_g, g)
        fr.exits += 1
        return False

    def do_raise(self, g, name):
        g = simp(g)
        if g is False:
            return
        self.raises.append((g, name, len(self.assumptions)))

    def st_Raise(self, st, fr, g):
        name = "Exception"
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        if e is not None:
            v = self.ev(e, fr, g)
            if isinstance(v, (Exc, Cls)):
                name = v.name
        self.do_raise(self.abs(fr, g), name)
        return False

    def st_Try(self, st, fr, g):
        """try: body; handlers catch by name"""
        if st.finalbody:
            # on every way out; it may not leave the block itself
            if any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue))
                   for y in st.finalbody for x in ast.walk(y)):
                raise Unsupported("finally")
            first = ast.Try(body=st.body, handlers=st.handlers, orelse=st.orelse, finalbody=[])
            out = self.st_Try(first, fr, g) if st.handlers else self.exec_block(st.body, fr, g)
            n0 = len(self.raises)
            self.exec_block(st.finalbody, fr, g)
            if len(self.raises) > n0:
                raise Unsupported("exception in finally")
            return out
        n0 = len(self.raises)
        self.trying += 1
        try:
            g1 = self.exec_block(st.body, fr, g)
        finally:
            self.trying -= 1
        new = self.raises[n0:]
        del self.raises[n0:]
        caught = [[] for _ in st.handlers]
        for rg, name, na in new:
            for k, h in enumerate(st.handlers):
                hn = None
                if h.type is not None:
                    t = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    hn = [x.id if isinstance(x, ast.Name) else x.attr for x in t]
                if hn is None or name in hn or "Exception" in hn or (
                        "OSError" in hn and name in ("ConnectionRefusedError", "URLError")) or (
                        "ConnectionError" in hn and name == "ConnectionRefusedError"):
                    caught[k].append(rg)
                    break
            else:
                self.raises.append((rg, name, na))
        raised = Or([x[0] for x in new]) if new else False
        g1 = And(g1, Not(raised)) if g1 is not False else False
        if st.orelse and g1 is not False:
            g1 = self.exec_block(st.orelse, fr, g1)
        outs = [g1]
        for h, gs in zip(st.handlers, caught):
            if gs:
                hg = And(g, Or(gs))
                if hg is not False:
                    outs.append(self.exec_block(h.body, fr, hg))
        return Or(outs)

    def st_If(self, st, fr, g):
        c = self.truth(self.ev(st.test, fr, g))
        if sym(c):
            c = simp(c)
        if c is True:
            return self.exec_block(st.body, fr, g)
        if c is False:
            return self.exec_block(st.orelse, fr, g)
        g1, g2 = And(g, c), And(g, Not(c))
        e0 = fr.exits
        r1 = self.exec_block(st.body, fr, g1)
        e1 = fr.exits
        r2 = self.exec_block(st.orelse, fr, g2)
        e2 = fr.exits
        if not self.trying:
            # a branch left by exceptions only is excluded by assumption
            if r1 is False and e0 == e1 and r2 is not False:
                r1 = g1
            if r2 is False and e1 == e2 and r1 is not False:
                r2 = g2
        if r1 is g1 and r2 is g2:
            return g
        return Or(r1, r2)

    def st_Assign(self, st, fr, g):
        v = self.ev(st.value, fr, g)
        for t in st.targets:
            self.assign(t, v, fr, g)
        return g

    def st_AnnAssign(self, st, fr, g):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr, g), fr, g)
        return g

    def st_AugAssign(self, st, fr, g):
        from . import builtins as bi

        t = st.target
        if isinstance(t, ast.Name):
            cur = self.getvar(fr, t.id, g)
            store = lambda v: self.setvar(fr, t.id, v, g)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, g)
            cur = self.getattr(o, t.attr, self.abs(fr, g))
            store = lambda v: self.setattr(o, t.attr, v, self.abs(fr, g))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, g)
            i = self.ev(t.slice, fr, g)
            cur = bi.getitem(self, o, i, self.abs(fr, g))
            store = lambda v: bi.setitem(self, o, i, v, self.abs(fr, g))
        else:
            raise Unsupported("augmented target")
        v = self.ev(st.value, fr, g)
        if isinstance(st.op, ast.Add) and isinstance(cur, (PyList, SeqRef, U)):
            r = bi.iadd(self, cur, v, self.abs(fr, g))
            if r is not None:
                store(r)
                return g
        store(bi.binop(self, type(st.op).__name__, cur, v, self.abs(fr, g)))
        return g

    def st_Delete(self, st, fr, g):
        raise Unsupported("del")

    def assign(self, t, v, fr, g):
        from . import builtins as bi

        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v, g)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr, g), t.attr, v, self.abs(fr, g))
        elif isinstance(t, ast.Subscript):
            bi.setitem(self, self.ev(t.value, fr, g), self.ev(t.slice, fr, g), v, self.abs(fr, g))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), self.abs(fr, g))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr, g)
        else:
            raise Unsupported("target %s" % type(t).__name__)

    def unpack(self, v, n, g):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PyList) and v.guards is None:
            items = list(v.items)
        elif isinstance(v, U):
            rows = [(h, self.unpack(x, n, And(g, h))) for h, x in v.alts
                    if isinstance(x, (tuple, PyList)) or self.feasible(And(g, h))]
            return [merge_alts([(h, r[i]) for h, r in rows]) for i in range(n)]
        else:
            raise Unsupported("unpacking %r" % (v,))
        if len(items) != n:
            raise Unsupported("unpacking length")
        return items

    def setvar(self, fr, name, v, g):
        f = fr
        while f.comp_parent is not None and name not in f.comp_vars:
            f = f.comp_parent
        if name in getattr(f, "nonlocals", ()):
            while f is not None and (f is fr or name in getattr(f, "nonlocals", ()) or name not in f.env):
                f = f.closure
            if f is None:
                raise Unsupported("nonlocal")
            g = self.abs(fr, g)
        if g is True or name not in f.env:
            f.env[name] = v
            f.defd[name] = g
        else:
            f.env[name] = merge(g, v, f.env[name])
            d = f.defd.get(name, True)
            f.defd[name] = True if d is True else Or(d, g)

    def narrow(self, v, g):
        """drops alternatives (of mixed type) that are impossible under g"""
        if not isinstance(v, U) or (g is True and not self.narrow_fd) or (
                fd(v) and not self.narrow_fd):
            return v
        key = (id(v), g.get_id() if sym(g) else g)
        hit = self.narrowed.get(key)
        if hit is not None:
            return hit[0]
        alts = [(h, x) for h, x in v.alts if self.feasible(And(g, h))]
        r = v if len(alts) == len(v.alts) else (mk_union(alts) if alts else v)
        self.narrowed[key] = (r, v, g)
        return r

    def getvar(self, fr, name, g):
        return self.narrow(self.getvar_(fr, name, g), self.abs(fr, g))

    def getvar_(self, fr, name, g):
        from . import builtins as bi

        f = fr
        while f is not None:
            if name in f.env:
                d = f.defd.get(name, True)
                if d is not True and f is fr and d is not g:
                    self.require("variable %s is assigned" % name, self.abs(fr, g), d)
                return f.env[name]
            f = f.comp_parent if f.comp_parent is not None else f.closure
        m = fr.module
        if m is not None and name in m.attrs:
            return m.attrs[name]
        b = bi.BUILTINS.get(name)
        if b is not None:
            return b
        if name == "__file__" and m is not None:
            return os.path.join(os.path.realpath(self.p.repo), m.name)
        raise Unsupported("unknown name %s" % name)

    def st_Nonlocal(self, st, fr, g):
        if "nonlocal_" not in self.hooks:
            raise Unsupported("nonlocal")
        fr.nonlocals = set(getattr(fr, "nonlocals", ())) | set(st.names)
        return g

    def st_Global(self, st, fr, g):
        raise Unsupported("global")

    def st_Break(self, st, fr, g):
        fr.exits += 1
        fr.loops[-1].brk = Or(fr.loops[-1].brk, g)
        return False

    def st_Continue(self, st, fr, g):
        fr.exits += 1
        fr.loops[-1].cont = Or(fr.loops[-1].cont, g)
        return False

    def loop_contract(self, st, fr):
        key = (fr.func.cls.name if fr.func and fr.func.cls else None,
               fr.func.name if fr.func else None)
        return self.loop_contracts.get(key)

    def st_For(self, st, fr, g):
        from . import builtins as bi

        lc = self.loop_contract(st, fr)
        it = self.ev(st.iter, fr, g)
        if lc is not None:
            r = lc(self, st, fr, g, it)
            if r is not NotImplemented:
                return r
        elif isinstance(it, Family) and "family_loop" in self.hooks:
            r = self.hooks["family_loop"](self, st, fr, g, it)
            if r is not NotImplemented:
                return r
        fn = bi.generic(it)
        if isinstance(fn, Fn):
            return self.append_loop(st, fr, g, fn)
        items = bi.iterate(self, it, self.abs(fr, g))
        lp = Loop()
        fr.loops.append(lp)
        live = g
        for ig, item in items:
            if live is False:
                break
            bg = And(live, ig)
            if bg is False:
                continue
            self.assign(st.target, item, fr, bg)
            lp.cont = False
            out = self.exec_block(st.body, fr, bg)
            out = Or(out, lp.cont)
            if out is bg or (ig is True and out is live):
                pass
            else:
                live = Or(And(live, Not(ig)), out)
            if sym(live):
                live = simp(live)
        fr.loops.pop()
        if st.orelse and live is not False:
            live = self.exec_block(st.orelse, fr, live)
        return Or(live, lp.brk) if lp.brk is not False else live

    def append_loop(self, st, fr, g, it):
        """loop over a list of unknown length that appends one value to some
        lists in every iteration.  Invariant (verified by one iteration from an
        arbitrary state): these lists are what they were, followed by the values
        of the iterations so far; nothing else that exists has changed."""
        from . import builtins as bi

        if st.orelse:
            raise Unsupported("loop over a list of unknown length with else")
        names = {x.func.value.id for x in ast.walk(ast.Module(st.body, [])) if isinstance(x, ast.Call)
                 and isinstance(x.func, ast.Attribute) and x.func.attr == "append"
                 and isinstance(x.func.value, ast.Name)}
        local = set(names_of(st.target))
        grown = {}  # lists inside objects that grow
        j = self.fresh("j")
        bg = And(g, j >= 0, j < lift(it.length))
        ag = self.abs(fr, bg)

        def once():
            """one iteration; the variables it assigned"""
            for x in local:
                fr.env.pop(x, None)
                fr.defd.pop(x, None)
            lists = {}
            for x in names - local:
                l = fr.env.get(x)
                if isinstance(l, PyList) and l.guards is None and not any(
                        isinstance(y, HistPrefix) for y in l.items):
                    if g is not True and fr.defd.get(x, True) is not g:
                        raise Unsupported("loop over a list of unknown length under a condition")
                    lists[x] = (l, list(l.items))
            for l, _, guards in grown.values():
                l.items, l.guards = [HistPrefix()], None
            for l, _ in lists.values():
                l.items = [HistPrefix()]
            before = heap(fr)
            keep = [(f, dict(f.env)) for f in frames(fr)]
            lp = Loop()
            fr.loops.append(lp)
            self.assign(st.target, it.get(j), fr, bg)
            out = self.exec_block(st.body, fr, bg)
            fr.loops.pop()
            if out is not bg or lp.brk is not False or lp.cont is not False:
                raise Unsupported("loop over a list of unknown length that may be left")
            new = {}
            for x, (l, items) in lists.items():
                if not l.items or len(l.items) > 2 or not isinstance(l.items[0], HistPrefix) or (
                        l.guards is not None and not self.valid(Implies(ag, And(l.guards)))):
                    raise Unsupported("loop over a list of unknown length")
                new[x] = l.items[1:]
                l.items, l.guards = l.items[:1], None
            changed = set()
            for f, e in keep:
                d = {k for k in set(f.env) | set(e) if f.env.get(k, keep) is not e.get(k, keep)}
                if f is not fr and d:
                    raise Unsupported("loop over a list of unknown length carries values")
                changed |= d
            fr.env.clear()
            fr.env.update(keep[0][1])
            inner = {}
            for x, (l, items, guards) in grown.items():
                if not l.items or not isinstance(l.items[0], HistPrefix) or (
                        l.guards is not None and not self.valid(Implies(ag, And(l.guards)))):
                    raise Unsupported("loop over a list of unknown length")
                inner[x] = l.items[1:]
                l.items, l.guards = l.items[:1], None
            more = [v for k, v in before.seen.items() if isinstance(v, PyList) and [
                id(x) for x in v.items[:len(before.out[k][1])]] == before.out[k][1]
                and len(v.items) > len(before.out[k][1])]
            for l in more:
                k = len(before.out[id(l)][1])
                old = None if before.out[id(l)][2] == "None" else l.guards[:k]
                owner = [x for x in before.seen.values() if isinstance(x, PyObj) and x.attrs.get("kids") is l]
                if len(owner) != 1:
                    raise Unsupported("loop over a list of unknown length changes objects")
                owner[0].writable(self, self.abs(fr, g))
                grown[id(l)] = (l, l.items[:k], old)
                l.items, l.guards = l.items[:k], old
            if more:
                for l, items in lists.values():
                    l.items = items
                for l, items, guards in grown.values():
                    l.items, l.guards = items, guards
                return None, lists, new
            old = {id(x) for x in before.seen.values() if isinstance(x, Ref)}
            made = [x for v in list(new.values()) + list(inner.values()) for x in v]
            shared = self.old_objects(made, old)
            new = (new, inner, shared)
            if heap(fr) != before:
                raise Unsupported("loop over a list of unknown length changes objects")
            for l, items in lists.values():
                l.items = items
            return changed, lists, new
        state = len(self.raises), len(self.obligations), len(self.assumptions)
        while True:
            changed, lists, new = once()
            if changed is not None and changed <= local:
                break
            changed = changed or set()
            # variables assigned in the loop must not be read from an earlier iteration
            local |= changed
            del self.raises[state[0]:]
            del self.obligations[state[1]:]
            del self.assumptions[state[2]:]
        for x in local:
            fr.env.pop(x, None)
            fr.defd.pop(x, None)
        new, inner, shared = new
        for x, (l, items, guards) in grown.items():
            l.items, l.guards = items, guards
            if inner[x]:
                from .page import family
                if guards is not None:
                    raise Unsupported("loop over a list of unknown length grows a conditional list")
                l.items = items + [family(it.length, inner[x], j, shared)]
        for x, (l, items) in lists.items():
            l.items = items
            if not new[x]:
                continue
            v = new[x][0]
            subst(v, j, 0)
            tail = Fn(it.length, lambda i, v=v: subst(v, j, i))
            f = tail if not items else bi.fn_add(bi.fn_of(l), tail)
            l.__class__ = Fn
            l.__dict__.clear()
            l.__dict__.update(f.__dict__)
        return g

    def old_objects(self, made, old):
        """objects made by one iteration must not lead to objects that were
        there before; True if two of them share something"""
        count, seen, shared = {}, {}, False
        for k, v in enumerate(made):
            todo = [v]
            mine = set()
            while todo:
                x = todo.pop()
                if not isinstance(x, (PyObj, PyList, PyDict, PySet)) or id(x) in mine:
                    if isinstance(x, tuple):
                        todo += list(x)
                    elif isinstance(x, U):
                        todo += [y for _, y in x.alts]
                    continue
                mine.add(id(x))
                seen[id(x)] = x
                if id(x) in old and not getattr(x, "frozen", False):
                    raise Unsupported("loop over a list of unknown length appends something that was there before")
                if id(x) in count:
                    shared = True
                count[id(x)] = k
                todo += list(x.attrs.values()) if isinstance(x, PyObj) else (
                    list(x.d.values()) if isinstance(x, PyDict) else list(x.items))
        return shared

    def st_While(self, st, fr, g):
        lc = self.loop_contract(st, fr)
        if lc is not None:
            r = lc(self, st, fr, g, None)
            if r is not NotImplemented:
                return r
        lp = Loop()
        fr.loops.append(lp)
        live = g
        out = False
        for k in range(MAXUNROLL + 1):
            c = self.truth(self.ev(st.test, fr, live))
            stop = And(live, Not(c))
            out = Or(out, stop)
            live = And(live, c)
            if live is False or not self.feasible(self.abs(fr, live)):
                live = False
                break
            if k == MAXUNROLL:
                raise Unsupported("loop without contract is not bounded by %d" % MAXUNROLL)
            lp.cont = False
            live = Or(self.exec_block(st.body, fr, live), lp.cont)
            if sym(live):
                live = simp(live)
            if live is False:
                break
        fr.loops.pop()
        if st.orelse and out is not False:
            out = self.exec_block(st.orelse, fr, out)
        return Or(out, lp.brk)

    def st_With(self, st, fr, g):
        """files of the repository are read"""
        for i in st.items:
            v = self.ev(i.context_expr, fr, g)
            if isinstance(v, PyObj) and v.cls is None and len(st.items) == 1 and "closing" in self.hooks and \
                    "close" in v.attrs:
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, fr, g)
                out = self.exec_block(st.body, fr, g)
                self.call(v.attrs["close"], [], {}, self.abs(fr, g))
                return out
            if not hasattr(v, "is_file"):
                raise Unsupported("with")
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr, g)
        return self.exec_block(st.body, fr, g)

    # -------------------------------------------------------- expressions
    def truth(self, v):
        if isinstance(v, U):
            r = False
            return Or([And(g, self.truth(x)) for g, x in v.alts])
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, (int, float, str)) or v is None or isinstance(v, tuple):
            return bool(v)
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, PyList):
            if len(v.items) == 1:
                known(v)
            if v.guards is None:
                return len(v.items) > 0
            return Or(v.guards)
        if isinstance(v, SeqRef):
            n = v.length()
            return simp(n > 0) if sym(n) else n > 0
        if isinstance(v, PyDict):
            return len(v.d) > 0
        if isinstance(v, PySet):
            return len(v.items) > 0
        if isinstance(v, Fn):
            return lift(v.length) > 0
        if isinstance(v, SymStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            raise Unsupported("truth of opaque string")
        if isinstance(v, PyObj) and hasattr(v, "truth_of"):
            return v.truth_of()
        if isinstance(v, PyObj):
            if v.cls and (v.cls.lookup("__bool__") or v.cls.lookup("__len__")):
                raise Unsupported("truth of object")
            return True
        if isinstance(v, z3.BitVecRef):
            return v != 0
        if isinstance(v, (Func, Bound, Builtin, Cls)):
            return True
        if hasattr(v, "truth_of"):
            return v.truth_of()
        raise Unsupported("truth of %r" % (v,))

    def ev(self, e, fr, g):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(e, fr, g)

    def ex_Constant(self, e, fr, g):
        return e.value

    def ex_Name(self, e, fr, g):
        return self.getvar(fr, e.id, g)

    def ex_Tuple(self, e, fr, g):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_items(self.ev(x.value, fr, g), self.abs(fr, g))
            else:
                out.append(self.ev(x, fr, g))
        return tuple(out)

    def concrete_items(self, v, g):
        from . import builtins as bi

        its = bi.iterate(self, v, g)
        if any(h is not True for h, _ in its):
            raise Unsupported("splat of guarded list")
        return [x for _, x in its]

    def ex_List(self, e, fr, g):
        return PyList(self.ex_Tuple(e, fr, g))

    def ex_Set(self, e, fr, g):
        return PySet(self.ex_Tuple(e, fr, g))

    def ex_Dict(self, e, fr, g):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr, g)
                if not isinstance(o, PyDict):
                    raise Unsupported("dict splat")
                d.d.update(o.d)
            else:
                kk = self.ev(k, fr, g)
                if not conc(kk):
                    raise Unsupported("symbolic dict key")
                d.d[kk] = self.ev(v, fr, g)
        return d

    def ex_UnaryOp(self, e, fr, g):
        from . import builtins as bi

        v = self.ev(e.operand, fr, g)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(v))
        if isinstance(e.op, ast.USub):
            return bi.binop(self, "Sub", 0, v, self.abs(fr, g))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported("unary operator")

    def ex_BinOp(self, e, fr, g):
        from . import builtins as bi

        a = self.ev(e.left, fr, g)
        b = self.ev(e.right, fr, g)
        return bi.binop(self, type(e.op).__name__, a, b, self.abs(fr, g))

    def ex_BoolOp(self, e, fr, g):
        # value semantics with short circuit
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], fr, g)
        live = g
        acc = []  # (guard, value) decided so far
        for x in e.values[1:]:
            t = self.truth(v)
            go = t if isand else Not(t)
            if sym(go):
                go = simp(go)
            if go is False:
                break
            acc.append((And(Not(go)), v))
            live = And(live, go)
            nv = self.ev(x, fr, live)
            acc[-1] = (Not(go), v)
            v = nv
        r = v
        for ng, w in reversed(acc):
            r = merge(ng, w, r)
        return r

    def ex_Compare(self, e, fr, g):
        from . import builtins as bi

        left = self.ev(e.left, fr, g)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr, g if res is True else And(g, res))
            r = bi.compare(self, type(op).__name__, left, right, self.abs(fr, g))
            res = And(res, r)
            if res is False:
                return False
            left = right
        return res

    def ex_IfExp(self, e, fr, g):
        c = self.truth(self.ev(e.test, fr, g))
        if sym(c):
            c = simp(c)
        if c is True:
            return self.ev(e.body, fr, g)
        if c is False:
            return self.ev(e.orelse, fr, g)
        a = self.ev(e.body, fr, And(g, c))
        b = self.ev(e.orelse, fr, And(g, Not(c)))
        return merge(c, a, b)

    def ex_Attribute(self, e, fr, g):
        o = self.ev(e.value, fr, g)
        g = self.abs(fr, g)
        return self.narrow(self.getattr(o, e.attr, g), g)

    def getattr(self, o, name, g):
        from . import builtins as bi

        if isinstance(o, U):
            return merge_alts([(h, self.getattr(x, name, And(g, h))) for h, x in o.alts])
        if isinstance(o, PyObj) and hasattr(o, "getattr"):
            return o.getattr(self, name)
        if isinstance(o, PyObj):
            if name in o.attrs:
                return o.attrs[name]
            m = o.cls.lookup(name) if o.cls else None
            if m is None:
                raise Unsupported("unknown attribute %s of %r" % (name, o))
            if isinstance(m, Func):
                if m.kind == "static":
                    return m
                if m.kind == "class":
                    return Bound(o.cls, m)
                if m.kind == "property":
                    return self.call_func(m, [o], {}, g)
                if m.kind == "decorated":
                    raise Unsupported("decorated method")
                return Bound(o, m)
            return m
        if isinstance(o, Module):
            if name in o.attrs:
                return o.attrs[name]
            raise Unsupported("unknown %s.%s" % (o.name, name))
        if isinstance(o, Cls):
            m = o.lookup(name)
            if m is None:
                raise Unsupported("unknown attribute %s of class %s" % (name, o.name))
            if isinstance(m, Func) and m.kind == "class":
                return Bound(o, m)
            return m
        return bi.method(self, o, name)

    def setattr(self, o, name, v, g):
        if isinstance(o, U):
            for h, x in o.alts:
                self.setattr(x, name, v, And(g, h))
            return
        if not isinstance(o, PyObj):
            raise Unsupported("attribute store on %r" % (o,))
        if hasattr(o, "setattr"):
            return o.setattr(self, name, v, g)
        if getattr(o, "frozen", False) and not (o.cls and o.cls.lookup(name + ".setter")):
            raise Unsupported("change of an element of a generic list")
        setter = o.cls.lookup(name + ".setter") if o.cls else None
        if setter is not None:
            self.call_func(setter, [o, v], {}, g)
            return
        self.writes.add((id(o), name))
        if name in o.attrs and g is not True:
            o.attrs[name] = merge(g, v, o.attrs[name])
        else:
            o.attrs[name] = v

    def ex_Subscript(self, e, fr, g):
        from . import builtins as bi

        o = self.ev(e.value, fr, g)
        i = self.ev(e.slice, fr, g)
        return bi.getitem(self, o, i, self.abs(fr, g))

    def ex_Slice(self, e, fr, g):
        f = lambda x: None if x is None else self.ev(x, fr, g)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def ex_Index(self, e, fr, g):
        return self.ev(e.value, fr, g)

    def ex_Call(self, e, fr, g):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.super_(e, fr, g)
        f = self.ev(e.func, fr, g)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_items(self.ev(a.value, fr, g), self.abs(fr, g))
            else:
                args.append(self.ev(a, fr, g))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, fr, g)
            if k.arg is None:
                if not isinstance(v, PyDict):
                    raise Unsupported("** of non dict")
                kwargs.update(v.d)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, self.abs(fr, g), e)

    def super_(self, e, fr, g):
        f = fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.closure or f.comp_parent
        if f is None:
            raise Unsupported("super")
        selfname = f.func.node.args.args[0].arg
        o = f.env[selfname]
        b = f.func.cls.bases
        sup = PyObj(b[0] if b and isinstance(b[0], Cls) else Cls("object", [], None, None))
        return SuperProxy(self, o, sup.cls)

    def ex_Lambda(self, e, fr, g):
        f = Func(e, fr.module, closure=fr)
        f.defaults = self.defaults_of(f, fr, g)
        return f

    def ex_JoinedStr(self, e, fr, g):
        from . import builtins as bi

        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = ""
                if v.format_spec is not None:
                    spec = self.ex_JoinedStr(v.format_spec, fr, g)
                parts.append(bi.fmt(self, self.ev(v.value, fr, g), spec))
        return bi.strcat(parts)

    def comp(self, e, fr, g, elt, first):
        from . import builtins as bi

        out, guards = [], []

        def rec(k, cfr, cg, item_g):
            if k == len(e.generators):
                out.append(elt(cfr, cg))
                guards.append(item_g)
                return
            gen = e.generators[k]
            it = first[0] if k == 0 else self.ev(gen.iter, cfr, cg)
            for ig, item in bi.iterate(self, it, self.abs(cfr, cg)):
                if ig is False:
                    continue
                f2 = Frame(cfr.func, cfr.base, cfr.closure)
                f2.module = cfr.module
                f2.comp_parent = cfr
                f2.comp_vars = set(names_of(gen.target))
                f2.loops = cfr.loops
                g2 = And(cg, ig)
                gi = And(item_g, ig)
                self.assign(gen.target, item, f2, True)
                ok = True
                for c in gen.ifs:
                    t = self.truth(self.ev(c, f2, g2))
                    if sym(t):
                        t = simp(t)
                    g2 = And(g2, t)
                    gi = And(gi, t)
                    if t is False:
                        ok = False
                        break
                if ok:
                    rec(k + 1, f2, g2, gi)

        rec(0, fr, g, True)
        return out, guards

    def generic_filter(self, it, fr, g, gen):
        from . import builtins as bi

        if not isinstance(it, Fn) or it.has is None:
            raise Unsupported("filter of a list of unknown length")
        j = self.fresh("j")
        f2 = Frame(fr.func, fr.base, fr.closure)
        f2.module = fr.module
        f2.comp_parent = fr
        f2.comp_vars = set(names_of(gen.target))
        f2.loops = fr.loops
        g2 = And(g, j >= 0, j < it.length)
        item = it.get(j)
        self.assign(gen.target, item, f2, True)
        c = And([self.truth(self.ev(x, f2, g2)) for x in gen.ifs])
        has = lambda x: And(it.has(x), subst(c, j, it.index(x)))
        r = bi.enumerate_set(self, has)
        if isinstance(item, Elem):
            b = item.base
            get0 = r.get
            r.get = lambda i: Elem(b, get0(i))
        return r

    def ex_ListComp(self, e, fr, g):
        from . import builtins as bi

        it = self.ev(e.generators[0].iter, fr, g)
        it = bi.generic(it)
        if isinstance(it, (Fn, Family)):
            if len(e.generators) != 1:
                raise Unsupported("comprehension over a list of unknown length")
            if e.generators[0].ifs:
                it = self.generic_filter(it, fr, g, e.generators[0])
            return self.generic_map(it, fr, g, e.generators[0].target,
                                    lambda f, cg: self.ev(e.elt, f, cg))
        out, guards = self.comp(e, fr, g, lambda f, cg: self.ev(e.elt, f, cg), [it])
        return PyList(out, guards)

    def generic_map(self, it, fr, g, target, elt):
        """one element of a list of unknown length stands for all of them"""
        f2 = Frame(fr.func, fr.base, fr.closure)
        f2.module = fr.module
        f2.comp_parent = fr
        f2.comp_vars = set(names_of(target))
        f2.loops = fr.loops
        if isinstance(it, Family):
            self.assign(target, it.item, f2, True)
            return Family(it.desc, elt(f2, g), it.tag)
        j = self.fresh("j")
        g2 = And(g, j >= 0, j < it.length)
        self.assign(target, it.get(j), f2, True)
        v = elt(f2, g2)
        src = it.get(j)
        keep = it.has is not None and (is_int(v) or isinstance(v, Elem)) and same(code(v), code(src))
        return Fn(it.length, lambda i: subst(v, j, i), it.has if keep else None,
                  it.index if keep else None)

    def ex_GeneratorExp(self, e, fr, g):
        return self.ex_ListComp(e, fr, g)

    def ex_SetComp(self, e, fr, g):
        l = self.ex_ListComp(e, fr, g)
        if l.guards is not None:
            raise Unsupported("guarded set")
        return PySet(l.items)

    def ex_DictComp(self, e, fr, g):
        it = self.ev(e.generators[0].iter, fr, g)
        out, guards = self.comp(
            e, fr, g, lambda f, cg: (self.ev(e.key, f, cg), self.ev(e.value, f, cg)), [it])
        d = PyDict()
        for (k, v), h in zip(out, guards):
            if h is not True or not conc(k):
                raise Unsupported("guarded dict")
            d.d[k] = v
        return d

    def ex_Starred(self, e, fr, g):
        raise Unsupported("starred")

    def ex_NamedExpr(self, e, fr, g):
        v = self.ev(e.value, fr, g)
        self.assign(e.target, v, fr, g)
        return v


class SuperProxy(PyObj):
    def __init__(self, ip, obj, cls):
        PyObj.__init__(self, cls)
        self.obj = obj
        init = cls.lookup("__init__")
        if init is not None:
            self.attrs["__init__"] = Bound(obj, init)
        else:
            self.attrs["__init__"] = Builtin("object.__init__", lambda ip, a, k, g: None)


def names_of(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for e in t.elts for n in names_of(e)]
    if isinstance(t, ast.Starred):
        return names_of(t.value)
    return []
