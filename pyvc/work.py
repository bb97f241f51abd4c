"""Generates and discharges the obligations of one task (one public operation
in one case of the complete case split)."""
import os
import signal
import subprocess
import tempfile
import threading
import time
import traceback
import zlib

import z3

from .values import Unsupported
from .interp import Program

SAMPLES = 3
REPO = os.environ.get("VERIF_REPO", "/repo")


def make(spec):
    """spec: (kind, args...) -> Task"""
    kind, args = spec[0], spec[1:]
    p = Program(REPO)
    if kind == "step":
        from . import dealer
        return dealer.run_step(p, *args)
    if kind == "reset":
        from . import dealer
        return dealer.run_reset(p, *args)
    if kind == "ended":
        from . import dealer
        return dealer.run_ended(p, *args)
    mod = __import__("pyvc." + kind, fromlist=["make"])
    return mod.make(p, *args)


def smt2_cvc5(assertions, timeout):
    s = z3.Solver()
    s.add(*assertions)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix=".smt2")
    with os.fdopen(fd, "w") as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), path],
                           capture_output=True, text=True, timeout=timeout + 10)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(path)


def discharge(assumptions, formula, timeout):
    """(status, back end, seconds, model)"""
    t0 = time.time()
    if formula is True:
        return "discharged", "simplifier", 0.0, None
    neg = z3.Not(formula) if z3.is_expr(formula) else z3.BoolVal(not formula)
    for seed in (0, 7):
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.set("random_seed", seed)
        s.add(*assumptions)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            return "discharged", "z3", time.time() - t0, None
        if r == z3.sat:
            return "refuted", "z3", time.time() - t0, s.model()
    r = smt2_cvc5(list(assumptions) + [neg], timeout)
    if r == "unsat":
        return "discharged", "cvc5", time.time() - t0, None
    return "unknown", "z3+cvc5", time.time() - t0, None


def model_dict(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            out[d.name()] = v.as_long() if z3.is_int_value(v) else (
                z3.is_true(v) if z3.is_bool(v) else str(v))
        else:
            fi = m[d]
            try:
                out[d.name()] = {"table": {str(fi.entry(i).arg_value(0)): str(fi.entry(i).value())
                                           for i in range(fi.num_entries())},
                                 "else": str(fi.else_value())}
            except Exception:
                pass
    return out


def alarm(seconds):
    """ends the generation of conditions when the time is used up"""
    if threading.current_thread() is not threading.main_thread():
        return

    def late(*a):
        raise Unsupported("time budget used up")
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def run(job):
    """job: (spec, timeout, deadline) -> result dict (picklable)"""
    spec, timeout, deadline = job
    t0 = time.time()
    res = {"spec": list(spec), "name": str(spec), "obligations": [], "error": None,
           "inlined": [], "contracts": [], "models": [], "assumed": []}
    try:
        if deadline and time.time() > deadline:
            res["error"] = "not attempted: time budget used up"
            return res
        alarm(max(1.0, deadline - time.time()) if deadline else 0)
        try:
            t = make(spec)
        finally:
            alarm(0)
        res["name"] = t.name
        ip = t.vc.ip if t.vc is not None else None
        if ip is not None:
            res["inlined"] = sorted(ip.inlined)
            res["contracts"] = sorted("%s.%s" % k for k in ip.contract_calls)
        res["info"] = {k: str(v) for k, v in t.info.items()}
        res["gen_s"] = time.time() - t0
        # vacuity: the assumptions of the task are satisfiable
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*t.pre)
        r = s.check()
        res["satisfiable"] = str(r)
        if r == z3.unsat and not getattr(t, "empty_ok", False):
            res["error"] = "vacuous: assumptions are contradictory"
        for name, f, kind, na in t.obs:
            if deadline and time.time() > deadline:
                res["obligations"].append((name, kind, "unknown", "none", 0.0))
                continue
            st, be, dt, m = discharge(list(na) if isinstance(na, tuple) else t.pre[:na], f, timeout)
            res["obligations"].append((name, kind, st, be, dt))
            if st == "refuted" and len(res["models"]) < 12:
                md = model_dict(m)
                extra = getattr(t, "replay", None)
                entry = {"obligation": name, "kind": kind, "model": md}
                if extra is not None:
                    try:
                        entry["script"] = extra(m)
                    except Exception as e:
                        entry["script_error"] = str(e)
                res["models"].append(entry)
        sampler = getattr(t, "sampler", None)
        if sampler is not None and not (deadline and time.time() > deadline):
            try:
                res["cross"] = sampler(zlib.crc32(repr(spec).encode()), SAMPLES)
            except Exception as e:
                res["cross_error"] = "%s: %s" % (type(e).__name__, e)
    except Unsupported as e:
        res["error"] = "outside the verified subset: %s" % e
    except Exception as e:
        res["error"] = "verifier error: %s: %s" % (type(e).__name__, e)
        res["traceback"] = traceback.format_exc()
    res["wall_s"] = time.time() - t0
    return res
