"""Named cases run against the real code: every case takes JSON arguments and
returns the violated clause or None."""
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class HarnessError(Exception):
    """the harness does not fit the code (not a violation)"""


class Violated(Exception):
    def __init__(self, clause):
        Exception.__init__(self, clause)
        self.clause = clause


def need(cond, clause):
    if not cond:
        raise Violated(clause)


def on_alarm(sig, frame):
    raise Violated("call returns")


def blame(e):
    """clause for an exception raised in the code under test"""
    tb = traceback.extract_tb(sys.exc_info()[2])
    last = tb[-1][0] if tb else ""
    if os.path.abspath(last).startswith(os.path.dirname(HERE) + os.sep):
        raise HarnessError("%s: %s [%s line %s]" % (type(e).__name__, e, last, tb[-1][1]))
    return "exception %s: %s" % (type(e).__name__, e)


def run_case(cases, script, seconds=60.0):
    """violated clause or None"""
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        cases[script["case"]](*script["args"])
        return None
    except Violated as v:
        return v.clause
    except HarnessError:
        raise
    except Exception as e:
        return blame(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def expect_error(f, name, clause):
    """f() is refused with the documented error"""
    from clubs import error

    names = [name] if isinstance(name, str) else name
    cls = tuple(getattr(error, x) for x in names)
    try:
        f()
    except cls:
        return
    except Violated:
        raise
    except Exception as e:
        raise Violated("%s (got %s: %s)" % (clause, type(e).__name__, e))
    raise Violated(clause + " (accepted)")


class Tally(object):
    """result of a job: counts and violations"""

    def __init__(self, job, cases, known=None):
        self.job, self.cases = job, cases
        self.n = 0
        self.distinct = 0
        self.viol = []
        self.sample = None
        self.stats = {}
        self.known = known or (lambda script, clause: None)
        self.end = time.time() + job.get("seconds", 1e9)
        self.error = None
        self.complete = True
        self.knowns = set()

    def over(self):
        if len(self.viol) >= 3 or time.time() > self.end:
            self.complete = False
            return True
        return False

    def run(self, case, *args, **kw):
        script = {"case": case, "args": list(args)}
        self.n += 1
        try:
            clause = run_case(self.cases, script, kw.get("limit", 60.0))
        except HarnessError as e:
            self.error = str(e)
            return False
        if self.sample is None:
            self.sample = script
        if clause is not None and clause[:1] == "C" and clause[3:4] == ":":
            if clause[:3] not in self.job.get("props", [clause[:3]]):
                clause = None  # belongs to another property
        if clause is None:
            self.distinct += 1
            return True
        k = self.known(script, clause)
        if k is not None:
            if k not in self.knowns:
                self.knowns.add(k)
                self.viol.insert(0, {"clause": clause, "script": script, "known": k})
            return True
        self.viol.append({"clause": clause, "script": script, "known": None})
        return False

    def result(self, **stats):
        v = [x for x in self.viol if x["known"] is None]
        st = dict(evaluations=self.n, distinct=self.distinct, sample=self.sample)
        st.update(self.stats)
        st.update(stats)
        return {"violations": self.viol, "stats": st, "error": self.error,
                "clause": v[0]["clause"] if v else None, "script": v[0]["script"] if v else None}


def make_run_script(cases):
    def run_script(script, props):
        return run_case(cases, script)
    return run_script
