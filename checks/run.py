#!/usr/bin/env python3-vt
"""Check of one property: generates and discharges all obligations from the
current source of /repo, replays counter-models on the real code and runs the
labelled bounded search.  Exit 0: holds; exit 1 + VIOLATION line: broken.

usage: python3-vt checks/run.py C01 [quick|thorough]"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = os.environ.get("VERIF_PYPY", "/opt/pypyvenv/bin/python")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))

from checks import registry  # noqa: E402

BASE_TRUST = [
    "pyvc: this verifier's own translation of Python to z3 terms (where coverage.cross_check is given: compared with the real code on random states)",
    "z3 5.3 / cvc5 1.1.2",
    "Python integers are mathematical integers; the interpreter runs the source text that was parsed",
]


class Native(object):
    """a job of the native runner in a child process"""

    def __init__(self, job, timeout):
        self.job, self.timeout = job, timeout
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8",
                   PYTHONHASHSEED="0")
        self.t0 = time.time()
        self.p = subprocess.Popen(
            [PYPY, "-B", os.path.join(ROOT, "native", "run.py")], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=ROOT,
            start_new_session=True)
        self.p.stdin.write(json.dumps(job).encode())
        self.p.stdin.close()
        self.p.stdin = None

    def result(self):
        left = max(1.0, self.timeout - (time.time() - self.t0))
        try:
            out, err = self.p.communicate(timeout=left)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                self.p.kill()
            self.p.communicate()
            return {"error": "timeout", "script": None, "clause": None, "stats": {}}
        for line in reversed(out.decode("utf-8", "replace").splitlines()):
            if line.startswith("RESULT "):
                return json.loads(line[7:])
        return {"error": "no result: " + err.decode("utf-8", "replace")[-600:], "script": None,
                "clause": None, "stats": {}}


def native(job, timeout=120):
    return Native(job, timeout).result()


def save_replay(prop, data):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    txt = json.dumps(data, indent=1, default=str)
    name = "%s-%s.json" % (prop, hashlib.sha1(txt.encode()).hexdigest()[:10])
    with open(os.path.join(d, name), "w") as f:
        f.write(txt + "\n")
    return os.path.join("replays", name)


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    out.append(line[len("finding: property=%s " % prop):])
    except FileNotFoundError:
        pass
    return out


class Outcome(object):
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.known = []

    def violation(self, data, found=True):
        path = save_replay(self.prop, data)
        self.violations.append((path, found))


def group_of(name):
    return name.split(":")[0]


def run_proof(tasks, tier, budget, t_end, nproc):
    """discharges all tasks; returns list of result dicts"""
    from pyvc import work

    timeout = 20 if tier == "quick" else 60
    jobs = [(t, timeout, t_end) for t in tasks]
    if not jobs:
        return []
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=4) as pool:
        out = []
        it = pool.imap_unordered(work.run, jobs, chunksize=1)
        try:
            while len(out) < len(jobs):
                # workers stop by themselves; this is for one that can not
                out.append(it.next(timeout=max(5.0, t_end + 90 - time.time())))
        except mp.TimeoutError:
            done = set(repr(r["spec"]) for r in out)
            for t in tasks:
                if repr(list(t)) not in done:
                    out.append({"spec": list(t), "name": str(t), "obligations": [], "inlined": [], "contracts": [],
                                "models": [], "assumed": [], "error": "time budget used up, worker ended"})
            pool.terminate()
        return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = registry.get(prop, tier, seed)
    t_end = t0 + P["budget"]
    out = Outcome(prop)

    # bounded search on the real code, in parallel with the proof
    natives = []
    for k, job in enumerate(P["native"]):
        job = dict(job, seed=seed * 1000 + k)
        natives.append((job, Native(job, job.get("timeout", P["budget"] + 120))))
    nproc = max(1, NPROC - len(natives))
    random.Random(seed).shuffle(P["tasks"])
    tasks = sorted(P["tasks"], key=registry.weight, reverse=True)
    res = run_proof(tasks, tier, P["budget"], t_end, nproc)
    nres = [(job, n.result()) for job, n in natives]

    discharged = unknown = refuted = 0
    by = {}
    solver_s = 0.0
    errors, inlined, contracts = {}, set(), set()
    refs = []  # refuted obligations with models
    posts = {}
    for r in res:
        inlined |= set(r["inlined"])
        contracts |= set(r["contracts"])
        if r["error"]:
            errors.setdefault(r["error"], []).append(r["name"])
        for name, kind, st, be, dt in r["obligations"]:
            solver_s += dt
            if st == "discharged":
                discharged += 1
                by[be] = by.get(be, 0) + 1
            elif st == "refuted":
                refuted += 1
            else:
                unknown += 1
            posts.setdefault((name, kind, st), []).append(r["name"])
        for m in r["models"]:
            refs.append((r, m))
    total = discharged + unknown + refuted
    checker = "python3-vt checks/run.py %s %s" % (prop, tier)

    # the verifier's own results for random states against the real code
    cross = [x for r in res for x in r.get("cross", ())]
    cross_job = None
    if cross:
        cross_job = Native({"kind": "crosscheck", "module": "table", "scripts": cross}, 120)

    # 1. violations found by running the real code
    hard = False
    for job, r in nres:
        for v in r.get("violations") or ([{"script": r["script"], "clause": r["clause"]}]
                                         if r.get("clause") else []):
            if v.get("known") is not None:
                out.known.append(v["known"])
                continue
            hard = True
            out.violation({
                "property": prop, "failed": v["clause"], "replay": "native",
                "job": {"kind": "replay", "module": job.get("module", "table"),
                        "props": job.get("props", [prop]), "script": v["script"]},
                "run": "%s -B native/run.py < (the job object above)" % PYPY,
                "refuted_obligations": sorted(set(m["obligation"] for _, m in refs))})

    # 2. refuted obligations: replay the counter-models on the real code
    # a lemma about a private helper is reported only if the real code fails
    reportable = [(r, m) for r, m in refs if m["kind"] in P["report_kinds"] + ("lemma",) and (
        m["obligation"].startswith(prop) or not re.match(r"C\d\d:", m["obligation"]))]
    notes = []
    if reportable and not hard:
        scripts = [m["script"] for _, m in reportable if m.get("script")]
        found = None
        if scripts:
            module = P["replay_module"]
            pick = scripts[:24]
            secs = 15 if tier == "quick" else 60
            cases = [x for x in pick if "case" in x]
            js = [] if cases else [Native({"kind": "directed", "module": module, "props": P["props"], "scripts": pick,
                          "seed": seed * 77 + k, "seconds": secs, "extra": P["extra"]}, secs + 60)
                  for k in range(min(6, NPROC))]
            inj = []
            todo = pick if cases else pick[:8]
            for lo in range(0, len(todo), NPROC):
                ns = [(sc, Native({"kind": "replay", "module": sc.get("module", module), "props": P["props"], "script": sc}, 60))
                      for sc in todo[lo:lo + NPROC]]
                inj += [(sc, rr["clause"]) for sc, rr in [(sc, n_.result()) for sc, n_ in ns]
                        if rr.get("clause")]
            for j in js:
                rr = j.result()
                if rr.get("clause") and found is None:
                    found = (rr["script"], rr["clause"])
            direct = [x for x in inj if all(op[0] != "inject" for op in x[0].get("ops", ()))]
            if found is None and direct:
                found = direct[0]
            if found is not None:
                out.violation({
                    "property": prop, "failed": found[1], "replay": "native",
                    "job": {"kind": "replay", "module": found[0].get("module", module), "props": P["props"],
                            "script": found[0]},
                    "run": "%s -B native/run.py < (the job object above)" % PYPY,
                    "refuted_obligations": sorted(set(m["obligation"] for _, m in refs))})
            elif inj:
                notes.append({"injected_state_replay": inj[0][0], "failed": inj[0][1]})
        unconfirmed = [m["obligation"] for _, m in reportable if m["kind"] == "lemma"]
        reportable = [(r, m) for r, m in reportable if m["kind"] != "lemma"]
        if found is None and unconfirmed:
            print("  note: refuted but not confirmed on the real code: %s" % "; ".join(sorted(set(unconfirmed))[:4]))
        if found is None and reportable:
            r, m = reportable[0]
            out.violation({
                "property": prop, "failed": m["obligation"], "replay": "none",
                "obligation": m["obligation"], "task": r["name"],
                "verifier_output": {"status": "refuted (sat)", "counter_model": m["model"]},
                "all_refuted": sorted(set("%s [%s]" % (mm["obligation"], mm["kind"]) for _, mm in refs)),
                "notes": notes, "rerun": checker}, found=False)

    # 3. findings recorded earlier
    listed = known_findings(prop)
    for k in sorted(set(out.known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    vacuous = [e for e in errors if e.startswith("vacuous")]
    proved = total > 0 and discharged == total and not errors
    bounded = not proved
    cov = {
        "obligations": total,
        "discharged": discharged,
        "refuted": refuted,
        "undecided": unknown,
        "by_back_end": by,
        "solver_s": round(solver_s, 2),
        "tasks": len(res),
        "tasks_not_verified": {k[:300]: v[:8] for k, v in errors.items()},
        "functions_verified_in_place": sorted(inlined),
        "functions_used_by_contract": sorted(contracts),
        "checker_cmd": checker,
        "trusted_base": BASE_TRUST + P["trusted"],
        "proved": proved,
        "undischarged": sorted(set("%s [%s] %s" % (k[0], k[1], k[2]) for k in posts
                                   if k[2] != "discharged"))[:40],
        "evaluations": 0,
    }
    if cross_job is not None:
        r = cross_job.result()
        cov["cross_check"] = dict(r.get("stats") or {}, errors=sorted(set(
            [x["cross_error"] for x in res if x.get("cross_error")] + ([r["error"]] if r.get("error") else [])))[:3])
        for b in r.get("bad", ()):
            print("  note: %s" % b["clause"])
            cov["cross_check"].setdefault("differences", []).append(b)
    if P.get("explanation"):
        cov["explanation"] = P["explanation"]
    ev = 0
    nstats = []
    samples = []
    for job, r in nres:
        st = dict(r.get("stats") or {})
        smp = st.pop("sample", None)
        if smp is not None:
            samples.append(smp)
        ev += st.get("evaluations", st.get("clauses", st.get("hands", 0)))
        nstats.append({"job": {k: job[k] for k in job if k not in ("scripts",)}, "stats": st,
                       "error": r.get("error")})
        for k in ("obligations", "discharged"):
            if k in st and P["ground"]:
                cov[k] += st[k]
        if P["ground"] and st.get("exhaustive") is not None:
            cov["exhaustive"] = bool(st["exhaustive"])
    cov["evaluations"] = ev
    cov["distinct_nontrivial"] = sum((n["stats"] or {}).get("showdowns", 0) or (n["stats"] or {}).get(
        "distinct", 0) for n in nstats)
    cov["rule"] = P["rule"]
    cov["samples"] = samples[:3]
    cov["bounded_native"] = nstats
    if bounded and not P["ground"]:
        cov["bounded"] = ("not everything was discharged on this tree; the undischarged part is covered "
                          "only by the bounded native runs listed")
    level = P["level"]
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": P["assumptions"], "wall_s": round(time.time() - t0, 2),
        "violations": len(out.violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1, default=str)
        f.write("\n")
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided, %d native evaluations, %.1f s%s" % (
        prop, cov["obligations"], cov["discharged"], refuted, unknown, ev, time.time() - t0,
        "" if proved or P["ground"] else " (not fully proved: bounded)"))
    for e, names in errors.items():
        print("  note: %s (%d tasks)" % (e[:300], len(names)))
    for n in nstats:
        if n["error"]:
            print("  note: native: %s" % n["error"])
    for path, found in out.violations:
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
    return 1 if out.violations else 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
