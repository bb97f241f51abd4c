"""Command line of the native runner (PyPy): JSON job on stdin, JSON result on
the last line of stdout."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    job = json.load(sys.stdin)
    kind = job["kind"]
    res = {"script": None, "clause": None, "stats": {}, "error": None}
    try:
        mod = __import__("native." + job.get("module", "table"), fromlist=["x"])
        if kind == "search":
            stats, script, clause = mod.search(
                job["props"], job["seed"], 10 ** 9, job.get("hands", 20),
                time.time() + job["seconds"], job.get("extra", False))
            res.update(stats=stats, script=script, clause=clause)
        elif kind == "directed":
            stats, script, clause = mod.directed(
                job["props"], job["scripts"], job["seed"], job["seconds"], job.get("extra", False))
            res.update(stats=stats, script=script, clause=clause)
        elif kind == "replay":
            res["clause"] = mod.run_script(job["script"], job["props"])
            c = res["clause"]
            if c and c[:1] == "C" and c[3:4] == ":" and c[:3] not in job["props"]:
                res["clause"] = None  # belongs to another property
            if res["clause"] and hasattr(mod, "known") and mod.known(job["script"], res["clause"]):
                res["clause"] = None  # recorded finding
        else:
            res.update(getattr(mod, kind)(job))
    except Exception as e:
        import traceback

        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["traceback"] = traceback.format_exc()
    print("\nRESULT " + json.dumps(res))


main()
