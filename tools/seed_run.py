"""runs the check of every planted change against it, in a scratch copy

usage: seed_run.py [--prop Cxx] [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
SCR = "/tmp/w/sr"
for sid in ids:
    if sid.startswith("--"):
        continue
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, sid)))
    d = os.path.join(SCR, sid)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (ROOT, sid)], cwd=d, check=True)
    t = time.time()
    r = subprocess.run(["python3-vt", "checks/run.py", m["property"], "quick"], cwd=ROOT,
                       env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    out = r.stdout.decode("utf8", "replace").strip().splitlines()
    v = [l for l in out if l.startswith("VIOLATION")]
    first = [l for l in out if l.startswith(m["property"] + ":")]
    why = ""
    if v:
        p = v[0].split("replay=")[1].split()[0]
        try:
            why = json.load(open(os.path.join(ROOT, p))).get("failed", "")
        except Exception as e:
            why = str(e)
    print("%-26s %s %-7s %4.0fs  %s | %s" % (sid, m["property"], "caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode,
          time.time() - t, (first or [""])[0][5:90], (("NOINPUT " if v and "no-failing" in v[0] else "") + why)[:110]), flush=True)
    shutil.rmtree(d, ignore_errors=True)
