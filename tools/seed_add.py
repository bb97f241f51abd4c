"""confirms planted changes in a scratch copy and keeps those that hold up

usage: seed_add.py DEFS.py [id ...]   (DEFS.py defines SEEDS: id -> dict)"""
import json
import os
import runpy
import shutil
import subprocess
import sys

PY = "/opt/pypyvenv/bin/python"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
SCR = "/tmp/w/sd"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for sid, s in seeds.items():
        if only and sid not in only:
            continue
        if not only and os.path.exists(os.path.join(OUT, sid, "meta.json")):
            continue
        d = os.path.join(SCR, sid)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True)
        sh(["git", "checkout", "-q", "--", "."], d)
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            txt = open(p, newline="").read()
            if "\r\n" in txt:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert txt.count(old) == 1, (sid, f, txt.count(old))
            open(p, "w", newline="").write(txt.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="/opt/vp/plugin:" + d)
        t = sh(["timeout", "300", PY, "-m", "pytest", "-q", "-x", "-p", "pypy_collect", "-p", "no:cacheprovider", "--timeout=60",
                "test"], d, env=env)
        ok = t.returncode == 0
        tail = t.stdout.decode("utf8", "replace").strip().splitlines()[-3:]
        q = os.path.join(SCR, sid + "-demo")
        shutil.rmtree(q, ignore_errors=True)
        os.makedirs(q)
        open(os.path.join(q, "demo.py"), "w").write(HEAD + s["demo"].strip() + "\n")
        open(os.path.join(q, "demo.sh"), "w").write(
            '#!/bin/bash\n# run in the repository; exit 0: property holds for this case\n'
            'exec timeout 120 /opt/pypyvenv/bin/python -B "$(dirname "$0")/demo.py"\n')
        env.pop("PYTHONPATH")
        a = sh(["bash", q + "/demo.sh"], "/repo", env=env)
        b = sh(["bash", q + "/demo.sh"], d, env=env)
        good = ok and a.returncode == 0 and b.returncode != 0
        print("%-28s %s tests %s  demo clean %d  patched %d" % (
            sid, "OK " if good else "BAD", "pass" if ok else "FAIL " + " | ".join(tail), a.returncode, b.returncode))
        if a.returncode:
            print(a.stdout.decode()[-600:])
        if good:
            print("      ", b.stdout.decode("utf8", "replace").strip().splitlines()[-1][:150])
            o = os.path.join(OUT, sid)
            shutil.rmtree(o, ignore_errors=True)
            shutil.copytree(q, o)
            open(os.path.join(o, "patch.diff"), "wb").write(diff)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(o, "meta.json"), "w"), indent=1)
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(q, ignore_errors=True)


HEAD = '''import os
import sys

sys.path.insert(0, os.getcwd())
import clubs
from clubs import Card, error, poker, render
from clubs.poker.engine import Dealer

assert os.path.realpath(clubs.__file__).startswith(os.path.realpath(os.getcwd())), clubs.__file__


def table(**kw):
    c = dict(num_players=3, num_streets=1, blinds=0, antes=0, raise_sizes=float("inf"), num_raises=float("inf"),
             num_suits=4, num_ranks=13, num_hole_cards=2, num_community_cards=0, num_cards_for_hand=2,
             mandatory_num_hole_cards=0, start_stack=100)
    c.update(kw)
    return Dealer(**c)


'''

main()
