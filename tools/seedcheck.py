"""Try the planted changes of seeded/ in scratch copies of /repo.

usage: seedcheck.py [--demo-only] [--tier quick|thorough] [--seed N] [id ...]
For each: the patch applies, the stable tests pass, the demonstration fails with it and
passes without it, and the check of its property reports a violation.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def main(args):
    demo_only = "--demo-only" in args
    args = [a for a in args if a != "--demo-only"]
    env = dict(os.environ)
    while args and args[0].startswith("--"):
        env["VERIF_" + args[0][2:].upper()] = args[1]
        args = args[2:]
    ids = args or sorted(os.listdir(ROOT + "/seeded"))
    tmp = tempfile.mkdtemp(prefix="seed-")
    missed = []
    try:
        for i in ids:
            d = os.path.join(ROOT, "seeded", i)
            meta = json.load(open(d + "/meta.json"))
            w = os.path.join(tmp, i)
            subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
            run = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True)
            res = []
            a = run()
            res.append("demo clean %d" % a.returncode)
            subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], check=True)
            b = run()
            res.append("bug %d (%s)" % (b.returncode, (b.stdout + b.stderr).strip().split("\n")[-1][:80]))
            e = dict(env, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
            t = subprocess.run([PY, "-W", "ignore", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x",
                                "-k", "not (directCollocationReach or directCollocationSimple)", "test"],
                               cwd=w, env=e, capture_output=True, text=True)
            last = t.stdout.strip().split("\n")[-1]
            res.append(re.sub(r"=+", "", last).strip())
            flag = "" if a.returncode == 0 and b.returncode != 0 and t.returncode == 0 else "  <<<< NOT VALID"
            if not demo_only:
                t0 = time.time()
                c = subprocess.run([sys.executable, "check.py", meta["property"]], cwd=ROOT, env=dict(env, VERIF_REPO=w),
                                   capture_output=True, text=True)
                hit = c.returncode == 1 and "VIOLATION property=" + meta["property"] in c.stdout
                res.append("%s exit %d %.0fs" % ("CAUGHT" if hit else "MISSED", c.returncode, time.time() - t0))
                if not hit:
                    missed.append(i)
                    if c.returncode not in (0, 1):
                        res.append(c.stderr.strip()[-300:])
            print(i, "; ".join(res) + flag, flush=True)
            shutil.rmtree(w, ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("missed:", " ".join(missed) or "none")


main(sys.argv[1:])
