#!/usr/bin/env python3
"""Validates planted changes and says which checks catch them (development tool; no check uses it).
  seedcheck.py [--nobuild] [--all-props] ID...
Works on a private copy bind-mounted over /repo in a mount namespace."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
args = sys.argv[1:]
nobuild = "--nobuild" in args
props = [a[8:] for a in args if a.startswith("--props=")]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(VERIF + "/seeded"))

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def one(i):
    d = VERIF + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    w = "/var/tmp/sc_" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    res = {"id": i}
    try:
        sh(["cp", "-a", "/repo", w + "/repo"])
        shutil.copytree(d, w + "/demo")
        r = sh(["git", "-C", w + "/repo", "apply", d + "/patch.diff"])
        if r.returncode:
            return {"id": i, "apply": r.stdout}
        if not nobuild:
            os.makedirs(w + "/tmp")
            script = """mount --bind %s/repo /repo; mount --bind %s/tmp /tmp; cd /repo; bash /opt/vp/test.sh /tmp/out.json >/tmp/log 2>&1; echo T=$?; timeout 300 bash %s/demo/demo.sh >/tmp/demo.log 2>&1; echo D=$?; git apply -R %s/patch.diff; grep -q "ekf_gen\|tools/" %s/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo/demo.sh > /tmp/demo0.log 2>&1; echo U=$?; git apply %s/patch.diff""" % (w, w, w, d, d, w, d)
            r = sh(["unshare", "-m", "bash", "-c", script])
            o = json.load(open(w + "/tmp/out.json"))
            missing = sorted(BASE - set(o["passed"]))
            res["tests"] = "ok" if not missing else "BROKEN %s" % missing[:4]
            res["demo"] = r.stdout.split()[-3:]
            if "D=0" in r.stdout or "U=0" not in r.stdout or missing:
                res["log"] = [open(w + "/tmp/" + f).read()[-n:] for f, n in (("log", 10), ("demo.log", 300), ("demo0.log", 300))]
        for p in (props or [meta["property"]]):
            env = dict(os.environ, DST_REPO=w + "/repo", DST_BUILD=w + "/build", VERIF_SEED="1", VERIF_TIER="quick", DST_EVIDENCE=w)
            t = time.time()
            r = sh(["python3", VERIF + "/run_check.py", p], env=env, cwd=VERIF)
            lines = r.stdout.strip().splitlines()
            res[p] = "rc=%d %.0fs %s" % (r.returncode, time.time() - t, " | ".join(l[:160] for l in lines[-2:-1] if not l.startswith("C")) )
    except Exception as e:
        res["exc"] = repr(e)
    finally:
        if "--keep" not in args:
            shutil.rmtree(w, ignore_errors=True)
    return res

with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        print(" ; ".join("%s=%s" % (k, v) for k, v in r.items()), flush=True)
