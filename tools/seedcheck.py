#!/usr/bin/env python3
"""tools/seedcheck.py ID [--no-tests] [--checks C01,C02]: confirm a planted bug in a scratch copy
(patch applies, tests pass, demo 0 without / nonzero with it) and run checks against the copy."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(V, "seeded", sid)
meta = json.load(open(d + "/meta.json"))
checks = [meta["property"]]
if "--checks" in sys.argv:
    checks = sys.argv[sys.argv.index("--checks") + 1].split(",")
w = "/tmp/seedwork/" + sid
shutil.rmtree(w, ignore_errors=True)
os.makedirs("/tmp/seedwork", exist_ok=True)
subprocess.run(["cp", "-a", os.environ.get("SEED_REPO", "/repo"), w], check=True)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
def sh(cmd, cwd, timeout=300, **e):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, env=dict(env, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"
res = {"id": sid, "property": meta["property"]}
demo = "bash " + d + "/demo.sh"
r0, o0 = sh(demo, w)
res["demo_clean"] = r0
if r0: print(o0[-800:])
rc, out = sh("git apply " + d + "/patch.diff", w)
res["applies"] = rc == 0
if rc: print(out)
r1, o1 = sh(demo, w)
res["demo_patched"] = r1
if "--no-tests" not in sys.argv:
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    rc, out = sh("timeout 200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 6 --timeout=40 --timeout-method=thread -o python_functions= --junitxml=/tmp/seedwork/%s.xml" % sid, w)
    res["tests"] = out.strip().splitlines()[-1] if out.strip() else rc
for c in checks:
    t = time.time()
    rc, out = sh("python3 %s/check.py %s" % (V, c), V, timeout=900, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
    res[c] = rc
    res[c + "_t"] = round(time.time() - t)
    if rc == 1 and "VIOLATION property=%s" % c not in out: res[c] = "no line"
    if rc == 2 or "-v" in sys.argv: print(out[-1500:])
    elif rc == 1: res[c + "_why"] = out.splitlines()[0][:200] if out else ""
shutil.rmtree(w, ignore_errors=True)
print(json.dumps(res))
