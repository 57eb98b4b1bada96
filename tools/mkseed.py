"""helper: make(id, prop, file, [(old, new)...], demo_py, needs, breaks)"""
import json, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(sid, prop, edits, demo, needs, breaks):
    """edits: list of (file, old, new)"""
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed_" + sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
