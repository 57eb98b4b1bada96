"""Run TLC and parse what it says."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        v = re.search(r"Error: (Invariant (\S+) is violated|Action property (\S+)|Temporal properties were violated|Deadlock reached)", out)
        self.violation = v.group(0) if v else None

    def coverage(self):
        """action -> (distinct, generated) from -coverage."""
        cov = {}
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", self.out, re.M):
            a, d, g = m.group(1), int(m.group(2)), int(m.group(3))
            o = cov.get(a, (0, 0))
            cov[a] = (max(o[0], d), max(o[1], g))
        return cov


def run(module, cfg=None, env=None, workers=1, heap="2g", timeout=600, extra=(), dfs=False,
        jopts=()):
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    try:
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.stopAfter=%d" % int(timeout + 5),
               "-Djava.io.tmpdir=" + meta]
        if workers == 1:  # short runs: compile less
            cmd += ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"]
        else:
            cmd += ["-XX:+UseParallelGC"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += list(jopts)
        cmd += ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
                "-noGenerateSpecTE", "-nowarning", "-config", cfg or module + ".cfg"]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True,
                               errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as ex:
            o = ex.stdout
            out = (o.decode(errors="replace") if isinstance(o, bytes) else (o or "")) + "\nTIMEOUT"
            rc = -9
        return Result(out, rc, time.time() - t0)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def unquote_prints(out, tag):
    """Values printed by PrintT(<<tag, ToJson(..)>>)... one JSON text per line."""
    res = []
    pre = '<<"%s", "' % tag
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('">>'):
            res.append(json.loads(json.loads('"' + line[len(pre):-3] + '"')))
    return res
