#!/usr/bin/env python3
"""Runs checks against scratch copies of /repo with behaviour-preserving refactorings (tools/refac.py).

usage: quiet.py [ID...]      every line printed must show rc 0 for every check
"""
import os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(HERE, 'tools', 'refac.py')).read(), ns)
only = sys.argv[1:]
for id_, checks, subs in ns['B']:
    if only and id_ not in only:
        continue
    d = os.path.join(tempfile.mkdtemp(prefix='quiet_'), 'repo')
    shutil.copytree(os.environ.get("QUIET_REPO", "/repo"), d, ignore=shutil.ignore_patterns('.git'))
    bad = None
    for p, o, n in subs:
        s = open(d + '/' + p).read()
        if s.count(o) != 1:
            bad = 'OLD x%d %s: %s' % (s.count(o), p, o[:80])
            break
        open(d + '/' + p, 'w').write(s.replace(o, n, 1))
    if bad:
        print(id_, bad, flush=True)
    else:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        t = subprocess.run('timeout 200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=40',
                           shell=True, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True).stdout.strip().splitlines()[-1:]
        res = []
        for c in checks:
            if os.environ.get('TESTS_ONLY'):
                break
            p = subprocess.run(['timeout', '900', 'python3', HERE + '/check.py', c], cwd=HERE,
                               env=dict(env, VERIF_REPO=d, VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                                        VERIF_TIER='quick'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res.append('%s:%d' % (c, p.returncode) if not p.returncode
                       else '%s:%d %s' % (c, p.returncode, p.stdout.strip()[:250]))
        print(id_, t, ' | '.join(res), flush=True)
    shutil.rmtree(os.path.dirname(d))
