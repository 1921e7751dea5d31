#!/usr/bin/env python3
"""run the check of each planted bug's property against a scratch copy of /repo that has the bug
usage: catch.py [id-substring ...] [-p PROP]   (development tool; no check uses it)"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/catch_' + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w, capture_output=True, text=True)
    if r.returncode:
        return i, prop, 'PATCH DOES NOT APPLY', 0
    t = time.time()
    env = dict(os.environ, PYVC_REPO=w, PYVC_EVID=w + '/evid')
    r = subprocess.run(['python3-vt', V + '/check.py', prop], cwd=V, env=env, capture_output=True, text=True)
    ls = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    conf = [l for l in ls if not l.endswith('no-failing-input-found')]
    s = 'MISSED' if r.returncode == 0 else ('caught %d obligations, %d with input' % (len(ls), len(conf)) if r.returncode == 1 and ls else 'BROKEN rc=%d' % r.returncode)
    shutil.rmtree(w, ignore_errors=True)
    return i, prop, s, time.time() - t


if __name__ == '__main__':
    pat = sys.argv[1:]
    ids = [i for i in sorted(os.listdir(V + '/seeded')) if not pat or any(p in i for p in pat)]
    for i in ids:
        print('%-28s %s %s (%.0fs)' % one(i), flush=True)
