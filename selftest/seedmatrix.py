#!/usr/bin/env python3
"""Runs all checks on all planted bugs (in scratch copies) and writes tools/caught.json: bug -> the checks that report it.
usage: seedmatrix.py [-k SUBSTRING] [-j N]"""
import argparse, concurrent.futures as cf, glob, json, os, queue, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
ap = argparse.ArgumentParser()
ap.add_argument('-k', default='')
ap.add_argument('-j', type=int, default=3)
a = ap.parse_args()
ids = sorted(os.path.basename(r)[:-3].upper() for r in glob.glob(os.path.join(V, 'rules', 'p[0-9][0-9].py')))
out = os.path.join(V, 'tools', 'caught.json')
try:
    res = json.load(open(out))
except FileNotFoundError:
    res = {}
q = queue.Queue()
for i in range(a.j):
    q.put(i)
# the checks as they are now, so that the rules can be edited while this runs
SNAP = '/tmp/vp-matrix/verif'
shutil.rmtree('/tmp/vp-matrix', ignore_errors=True)
os.makedirs('/tmp/vp-matrix')
subprocess.run(['git', 'clone', '-q', V, SNAP], check=True)
for d in ('rules', 'sa', 'check.py', 'driver', 'witness', 'known_findings.json'):
    if os.path.exists(os.path.join(V, d)):
        subprocess.run('cp -a %s/%s %s/' % (V, d, SNAP), shell=True)


def one(s):
    k = q.get()
    try:
        d = '/tmp/vp-matrix/s%d' % k
        repo = d + '/repo'
        if not os.path.isdir(repo):
            os.makedirs(d + '/ev')
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            shutil.copy('/repo/Cargo.lock', repo)
        subprocess.run('git checkout -q -f; git apply %s/seeded/%s/patch.diff' % (V, s), shell=True, cwd=repo, check=True)
        env = dict(os.environ, VP_REPO=repo, VP_WORK=d + '/work', VP_EVIDENCE=d + '/ev')
        hit = []
        for p in ids:
            r = subprocess.run(['python3', SNAP + '/check.py', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout:
                hit.append(p)
            elif r.returncode != 0:
                hit.append(p + '?')
        return s, hit
    finally:
        q.put(k)


seeds = [os.path.basename(os.path.dirname(m)) for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))) if a.k in m]
with cf.ThreadPoolExecutor(a.j) as ex:
    for s, hit in ex.map(one, seeds):
        res[s] = hit
        own = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))['property']
        print('%-28s %s %s' % (s, 'ok' if own in hit else 'MISSED by ' + own, ' '.join(hit)), flush=True)
res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(V, 'seeded', k))}
json.dump(res, open(out, 'w'), indent=1, sort_keys=True)
shutil.rmtree('/tmp/vp-matrix')
