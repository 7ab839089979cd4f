#!/usr/bin/env python3
"""Development aid: applies small source edits to scratch copies of /repo and reports which checks fire.

Every entry of muts_*.py is (id, kind, checks, [(file, old, new), ...]); kind 'bug' has to be reported by one of the
checks named, kind 'same' (an edit that keeps the behaviour) by none.  Nothing here is read by a check.
usage: run.py [-j N] [-k SUBSTRING] [-p P01,P02] [--tests] [--all]
"""
import argparse, concurrent.futures as cf, glob, importlib, os, queue, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SCR = os.environ.get('VP_SCR', '/tmp/vp-selftest')


def load(k):
    r = []
    for p in sorted(glob.glob(os.path.join(HERE, 'muts_*.py'))):
        for m in importlib.import_module(os.path.basename(p)[:-3]).MUTS:
            if k in m[0] or k == os.path.basename(p)[:-3]:
                r.append(m)
    return r


def checks():
    return sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(VERIF, 'rules', 'p[0-9]*.py')))


def apply(repo, edits):
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) < 1:
            return 'pattern not in %s: %s' % (f, old[:60])
        if s.count(old) > 1:
            return 'pattern %d times in %s: %s' % (s.count(old), f, old[:60])
        open(p, 'w').write(s.replace(old, new))


def one(m, slot, props, tests):
    mid, kind, want, edits = m
    d = os.path.join(SCR, 's%d' % slot)
    repo, work = os.path.join(d, 'repo'), os.path.join(d, 'work')
    os.makedirs(work, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', repo + '/'], check=True) if shutil.which('rsync') else (shutil.rmtree(repo, ignore_errors=True), shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('target', '.git')))
    e = apply(repo, edits)
    if e:
        return mid, 'BROKEN', e
    env = dict(os.environ, VP_REPO=repo, VP_WORK=work, VP_EVIDENCE=os.path.join(d, 'ev'))
    fired, errs = [], []
    for p in props:
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 2 or 'cannot build' in r.stdout:
            return mid, 'NOBUILD', r.stdout[-2500:]
        if r.returncode:
            fired.append(p)
            errs.append('\n'.join(l[:330] for l in r.stdout.splitlines() if l.startswith('  ['))[:900] or r.stdout[-600:])
    t = ''
    if tests:
        r = subprocess.run('cargo test --offline --target-dir %s/t 2>&1 | grep -E "^test result|^error|FAILED" | sort | uniq -c' % d, shell=True, cwd=repo, stdout=subprocess.PIPE, text=True)
        t = ' tests: ' + ('FAIL ' if 'FAILED' in r.stdout or 'error' in r.stdout else 'ok')
    if kind == 'bug':
        hit = [p for p in want if p in fired]
        v = 'caught' if hit else 'MISSED'
        other = [p for p in fired if p not in want]
        return mid, v + t, ('also by ' + ','.join(other) if other else '') + ('' if hit else ' wanted ' + ','.join(want)) + '\n'.join([''] + errs if VERB else [])
    return mid, ('quiet' if not fired else 'ALARM') + t, (','.join(fired) + '\n' + '\n'.join(errs)) if fired else ''


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=7)
    ap.add_argument('-k', default='')
    ap.add_argument('-p', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--tests', action='store_true')
    a = ap.parse_args()
    VERB = a.v
    ms = load(a.k)
    allp = checks()
    q = queue.Queue()
    for i in range(a.j):
        q.put(i)

    def job(m):
        s = q.get()
        try:
            pr = a.p.split(',') if a.p else (allp if m[1] == 'same' else [p for p in m[2] if p in allp])
            return one(m, s, pr, a.tests)
        finally:
            q.put(s)
    with cf.ThreadPoolExecutor(a.j) as ex:
        bad = 0
        for mid, v, msg in ex.map(job, ms):
            ok = v.startswith(('caught', 'quiet'))
            bad += not ok
            if not ok or msg.strip() or a.tests:
                print('%-34s %s  %s' % (mid, v, msg))
    print('%d edits, %d not as expected' % (len(ms), bad))
