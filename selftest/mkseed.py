#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specs in seeds_*.py and confirms each in a scratch copy of /repo.
usage: mkseed.py [-k SUBSTRING] [--no-tests]"""
import argparse, concurrent.futures as cf, glob, importlib, json, os, queue, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SCR = '/tmp/vp-seeds'
DEMO = '''#!/bin/bash
# %s
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'cd /; rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/run"
cp "$here"/main.rs "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
node_tree = { path = "$repo/node_tree_core"%s }
%s[workspace]
EOF
export CARGO_TARGET_DIR="$t/target"
(cd "$t" && cargo build --offline -q) > "$t/log" 2>&1 || { tail -40 "$t/log"; echo "demo does not build"; exit 3; }
cd "$t/run" && timeout 60 "$t/target/debug/demo"
rc=$?
echo "exit $rc"
%sexit $rc
'''
# the program that has to be rejected
MISUSE = '''[ $rc -eq 0 ] || exit $rc
cp "$here"/misuse.rs "$t/src/main.rs"
if (cd "$t" && cargo build --offline -q) > "$t/log" 2>&1; then echo "misuse.rs compiles"; exit 1; fi
grep -qE "%s" "$t/log" || { tail -40 "$t/log"; echo "misuse.rs is rejected for another reason"; exit 4; }
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(s, slot, tests):
    sid = s['id']
    d = os.path.join(VERIF, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    repo = os.path.join(SCR, 's%d' % slot, 'repo')
    if not os.path.isdir(repo):
        os.makedirs(os.path.dirname(repo), exist_ok=True)
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        shutil.copy('/repo/Cargo.lock', repo)
    sh('git fetch -q && git checkout -q -f origin/HEAD 2>/dev/null || git checkout -q -f; git reset -q --hard origin/HEAD', repo)
    for f, old, new in s['edits']:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return sid, 'pattern %d times: %s' % (t.count(old), old[:70])
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', repo).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (s['breaks'].replace('\n', ' '), s.get('feat', ''), s.get('deps', ''), MISUSE % s['code'] if 'misuse' in s else ''))
    if 'misuse' in s:
        open(os.path.join(d, 'misuse.rs'), 'w').write(s['misuse'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'main.rs'), 'w').write(s['demo'])
    # the removed lines have to be lines of the original repository
    base = sh('git rev-list --max-parents=0 HEAD', repo).stdout.strip()
    msg = []
    r = sh('bash %s/demo.sh' % d, repo)
    if r.returncode == 0:
        msg.append('demo passes with the patch')
    elif r.returncode in (3, 4):
        msg.append('demo does not build with the patch: ' + r.stdout[-900:])
    if tests:
        t = sh('cargo test --workspace --locked --offline 2>&1 | grep -E "^test result: FAILED|^error|^test .*FAILED|panicked" | head -5', repo, env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(SCR, 's%d' % slot, 'target')))
        if t.stdout.strip():
            msg.append('tests: ' + t.stdout[:300])
    lines = []
    for f in {e[0] for e in s['edits']}:
        bl = sh('git blame -s HEAD -- %s' % f, repo).stdout.splitlines()
        cur = diff.split('+++ b/' + f)[1].split('diff --git')[0]
        n = None
        for l in cur.splitlines():
            if l.startswith('@@'):
                n = int(l.split()[1].split(',')[0][1:])
            elif n is not None:
                if l.startswith('-'):
                    if not bl[n - 1].startswith('^' + base[:7]):
                        lines.append(bl[n - 1][:60])
                    n += 1
                elif not l.startswith('+'):
                    n += 1
    if lines:
        msg.append('changes lines of own commits: %s' % lines[:2])
    sh('git checkout -q -f', repo)
    r2 = sh('bash %s/demo.sh' % d, repo)
    if r2.returncode != 0:
        msg.append('demo fails without the patch: ' + r2.stdout[-600:])
    return sid, '; '.join(msg) or 'confirmed (%s)' % r.stdout.strip().splitlines()[-1]


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-k', default='')
    ap.add_argument('--no-tests', action='store_true')
    a = ap.parse_args()
    specs = []
    for p in sorted(glob.glob(os.path.join(HERE, 'seeds_*.py'))):
        specs += [s for s in importlib.import_module(os.path.basename(p)[:-3]).SEEDS if a.k in s['id']]
    q = queue.Queue()
    for i in range(5):
        q.put(i)

    def job(s):
        k = q.get()
        try:
            return one(s, k, not a.no_tests)
        finally:
            q.put(k)
    with cf.ThreadPoolExecutor(5) as ex:
        for sid, m in ex.map(job, specs):
            print('%-28s %s' % (sid, m))
