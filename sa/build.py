"""Builds the MIR driver and the MIR dumps of /repo's current working tree.

Everything is built under /verif/.work (ignored by git) or, when that cannot be
written, under a scratch directory; /repo is only read.  A dump is reused only
when the hash of every source it was made from is unchanged.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


class BuildError(Exception):
    def __init__(self, what, out):
        super().__init__(what)
        self.what, self.out = what, out


def _work():
    for d in (os.environ.get('VP_WORK'), os.path.join(VERIF, '.work')):
        if not d:
            continue
        try:
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '.w%d' % os.getpid())
            open(p, 'w').close()
            os.unlink(p)
            return d
        except OSError:
            pass
    d = os.path.join(tempfile.gettempdir(), 'vp-node-tree-%d' % os.getuid())
    os.makedirs(d, exist_ok=True)
    return d


WORK = _work()
ENV = dict(os.environ)
for k in list(ENV):
    if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTC', 'RUSTDOCFLAGS'):
        ENV.pop(k)
ENV['CARGO_TERM_COLOR'] = 'never'


def sh(cmd, cwd=None, env=None, what=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = r.stdout.decode(errors='replace')
    if r.returncode:
        raise BuildError(what or ' '.join(cmd), out)
    return out


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(open(root, 'rb').read())
            continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.work', '__pycache__'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p) and not os.path.islink(p):
                    h.update(p.encode())
                    h.update(b'\0')
                    h.update(open(p, 'rb').read())
                    h.update(b'\0')
    return h.hexdigest()


def _locked(fn):
    def run(*a, **k):
        with open(os.path.join(WORK, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            return fn(*a, **k)
    return run


_sys = None


def sysroot():
    global _sys
    if _sys is None:
        _sys = sh(['rustc', '+nightly', '--print', 'sysroot'], what='nightly toolchain').strip().splitlines()[-1]
    return _sys


def driver():
    src = os.path.join(VERIF, 'driver', 'driver.rs')
    out = os.path.join(WORK, 'driver')
    stamp = out + '.stamp'
    key = tree_hash(src) + sysroot()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    sh(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', out, '-L', sysroot() + '/lib'], cwd=WORK, what='MIR driver')
    open(stamp, 'w').write(key)
    return out


def _dump(crate, cwd, pkg, target, roots, extra, wrapper='RUSTC_WORKSPACE_WRAPPER', locked=True):
    drv = driver()
    dst = os.path.join(WORK, 'dump-' + target)
    out = os.path.join(dst, crate + '.json')
    stamp = os.path.join(dst, 'stamp')
    key = tree_hash(*roots) + tree_hash(os.path.join(VERIF, 'driver', 'driver.rs')) + sysroot()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    tgt = os.path.join(WORK, 'target-' + target)
    env = dict(ENV)
    env.update(VP_CRATES=crate, VP_DUMP_DIR=dst, LD_LIBRARY_PATH=sysroot() + '/lib', CARGO_INCREMENTAL='0')
    env[wrapper] = drv
    for sub in ('.fingerprint', 'build', 'deps'):       # cargo goes by modification times; what is under analysis is always built anew
        fp = os.path.join(tgt, 'debug', sub)
        for f in os.listdir(fp) if os.path.isdir(fp) else ():
            if f.startswith((pkg, 'node_tree', 'lib' + pkg, 'libnode_tree')):
                x = os.path.join(fp, f)
                shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.remove(x)
    cmd = ['cargo', '+nightly', 'check', '--offline', '-p', pkg, '--target-dir', tgt] + (['--locked'] if locked else []) + extra
    log = sh(cmd, cwd=cwd, env=env, what='cargo check of ' + pkg)
    if not os.path.exists(out):
        raise BuildError('cargo check of %s produced no MIR dump' % pkg, log)
    open(stamp, 'w').write(key)
    return out


@_locked
def dump_repo():
    return _dump('node_tree', REPO, 'node_tree', 'repo', [REPO], ['--lib', '--all-features'])


@_locked
def dump_witness():
    """the witness crate, in a scratch copy that depends on REPO"""
    src = os.path.join(VERIF, 'witness')
    d = os.path.join(WORK, 'witness-src')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(src, 'src'), os.path.join(d, 'src'))
    t = open(os.path.join(src, 'Cargo.toml')).read()
    open(os.path.join(d, 'Cargo.toml'), 'w').write(t.replace('../../repo/node_tree_core', os.path.join(REPO, 'node_tree_core')))
    if os.path.exists(os.path.join(REPO, 'Cargo.lock')):
        shutil.copy(os.path.join(REPO, 'Cargo.lock'), d)
    return _dump('witness', d, 'witness', 'witness', [REPO, os.path.join(VERIF, 'witness')], ['--lib'], locked=False)


if __name__ == '__main__':
    t = time.time()
    try:
        print(dump_repo())
        if os.path.isdir(os.path.join(VERIF, 'witness')):
            print(dump_witness())
    except BuildError as e:
        print(e.what)
        print(e.out[-6000:])
        sys.exit(2)
    print('%.1fs' % (time.time() - t))
