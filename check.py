#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property on /repo's current source."""
import argparse, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)
import threading
threading.stack_size(512 * 1024 * 1024)


def known():
    p = os.path.join(HERE, 'known_findings.json')
    try:
        return json.load(open(p))['findings']
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='count', default=0)
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    import build, rule
    from engine import AnalysisError
    mod = importlib.import_module(a.pid.lower())
    try:
        files = [build.dump_repo()]
    except build.BuildError as e:
        print('cannot build: %s\n%s' % (e.what, e.out[-4000:]))
        return 2
    werr = None
    wprog = None
    if getattr(mod, 'WITNESS', False):
        try:
            wfile = build.dump_witness()
            wprog = rule.Program(files + [wfile])
        except build.BuildError as e:
            werr = e
    P = wprog or rule.Program(files)
    ctx = rule.Ctx(a.pid, tier, P, wprog)
    if werr is not None:
        ctx.ob(False, 'witness-does-not-compile', 'the witness program, which uses the documented macro syntax, no longer compiles: ' + werr.out[-1500:])
    else:
        try:
            mod.check(ctx)
        except AnalysisError as e:
            ctx.ob(False, 'analysis:' + str(e)[:120], 'the rule cannot follow the code: ' + str(e))
        except Exception as e:
            tb = traceback.format_exc()
            ctx.ob(False, 'analysis:%s' % type(e).__name__, 'the rule cannot follow the code:\n' + tb)
    kn = {k['key'] for k in known() if k['property'] == a.pid and k.get('status') == 'known'}
    new = {k: v for k, v in ctx.viol.items() if k not in kn}
    old = {k: v for k, v in ctx.viol.items() if k in kn}
    EV = os.environ.get('VP_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    distinct = len({k for k, _ in ctx.obs})
    ev = {
        'property': a.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the MIR of /repo\'s current source; no code was run. ' + (mod.__doc__ or '').strip(),
            'functions_analysed': len(ctx.fns), 'paths': ctx.paths, 'call_sites': ctx.calls,
            'obligations': len(ctx.obs), 'discharged': sum(1 for _, ok in ctx.obs if ok), 'distinct_obligations': distinct,
            'rule': getattr(mod, 'RULE', ''), 'samples': ctx.samples or sorted({k for k, _ in ctx.obs})[:12],
            'notes': ctx.notes,
        },
        'assumptions': getattr(mod, 'ASSUMES', []) + ['rustc\'s MIR is the program; library models in sa/models.py describe std, dashmap and toml_edit correctly'],
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    json.dump(ev, open(os.path.join(EV, a.pid + '.json'), 'w'), indent=1)
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s' % (a.pid, k))
    print('%s: %d obligations (%d distinct), %d paths in %d functions, %.1fs' % (a.pid, len(ctx.obs), distinct, ctx.paths, len(ctx.fns), time.time() - t0))
    if a.v:
        from collections import Counter
        c = Counter(ctx.obs)
        for (k, ok), n in sorted(c.items()):
            if not ok or a.v > 1:
                print('  %s %dx %s' % ('ok ' if ok else 'BAD', n, k))
    if new:
        rp = os.path.join(EV, a.pid + '.violation.json')
        json.dump(list(new.values()), open(rp, 'w'), indent=1)
        for v in list(new.values())[:20]:
            print('  [%s] %s  %s' % (v['key'], v['message'][:1500], v['where']))
            if a.v > 2:
                print('\n'.join('       ' + x[:260] for x in v['path'][-25:]))
        print('VIOLATION property=%s replay=%s' % (a.pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    rc = []

    def go():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            traceback.print_exc()
            rc.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc and isinstance(rc[0], int) else 3)
