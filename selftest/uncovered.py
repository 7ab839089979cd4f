#!/usr/bin/env python3
"""functions of node_tree that no check's analysis ever enters (an aid for finding behaviour without a property)"""
import importlib, os, sys, threading, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'sa'), os.path.join(HERE, 'rules')]
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)


def main():
    import build, rule
    P = rule.Program([build.dump_repo(), build.dump_witness()])
    seen = {}
    for f in sorted(set(os.listdir(os.path.join(HERE, 'rules'))) - {'p33.py', 'p09.py', 'p35.py', 'p37.py', 'p38.py'}):  # lints over everything
        if not re.fullmatch(r'p\d\d\.py', f):
            continue
        pid = f[:-3].upper()
        ctx = rule.Ctx(pid, 'quick', P, P)
        try:
            importlib.import_module(f[:-3]).check(ctx)
        except Exception as e:
            print(pid, 'ERR', str(e)[:100])
        for x in ctx.fns:
            seen.setdefault(x, set()).add(pid)
    for f in P.fns.values():
        if f.crate == 'node_tree' and f.local and f.path not in seen and '{closure' not in f.path and f.argc is not None:
            print(f.path)


t = threading.Thread(target=main)
t.start()
t.join()
