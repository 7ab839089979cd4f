"""Locks: every function of the library that takes a lock of a signal or a node, and (if it hands the lock on) every function that gets it from there, is analysed on all paths, keeping track of the locks held at each event: no callback, hook, method or destructor of user code, no other operation of the library that takes such a lock, and no second acquisition of a held lock may occur in between, each lock is released at the end, and no failure can leave one poisoned."""
from world import *
from rule import *
import scan

RULE = 'at every call of user code, lock acquisition, and exit: no lock of a Signal or NodeBase is held'
LOCKS = ('Mutex::lock', 'Mutex::try_lock', 'RwLock::read', 'RwLock::write', 'RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::try_borrow', 'RefCell::try_borrow_mut')
SCOPE = ('structs::signals::', 'structs::node_base::', 'structs::node_tree_base::')


def takers(P):
    """functions that contain a lock call or call a function that returns a guard"""
    r = set()
    for n in LOCKS:
        for f, sp, cj in scan.call_sites(P, n):
            if f.path.startswith(SCOPE) or any(('<' + s) in f.path for s in SCOPE):
                r.add(f.key)
    todo = list(r)
    up = scan.graph(P)
    while todo:
        k = todo.pop()
        f = P.fns[k]
        ret = P.ty(f.crate, f.locals[0][0])['s']
        if 'Guard<' in ret or 'cell::Ref' in ret or '{closure' in k:
            for c in up.get(k, ()):
                if c not in r:
                    r.add(c)
                    todo.append(c)
    return r


def holds(trace, held, found, where_from=()):
    """walk a trace, keeping the list of locks held; events that must not happen while one is go to found"""
    for e in trace:
        if e.kind == 'lock':
            if e.args[0] in held:
                found.append(('second', e, list(where_from)))
            held = held + [e.args[0]]
        elif e.kind == 'unlock':
            if e.args[0] in held:
                i = len(held) - 1 - held[::-1].index(e.args[0])
                held = held[:i] + held[i + 1:]
        elif e.kind == 'loop':
            ends = []
            for b in e.extra:
                ends.append(holds(b, held, found, e.extra))
            for x in ends:
                if sorted(map(repr, x)) != sorted(map(repr, held)):
                    found.append(('unbalanced', e, list(where_from)))
        elif held:
            if e.kind == 'call' and (e.name == 'usercall' or e.name.split('::')[0] in ('Node', 'Element') or e.extra and e.extra[0] == 'virtual'):
                found.append(('user', e, list(where_from)))
            elif e.kind == 'call' and e.name in OPAQUE:
                found.append(('library', e, list(where_from)))
            elif e.kind == 'drop' and 'Guard<' not in e.name.split('<')[0] + '<' and ('dyn ' in e.name or len(e.name) <= 2) and not harmless(e.args[0] if e.args else None):
                found.append(('drop', e, list(where_from)))
    return held


def harmless(v):
    """a closure of the library that owns nothing but borrows and plain numbers: dropping it runs no user code"""
    return isinstance(v, tuple) and v[:1] == ('clo',) and all(isinstance(x, tuple) and x[:1] in (('ref',), ('int',), ('bool',), ('&',)) for x in v[2])


def check(ctx):
    P = ctx.P
    tk = takers(P)
    ctx.floor(len(tk), 4, 'functions that take locks')
    for k in sorted(tk):
        f = P.fns[k]
        if '{closure' in k:
            continue
        n = f.path.split('::<')[0].split('::')[-1] if '<' not in f.path.split('::')[-1] else f.path
        n = f.path.split('::')[-1]
        ret = P.ty(f.crate, f.locals[0][0])['s']
        outs, I = ctx.run(f)
        nlocks = 0
        for o in outs:
            found = []
            left = holds(o.trace, [], found)
            nlocks += sum(1 for e in flat(o.trace) if e.kind == 'lock')
            text = {'second': 'takes a lock it already holds', 'user': 'runs user code while it holds a lock', 'library': 'calls back into the library while it holds a lock',
                    'drop': 'drops a value of a user type while it holds a lock', 'unbalanced': 'takes or releases a lock in a loop without the opposite'}
            for kind in text:
                bad = [x for x in found if x[0] == kind]
                ctx.ob(not bad, '%s:%s' % (n, kind), '%s %s: %s' % (n, text[kind], bad[0][1].name if bad else ''), where(bad[0][1]) if bad else '', o.trace)
            if o.kind == 'ret' and 'Guard<' not in ret and 'cell::Ref' not in ret:
                ctx.ob(not left, n + ':released', '%s ends while it holds a lock' % n, '', o.trace)
            if o.kind == 'panic':
                ctx.ob(not left, n + ':poisons', '%s can fail while it holds a lock' % n, '', o.trace)
        ctx.sample('%s: %d lock acquisitions' % (f.path, nlocks))
