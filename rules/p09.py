"""Nothing freed by a hook is used again: every operation of the library that runs a hook of a node or a connected callback, directly or through what it calls, is analysed on all paths with an epoch that changes whenever user code may have run; every load, store, method receiver and reference handed on is recorded with the epoch it happens in, and the epoch in which the pointer was obtained from the tree's table has to be the same one (the node the operation was called on counts as obtained at its start)."""
from world import *
from rule import *
import scan

RULE = 'each access through a pointer to a node or signal: epoch of the access = epoch in which the pointer was looked up (or the owner is kept alive by a clone of its Arc)'
ASSUMES = ['process_mode() is a query of the node and frees nothing', 'the caller of a hook keeps nothing but the tree alive: a hook or callback may free every node, the running one included', 'destructors of node types do not free other nodes']

# what may run hooks or callbacks: found from the call graph, these are the least that have to be among them
EXPECTED = ('NodeBase::add_child', 'NodeBase::add_child_from_ptr', 'NodeBase::remove_child', 'NodeBase::free', 'NodeTreeBase::process', 'NodeTreeBase::initialize', 'NodeTreeBase::make_ready', 'Signal::emit')


def strip(p):
    """the pointer an address was computed from"""
    while isinstance(p, tuple) and p and p[0] in ('base', '&', 'deref'):
        p = p[1]
    return p


def epochs(I, t):
    """the epochs in which what a term was read from was current"""
    r = {same(I, t)}
    n = t[1] if isinstance(t, tuple) and t and t[0] in ('phi', 'pe', 'after') and len(t) > 1 else None
    for e in I.tag_epoch.get(n, ()):
        r.add(same(I, e))
    return r


def same(I, e):
    if isinstance(e, tuple) and e[:1] == ('phi',):
        e = ('pe', e[1])
    return I.lifeof(e)


def owner(I, W, p, me, trees=()):
    """(kind, epochs in which the pointer is good, or None for ever)"""
    q = strip(p)
    if q == me and q not in trees:
        return 'self', {0}
    n = W.nz(q)
    if q[0] in ('pv', 'mapkey', 'mapslot', 'cell') or n in (('TREE',), ('TREEPTR',)) or q in trees:
        return 'tree', None
    if n[0] == 'NP':
        return 'node', epochs(I, n[2])
    if q[0] == 'guarded':
        return owner(I, W, q[1], me, trees)
    if q[0] == 'ref':
        root = q[1][0]
        return ('local', None) if root[0] == 'cell' else owner(I, W, root[1], me, trees)
    if q[0] == 'sym':
        return 'argument', {0}
    if q[0] == 'fld':
        if any(v == q for v, ep in I.kept if ep == 0):
            return 'kept', None
        # a pointer stored in an object lives as long as the object
        x = q
        while x[0] in ('fld', 'mapval'):
            x = x[1]
        if x[0] == 'obj':
            k, e = owner(I, W, x[1], me, trees)
            return ('in ' + k, e)
        if x[0] in ('items', 'sym'):
            return 'argument', {0}
        if x[0] == 'TREE' or W.nz(x)[0] in ('T', 'TN', 'NODES'):
            return 'tree', None
    if q[0] == 'mapval':
        return owner(I, W, q[1], me, trees)
    # anything else: as good as what it was made from
    if q[0] == 'app' and len(q) > 3 and q[3] in I.tag_epoch:
        return 'result', {same(I, e) for e in I.tag_epoch[q[3]]}
    src = [x for x in subterms(n) if isinstance(x, tuple) and x[:1] == ('NP',)]
    if src:
        return 'node', set.intersection(*[epochs(I, x[2]) for x in src])
    return 'unknown', {0}


def check(ctx):
    P = ctx.P
    hooky = {}
    names = ('Node::terminal', 'Node::ready', 'Node::loaded', 'Node::process')
    sites = []
    for n in names:
        s = scan.call_sites(P, n)
        ctx.floor(len(s), 1, 'call sites of ' + n)
        sites += s
    start = {f.key for f, _, _ in sites}
    emit = ctx.inherent('Signal', 'emit')
    start.add(emit.key)
    up = scan.graph(P)
    todo, seen = list(start), set(start)
    while todo:
        k = todo.pop()
        for c in up.get(k, ()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    fns = []
    for k in sorted(seen):
        f = P.fns[k]
        if f.crate != 'node_tree' or '{closure' in k:
            continue
        fns.append(f)
    got = {label(P, f) for f in fns}
    for e in EXPECTED:
        ctx.ob(e in got, 'runs-hooks:' + e, e + ' is not seen to run hooks (an anchor of the rule disappeared)')
    n = 0
    deferred = set()
    for _ in range(4):
        before = set(deferred)
        n, res = 0, []
        for f in fns:
            res.append(one(ctx, P, f, got, deferred, up))
        if deferred == before:
            break
    for f, (nm, bad, k, W, me, trees, I) in zip(fns, res):
        n += k
        if nm in deferred:
            ctx.sample('%s: a private helper, followed where it is called' % nm)
            continue
        ctx.ob(not bad, nm + ':used-after-hook', '%s uses a %s after a hook that may have freed it' % (nm, next(iter(bad))[0] if bad else ''),
               '%s (%s)' % (next(iter(bad.values()))[2], next(iter(bad))[1]) if bad else '', [(W.nz(strip(v[0])), 'used in', v[1], 'good in', owner(I, W, v[0], me, trees)[1]) for v in bad.values()])
        ctx.sample('%s: %d accesses through pointers' % (nm, k))
    ctx.floor(n, 300, 'accesses through pointers')


def one(ctx, P, f, got, deferred, up):
    nm = label(P, f)
    me = ('sym', f.locals[1][1] or 'a1') if f.argc and not nm.startswith('NodeTreeBase::') else None
    # the tree is kept by the caller
    trees = {('sym', f.locals[i][1] or 'a%d' % i) for i in range(1, f.argc + 1) if P.ty(f.crate, f.locals[i][0])['s'].lstrip('&').replace('mut ', '').replace('*', '').split('::')[-1] in ('NodeTreeBase', 'NodeTree')}
    W = World('tree' if nm.startswith('NodeTreeBase::') else 'node' if nm.startswith('NodeBase::') else None)
    # the operations it calls are shown on their own, so they count as one step in which anything may be freed; only
    # where that is not enough (a call that runs hooks on request, and is not asked to) are they followed
    for opaque in (got - {nm} - deferred, ()):
        outs, I = ctx.run(f, opaque=opaque, reads=True)
        bad = {}
        for p, ep, fn, sp in sorted(I.reads, key=repr):
            kind, good = owner(I, W, p, me, trees)
            if good is not None and same(I, ep) not in good:
                bad.setdefault((kind, fn), (p, ep, sp))
        if not bad:
            break
    # a private helper that uses what it was given is judged where it is called, with what is given there
    if bad and all(k in ('argument', 'in argument') for k, _ in bad) and not f.j.get('pub') and any(c != f.key for c in up.get(f.key, ())):
        deferred.add(nm)
    return nm, bad, len(I.reads), W, me, trees, I


def label(P, f):
    if 'self_ty' in f.j:
        return strip_generics(P.ty(f.crate, f.j['self_ty'])['s'].lstrip('&')).split('::')[-1] + '::' + f.j.get('nm', '?')
    return f.path.split('::')[-1]
