"""Ready and loaded hooks: on every path of add_child(), add_child_from_ptr() and of the construction of a tree the nodes are attached by one in-order walk that runs no hook, and then one walk over all of the attached nodes backwards runs loaded() (only for a node marked as loaded, whose mark is cleared) and ready(), each on the node looked up after the previous hook. The call sites of both hooks in the whole crate are confined to these operations."""
from world import *
from rule import *
import scan

RULE = 'attach walk free of hooks -> reverse walk over exactly the attached nodes; per node: loaded (iff marked) -> mark cleared -> ready; receivers looked up in the epoch they are called in; hook call sites confined'
ADD = 'NodeBase::add_child_from_ptr'


def ready_steps(ctx, W, b, el, name, ptr=None):
    """obligations on the events that make node `el` ready; ptr: the node pointer itself, valid until the first hook"""
    hs = hooks(b)
    F = {}
    for e in b:
        if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2:
            F[W.nz(e.args[0])] = e.args[1]
    ctx.ob(all(h in b for h in hs), name + ':hook-once', 'a hook of an added node is run repeatedly', where(hs[0]) if hs else '', b)
    kinds = [h.name for h in hs]
    if not ctx.ob(kinds in ([], ['Node::ready'], ['Node::loaded'], ['Node::loaded', 'Node::ready']), name + ':hook-sequence', 'an added node has these hooks run: %s' % [k.split('::')[1] for k in kinds], where(hs[0]) if hs else '', b):
        return
    for h in hs:
        r = W.nz(h.args[0])
        ep = h.extra[1] if h.extra else None
        ok = r[0] == 'NP' and r[1] == el or ptr is not None and r == ptr
        if ctx.ob(ok, name + ':hook-receiver', 'the hook runs on another node than the added one: ' + show(r), where(h), b):
            if r[0] == 'NP':
                ctx.ob(same_epoch(r[2], ep), name + ':hook-fresh', '%s() runs on a node looked up before another hook ran, which may have freed it' % h.name[6:], where(h), b)
            else:
                ctx.ob(h is hs[0], name + ':hook-fresh', '%s() runs on a pointer taken before another hook ran, which may have freed the node' % h.name[6:], where(h), b)
    marked = [v for k, v in F.items() if isinstance(k, tuple) and k[:1] == ('fld',) and k[2] == 'loaded' and (k[1][:2] == ('NB', el) or ptr is not None and k[1] == ('obj', ('base', ptr), k[1][2] if len(k[1]) > 2 else 0))]
    gone = [v for k, v in F.items() if isinstance(k, tuple) and k[:1] == ('haskey',) and k[2] == el]
    clears = [e for e in b if e.kind == 'write' and e.name == 'loaded' and W.nz(e.args[0]) in (('B', el), ('base', ptr))]
    if 'Node::loaded' in kinds:
        ctx.ob(marked[:1] == [True], name + ':loaded-only-if-marked', 'loaded() runs for a node that was not loaded', where(hs[0]), b)
    if 'Node::ready' in kinds and 'Node::loaded' not in kinds:
        ctx.ob(marked[:1] == [False], name + ':loaded-if-marked', 'loaded() is not run before ready() for a node that was loaded', where(hs[0]), b)
    if kinds == ['Node::loaded', 'Node::ready']:
        i = b.index(hs[1])
        ctx.ob(any(b.index(e) < i and e.args[1] == FALSE for e in clears), name + ':mark-cleared', 'a node is still marked as loaded when ready() runs, so loaded() would run again', where(hs[1]), b)
    if 'Node::ready' not in kinds:
        ctx.ob(gone[-1:] == [False], name + ':ready-skipped', 'ready() is not run for an added node that is in the tree', where(hs[0]) if hs else '', b)
    for e in [e for e in flat(b) if e.kind == 'write' and e.name == 'loaded']:
        ctx.ob(e in clears and e.args[1] == FALSE and 'Node::loaded' in kinds, name + ':mark', 'the loaded mark is changed for another reason than having run loaded()', where(e), b)


def reverse_of(l, seq):
    """is loop l one walk over `seq` from its end to its start?"""
    w = walk_of(l)
    if not w:
        return None
    its = [e for e in l.extra[0] if e.kind == 'iter' and e.name == 'item' and e.extra and e.extra[0] == w[0]]
    src = its[0].args[0]
    rev = 0
    while isinstance(src, tuple) and src[0] in ('rev', 'revd', 'seq', 'copied_', 'map_'):
        rev ^= src[0] in ('rev', 'revd')
        src = src[1]
    return (rev == 1, src)


def ready_walk(ctx, I, W, o, name, first, pushes_of):
    """the loop that runs the hooks, after the attaching loop `first`"""
    hl = [l for l in loops(o.trace) if hooks([l])]
    top = [h for h in hooks(o.trace) if h in o.trace]
    ctx.ob(not top, name + ':hook-outside', 'a hook runs outside of the walk over the added nodes', where(top[0]) if top else '', o.trace)
    if not ctx.ob(len(hl) == 1, name + ':one-ready-walk', '%d loops run hooks of added nodes, expected one' % len(hl), '', o.trace):
        return
    l = hl[0]
    ctx.ob(o.trace.index(l) > o.trace.index(first), name + ':ready-after-attach', 'hooks run before the whole scene is attached', '', o.trace)
    r = reverse_of(l, None)
    if not ctx.ob(r is not None and r[0], name + ':children-first', 'the hooks of added nodes have to run in the reverse of the order they were attached in', '', o.trace):
        return
    src = W.nz(r[1])
    ctx.ob(any(e.kind == 'iter' and e.name == 'end' and W.nz(e.args[0]) and contains(W.nz(e.args[0]), src) and o.trace.index(e) > o.trace.index(l) for e in o.trace), name + ':ready-all', 'the walk over the added nodes can stop early', '', o.trace)
    # src must be the list of all attached nodes
    ok = src[0] == 'seqmap' and src[4] is True and walk_base(first) is not None and src[3] == walk_base(first)
    if ctx.ob(ok, name + ':added-list', 'the nodes made ready are not the ones that were attached: ' + show(src)[:200], '', o.trace):
        elems = src[2][1] if src[2][0] == 'alts' else (src[2],)
        # elem terms carry the bound index of the seqmap; compare with the pushes of each body
        tb, tw = src[1], ('ix', walk_of(first)[0])
        want = {subst(x, tw, tb) for b in first.extra for x in pushes_of(b)}
        ctx.ob(set(elems) == want, name + ':added-elements', 'the nodes made ready are not the ones that were attached', '', o.trace)
    el = None
    for b in l.extra:
        its = [e for e in b if e.kind == 'iter' and e.name == 'item' and e.extra and e.extra[0] == walk_of(l)[0]]
        el = W.nz(its[0].args[1]) if its else None
        if el is not None and el[:1] == ('ref',):       # walked by reference
            el = element(I, W, (walk_of(l)[0], True, r[1]))
        ready_steps(ctx, W, b, el, name)


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def walk_base(l):
    w = walk_of(l)
    return w[2] if w and w[1] else None


def check(ctx):
    P = ctx.P
    S = ('SELF',)
    # ------------------------------------------------ add_child
    W = World('node')
    fn = ctx.inherent('NodeBase', 'add_child')
    outs, I = ctx.run(fn, opaque={ADD, 'NodeBase::children'})
    n = 0
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'add_child:aborts', 'adding a scene can panic outside of attaching a node', '', o.trace):
            continue
        att = [l for l in loops(o.trace) if calls([l], ADD)]
        loose = [e for e in calls(o.trace, ADD) if e in o.trace]
        if not ctx.ob(len(att) == 1 and not loose, 'add_child:one-attach-walk', 'the nodes of a scene have to be attached by one walk over it', '', o.trace):
            continue
        l = att[0]
        w = walk_of(l)
        ctx.ob(w is not None and w[1] and is_items(w[2], fn) and completed(o.trace, w[0]), 'add_child:attach-all', 'not all nodes of the scene are attached in order', '', o.trace)
        for b in l.extra:
            cs = calls(b, ADD)
            hs = hooks(b)
            ctx.ob(not hs, 'add_child:hook-while-attaching', 'a hook runs while the scene is only partly attached', where(hs[0]) if hs else '', b)
            if ctx.ob(len(cs) == 1 and cs[0] in b, 'add_child:attach-once', 'a node of the scene is attached %d times' % len(cs), where(cs[0]) if cs else '', b):
                c = cs[0]
                ctx.ob(c.args[3] == TRUE, 'add_child:ready-deferred', 'ready() of a node of the scene runs while the scene is only partly attached', where(c), b)
        tr = [v for k, v in facts(W, o).items() if field_of(k, 'tree') and k[1][:2] == ('NB', S)]
        if not hooks(o.trace) and tr and tr[-1] == {'None'}:
            continue
        n += 1
        ready_walk(ctx, I, W, o, 'add_child', l, lambda b: [W.nz(c.ret) for c in calls(b, ADD)])
    ctx.floor(n, 1, 'paths of add_child that make the scene ready')
    # ------------------------------------------------ add_child_from_ptr
    fn = ctx.inherent('NodeBase', 'add_child_from_ptr')
    outs, I = ctx.run(fn, opaque={'NodeBase::children', 'functions::ensure_unique_name'})
    ptr = ('sym', fn.locals[2][1] or 'a2')
    ign = ('sym', fn.locals[4][1] or 'a4')
    n = 0
    for o in outs:
        if o.kind != 'ret':
            ctx.ob(not hooks(o.trace), 'from_ptr:aborts-early', 'a hook runs on a path that aborts', '', o.trace)
            continue
        el = W.nz(o.value)
        F = facts(W, o)
        if ctx.ob(isinstance(F.get(ign), bool), 'from_ptr:asks', 'whether ready() is to be ignored is not looked at', '', o.trace):
            if F[ign]:
                ctx.ob(not hooks(o.trace), 'from_ptr:ignored', 'a hook runs although ready() is to be ignored', '', o.trace)
                continue
            n += 1
            ready_steps(ctx, W, o.trace, el, 'from_ptr', ptr)
            hs = hooks(o.trace)
            late = [e for e in o.trace if e.kind == 'write' and e.name != 'loaded' and hs and o.trace.index(e) > o.trace.index(hs[0])]
            ctx.ob(not late, 'from_ptr:ready-last', 'a hook of the added node runs before it is fully attached', where(late[0]) if late else '', o.trace)
    ctx.floor(n, 3, 'paths of add_child_from_ptr that make the node ready')
    # ------------------------------------------------ construction of a tree
    W = World('tree')
    fn = ctx.inherent('NodeTreeBase', 'initialize')
    outs, I = ctx.run(fn, opaque={ADD, 'NodeBase::children'})
    n = 0
    for o in outs:
        if o.kind != 'ret':
            ctx.ob(not hooks(o.trace), 'initialize:aborts', 'constructing a tree can panic after hooks have run', '', o.trace)
            continue
        att = [l for l in loops(o.trace) if calls([l], ADD)]
        if not ctx.ob(len(att) == 1, 'initialize:one-attach-walk', 'the nodes of a scene have to be attached by one walk over it', '', o.trace):
            continue
        l = att[0]
        w = walk_of(l)
        ctx.ob(w is not None and w[1] and is_items(w[2], fn) and completed(o.trace, w[0]), 'initialize:attach-all', 'not all nodes of the scene are attached in order', '', o.trace)
        for b in l.extra:
            hs = hooks(b)
            ctx.ob(not hs, 'initialize:hook-while-attaching', 'a hook runs while the scene is only partly attached', where(hs[0]) if hs else '', b)
            for c in calls(b, ADD):
                ctx.ob(c.args[3] == TRUE, 'initialize:ready-deferred', 'ready() of a node of the scene runs while the scene is only partly attached', where(c), b)
        n += 1
        ready_walk(ctx, I, W, o, 'initialize', l, lambda b: [W.nz(c.ret) for c in calls(b, ADD)] or [W.nz(e.args[1]) for e in b if e.kind == 'write' and e.name == 'rid'])
    ctx.floor(n, 1, 'paths that construct a tree')
    # ------------------------------------------------ nobody else
    entries = {ctx.inherent('NodeBase', 'add_child').key, ctx.inherent('NodeBase', 'add_child_from_ptr').key, fn.key}
    for hook in ('Node::ready', 'Node::loaded'):
        sites = scan.call_sites(P, hook)
        ctx.floor(len(sites), 1, 'call sites of ' + hook)
        for f, sp, _ in sites:
            r = scan.roots_of(P, f.key, stop=entries)
            ctx.ob(not r, 'who-calls:%s:%s' % (hook, f.path), '%s() is also called from %s' % (hook[6:], f.path), sp)


def is_items(t, fn):
    return isinstance(t, tuple) and t and (t[0] == 'items' or t[0] == 'app' and t[1] == 'items' or 'items' in repr(t)[:20])
