"""Termination hooks: in free() and remove_child() every path is shown to run the terminal hook for each node of the branch (the list taken before any hook) exactly once, freshly looked up, with the documented reason, before anything of the branch is detached or unregistered; then every node of that list is unregistered and the link from the parent is gone."""
from world import *
from rule import *
import scan

RULE = 'hook loop over the whole branch list -> detaching writes and unregistering loop over the same list; hook receivers looked up in the epoch they are called in; reason constant matches the operation'
OPQ = {'NodeBase::top_down', 'NodeTreeBase::unregister_node', 'NodeBase::children'}


def events_ix(o):
    """[(top level index, event)] loop bodies included"""
    for i, e in enumerate(o.trace):
        if e.kind == 'loop':
            for b in e.extra:
                for x in flat(b):
                    yield i, x
        else:
            yield i, e


def branch(ctx, I, W, o, name, root, reason):
    """checks the hook / unregister loops of one path that takes the branch under `root` apart"""
    td = [e for e in o.trace if e.kind == 'call' and e.name == 'NodeBase::top_down']
    td = [e for e in td if W.nz(e.args[0]) == ('B', root)]
    if not ctx.ob(len(td) == 1 and td[0].args[1] == TRUE, name + ':branch-list', 'the nodes of the branch (with its root) have to be listed once, before any hook runs', where(td[0]) if td else '', o.trace):
        return
    L = td[0].ret
    il = o.trace.index(td[0])
    hk = [(i, e) for i, e in events_ix(o) if e in hooks([e])]
    ctx.ob(all(i > il for i, _ in hk), name + ':list-before-hooks', 'a hook runs before the branch is listed', where(td[0]), o.trace)
    hl = [e for e in o.trace if e.kind == 'loop' and hooks([e])]
    ctx.ob(len(hl) == 1 and all(any(i == o.trace.index(l) for l in hl) for i, _ in hk), name + ':one-hook-loop', 'the terminal hooks have to be run by one loop over the branch, found %d' % len(hl), where(hk[0][1]) if hk else '', o.trace)
    for l in hl:
        w = walk_of(l)
        if not ctx.ob(w is not None and w[1] and w[2] == L and completed(o.trace, w[0]), name + ':hooks-for-all', 'the terminal hook has to run for every node of the branch, top down', where(hk[0][1]), o.trace):
            continue
        el = element(I, W, w)
        for b in l.extra:
            hs = hooks(b)
            if not hs:
                ctx.ob(has_key(body_bools(W, b), el) is False, name + ':hook-skipped', 'the terminal hook is skipped for a node that is still in the tree', '', b)
                continue
            ctx.ob(len(hs) == 1 and hs[0] in b, name + ':hook-once', 'the terminal hook runs %d times for a node' % len(hs), where(hs[0]), b)
            h = hs[0]
            r = W.nz(h.args[0])
            ctx.ob(h.name == 'Node::terminal' and h.args[1][0] == 'adt' and h.args[1][2] == reason, name + ':reason', 'the reason has to be %s, found %s' % (reason, show(h.args[1]) if len(h.args) > 1 else h.name), where(h), b)
            ctx.ob(r[0] == 'NP' and r[1] == el, name + ':hook-receiver', 'the hook has to run on the listed node, found ' + show(r), where(h), b)
            if r[0] == 'NP':
                ctx.ob(same_epoch(r[2], h.extra[1]), name + ':hook-fresh', 'the node is looked up before other hooks have run, which may have freed it', where(h), b)
    ihook = max([i for i, _ in hk], default=il)
    # ---- taking the branch apart
    un = [(i, e) for i, e in events_ix(o) if e.kind == 'call' and e.name == 'NodeTreeBase::unregister_node']
    dis = [(i, e) for i, e in events_ix(o) if e.kind == 'write' and e.name in ('parent', 'owner', 'tree', 'rid') and W.nz(e.args[0]) != ('B', ('SELF',))]
    for i, e in un + dis:
        ctx.ob(i > ihook, name + ':hooks-first', 'a node of the branch is taken apart before every terminal hook has run', where(e), o.trace)
    ul = [e for e in o.trace if e.kind == 'loop' and calls([e], 'NodeTreeBase::unregister_node')]
    ctx.ob(len(ul) == 1 and all(o.trace[i] in ul for i, _ in un), name + ':one-unregister-loop', 'the nodes of the branch have to be unregistered by one loop, found %d' % len(ul), '', o.trace)
    for l in ul:
        w = walk_of(l)
        if not ctx.ob(w is not None and w[2] == L and completed(o.trace, w[0]), name + ':unregister-all', 'every node of the branch has to be unregistered', where(un[0][1]), o.trace):
            continue
        el = element(I, W, w)
        for b in l.extra:
            us = calls(b, 'NodeTreeBase::unregister_node')
            ctx.ob(len(us) == 1 and us[0] in b and W.nz(us[0].args[0]) == ('TREE',) and W.nz(us[0].args[1]) == el, name + ':unregister-each', 'an iteration has to unregister the node it is for, once', where(us[0]) if us else '', b)
            for e in [x for x in flat(b) if x.kind == 'write' and x.name in ('parent', 'owner', 'tree')]:
                ctx.ob(b.index(e) < b.index(us[0]) if us and e in b else False, name + ':detach-before-drop', 'a node is written to after it was unregistered', where(e), b)
            if reason == 'RemovedAsChild' and us:
                there = has_key(body_bools(W, b), el)
                done = {e.name: W.nz(e.args[1]) for e in b if e.kind == 'write' and W.nz(e.args[0]) in (('B', el), ('NB', el)) or e.kind == 'write' and contains(W.nz(e.args[0]), el)}
                if there is not False:
                    for f in ('parent', 'owner', 'tree'):
                        v = done.get(f)
                        ctx.ob(v is not None and v[0] == 'adt' and v[2] == 'None', name + ':detached-' + f, 'a removed node keeps its link to its %s' % f, where(us[0]), b)


def check(ctx):
    P = ctx.P
    S = ('SELF',)
    W = World('node')
    # ------------------------------------------------ free
    fn = ctx.inherent('NodeBase', 'free')
    outs, I = ctx.run(fn, opaque=OPQ)
    n = 0
    for o in outs:
        F = facts(W, o)
        tr = F.get(('fld', ('NB', S, 0), 'tree'))
        if o.kind == 'panic':
            ctx.ob(tr == {'None'} and not hooks(o.trace), 'free:panic', 'freeing a node that is in a tree can panic', '', o.trace)
            continue
        if not ctx.ob(o.kind == 'ret', 'free:ub', 'freeing a node can reach undefined behaviour', '', o.trace):
            continue
        ctx.ob(tr == {'Some'}, 'free:needs-tree', 'a node outside of a tree is freed', '', o.trace)
        n += 1
        branch(ctx, I, W, o, 'free', S, 'Freed')
        par = F.get(('fld', ('NB', S, 0), 'parent'), frozenset(('None', 'Some')))
        ends = [e for e in flat(o.trace) if e.kind == 'write' and e.name == 'status' and W.nz(e.args[0]) == ('TREE',)]
        if ctx.ob(len(par) == 1, 'free:root-decided', 'whether the freed node is the root is not looked at', '', o.trace):
            if par == {'None'}:
                ctx.ob(len(ends) == 1 and ends[0].args[1][0] == 'adt' and ends[0].args[1][2] == 'Terminated', 'free:root-terminates', 'freeing the root has to terminate the tree', '', o.trace)
            else:
                ctx.ob(not ends, 'free:only-root-terminates', 'freeing a node that is not the root terminates the tree', where(ends[0]) if ends else '', o.trace)
                prid = ('fld', ('fld', ('NB', S, 0), 'parent'), 'Some.0')
                if has_key(F, prid) is not False:
                    unlink(ctx, W, I, o, 'free', prid, S)
    ctx.floor(n, 2, 'paths of free()')
    # ------------------------------------------------ remove_child
    fn = ctx.inherent('NodeBase', 'remove_child')
    outs, I = ctx.run(fn, opaque=OPQ)
    name_sym = ('sym', fn.locals[2][1] or 'a2')
    n = 0
    for o in outs:
        F = facts(W, o)
        tr = F.get(('fld', ('NB', S, 0), 'tree'))
        if o.kind != 'ret':
            broken = any(isinstance(k, tuple) and k[:1] == ('haskey',) and v is False and any(isinstance(x, tuple) and x[:1] == ('CH',) for x in subterms(k)) for k, v in F.items())
            ctx.ob(not hooks(o.trace) and (tr == {'None'} or broken), 'remove:' + o.kind, 'removing a child of a node in a tree can abort', '', o.trace)
            continue
        if o.value == FALSE:
            touched = [e for e in flat(o.trace) if e.kind == 'write' or e in hooks([e]) or e.kind == 'call' and e.name == 'NodeTreeBase::unregister_node']
            ctx.ob(not touched, 'remove:false-changes-nothing', 'remove_child reports failure but changes the tree', where(touched[0]) if touched else '', o.trace)
            ctx.ob(any(e.kind == 'iter' and e.name == 'end' for e in o.trace), 'remove:false-after-all', 'remove_child reports failure without having looked at all children', '', o.trace)
            continue
        if not ctx.ob(o.value == TRUE, 'remove:result', 'the result of remove_child does not tell whether a child was removed: ' + show(o.value), '', o.trace):
            continue
        n += 1
        eqs = [k for k, v in F.items() if v is True and isinstance(k, tuple) and k[:2] == ('bin', 'Eq')]
        hit = None
        for k in eqs:
            for a, b in ((k[2], k[3]), (k[3], k[2])):
                if strip(b) == name_sym:
                    c = name_owner(a)
                    if c is not None and c[0] == 'CH' and c[1] == S:
                        hit = c
        if not ctx.ob(hit is not None, 'remove:by-name', 'a child is removed although its name was not compared with the given one', '', o.trace):
            continue
        branch(ctx, I, W, o, 'remove', hit, 'RemovedAsChild')
        unlink(ctx, W, I, o, 'remove', S, hit)
    ctx.floor(n, 1, 'paths of remove_child() that remove')
    # ------------------------------------------------ nobody else
    import p01
    proc, step = p01.step_fn(ctx)
    entries = {ctx.inherent('NodeBase', 'free').key, fn.key, proc.key}
    sites = scan.call_sites(P, 'Node::terminal')
    ctx.floor(len(sites), 1, 'call sites of the terminal hook')
    for f, sp, _ in sites:
        r = scan.roots_of(P, f.key, stop=entries)
        ctx.ob(not r, 'who-calls-terminal:' + f.path, 'the terminal hook is also called from ' + f.path, sp)


def strip(t):
    """a str value without borrows and copies"""
    while isinstance(t, tuple) and t and (t[0] in ('&', 'ref', 'obj', 'deref') or t[0] == 'app' and t[1].endswith(('to_string', 'as_str', 'deref', 'clone', 'to_owned')) and t[2]):
        t = t[2][0] if t[0] == 'app' else t[1][0][1] if t[0] == 'ref' and t[1] and isinstance(t[1][0], tuple) and t[1][0][0] != 'cell' else t[1]
    return t


def name_owner(t):
    """rid of the node whose name a term reads"""
    for x in subterms(t):
        if isinstance(x, tuple) and x[:1] == ('fld',) and x[2] == 'name' and x[1][:1] == ('NB',):
            return x[1][1]


def W_loc(W, e):
    """what a vec.* write changes: ('CHILDREN-OF', rid) for the child list of a node"""
    a = e.args[0]
    if a[0] == 'ref':
        root, proj = a[1]
        if proj and proj[-1] == 'children':
            t = root[1] if root[0] != 'cell' else None
            for f in proj[:-1]:
                t = ('fld', t, f)
            t = W.nz(t) if t is not None else None
            if t is not None and t[0] == 'B':
                return ('CHILDREN-OF', t[1])
            if t is not None and t[0] in ('NP',):
                return ('CHILDREN-OF', t[1])
            b = W.nz(('base', t)) if t is not None else ('?',)
            if b[0] == 'B':
                return ('CHILDREN-OF', b[1])
            return ('CHILDREN-OF', t)
    return ('?',)


def unlink(ctx, W, I, o, name, prid, rid):
    """exactly the entry `rid` leaves the child list of `prid`"""
    ws = [(i, e) for i, e in events_ix(o) if e.kind == 'write' and e.name.startswith('vec.') and W_loc(W, e)[0] == 'CHILDREN-OF']
    mine = [(i, e) for i, e in ws if W_loc(W, e) == ('CHILDREN-OF', prid)]
    ctx.ob(len(mine) == len(ws), name + ':other-lists', 'the child list of another node is changed', where(ws[0][1]) if ws else '', o.trace)
    kinds = {e.name for _, e in mine}
    if kinds == {'vec.remove'} and len(mine) == 1:
        e = mine[0][1]
        ix = W.nz(e.args[1])
        ctx.ob(('CH', prid, ix) == rid or position_of(W, o, prid, ix, rid), name + ':unlinked', 'another entry than the removed node leaves the child list: index ' + show(ix), where(e), o.trace)
    elif kinds and kinds <= {'vec.retain', 'vec.retain.keep', 'vec.retain.drop'}:
        rl = [e for e in o.trace if e.kind == 'loop' and any(x in [m for _, m in mine] for b in e.extra for x in flat(b))]
        for l in rl:
            for b in l.extra:
                for e in flat(b):
                    if e.kind == 'write' and e.name in ('vec.retain.keep', 'vec.retain.drop'):
                        item = W.nz(e.args[1])
                        eq = [v for k, v in body_bools(W, b).items() if k[:2] == ('bin', 'Eq') and {k[2], k[3]} == {item, ('fld', ('NB', rid, 0), 'rid') if False else rid}]
                        ctx.ob(eq == [e.name == 'vec.retain.drop'], name + ':unlinked', 'an entry is kept in or dropped from the child list for another reason than being the removed node', where(e), b)
        ctx.ob(len(rl) == 1 and len([1 for _, e in mine if e.name == 'vec.retain']) == 1, name + ':unlinked-once', 'the child list of the parent is not updated exactly once', '', o.trace)
    elif not kinds and searched(W, o, prid, rid):
        ctx.ob(True, name + ':unlinked', '')
    else:
        ctx.ob(False, name + ':unlinked', 'the node stays in (or is removed in an unknown way from) the child list of its parent: %s' % sorted(kinds), where(mine[0][1]) if mine else '', o.trace)


def position_of(W, o, prid, ix, rid):
    F = facts(W, o)
    return any(v is True and k[:2] == ('bin', 'Eq') and {k[2], k[3]} == {('CH', prid, ix), rid} for k, v in F.items() if isinstance(k, tuple))


def searched(W, o, prid, rid):
    """a loop went over the whole child list of prid without finding rid"""
    for l in loops(o.trace):
        w = walk_of(l)
        if w and w[1] and completed(o.trace, w[0]) and W.nz(w[2])[:2] == ('CHILDREN', prid):
            if all([v for k, v in body_bools(W, b).items() if k[:2] == ('bin', 'Eq') and {k[2], k[3]} == {('CH', prid, ('ix', w[0])), rid}] == [False] for b in l.extra):
                return True
    return False
