"""Building scenes and handing their nodes out: the values the constructors and appending operations make are compared with what they are to hold, field by field on all paths; iterating a scene and a single node is shown to give the root first, without a parent, and then every child of every list in order, with its parent and its own ownership flag, each exactly once and before the nodes below it; a node is marked as loaded exactly if its scene came from a file, before it is handed out."""
from world import *
from rule import *
from scn import canon, noid, fl, is_app, adt_of

RULE = 'constructor/append == prescribed value; iterate == root, then for each child in order: child with its parent and flag, then the nodes below it; marked loaded iff from_disk'
SELF = ('sym', 'self')
KIDS = fl(SELF, 'children')


def strip(t):
    t = noid(canon(t))
    while isinstance(t, tuple) and t[:1] in (('seq',), ('obj',)):
        t = t[1]
    return t


def building(ctx):
    W = World(None)
    for name in ('new_dyn', 'new'):
        fn = ctx.inherent('NodeScene', name)
        root = ('sym', fn.locals[1][1] or 'a1')
        for o in ctx.run(fn)[0]:
            if not ctx.ob(o.kind == 'ret', name + ':aborts', 'making a scene can abort', '', o.trace):
                continue
            d = adt_of(W.nz(o.value)) or {}
            th = strip(d.get('this', ()))
            ok = th == root or th[:1] == ('app',) and th[1].endswith('to_dyn_box') and th[2] == (root,)
            ctx.ob(ok, name + ':root', 'the root of a new scene is ' + show(th)[:200], '', o.trace)
            ctx.ob(d.get('children') == ('vec', ()) and d.get('from_disk') == FALSE and d.get('is_owner') == TRUE, name + ':fresh', 'a new scene is ' + show(W.nz(o.value))[:200], '', o.trace)
    for name, flag in (('append', FALSE), ('append_as_owner', TRUE)):
        fn = ctx.inherent('NodeScene', name)
        child = ('sym', fn.locals[2][1] or 'a2')
        for o in ctx.run(fn)[0]:
            ctx.ob(o.kind == 'ret', name + ':aborts', 'appending can abort', '', o.trace)
            ws = [e for e in flat(o.trace) if e.kind == 'write']
            ok = len(ws) == 1 and ws[0].name == 'vec.push' and strip(W.nz(ws[0].args[0])) == KIDS
            if not ctx.ob(ok, name + ':adds', 'appending does not add exactly one scene behind the children: %s' % [e.name for e in ws], '', o.trace):
                continue
            v = W.nz(ws[0].args[1])
            ctx.ob(v == ('upd', child, (('is_owner', flag),)) or same_but(v, child, flag), name + ':child', 'what is appended is ' + show(v)[:200], where(ws[0]), o.trace)
    fn = ctx.inherent('NodeScene', 'children')
    for o in ctx.run(fn)[0]:
        ctx.ob(o.kind == 'ret' and strip(W.nz(o.value)) == KIDS, 'children:list', 'the children of a scene are given as %s' % (show(o.value)[:200] if o.value else 'a panic'), '', o.trace)
    fn = ctx.inherent('NodeScene', 'get_node')
    for o in ctx.run(fn)[0]:
        ctx.ob(o.kind == 'ret' and strip(W.nz(o.value)) == fl(SELF, 'this'), 'get_node:node', 'the node of a scene is given as %s' % (show(o.value)[:200] if o.value else 'a panic'), '', o.trace)


def same_but(v, child, flag):
    """child with another flag, written out"""
    d = adt_of(v)
    return d is not None and all(x == (flag if f == 'is_owner' else fl(child, f)) for f, x in d.items()) and len(d) == 4


def iterating(ctx):
    W = World(None)
    fn = ctx.trait_method('Instanceable', 'iterate', 'NodeScene')
    outs, I = ctx.run(fn)
    it = ('sym', fn.locals[2][1] or 'a2')
    n = 0
    style = None
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'iterate:aborts', 'handing out the nodes of a scene can abort', '', o.trace):
            continue
        n += 1
        F = facts(W, o)
        first = [e for e in o.trace if e.kind == 'call' and e.name == 'usercall']
        ls = [e for e in o.trace if e.kind == 'loop']
        if not ctx.ob(len(first) == 1 and len(ls) <= 1, 'iterate:root', 'the root is not handed out exactly once', '', o.trace):
            continue
        given(ctx, W, first[0], ('None',), SELF, o.trace, 'root')
        marked(ctx, W, o.trace, SELF, first[0], F, 'root')
        if not ls:
            ctx.ob(False, 'iterate:children', 'the children are not handed out', '', o.trace)
            continue
        ctx.ob(o.trace.index(first[0]) < o.trace.index(ls[0]), 'iterate:order', 'children are handed out before the root', '', o.trace)
        style = layer(ctx, W, o.trace, ls[0], KIDS, fl(SELF, 'this'), 'children')
    ctx.floor(n, 1, 'paths of iterate')
    # the nodes below: by the same step
    steps = {e.name for o in outs for e in flat(o.trace) if e.kind == 'rec'}
    for s in sorted(steps):
        fs = [f for f in ctx.P.fns.values() if f.local and (f.path.endswith(s) or s.split('::')[-1] == f.path.split('::')[-1] and 'node_scene' in f.path)]
        if not ctx.ob(len(fs) == 1, 'iterate:step', 'the step %s is not found' % s):
            continue
        f = fs[0]
        sc, par = ('sym', f.locals[1][1] or 'a1'), ('sym', f.locals[2][1] or 'a2')
        for o in ctx.run(f)[0]:
            ls = [e for e in o.trace if e.kind == 'loop']
            out = [e for e in o.trace if e.kind == 'call' and e.name == 'usercall']
            if not ctx.ob(o.kind == 'ret' and len(ls) == 1 and len(out) == (1 if style == 'node' else 0), 'step:walk', 'the nodes below a node are not handed out in one walk', '', o.trace):
                continue
            if style == 'node':
                given(ctx, W, out[0], par, sc, o.trace, 'step')
                marked(ctx, W, o.trace, sc, out[0], facts(W, o), 'step')
                ctx.ob(o.trace.index(out[0]) < o.trace.index(ls[0]), 'step:order', 'children are handed out before their parent', '', o.trace)
                ctx.ob(layer(ctx, W, o.trace, ls[0], fl(sc, 'children'), fl(sc, 'this'), 'step') == 'node', 'step:step', 'the step is another one below the root', '', o.trace)
            else:
                ctx.ob(layer(ctx, W, o.trace, ls[0], fl(sc, 'children'), par, 'step') == 'below', 'step:step', 'the step is another one below the root', '', o.trace)


def layer(ctx, W, tr, l, kids, parent, name):
    w = walk_of(l)
    if not ctx.ob(w is not None and w[1] and completed(tr, w[0]) and strip(W.nz(w[2])) == kids, name + ':walk', 'not all children are handed out, in order', where(l), tr):
        return
    child = ('fld', kids, ('i', ('ix', w[0])))
    if not any(e.kind == 'call' and e.name == 'usercall' for b in l.extra for e in flat(b)):
        # a step that hands out the node it is called for
        import p07
        for b in l.extra:
            rec = [e for e in flat(b) if e.kind == 'rec']
            ok = len(rec) == 1 and len(rec[0].args) > 1 and strip(W.nz(rec[0].args[0])) == child
            a = p07.opt(W.nz(rec[0].args[1])) if ok else None
            ctx.ob(ok and a is not None and (a[0],) + tuple(strip(x) for x in a[1:]) == ('Some', parent), name + ':below', 'a child is not handed out once, with its parent', where(rec[0]) if rec else '', b)
            ctx.ob(not [e for e in flat(b) if e.kind == 'write'], name + ':changes', 'handing out a node changes something else', '', b)
        return 'node'
    for b in l.extra:
        out = [e for e in b if e.kind == 'call' and e.name == 'usercall']
        rec = [e for e in b if e.kind == 'rec']
        if not ctx.ob(len(out) == 1 and not [e for e in b if e.kind == 'loop'], name + ':once', 'a child is not handed out exactly once', '', b):
            continue
        given(ctx, W, out[0], ('Some', parent), child, b, name)
        marked(ctx, W, b, child, out[0], trace_facts(W, b), name)
        ok = len(rec) == 1 and strip(W.nz(rec[0].args[0])) == child and b.index(rec[0]) > b.index(out[0])
        ok = ok and (len(rec[0].args) < 3 or strip(W.nz(rec[0].args[1])) == fl(child, 'this'))
        ctx.ob(ok, name + ':below', 'the nodes below a child are not handed out after it, with it as their parent', where(rec[0]) if rec else '', b)
    return 'below'


def given(ctx, W, e, parent, scene, tr, name):
    a = [strip(W.nz(x)) for x in e.args[1:]]
    if not ctx.ob(len(a) == 3, name + ':given', 'a node is handed out as %s' % [show(x)[:100] for x in a], where(e), tr):
        return
    import p07
    p = p07.opt(a[0])
    p = p and (p[0],) + tuple(strip(x) for x in p[1:])
    ctx.ob(p == parent or a[0] == parent, name + ':parent', 'the parent handed out is ' + show(a[0])[:200], where(e), tr)
    ctx.ob(a[1] == fl(scene, 'this'), name + ':node', 'the node handed out is ' + show(a[1])[:200], where(e), tr)
    ctx.ob(a[2] == fl(scene, 'is_owner'), name + ':owner', 'the ownership handed out is ' + show(a[2])[:200], where(e), tr)


def marked(ctx, W, tr, scene, call, F, name):
    G = {strip(k): v for k, v in F.items()}
    disk = G.get(fl(scene, 'from_disk'))
    ws = [(i, e) for i, e in enumerate(tr) if e.kind == 'write' and strip(W.nz(e.args[0])) in (('base', fl(scene, 'this')), ('obj', ('base', fl(scene, 'this'))))]
    other = [e for e in tr if e.kind == 'write' and e not in [x for _, x in ws]]
    ctx.ob(not other, name + ':changes', 'handing out a node changes something else', where(other[0]) if other else '', tr)
    at = tr.index(call)
    if len(ws) == 1 and ws[0][1].name == 'loaded' and strip(W.nz(ws[0][1].args[1])) == fl(scene, 'from_disk') and ws[0][0] < at:
        return
    if not ctx.ob(disk is not None, name + ':loaded', 'it is not asked whether a node came from a file', '', tr):
        return
    if disk:
        ok = len(ws) == 1 and ws[0][1].name == 'loaded' and ws[0][1].args[1] == TRUE and ws[0][0] < at
        ctx.ob(ok, name + ':loaded', 'a node from a file is not marked as loaded before it is handed out', '', tr)
    else:
        ctx.ob(not ws, name + ':loaded', 'a node that is not from a file is changed', where(ws[0][1]) if ws else '', tr)


def single(ctx):
    """a node alone"""
    W = World(None)
    ms = [f for f in ctx.P.method('Instanceable', 'iterate', '.*') if 'NodeScene' not in f.path]
    ctx.floor(len(ms), 1, 'other things that can be added')
    for fn in ms:
        for o in ctx.run(fn)[0]:
            out = [e for e in flat(o.trace) if e.kind == 'call' and e.name == 'usercall']
            if not ctx.ob(o.kind == 'ret' and len(out) == 1 and len(out[0].args) == 4, 'single:once', 'a single node is not handed out exactly once', '', o.trace):
                continue
            import p07
            a = [W.nz(x) for x in out[0].args[1:]]
            ctx.ob(p07.opt(a[0]) == ('None',), 'single:parent', 'a single node is handed out with a parent', where(out[0]), o.trace)
            ctx.ob(a[2] == FALSE, 'single:owner', 'the ownership of a single node is ' + show(a[2])[:100], where(out[0]), o.trace)
            nd = strip(a[1])
            ctx.ob(nd == ('sym', fn.locals[1][1] or 'a1') or is_app(nd, 'DynNode::to_dyn_box', 1) or nd[:1] == ('app',) and nd[1].endswith('to_dyn_box') and nd[2][0] == SELF, 'single:node', 'the node handed out is ' + show(nd)[:200], where(out[0]), o.trace)


def check(ctx):
    building(ctx)
    iterating(ctx)
    single(ctx)
