"""Copies of scenes and of branches of a tree: on all paths, the copy of a scene is shown to hold a new node of the same type with the same name and number, the copies of all children in order and the same flags; saving a branch is shown to give, for the node and, by the same step, for everything below it in the order of the child lists, a scene with a new copy of the node, owners being those that own themselves; copies of a base hold nothing but its name, and no original is changed."""
from world import *
from rule import *
from scn import canon, noid, fl, is_app, adt_of, strip_payload

RULE = 'copy == (clone_as_instance of the node, name, number, copies of all children in order, flags); branch == the same by induction over child lists; NodeBase::clone == a fresh base with the name'
SELF = ('sym', 'self')


def strip(t):
    t = noid(canon(t))
    while isinstance(t, tuple) and t[:1] in (('seq',), ('obj',)):
        t = t[1]
    return t


def copied(x):
    return ('app', 'rec:NodeScene::clone', (x,), None)


def scenes(ctx):
    W = World(None)
    fn = ctx.trait_method('Clone', 'clone', 'NodeScene')
    outs, I = ctx.run(fn, opaque={'NodeBase::set_name'})
    this = fl(SELF, 'this')
    new = ('app', 'NodeAbstract::clone_as_instance', (this,), None)
    kids = fl(SELF, 'children')
    n = 0
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'clone:aborts', 'copying a scene can abort', '', o.trace):
            continue
        n += 1
        d = adt_of(W.nz(o.value)) or {}
        mk = calls(o.trace, 'NodeAbstract::clone_as_instance')
        ctx.ob(len(mk) == 1 and strip(W.nz(mk[0].args[0])) == this and strip(W.nz(d.get('this', ()))) == new, 'clone:node', 'the node of a copy is %s' % show(d.get('this', ()))[:200], '', o.trace)
        for f in ('from_disk', 'is_owner'):
            ctx.ob(strip(W.nz(d.get(f, ()))) == fl(SELF, f), 'clone:' + f, 'the %s of a copy is %s' % (f, show(d.get(f, ()))[:200]), '', o.trace)
        c = W.nz(d.get('children', ()))
        ok = strip(c) == kids
        if not ok:
            fs = fates(I, W, o.trace, c)
            ok = fs is not None and strip(fs[0]) == kids and bool(fs[1]) and all(len(vs) == 1 and strip(vs[0]) in (E_, copied(E_)) for F, vs in fs[1])
            if not ok and c[:1] == ('seqmap',):
                m = members(I, W, o.trace, c)
                ok = m is not None and completed(o.trace, m[0][0]) and strip(W.nz(m[1])) == kids and all(len(vs) == 1 and strip(vs[0]) in [g(strip(W.nz(('fld', m[1], ('i', ('ix', m[0][0])))))) for g in (strip, copied)] for b, vs in m[2])
        ctx.ob(ok, 'clone:children', 'the children of a copy are %s' % show(c)[:200], '', o.trace)
        own = {}
        for e in flat(o.trace):
            if e.kind == 'write' and not e.name.startswith(('vec.', 'map.')):
                t = strip(W.nz(e.args[0]))
                if ctx.ob(t == ('base', new), 'clone:original', 'copying changes something else than the copy: %s of %s' % (e.name, show(t)[:100]), where(e), o.trace):
                    own[e.name] = strip(W.nz(e.args[1]))
            elif e.kind == 'call' and e.name == 'NodeBase::set_name':
                t = strip(W.nz(e.args[0]))
                if ctx.ob(t == ('base', new), 'clone:original', 'copying renames something else than the copy', where(e), o.trace):
                    own['name'] = strip(W.nz(e.args[1]))
        b = ('base', this)
        want = {f: strip(fl(('obj', b, 0), f)) for f in ('rid', 'name')}
        for f in want:
            ctx.ob(f in own and own[f] == want[f], 'clone:' + f, 'the %s of a copy is %s' % (f, show(own.get(f, ('not set',)))[:200]), '', o.trace)
        ctx.ob(set(own) <= set(want), 'clone:more', 'copying sets %s' % sorted(own), '', o.trace)
    ctx.floor(n, 1, 'paths of NodeScene::clone')


def bases(ctx):
    W = World(None)
    fn = ctx.trait_method('Clone', 'clone', 'NodeBase')
    for o in ctx.run(fn)[0]:
        if not ctx.ob(o.kind == 'ret', 'base:aborts', 'copying a base can abort', '', o.trace):
            continue
        v = W.nz(o.value)
        d = dict(v[3]) if v[:1] == ('adt',) else {}
        ctx.ob(strip(d.get('name', ())) == fl(SELF, 'name'), 'base:name', 'the name of a copy is ' + show(d.get('name', ()))[:200], '', o.trace)
        none = lambda t: isinstance(t, tuple) and t[:1] == ('adt',) and t[2] == 'None'
        for f in ('tree', 'parent', 'owner'):
            ctx.ob(none(d.get(f)), 'base:' + f, 'a copy has a %s: %s' % (f, show(d.get(f, ()))[:200]), '', o.trace)
        ctx.ob(d.get('children') == ('vec', ()), 'base:children', 'a copy has children: ' + show(d.get('children', ()))[:200], '', o.trace)
        ctx.ob(d.get('loaded') == FALSE, 'base:loaded', 'a copy counts as loaded', '', o.trace)
        ctx.ob(d.get('rid') == ('int', 0) or strip(d.get('rid', ())) != fl(SELF, 'rid'), 'base:rid', 'a copy has the number of the original', '', o.trace)


def branches(ctx):
    W = World('node')
    fn = ctx.inherent('NodeBase', 'save_as_branch')
    S = ('SELF',)
    todo, seen = [(fn, True)], set()
    while todo:
        f, top = todo.pop()
        if f.path in seen:
            continue
        seen.add(f.path)
        outs, I = ctx.run(f)
        n = 0
        for o in outs:
            F = facts(W, o)
            tree = F.get(('fld', ('NB', S, 0), 'tree'))
            if tree == frozenset({'None'}):
                ctx.ob(o.kind in ('panic', 'ub' if not top else 'panic'), 'branch:stray', 'saving a node outside of a tree does not panic', '', o.trace)
                continue
            if o.kind == 'ub':
                broken = [k for k, v in F.items() if k[:1] == ('haskey',) and v is False]
                ctx.ob(bool(broken) or not top, 'branch:undefined', 'saving a branch is undefined although its links are in order', '', o.trace)
                continue
            if not ctx.ob(o.kind == 'ret', 'branch:panics', 'saving a branch of a tree panics', '', o.trace):
                continue
            n += 1
            for e in flat(o.trace):
                if e.kind == 'write' and not e.name.startswith('vec.push'):
                    ctx.ob(False, 'branch:changes', 'saving a branch changes something: ' + e.name, where(e), o.trace)
            v = W.nz(o.value)
            d = adt_of(v) or {}
            th = noid(d.get('this', ()))
            ok = th[:2] == ('app', 'NodeAbstract::clone_as_instance') and th[2][0][:2] == ('NP', S)
            ctx.ob(ok, 'branch:node', 'the node of the scene is ' + show(th)[:200], '', o.trace)
            ctx.ob(d.get('is_owner') == TRUE and d.get('from_disk') == FALSE, 'branch:flags', 'the scene of a branch has the flags %s, %s' % (show(d.get('is_owner', ())), show(d.get('from_disk', ()))), '', o.trace)
            kids = d.get('children', ())
            fs = fates(I, W, o.trace, kids)
            if kids == ('vec', ()) and any(k[:2] == ('bin', 'Eq') and ('int', 0) in k[2:] and any(isinstance(x, tuple) and x[:1] == ('len',) and child_list(x[1]) == S for x in k[2:]) and t is True for k, t in F.items()):
                continue
            if not ctx.ob(fs is not None and child_list(fs[0]) == S, 'branch:children', 'the scene does not hold a scene for every child, in order: ' + show(kids)[:300], '', o.trace):
                continue
            for G, vs in fs[1]:
                if not ctx.ob(len(vs) == 1, 'branch:each', 'a child leads to %d scenes' % len(vs), '', o.trace):
                    continue
                x = eta(vs[0])
                flag = None
                while x[:1] == ('upd',):
                    for p, y in x[2]:
                        if p in ('is_owner', ('is_owner',)):
                            flag = y
                        else:
                            ctx.ob(False, 'branch:each', 'the scene of a child is changed: ' + show(p), '', o.trace)
                    x = x[1]
                x = noid(x)
                ok = x[:1] == ('app',) and x[1].startswith('rec:') and len(x[2]) == 1 and x[2][0] == ('B', E_)
                if ctx.ob(ok, 'branch:step', 'the scene of a child is made by ' + show(x)[:200], '', o.trace):
                    g = [h for h in ctx.P.fns.values() if h.local and h.path.split('::')[-1] == x[1].split('::')[-1] and 'node_base' in h.path]
                    todo += [(h, False) for h in g]
                owns = owner_of(G)
                ok = flag in (TRUE, FALSE) and owns is (flag == TRUE) or flag is not None and own_term(flag)
                ctx.ob(ok, 'branch:owner', 'a child that %s is saved with the flag %s' % ({True: 'owns itself', False: 'does not own itself', None: 'may own itself or not'}[owns], show(flag) if flag else 'it had'), '', o.trace)
        ctx.floor(n, 1, 'paths of ' + f.path.split('::')[-1])


def eta(t):
    """a scene written out field by field from another one, as that one with changes"""
    if t[:1] == ('adt',) and t[1].endswith('NodeScene'):
        src = [v[1] for f, v in t[3] if v[:1] == ('fld',) and v[2] == f]
        if len(src) >= 2 and len(set(src)) == 1:
            return ('upd', src[0], tuple((f, v) for f, v in t[3] if v != ('fld', src[0], f)))
    return t


def own_term(t):
    return t[:2] == ('bin', 'Eq') and any(field_of(strip_payload(x), 'owner') for x in t[2:])


def owner_of(G):
    """do the facts about the element say that it is its own owner?"""
    for k, v in G.items():
        if k[:2] == ('bin', 'Eq') and isinstance(v, bool):
            a, b = plain(k[2]), plain(k[3])
            for x, y in ((a, b), (b, a)):
                if y == E_ and x[:1] == ('fld',) and x[2] == 'Some.0' and field_of(x[1], 'owner') and x[1][1][:2] == ('NB', E_):
                    return v
                if y[:1] == ('adt',) and y[2] == 'Some' and y[3][0][1] == E_ and field_of(x, 'owner') and x[1][:2] == ('NB', E_):
                    return v
    for k, v in G.items():
        if field_of(k, 'owner') and k[1][:2] == ('NB', E_) and v == frozenset({'None'}):
            return False


def check(ctx):
    scenes(ctx)
    bases(ctx)
    branches(ctx)
