"""Singletons: on every path registering a name refuses an unregistered node and a name that some node has (changing nothing), and otherwise releases the node's previous name and enters the new one in both the name table and the identities; unregistering a node is shown to release its name; looking a name up returns exactly the table's entry. Scans confine the writers of both tables."""
from world import *
from rule import *
import scan
import p07

RULE = 'registering: refused iff node unknown or name found by a search of all identities, else previous name dropped and both tables updated alike; unregistering drops the entry whose id is the node; writers confined'


def match_facts(W, F, ids, name):
    """for an identity value term: does it carry the given name? from facts {term: set|bool}"""
    for k, v in F.items():
        if isinstance(v, frozenset) and v == {'NodePath'} and k[:1] == ('fld',) and k[1] == ids:
            return False
    for a, b, t in eq_facts({k: v for k, v in F.items() if isinstance(v, bool)}):
        for x, y in ((a, b), (b, a)):
            if plain(y) == name and x[:1] == ('fld',) and x[2] == 'UniqueName.0' and x[1][1] == ids:
                return t
    return None


def body_facts(W, b):
    r = {}
    for e in b:
        if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2:
            r[W.nz(e.args[0])] = e.args[1]
        elif e.kind == 'assume' and e.name == 'variant':
            vs = e.args[1] if isinstance(e.args[1], (tuple, frozenset, list, set)) else (e.args[1],)
            r[W.nz(e.args[0])] = frozenset(vs)
    return r


def check(ctx):
    P = ctx.P
    W = World('tree')
    T = lambda n: ctx.inherent('NodeTreeBase', n)
    sing, ids = ('fld', ('T', 0), 'singletons'), ('fld', ('T', 0), 'identity')
    # ------------------------------------------------ registering a name
    fn = T('register_as_singleton')
    rid, name = (('sym', fn.locals[i][1] or 'a%d' % i) for i in (2, 3))
    outs, I = ctx.run(fn)
    seen = set()
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'register:aborts', 'registering a name can abort', '', o.trace):
            continue
        F = facts(W, o)
        r = p07.opt(W.nz(o.value))
        known = F.get(('haskey', ('NODES', 0), rid))
        if known is None:
            known = next((v for k, v in F.items() if k == ('haskey', ids, rid)), None)
        ws = [e for e in flat(o.trace) if e.kind == 'write' and not e.name.startswith('vec.retain.')]
        if not ctx.ob(r is not None and known is not None, 'register:node-checked', 'whether the node is registered is not looked at', '', o.trace):
            continue
        if not known:
            ctx.ob(r == ('None',) and not ws, 'register:unknown-node', 'registering a name for an unknown node gives %s' % show(W.nz(o.value)), '', o.trace)
            seen.add('unknown')
            continue
        # is the name taken on this path?
        free = taken = False
        for l in loops(o.trace):
            w = walk_of(l)
            if w and W.nz(w[2]) == ids and completed(o.trace, w[0]):
                free = free or all(match_facts(W, body_facts(W, b), ids, name) is False for b in l.extra)
        tk = match_facts(W, F, ids, name)
        taken = tk is True
        hk = F.get(('haskey', sing, name))
        if hk is not None and not free and not taken:
            free, taken = hk is False, hk is True
        if taken:
            seen.add('taken')
            ctx.ob(r == ('Some', FALSE), 'register:taken', 'a name that a node already has gives %s' % show(W.nz(o.value)), '', o.trace)
            ctx.ob(not ws, 'register:taken-changes', 'a refused name changes the tree', where(ws[0]) if ws else '', o.trace)
            continue
        if not ctx.ob(free, 'register:search', 'a name is accepted although not all nodes were asked whether they have it', '', o.trace):
            continue
        seen.add('free')
        ctx.ob(r == ('Some', TRUE), 'register:free', 'a free name gives %s' % show(W.nz(o.value)), '', o.trace)
        si = [e for e in ws if e.name == 'map.insert' and contains_name(e.args[0], 'singletons')]
        ii = [e for e in ws if e.name == 'map.insert' and contains_name(e.args[0], 'identity')]
        ctx.ob(len(si) == 1 and plain(W.nz(si[0].args[1])) == name and W.nz(si[0].args[2]) == rid, 'register:entered', 'the name is not entered for the node', where(si[0]) if si else '', o.trace)
        v = W.nz(ii[0].args[2]) if ii else ('?',)
        ctx.ob(len(ii) == 1 and W.nz(ii[0].args[1]) == rid and v[0] == 'adt' and v[2] == 'UniqueName' and plain(p07.opt(('adt', '', 'Some', v[3]))[1]) == name, 'register:identity', 'the identity of the node does not become the name: ' + show(v), where(ii[0]) if ii else '', o.trace)
        dropped(ctx, I, W, o, sing, rid, 'register', before=si[0] if si else None)
        other = [e for e in ws if e not in si and e not in ii and not contains_name(e.args[0], 'singletons') and not e.name == 'map.remove']
        ctx.ob(not other, 'register:others', 'registering a name changes something else', where(other[0]) if other else '', o.trace)
    ctx.ob(seen == {'unknown', 'taken', 'free'}, 'register:cases', 'registering does not tell unknown nodes, taken names and free names apart: %s' % sorted(seen))
    # ------------------------------------------------ unregistering releases it
    fn2 = T('unregister_node')
    rid2 = ('sym', fn2.locals[2][1] or 'a2')
    outs, I = ctx.run(fn2)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        dropped(ctx, I, W, o, sing, rid2, 'unregister')
    ctx.floor(n, 2, 'paths of unregister_node')
    # ------------------------------------------------ does an identity match a name?
    fn3 = ctx.inherent('NodeIdentity', 'does_not_match')
    W0 = World(None)
    nm = ('sym', fn3.locals[2][1] or 'a2')
    got = set()
    for o in ctx.run(fn3)[0]:
        F = facts(W0, o)
        var = [v for k, v in F.items() if isinstance(v, frozenset)]
        eq = [t for a, b, t in eq_facts({k: v for k, v in F.items() if isinstance(v, bool)})]
        val = W0.nz(o.value) if o.kind == 'ret' else None
        if var and var[0] == {'NodePath'}:
            ctx.ob(val == TRUE, 'match:path', 'a node without a name matches one', '', o.trace)
            got.add('path')
        elif var and var[0] == {'UniqueName'}:
            got.add('name')
            isne = lambda v: v[:2] == ('un', 'Not') and v[2][:2] == ('bin', 'Eq') or v[:2] == ('bin', 'Ne')
            ok = val in (TRUE, FALSE) and eq == [val == FALSE] or val is not None and val not in (TRUE, FALSE) and isne(val) and contains(val, nm)
            ctx.ob(ok, 'match:name', 'whether a node has a name is decided wrongly: ' + show(val), '', o.trace)
    ctx.ob(got == {'path', 'name'}, 'match:cases', 'an identity is compared with a name without looking at what it is')
    # ------------------------------------------------ lookups
    fn4 = ctx.trait_method('NodeGetter', 'get_from', '^String$|string::String')
    me = ('sym', 'self')
    tree = ('sym', fn4.locals[2][1] or 'a2')
    W4 = World(None, fixed={tree: ('TREE',)})
    outs, _ = ctx.run(fn4)
    lookup_name(ctx, W4, outs, me, tree, 'by-string')
    fn5 = ctx.trait_method('NodeGetter', 'get_from', "str$")
    outs, _ = ctx.run(fn5)
    tree = ('sym', fn5.locals[2][1] or 'a2')
    lookup_name(ctx, World(None, fixed={tree: ('TREE',)}), outs, me, tree, 'by-str')
    # ------------------------------------------------ through the node
    fn6 = ctx.inherent('NodeBase', 'register_as_singleton')
    W6 = World('node')
    S = ('SELF',)
    n = 0
    for o in ctx.run(fn6, opaque={'NodeTreeBase::register_as_singleton'})[0]:
        F = facts(W6, o)
        cs = calls(o.trace, 'NodeTreeBase::register_as_singleton')
        if o.kind != 'ret':
            lone = F.get(('fld', ('NB', S, 0), 'tree')) == {'None'}
            unknown = cs and F.get(W6.nz(cs[0].ret)) == {'None'}
            ctx.ob(lone or unknown, 'node:aborts', 'registering the name of a node of a tree can abort', '', o.trace)
            continue
        n += 1
        if ctx.ob(len(cs) == 1 and W6.nz(cs[0].args[0]) == ('TREE',) and W6.nz(cs[0].args[1]) == S and plain(W6.nz(cs[0].args[2])) == ('sym', fn6.locals[2][1] or 'a2'), 'node:forwards', 'a node does not register the given name for itself with its tree', '', o.trace):
            ctx.ob(W6.nz(o.value) == ('fld', W6.nz(cs[0].ret), 'Some.0'), 'node:result', 'a node reports %s when it registers a name' % show(W6.nz(o.value)), '', o.trace)
    ctx.floor(n, 1, 'paths of NodeBase::register_as_singleton')
    # ------------------------------------------------ nobody else
    ent = {T(n).key for n in ('register_as_singleton', 'unregister_node', 'register_node', 'initialize')}
    for f in ('singletons', 'identity'):
        wr = scan.field_writers(P, 'NodeTreeBase', f)
        ctx.floor(len(wr), 2, 'writers of ' + f)
        for k, sps in wr.items():
            ctx.ob(not scan.roots_of(P, k, stop=ent), 'writers:%s:%s' % (f, P.fns[k].path), 'the %s are also changed by %s' % (f, P.fns[k].path), sps[0])


def lookup_name(ctx, W, outs, name, tree, key):
    sing = ('fld', ('T', 0), 'singletons')
    seen = set()
    for o in outs:
        if not ctx.ob(o.kind == 'ret', key + ':aborts', 'looking up a name can abort', '', o.trace):
            continue
        F = {k: v for k, v in facts(W, o).items()}
        hk = [(k, v) for k, v in F.items() if isinstance(k, tuple) and k[:1] == ('haskey',) and isinstance(v, bool)]
        r = p07.opt(W.nz(o.value))
        if not ctx.ob(len(hk) == 1 and r is not None and contains_name(hk[0][0][1], 'singletons') and plain(hk[0][0][2]) in (name, ('obj', name, 0)), key + ':table', 'a name is not looked up in the table of names', '', o.trace):
            continue
        seen.add(hk[0][1])
        if hk[0][1]:
            ctx.ob(r[0] == 'Some' and r[1][:1] == ('fld',) and r[1][1] == hk[0][0][1] and plain(r[1][2][1]) in (name, ('obj', name, 0)), key + ':found', 'a registered name gives %s' % show(W.nz(o.value)), '', o.trace)
        else:
            ctx.ob(r == ('None',), key + ':missing', 'an unknown name gives %s' % show(W.nz(o.value)), '', o.trace)
    ctx.ob(seen == {True, False}, key + ':both', 'looking up a name does not depend on whether it is registered')


def dropped(ctx, I, W, o, sing, rid, key, before=None):
    """the entry of the name table whose id is rid is gone at the end of the path (at most one exists)"""
    muts = [e for e in o.trace if e.kind == 'write' and e.name in ('map.remove', 'vec.retain', 'map.retain') and contains_name(e.args[0], 'singletons')]
    ok, why = False, 'the previous name of a node is kept'
    for l in loops(o.trace):
        w = walk_of(l)
        if not w or W.nz(w[2]) != sing:
            continue
        done = completed(o.trace, w[0])
        res = []
        for i, b in enumerate(l.extra):
            eq = [t for a, c, t in eq_facts(body_bools(W, b)) if rid in (a, c) and any(x[:2] == ('fld', sing) for x in (a, c))]
            kd = [e.name for e in flat(b) if e.kind == 'write' and e.name.startswith('vec.retain.') and contains_name(e.args[0], 'singletons')]
            res.append((eq, kd, I.body_phi.get(l.name, [{}] * len(l.extra))[i], b))
        if not all(len(eq) == 1 for eq, _, _, _ in res):
            continue
        if any(kd for _, kd, _, _ in res):      # retain
            good = done and all(kd == ['vec.retain.drop' if eq[0] else 'vec.retain.keep'] for eq, kd, _, _ in res)
            good = good and len(muts) == 1 and muts[0].name.endswith('retain')
            ok = ok or good
            continue
        hit = [(x, ph) for x, _, ph, _ in res if x[0]]
        if done and hit:                         # remembers the key, removed afterwards
            cand = [Pp for Pp in hit[0][1] if all(isinstance(v := h[1].get(Pp), tuple) and v[:1] == ('adt',) and v[2] == 'Some' and contains_name(W.nz(v), 'mapkey') for h in hit) and all(ph.get(Pp) == Pp for x, _, ph, _ in res if not x[0]) and I.phis[Pp][0][:1] == ('adt',) and I.phis[Pp][0][2] == 'None']
            F = facts(W, o)
            for Pp in cand:
                f = F.get(W.nz(Pp))
                if f == {'Some'}:
                    ok = ok or len(muts) == 1 and muts[0].name == 'map.remove' and plain(W.nz(muts[0].args[1])) == ('fld', W.nz(Pp), 'Some.0')
                elif f == {'None'}:
                    ok = ok or not muts
        elif done and not hit:
            ok = ok or not muts
        elif not done:                           # stops at the entry it finds
            if len(muts) == 1 and muts[0].name == 'map.remove':
                k = plain(W.nz(muts[0].args[1]))
                F = facts(W, o)
                ok = ok or any(t and {('fld', sing, ('k', k)), rid} == {a, c} for a, c, t in eq_facts({x: y for x, y in F.items() if isinstance(y, bool)}))
    ctx.ob(ok, key + ':releases', 'the name a node had is not released (or another one is)', where(muts[0]) if muts else '', o.trace)
    if before is not None:
        ctx.ob(all(o.trace.index(m) < o.trace.index(before) for m in muts), key + ':releases-first', 'the new name is released again', where(before), o.trace)
