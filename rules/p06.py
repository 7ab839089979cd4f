"""Linkage of the tree: on every path that attaches a node its parent, owner, depth, tree and id are shown to get exactly the values that follow from the parent it is attached to, and the parent's child list to get the new id appended once; scenes are attached item by item to the parent each item names; the root of a new tree gets id 0, owns itself and has no parent. Whole-crate scans confine the writers of each link to attaching, removing, freeing and scene building."""
from world import *
from rule import *
import scan
import p05

RULE = 'values of the link fields at the end of each attaching path == documented function of the parent; one push to the child list; writers and callers of the raw setters confined'
ADD = 'NodeBase::add_child_from_ptr'
SETTERS = {'parent': ('set_parent', 'disconnnect_parent'), 'owner': ('set_owner', 'disconnnect_owner'), 'tree': ('set_tree', 'disconnnect_tree'), 'depth': ('set_depth',), 'rid': ('set_rid',)}


def link_writes(W, o, ptr, rid):
    """{field: last event} of the link writes to the attached node; other link writes"""
    mine, other = {}, []
    for e in flat(o.trace):
        if e.kind == 'write' and e.name in SETTERS:
            if e in o.trace and p05.node_is(W, e.args[0], ptr, rid):
                mine[e.name] = e
            else:
                other.append(e)
    return mine, other


def some(t):
    return dict(t[3]).get('0') if isinstance(t, tuple) and t[:1] == ('adt',) and t[2] == 'Some' else None


def ground(W, t):
    """a value that an adt term or plain value denotes"""
    return W.nz(t)


def check(ctx):
    P = ctx.P
    S = ('SELF',)
    W = World('node')
    fn = ctx.inherent('NodeBase', 'add_child_from_ptr')
    outs, I = ctx.run(fn, opaque={'NodeBase::children', 'functions::ensure_unique_name'})
    ptr = ('sym', fn.locals[2][1] or 'a2')
    own = ('sym', fn.locals[3][1] or 'a3')
    n = 0
    for o in outs:
        F = facts(W, o)
        if o.kind != 'ret':
            missing = any(isinstance(k, tuple) and k[:1] == ('haskey',) and v is False for k, v in F.items())
            no_tree = F.get(('fld', ('NB', S, 0), 'tree')) == {'None'}
            # a node in a tree always has an owner and its children are registered (this property, inductively)
            no_owner = F.get(('fld', ('NB', S, 0), 'owner')) == {'None'}
            ctx.ob(o.kind == 'panic' and (no_tree or missing) or no_owner, 'attach:aborts', 'attaching a node to a node of a tree can abort (%s)' % o.kind, '', o.trace)
            continue
        n += 1
        rid = W.nz(o.value)
        mine, other = link_writes(W, o, ptr, rid)
        ctx.ob(not other, 'attach:other-links', 'attaching a node changes the links of another node', where(other[0]) if other else '', o.trace)
        ctx.ob(F.get(('fld', ('NB', S, 0), 'tree')) == {'Some'}, 'attach:needs-tree', 'a node is attached to a node outside of a tree', '', o.trace)
        if F.get(own) is True:
            owner = rid
        elif F.get(own) is False:
            owner = ('fld', ('fld', ('NB', S, 0), 'owner'), 'Some.0')
        else:
            owner = None
        want = {'parent': (('Some', S),), 'tree': (('Some', ('TREEPTR',)),),
                'depth': (('bin', 'Add', ('fld', ('NB', S, 0), 'depth'), ('int', 1)), ('bin', 'Add', ('int', 1), ('fld', ('NB', S, 0), 'depth'))), 'rid': (rid,)}
        ctx.ob(owner is not None, 'attach:owner-decided', 'whether the node owns its scene is not looked at', '', o.trace)
        if owner is not None:
            want['owner'] = (('Some', owner),)
            if F[own] is False:
                want['owner'] += (('whole', ('fld', ('NB', S, 0), 'owner')),)
        hs = hooks(o.trace)
        for f, ok in want.items():
            e = mine.get(f)
            if not ctx.ob(e is not None, 'attach:%s-set' % f, 'the %s of an attached node is not set' % f, '', o.trace):
                continue
            v = W.nz(e.args[1])
            got = ('Some', some(v)) if some(v) is not None else ('whole', v) if f in ('owner', 'parent', 'tree') else v
            ctx.ob(got in ok, 'attach:' + f, 'the %s of an attached node is set to %s' % (f, show(v)), where(e), o.trace)
            ctx.ob(not hs or o.trace.index(e) < o.trace.index(hs[0]), 'attach:%s-before-hooks' % f, 'a hook runs before the %s of the node is set' % f, where(e), o.trace)
        import p03
        ps = [e for e in flat(o.trace) if e.kind == 'write' and e.name.startswith('vec.') and p03.W_loc(W, e)[0] == 'CHILDREN-OF']
        if ctx.ob(len(ps) == 1 and ps[0] in o.trace and ps[0].name == 'vec.push' and p03.W_loc(W, ps[0]) == ('CHILDREN-OF', S), 'attach:listed', 'the attached node is not appended to the child list of its parent exactly once', where(ps[0]) if ps else '', o.trace):
            ctx.ob(W.nz(ps[0].args[1]) == rid, 'attach:listed-id', 'another id than that of the attached node is appended to the child list: ' + show(W.nz(ps[0].args[1])), where(ps[0]), o.trace)
            ctx.ob(not hs or o.trace.index(ps[0]) < o.trace.index(hs[0]), 'attach:listed-before-hooks', 'a hook runs before the node is listed as a child', where(ps[0]), o.trace)
        reg = [e for e in flat(o.trace) if e.kind == 'write' and e.name == 'map.insert' and any(isinstance(x, str) and x == 'nodes' for x in subterms_str(e.args[0]))]
        if ctx.ob(len(reg) == 1 and reg[0] in o.trace, 'attach:registered', 'the attached node is not registered with the tree exactly once', '', o.trace):
            ctx.ob(W.nz(reg[0].args[1]) == rid and W.nz(reg[0].args[2]) == ptr, 'attach:registered-id', 'the attached node is registered under %s, but its id is %s' % (show(W.nz(reg[0].args[1])), show(rid)), where(reg[0]), o.trace)
    ctx.floor(n, 4, 'paths of add_child_from_ptr')
    # ------------------------------------------------ scenes
    for ty, name, kind in (('NodeBase', 'add_child', 'node'), ('NodeTreeBase', 'initialize', 'tree')):
        f2 = ctx.inherent(ty, name)
        W2 = World(kind)
        outs, I = ctx.run(f2, opaque={ADD, 'NodeBase::children'})
        n = 0
        for o in outs:
            if o.kind != 'ret':
                continue
            for l in loops(o.trace):
                for b in l.extra:
                    cs = calls(b, ADD)
                    rw = [e for e in flat(b) if e.kind == 'write' and e.name in SETTERS]
                    if not cs and not rw:
                        continue
                    n += 1
                    w = walk_of(l)
                    item = element(I, W2, w) if w else None
                    V = {W2.nz(e.args[0]): frozenset(W2.nz(x)[0] if isinstance(x, tuple) else x for x in (e.args[1] if isinstance(e.args[1], (tuple, frozenset, list)) else (e.args[1],))) for e in b if e.kind == 'assume' and e.name == 'variant'}
                    par = [v for k, v in V.items() if field_of(k, 'parent') and k[1] == item]
                    if not ctx.ob(len(par) >= 1 and item is not None, name + ':parent-decided', 'whether an item of the scene has a parent is not looked at', '', b):
                        continue
                    has = 'Some' in repr(par[0])
                    if cs:
                        c = cs[0]
                        recv, node, ow = (W2.nz(x) for x in c.args[:3])
                        if has:
                            ctx.ob(recv == ('base', ('fld', ('fld', item, 'parent'), 'Some.0')), name + ':to-parent', 'an item of a scene is attached to another node than its parent: ' + show(recv), where(c), b)
                        else:
                            ctx.ob(kind == 'node' and recv == ('B', S), name + ':to-receiver', 'the root of a scene is attached to %s' % show(recv), where(c), b)
                        ctx.ob(node == ('fld', item, 'node'), name + ':node', 'another node than that of the item is attached: ' + show(node), where(c), b)
                        ctx.ob(ow == ('fld', item, 'is_owner'), name + ':ownership', 'the ownership of an item of a scene is lost: ' + show(ow), where(c), b)
                    else:
                        ctx.ob(not has and kind == 'tree', name + ':attached', 'an item of a scene is not attached to its parent', '', b)
                        root_links(ctx, W2, b, item, f2, name)
        ctx.floor(n, 2, 'cases of the items of a scene in ' + name)
    # ------------------------------------------------ the state a node starts with
    b = scan.builders(P, 'NodeBase')
    ctx.floor(len(b), 1, 'constructors of a node')
    for k in b:
        outs, _ = ctx.run(P.fns[k])
        for o in outs:
            if o.kind != 'ret':
                continue
            v = dict(o.value[3]) if o.value[0] == 'adt' else {}
            for f in ('parent', 'owner', 'tree'):
                ctx.ob(f in v and v[f][0] == 'adt' and v[f][2] == 'None', 'new:' + f, 'a new node starts with a ' + f, b[k][0], o.trace)
            ctx.ob(v.get('depth') == ('int', 0), 'new:depth', 'a new node starts at another depth than 0', b[k][0], o.trace)
            ctx.ob(v.get('children') == ('vec', ()), 'new:children', 'a new node starts with children', b[k][0], o.trace)
    # ------------------------------------------------ confinement
    up = scan.graph(P)
    ent = {n: ctx.inherent('NodeBase', n).key for n in ('add_child_from_ptr', 'add_child', 'remove_child', 'free')}
    ent['initialize'] = ctx.inherent('NodeTreeBase', 'initialize').key
    for f, setters in SETTERS.items():
        raw = {ctx.inherent('NodeBase', s).key for s in setters}
        wr = scan.field_writers(P, 'NodeBase', f)
        ctx.floor(len(wr), 1, 'writers of ' + f)
        for k, sps in wr.items():
            for r in scan.roots_of(P, k, stop=raw | set(ent.values())) - raw:
                ctx.ob(False, 'writers:%s:%s' % (f, P.fns[r].path), 'the %s of a node is also changed by %s' % (f, P.fns[r].path), sps[0])
        for s in raw:
            for k in up.get(s, ()):
                bad = scan.roots_of(P, k, stop=set(ent.values()))
                bad = {r for r in bad if not ('NodeScene' in P.fns[r].path and f in ('rid', 'owner'))}
                # code that runs on scenes only ever sees nodes outside of a tree; only their (local) ids are set
                ctx.ob(not bad or f == 'rid' and 'NodeScene' in P.fns[k].path, 'raw:%s:%s' % (f, P.fns[k].path), 'the %s of a node is also changed by %s' % (f, P.fns[k].path))
    wr = scan.field_writers(P, 'NodeBase', 'children')
    ctx.floor(len(wr), 3, 'writers of the child list')
    for k, sps in wr.items():
        r = scan.roots_of(P, k, stop=set(ent.values()))
        ctx.ob(not r, 'writers:children:' + P.fns[k].path, 'the child list of a node is also changed by ' + P.fns[k].path, sps[0])


def subterms_str(t):
    if isinstance(t, str):
        yield t
    elif isinstance(t, tuple):
        for x in t:
            yield from subterms_str(x)


def root_links(ctx, W, b, item, fn, name):
    node = ('fld', item, 'node')
    at = (('base', node), ('B', ('int', 0)))
    ws = {e.name: e for e in b if e.kind == 'write' and e.name in SETTERS and W.nz(e.args[0]) in at}
    bad = [e for e in flat(b) if e.kind == 'write' and e.name in SETTERS]
    ctx.ob(not [e for e in bad if W.nz(e.args[0]) not in at], name + ':root-other', 'the links of another node change', '', b)
    v = {f: W.nz(e.args[1]) for f, e in ws.items()}
    ctx.ob(v.get('rid') == ('int', 0), name + ':root-id', 'the root of a tree does not get the id 0', '', b)
    ctx.ob(some(v.get('owner')) == ('int', 0), name + ':root-owner', 'the root of a tree does not own itself', '', b)
    ctx.ob('parent' not in v or v['parent'][:1] == ('adt',) and v['parent'][2] == 'None', name + ':root-parent', 'the root of a tree gets a parent', '', b)
    ctx.ob('depth' not in v or v['depth'] == ('int', 0), name + ':root-depth', 'the root of a tree is at another depth than 0', '', b)
    outer = ('sym', fn.locals[2][1] or 'a2')
    ctx.ob(some(v.get('tree')) is not None and outer in list(subterms(some(v['tree']))) + [some(v['tree'])], name + ':root-tree', 'the root is not connected to the tree: ' + show(v.get('tree')), '', b)
    ins = [e for e in flat(b) if e.kind == 'write' and e.name == 'map.insert' and W.nz(e.args[2]) == node]
    ctx.ob(len(ins) == 1 and ins[0] in b, name + ':root-registered', 'the root is not registered with the tree exactly once', '', b)
