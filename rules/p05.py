"""Names of siblings: the names that attaching and renaming give a node are traced to ensure_unique_name() applied to the names of exactly the other children of the same parent, and ensure_unique_name() is shown, on every path, to return a name that a search of the whole list did not find (the wanted one whenever that is free). Every other function is shown not to change the name of a node in a tree."""
from world import *
from rule import *
import scan

RULE = 'name written == ensure_unique_name(wanted, names of all other siblings); result of ensure_unique_name not in the list on any path; writers of the name confined'
EUN = 'functions::ensure_unique_name'


def siblings(ctx, I, W, o, c, parent, without, key):
    """the list given to ensure_unique_name: names of all children of `parent`, but `without`"""
    seq = plain(W.nz(c.ret)[2][1])
    m = members(I, W, o.trace, seq)
    if not ctx.ob(m is not None, key + ':siblings', 'the names a new name is compared with are not those of the siblings: ' + show(seq)[:200], where(c), o.trace):
        return
    w, base, bodies = m
    ctx.ob(child_list(W.nz(base)) == parent, key + ':siblings-of', 'the names a new name is compared with are not those of the children of the parent: ' + show(W.nz(base))[:200], where(c), o.trace)
    tag = w[0]
    el = ('CH', parent, ('ix', tag))
    for b, vs in bodies:
        F = body_bools(W, b)
        if not vs:
            ctx.ob(without is not None and equal(F, el, without) is True, key + ':sibling-left-out', 'a sibling is left out of the names a new name is compared with', where(c), b)
            continue
        ctx.ob(len(vs) == 1 and plain(vs[0])[:1] == ('fld',) and plain(vs[0])[2] == 'name' and plain(vs[0])[1][:2] == ('NB', el), key + ':sibling-name', 'a new name is compared with something else than the name of a sibling: ' + show(vs[0]), where(c), b)
        if without is not None:
            ctx.ob(equal(F, el, without) is False, key + ':self-included', 'a node is counted among its own siblings, so it cannot keep its name', where(c), b)


def not_in_set(I, W, o, lst, v):
    """was the name not found in a set (or list) collected from the whole list of names?"""
    for e in o.trace:
        if e.kind == 'assume' and e.name == 'bool' and e.args[1] is False:
            k = W.nz(e.args[0])
            if k[:1] == ('haskey',) and plain(k[2]) == v:
                f = fates(I, W, o.trace, k[1])
                if f is not None and (plain(f[0]) == lst or f[0] == ('obj', lst, 0)) and all(not F and [plain(x) for x in vs] == [E_] for F, vs in f[1]):
                    return True
    return False


def check(ctx):
    P = ctx.P
    S = ('SELF',)
    # ------------------------------------------------ the helper
    fns = [f for f in P.fns.values() if f.local and f.path.endswith(EUN)]
    if not ctx.ob(len(fns) == 1, 'anchor:' + EUN, 'the function that makes names unique is gone'):
        return
    W = World(None)
    outs, I = ctx.run(fns[0])
    want, lst = (('sym', fns[0].locals[i][1] or 'a%d' % i) for i in (1, 2))
    n = 0
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'unique:aborts', 'making a name unique can panic', '', o.trace):
            continue
        v = plain(W.nz(o.value))
        seqs = [W.nz(walk_of(l)[2]) for l in loops(o.trace) if walk_of(l)]
        ls = [s for s in seqs if plain(s) == lst or s == ('obj', lst, 0) or plain(s) == ('obj', lst, 0)]
        n += 1
        ctx.ob(any(not_member(I, W, o.trace, s, v) for s in ls) or not_in_set(I, W, o, lst, v), 'unique:not-taken', 'a name is returned that was not searched for in the whole list: ' + show(v), '', o.trace)
        taken = [1 for a, b, t in eq_facts(facts(W, o)) if t and (a == want or b == want)]
        if v == want:
            continue
        ctx.ob(bool(taken), 'unique:keeps-free-name', 'another name than the wanted one is returned although the wanted one is not known to be taken: ' + show(v), '', o.trace)
        ctx.ob(v[0] == 'cat' and any(contains(x, want) for x in v[1][:1]), 'unique:keeps-stem', 'the new name is not derived from the wanted one: ' + show(v), '', o.trace)
    ctx.floor(n, 2, 'paths of ensure_unique_name')
    ctx.ob(any(o.kind == 'ret' and plain(W.nz(o.value)) == want for o in outs), 'unique:can-keep', 'the wanted name is never returned')
    # ------------------------------------------------ attaching
    W = World('node')
    fn = ctx.inherent('NodeBase', 'add_child_from_ptr')
    outs, I = ctx.run(fn, opaque={'NodeBase::children', EUN})
    ptr = ('sym', fn.locals[2][1] or 'a2')
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        ws = [e for e in flat(o.trace) if e.kind == 'write' and e.name == 'name']
        if not ctx.ob(len(ws) == 1 and ws[0] in o.trace and node_is(W, ws[0].args[0], ptr, W.nz(o.value)), 'attach:named', 'the added node is given %d names' % len(ws), '', o.trace):
            continue
        v = plain(W.nz(ws[0].args[1]))
        cs = [c for c in calls(o.trace, EUN) if plain(W.nz(c.ret)) == v]
        if not ctx.ob(len(cs) == 1, 'attach:unique', 'the name of an added node is not made unique: ' + show(v), where(ws[0]), o.trace):
            continue
        c = cs[0]
        a = plain(W.nz(c.args[0]))
        ctx.ob(a[:1] == ('fld',) and a[2] == 'name' and node_is(W, a[1], ptr, None), 'attach:wanted', 'the name of an added node is not derived from its own: ' + show(a), where(c), o.trace)
        siblings(ctx, I, W, o, c, S, None, 'attach')
        pu = [e for e in o.trace if e.kind == 'write' and e.name == 'vec.push' and contains(W.nz(e.args[0]), 'children')]
        ch = calls(o.trace, 'NodeBase::children')
        ctx.ob(all(o.trace.index(p) > o.trace.index(k) for p in pu for k in ch if k in o.trace), 'attach:before', 'the added node is counted among its own siblings', where(c), o.trace)
        hs = hooks(o.trace)
        ctx.ob(not hs or o.trace.index(hs[0]) > o.trace.index(ws[0]), 'attach:before-hooks', 'a hook runs before the added node has its name', where(hs[0]) if hs else '', o.trace)
    ctx.floor(n, 2, 'paths of add_child_from_ptr')
    # ------------------------------------------------ renaming
    fn2 = ctx.inherent('NodeBase', 'set_name')
    outs, I = ctx.run(fn2, opaque={'NodeBase::children', EUN})
    want = ('sym', fn2.locals[2][1] or 'a2')
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        F = facts(W, o)
        par, tr = (F.get(('fld', ('NB', S, 0), f), frozenset(('None', 'Some'))) for f in ('parent', 'tree'))
        ws = [e for e in flat(o.trace) if e.kind == 'write' and e.name == 'name']
        if not ctx.ob(len(ws) == 1 and ws[0] in o.trace and W.nz(ws[0].args[0]) == ('B', S), 'rename:named', 'renaming a node writes %d names' % len(ws), '', o.trace):
            continue
        v = plain(W.nz(ws[0].args[1]))
        if 'None' in par or 'None' in tr:
            ctx.ob(v == want, 'rename:without-siblings', 'a node without siblings is not given the wanted name: ' + show(v), where(ws[0]), o.trace)
            ctx.ob('Some' not in par or 'Some' not in tr, 'rename:siblings-ignored', 'a node is renamed without looking at its siblings', where(ws[0]), o.trace)
            continue
        n += 1
        cs = [c for c in calls(o.trace, EUN) if plain(W.nz(c.ret)) == v]
        if not ctx.ob(len(cs) == 1 and plain(W.nz(cs[0].args[0])) == want, 'rename:unique', 'the name of a renamed node is not the wanted one made unique: ' + show(v), where(ws[0]), o.trace):
            continue
        siblings(ctx, I, W, o, cs[0], ('fld', ('fld', ('NB', S, 0), 'parent'), 'Some.0'), S, 'rename')
    ctx.floor(n, 1, 'paths that rename a child')
    # ------------------------------------------------ nobody else
    wr = scan.field_writers(P, 'NodeBase', 'name')
    ctx.floor(len(wr), 1, 'writers of the name')
    raw = ctx.inherent('NodeBase', 'set_name_unchecked').key
    stop = {fn.key, fn2.key, raw}
    for k, sps in wr.items():
        for r in scan.roots_of(P, k, stop=stop) - {raw}:
            ctx.ob(False, 'writers:' + P.fns[r].path, 'the name of a node is also changed by ' + P.fns[r].path, sps[0])
    up = scan.graph(P)
    for k in up.get(raw, ()):
        ctx.ob(k in stop or 'NodeScene' in P.fns[k].path or not scan.roots_of(P, k, stop=stop), 'raw-writers:' + P.fns[k].path, 'the name of a node is set without making it unique by ' + P.fns[k].path)


def node_is(W, t, ptr, rid):
    """does t denote the base (or its content) of the node behind pointer ptr?"""
    t = W.nz(t)
    if t == ('base', ptr) or rid is not None and t == ('B', rid):
        return True
    return t[0] == 'obj' and t[1] == ('base', ptr)

