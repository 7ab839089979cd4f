"""What a node says about itself: for every accessor of NodeBase all paths are enumerated, and under the conditions of each path (in a tree? parent? owner? index in range? relative registered? of the asked type?) the value returned is compared with the one the links of the node prescribe; the list of children is shown to be the complete, ordered image of the child list."""
from world import *
from rule import *
import p07

RULE = 'result of each accessor == the value its links prescribe, on every path; accessors write nothing'
S = ('SELF',)
NBF = lambda f: ('fld', ('NB', S, 0), f)
KIDS = ('CHILDREN', S, 0)


def payload(f):
    return ('fld', NBF(f), 'Some.0')


def bare(t):
    t = plain(t)
    while isinstance(t, tuple) and t[:1] == ('obj',) and len(t) == 3:
        t = plain(t[1])
    return t


def compare(F, a, b):
    """what the facts say of a < b: True / False / None"""
    for k, v in F.items():
        if k[:1] == ('bin',) and isinstance(v, bool):
            x, y = bare(k[2]), bare(k[3])
            if (x, y) == (a, b) and k[1] in ('Lt', 'Ge'):
                return v == (k[1] == 'Lt')
            if (x, y) == (b, a) and k[1] in ('Gt', 'Le'):
                return v == (k[1] == 'Gt')
    # an empty list: a length known to be zero
    for k, v in F.items():
        if k[:2] == ('bin', 'Eq') and v is True and {bare(k[2]), bare(k[3])} == {('int', 0), b}:
            return False


def alive(F, rid):
    for k, v in F.items():
        if k[:1] == ('haskey',) and k[2] == rid and isinstance(v, bool):
            return v


def typed(F, rid):
    for k, v in F.items():
        if k[:2] == ('app', 'is_type') and k[2][0][:2] == ('NP', rid) and isinstance(v, bool):
            return v


def result_of(W, v):
    """('Ok', pointer kind, owner, node) / ('Err', names..., args) of a TreeResult of this node"""
    v = W.nz(v)
    if not (v[:1] == ('adt',) and v[1].endswith('TreeResult')):
        return None
    d = dict(v[3])
    if d.get('tree') != ('TREEPTR',) or d.get('owner') != S:
        return None
    o = d['object']
    if o[:1] != ('adt',) or o[2] not in ('Ok', 'Err'):
        return None
    x = o[3][0][1]
    if o[2] == 'Ok':
        p = ptr(x)
        return ('Ok',) + p if p else None
    names, args = [], ()
    while isinstance(x, tuple) and x[:1] == ('adt',):
        names.append(x[2])
        args = tuple(a[1] for a in x[3])
        x = args[0] if len(args) == 1 else None
    return ('Err', tuple(names), args)


def ptr(x):
    if x[:1] == ('adt',) and x[1].endswith(('::Tp', '::TpDyn')):
        d = dict(x[3])
        if d.get('tree') == ('TREEPTR',) and d.get('owner') == S:
            return x[1].split('::')[-1], d.get('node')


def judge(ctx, name, W, o, F, rid, kind):
    """the result for a relative that exists, by what the table holds"""
    r = result_of(W, o.value)
    a, t = alive(F, rid), typed(F, rid)
    said = show(W.nz(o.value))[:200]
    if a is None:
        ctx.ob(False, name + ':looked-up', 'a relative is given without looking it up: ' + said, '', o.trace)
    elif a is False:
        ctx.ob(r is not None and r[0] == 'Err' and r[1][:2] == ('TPError', 'IsNull'), name + ':gone', 'for a relative that is gone it gives ' + said, '', o.trace)
        return 'gone'
    elif kind == 'Tp' and t is not True:
        ctx.ob(t is False and r is not None and r[0] == 'Err' and r[1][:2] == ('TPError', 'WrongType'), name + ':wrong-type', 'for a relative of another type it gives ' + said, '', o.trace)
        return 'wrong-type'
    else:
        ctx.ob(r == ('Ok', kind, rid), name + ':pointer', 'instead of a pointer to the relative it gives ' + said, '', o.trace)
        return 'pointer'


def silent(ctx, name, o):
    ws = [e for e in flat(o.trace) if e.kind == 'write' and not e.name.startswith('vec.push')]
    ctx.ob(not ws, name + ':changes', name + ' changes something', where(ws[0]) if ws else '', o.trace)
    cs = [e for e in flat(o.trace) if e.kind == 'call' and e.name == 'NodeBase::post']
    ctx.ob(not cs, name + ':posts', name + ' posts to the log', where(cs[0]) if cs else '', o.trace)


def ub_ok(ctx, name, W, o, F, extra=()):
    """an undefined path is one on which a link of the node is broken (excluded by P03 and P06)"""
    bad = [k for k, v in F.items() if k[:1] == ('haskey',) and v is False]
    none = [k for k, v in F.items() if k == NBF('owner') and v == frozenset({'None'})]
    ctx.ob(bool(bad or none), name + ':undefined', name + ' is undefined although all links of the node are in order', '', o.trace)


def relatives(ctx):
    for name, link, kind in (('get_child', None, 'Tp'), ('get_child_dyn', None, 'TpDyn'), ('parent', 'parent', 'Tp'), ('parent_dyn', 'parent', 'TpDyn'),
                             ('owner', 'owner', 'Tp'), ('owner_dyn', 'owner', 'TpDyn')):
        fn = ctx.inherent('NodeBase', name)
        W = World('node')
        seen = set()
        i = ('sym', fn.locals[2][1] or 'a2') if link is None else None
        for o in ctx.run(fn)[0]:
            F = facts(W, o)
            silent(ctx, name, o)
            tree = F.get(NBF('tree'))
            if tree == frozenset({'None'}):
                seen.add('stray')
                ctx.ob(o.kind == 'panic', name + ':stray', name + ' of a node outside of a tree does not panic', '', o.trace)
                continue
            if not ctx.ob(tree is not None, name + ':asks', name + ' does not ask whether the node is in a tree', '', o.trace):
                continue
            if o.kind == 'ub':
                ub_ok(ctx, name, W, o, F)
                continue
            if not ctx.ob(o.kind == 'ret', name + ':panics', name + ' panics for a node of a tree', '', o.trace):
                continue
            r = result_of(W, o.value)
            said = show(W.nz(o.value))[:200]
            if link is None:
                n = ('len', KIDS)
                c = compare(F, i, n)
                if c is None:
                    opt = F.get(('at', KIDS, i))
                    c = None if opt is None else 'Some' in opt
                if not ctx.ob(c is not None, name + ':bound', 'the index is not compared with the number of children', '', o.trace):
                    continue
                if c is False:
                    seen.add('range')
                    good = r is not None and r[:2] == ('Err', ('IndexOutOfRange',)) and sorted(map(repr, map(bare, r[2]))) == sorted(map(repr, (i, n))) and bare(dict_of(W, o)['index']) == i
                    ctx.ob(good, name + ':range', 'for an index out of range it gives ' + said, '', o.trace)
                    continue
                seen.add(judge(ctx, name, W, o, F, ('CH', S, i), kind))
            elif name == 'owner_dyn':
                p = ptr(W.nz(o.value))
                seen.add('pointer')
                ctx.ob(p == ('TpDyn', payload('owner')), name + ':pointer', 'instead of a pointer to the owner it gives ' + said, '', o.trace)
            else:
                L = F.get(NBF(link))
                if L is None or len(L) != 1:
                    ctx.ob(False, name + ':link', 'the %s is not looked at' % link, '', o.trace)
                elif L == frozenset({'None'}):
                    seen.add('none')
                    ctx.ob(link == 'parent' and r is not None and r[:2] == ('Err', ('NoParent',)), name + ':none', 'without a %s it gives %s' % (link, said), '', o.trace)
                else:
                    seen.add(judge(ctx, name, W, o, F, payload(link), kind))
        want = {'stray', 'pointer'} | ({'range'} if link is None else set()) | ({'none'} if link == 'parent' else set()) | ({'wrong-type'} if kind == 'Tp' else set())
        ctx.ob(want <= seen, name + ':cases', '%s: not all situations lead to a result, only %s' % (name, sorted(map(str, seen))))


def dict_of(W, o):
    v = W.nz(o.value)
    x = dict(v[3])['object'][3][0][1]
    return dict(x[3])


def child_list(ctx):
    fn = ctx.inherent('NodeBase', 'children')
    W = World('node')
    outs, I = ctx.run(fn)
    n = 0
    for o in outs:
        F = facts(W, o)
        silent(ctx, 'children', o)
        if F.get(NBF('tree')) == frozenset({'None'}):
            ctx.ob(o.kind == 'panic', 'children:stray', 'children of a node outside of a tree does not panic', '', o.trace)
            continue
        if o.kind == 'ub':
            ub_ok(ctx, 'children', W, o, F)
            continue
        if not ctx.ob(o.kind == 'ret', 'children:panics', 'children panics for a node of a tree', '', o.trace):
            continue
        n += 1
        v = W.nz(o.value)
        if v == ('vec', ()) and any(k[:2] == ('bin', 'Eq') and {bare(k[2]), bare(k[3])} == {('int', 0), ('len', KIDS)} and x is True for k, x in F.items()):
            continue
        fs = fates(I, W, o.trace, v)
        if not ctx.ob(fs is not None and W.nz(fs[0]) == KIDS, 'children:image', 'the result is not made from a complete walk over the child list: ' + show(v)[:200], '', o.trace):
            continue
        for Fe, vs in fs[1]:
            el = [x for x in vs]
            ok = len(el) == 1 and ptr(el[0]) is not None and ptr(el[0]) == ('TpDyn', E_)
            gone = any(k[:1] == ('haskey',) and x is False for k, x in Fe.items())
            ctx.ob(ok or gone and not el, 'children:each', 'a child turns into %s' % [show(x)[:160] for x in el], '', o.trace)
    ctx.floor(n, 1, 'paths of children')


def plain_facts(ctx):
    """accessors whose value is a boolean or a field"""
    def run(name):
        fn = ctx.inherent('NodeBase', name)
        W = World('node')
        outs = ctx.run(fn)[0]
        got = []
        for o in outs:
            silent(ctx, name, o)
            if o.kind == 'ub':
                ub_ok(ctx, name, W, o, facts(W, o))
                continue
            got.append((o, facts(W, o), W.nz(o.value) if o.kind == 'ret' else None))
        ctx.floor(len(got), 1, 'paths of ' + name)
        return got

    for name, f in (('depth', 'depth'), ('name', 'name'), ('has_just_loaded', 'loaded')):
        for o, F, v in run(name):
            ctx.ob(v is not None and bare(v) == NBF(f) or v in (TRUE, FALSE) and F.get(NBF(f)) is (v == TRUE), name + ':value', '%s gives %s' % (name, show(v) if v else 'a panic'), '', o.trace)
    for o, F, v in run('rid'):
        ctx.ob(v == S, 'rid:value', 'rid gives %s' % (show(v) if v else 'a panic'), '', o.trace)
    for name, want in (('in_tree', True), ('is_stray', False)):
        for o, F, v in run(name):
            for t in sorted(F.get(NBF('tree'), ('None', 'Some'))):
                r = None if v is None else evalb(v, {**F, NBF('tree'): t})
                ctx.ob(r is ((t == 'Some') == want), name + ':value', '%s gives %s' % (name, show(v) if v else 'a panic'), '', o.trace)
    for o, F, v in run('tree') + run('tree_mut'):
        L = F.get(NBF('tree'))
        r = p07.opt(v) if v else None
        if L == frozenset({'None'}):
            ctx.ob(r == ('None',), 'tree:none', 'the tree of a node outside of a tree is %s' % (show(v) if v else 'a panic'), '', o.trace)
        else:
            ctx.ob(L is not None and r is not None and r[0] == 'Some' and is_tree(r[1]), 'tree:value', 'the tree of a node is given as %s' % (show(v) if v else 'a panic'), '', o.trace)
    for o, F, v in run('is_root'):
        both = ('None', 'Some')
        ps, ts = F.get(NBF('parent'), both), F.get(NBF('tree'), both)
        for p in sorted(ps):
            for t in sorted(ts):
                r = None if v is None else evalb(v, {**F, NBF('parent'): p, NBF('tree'): t})
                ctx.ob(r is (p == 'None' and t == 'Some'), 'is_root:value', 'is_root gives %s where the parent is %s and the tree %s' % (show(v) if v else 'a panic', p, t), '', o.trace)
    for o, F, v in run('is_owner'):
        L = F.get(NBF('owner'))
        e = equal(F, payload('owner'), S)
        if L == frozenset({'None'}):
            ok = v == FALSE
        elif L == frozenset({'Some'}):
            ok = v == (TRUE if e else FALSE) if e is not None else v is not None and v[:2] == ('bin', 'Eq') and {plain(v[2]), plain(v[3])} == {payload('owner'), S}
        else:
            ok = v is not None and v[:2] == ('bin', 'Eq') and {show(plain(v[2])), show(plain(v[3]))} == {show(NBF('owner')), show(('adt', 'std::option::Option', 'Some', (('0', S),)))}
        ctx.ob(ok, 'is_owner:value', 'is_owner gives %s' % (show(v) if v else 'a panic'), '', o.trace)
    for name in ('num_children', 'childless'):
        for o, F, v in run(name):
            if F.get(NBF('tree')) == frozenset({'None'}):
                continue
            n = ('len', KIDS)
            z = equal(F, n, ('int', 0))
            if name == 'num_children':
                ok = v == n or z is True and v == ('int', 0)
            else:
                ok = v is not None and (v[:2] == ('bin', 'Eq') and {plain(v[2]), plain(v[3])} == {n, ('int', 0)} or z is not None and v == (TRUE if z else FALSE))
            ctx.ob(ok, name + ':value', '%s gives %s' % (name, show(v) if v else 'a panic'), '', o.trace)


def is_tree(t):
    while isinstance(t, tuple) and t[:1] in (('&',), ('ref',), ('deref',)) and len(t) == 2:
        t = t[1]
    return t in (('TREEPTR',), ('TREE',), ('T', 0), ('TREEDYN',))


def pointers(ctx):
    """a node's pointer to itself"""
    for name, kind in (('this', 'Tp'), ('this_dyn', 'TpDyn')):
        fn = ctx.inherent('NodeBase', name)
        W = World('node')
        n = 0
        for o in ctx.run(fn)[0]:
            F = facts(W, o)
            if F.get(NBF('tree')) == frozenset({'None'}):
                ctx.ob(o.kind == 'panic', name + ':stray', name + ' of a node outside of a tree does not panic', '', o.trace)
                continue
            if o.kind == 'ub':
                ub_ok(ctx, name, W, o, F)
                continue
            if o.kind == 'panic':
                ctx.ob(alive(F, S) is False or kind == 'Tp' and typed(F, S) is False, name + ':panics', name + ' panics although the node is there and of the asked type', '', o.trace)
                continue
            n += 1
            ctx.ob(ptr(W.nz(o.value)) == (kind, S), name + ':pointer', '%s gives %s' % (name, show(W.nz(o.value))[:200]), '', o.trace)
        ctx.floor(n, 1, 'paths of ' + name)


def check(ctx):
    relatives(ctx)
    child_list(ctx)
    plain_facts(ctx)
    pointers(ctx)
