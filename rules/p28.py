"""Bulk lookups: each of the four bulk lookups is shown to walk the given ids once, in order and to the end, adding for every id exactly the node the table holds for it (or an empty slot, or nothing, for an unknown id), and the mutable ones to reach that walk only past a check that no id is given twice."""
from world import *
from rule import *
import p07

RULE = 'result == in-order image of the given ids under the table lookup; mutable variants guarded by a duplicate check that panics'


def distinct(ctx, I, W, o, lst):
    """does this path know that the list has no duplicates (True), has some (False), or neither (None)?"""
    F = facts(W, o)
    for a, b, t in eq_facts({k: v for k, v in F.items() if isinstance(v, bool)}):
        for x, y in ((a, b), (b, a)):
            if x == ('len', lst) and y[:1] == ('len',) and y[1][:1] == ('seqmap',) and y[1][5] == 'set' and y[1][3] == lst:
                el = plain(W.nz(place(y[1][2])))
                if el in (('fld', lst, ('i', y[1][1])),):
                    return t
    # a set that every id is put into
    for l in loops(o.trace):
        w = walk_of(l)
        if not w or W.nz(w[2]) != lst:
            continue
        el = ('fld', lst, ('i', ('ix', w[0])))
        good = bool(l.extra)
        for b in l.extra:
            hk = [v for k, v in body_bools(W, b).items() if k[:1] == ('haskey',) and plain(place(k[2])) == el]
            ins = [e for e in flat(b) if e.kind == 'write' and e.name == 'map.insert' and plain(place(W.nz(e.args[1]))) == el]
            good = good and hk == [False] and len(ins) == 1
        if good:
            if completed(o.trace, w[0]):
                return True
            if any(v is True and k[:1] == ('haskey',) and plain(place(k[2])) == el for k, v in F.items() if isinstance(k, tuple)):
                return False
    return None


def check(ctx):
    W = World('tree')
    for n, slots, mut in (('get_nodes', True, False), ('get_all_valid_nodes', False, False), ('get_nodes_mut', True, True), ('get_all_valid_nodes_mut', False, True)):
        fn = ctx.inherent('NodeTreeBase', n)
        ids = ('sym', fn.locals[2][1] or 'a2')
        lst = ('obj', ids, 0)
        outs, I = ctx.run(fn)
        rets = 0
        for o in outs:
            d = distinct(ctx, I, W, o, lst) if mut else None
            if o.kind != 'ret':
                ctx.ob(mut and o.kind == 'panic' and d is False, n + ':panics', 'a bulk lookup panics although no id was found to be given twice', '', o.trace)
                continue
            rets += 1
            if mut:
                ctx.ob(d is True, n + ':duplicates', 'mutable references are handed out without knowing that no id is given twice', '', o.trace)
            v = plain(W.nz(o.value))
            m = members(I, W, o.trace, v)
            if not ctx.ob(m is not None and completed(o.trace, m[0][0]), n + ':image', 'the result is not collected from a walk over the given ids: ' + show(v), '', o.trace):
                continue
            w, base, bodies = m
            ctx.ob(W.nz(base) == lst, n + ':ids', 'the walk is not over the given ids in their order: ' + show(W.nz(base)), '', o.trace)
            el = ('fld', lst, ('i', ('ix', w[0])))
            seen = set()
            for b, vs in bodies:
                has = has_key(body_bools(W, b), el)
                if not ctx.ob(has is not None, n + ':looked-up', 'an id is not looked up in the table', '', b):
                    continue
                seen.add(has)
                node = ('NP', el, 0)
                if has:
                    want = [('Some', node)] if slots else [node]
                    got = [p07.opt(x) if slots else plain(x) for x in vs]
                    got = [('Some', plain(x[1])) if x and x[0] == 'Some' else x for x in got] if slots else got
                    ctx.ob(got == want, n + ':found', 'a known id gives %s' % [show(x) for x in vs], '', b)
                elif slots:
                    ctx.ob([p07.opt(x) for x in vs] == [('None',)], n + ':missing', 'an unknown id does not give an empty slot', '', b)
                else:
                    ctx.ob(vs == [], n + ':missing', 'an unknown id gives something', '', b)
            ctx.ob(seen == {True, False}, n + ':cases', 'known and unknown ids are not told apart')
            ws = [e for e in flat(o.trace) if e.kind == 'write' and not e.name.startswith(('vec.push', 'map.insert'))]
            ctx.ob(not ws, n + ':changes', 'a bulk lookup changes the tree', where(ws[0]) if ws else '', o.trace)
        ctx.floor(rets, 1, 'paths of ' + n)
