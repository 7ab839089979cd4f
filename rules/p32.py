"""Walking down from a node: the walk is reduced to its step from one layer of nodes to the next. The step is shown to give all children of all nodes of the layer, in order, by following the collecting walks from one element of the layer to what it contributes; the list that is handed on gets exactly that layer appended, and the walk ends exactly when a layer is empty. Recursion and loops are both reduced to that step."""
from world import *
from rule import *

RULE = 'next layer = concatenated child lists of the layer; result = (node itself if asked) ++ layer 1 ++ layer 2 ++ ... until a layer is empty'


def gone(F):
    """does a path concern an id that is not registered?"""
    return any(k[:1] == ('haskey',) and t is False for k, t in F.items() if isinstance(t, bool))


def unwrapped(s):
    s = plain(s)
    while s[:1] in (('cloned',), ('copied',), ('seq',)) and len(s) > 1:
        s = plain(s[1])
    return s


def pushes_all(W, l, trace, acc, seq):
    """a loop that pushes exactly the elements of seq, in order, to acc"""
    w = walk_of(l)
    if not w or not w[1] or not completed(trace, w[0]) or unwrapped(W.nz(w[2])) != seq:
        return False
    el = ('fld', seq, ('i', ('ix', w[0])))
    for b in l.extra:
        ws = [e for e in flat(b) if e.kind == 'write']
        if len(ws) != 1 or ws[0].name != 'vec.push' or not contains(ws[0].args[0], acc) or plain(W.nz(ws[0].args[1])) not in (el, W.nz(el)):
            return False
    return True


def next_layer(I, W, trace, v, layer):
    """is v the list of all children of all (registered) elements of the sequence layer, in order? -> (ok, why)"""
    v = W.nz(v)
    if v[:1] == ('seqmap',) and v[3][:1] == ('flat',):
        src = v[3][1]
        while src[:1] in (('filter',), ('filter_map',)):
            src = src[1]
        inner = fates(I, W, trace, src)
        if inner is None or plain(inner[0]) != layer:
            return False, 'the walk is over %s' % show(src)
        m = members(I, W, trace, v)
        if m is None or not completed(trace, m[0][0]):
            return False, 'the walk over a layer does not reach its end'
        el = ('fld', src, ('i', ('ix', m[0][0])))
        for F, vals in inner[1]:
            if not vals:
                if not gone(F):
                    return False, 'nodes of a layer are left out'
                continue
            if len(vals) != 1:
                return False, 'nodes of a layer are visited twice'
            got = []
            for b, vs in m[2]:
                G = dict(F)
                if not all([merge_fact(G, W.nz(simp(I, subst(k, el, vals[0]))), t) for k, t in trace_facts(W, b).items()]) or gone(G):
                    continue
                if not vs and any(k[:1] != ('haskey',) for k in G):
                    return False, 'some children are left out'
                got += [(x, G) for x in vs]
            r = [W.nz(simp(I, subst(x, el, vals[0]))) for x, G in got]
            if [x[:2] for x in r] != [('CH', E_)] or r[0][2] not in (('ix', (m[0][0], 'flat')), ('ix', (v[1][1], 'flat'))) or any(k[:1] != ('haskey',) for k in got[0][1]):
                return False, 'a node contributes %s' % [show(x) for x in r]
        return True, ''
    if v[:1] == ('seqmap',) and v[3] == layer:
        return False, 'a layer gives %s' % show(v)[:200]
    if v[:1] == ('phi',):
        return folded(I, W, trace, v, layer)
    # a layer of which the single element is known
    return False, 'the next layer is %s' % show(v)[:200]


def folded(I, W, trace, v, layer, start=('vec', ())):
    """an accumulator that a walk over the layer extends by the children of each element"""
    l = next((x for x in all_loops(trace) if x.name == v[1]), None)
    if l is None:
        return False, 'the next layer is %s' % show(v)
    w = walk_of(l)
    if not w or not w[1] or not completed(trace, w[0]):
        return False, 'the walk over a layer does not reach its end'
    f = fates(I, W, trace, w[2])
    if f is None or plain(f[0]) != layer:
        return False, 'the walk is over %s' % show(w[2])
    init = W.nz(I.phis[v][0])
    if init != start:
        return False, 'the next layer begins with %s' % show(init)
    seq = W.nz(w[2])
    el = ('fld', seq, ('i', ('ix', w[0])))
    for F, vals in f[1]:
        if not vals:
            if not any(k[:1] == ('haskey',) and t is False for k, t in F.items() if isinstance(t, bool)):
                return False, 'nodes of a layer are left out'
            continue
        for b, nx in zip(l.extra, I.body_phi[l.name]):
            G = {}
            if not all([merge_fact(G, W.nz(simp(I, subst(k, el, vals[0]))), t) for k, t in trace_facts(W, b).items()]):
                continue
            if any(k[:1] == ('haskey',) and t is False or k[:1] == ('app',) and False for k, t in G.items() if isinstance(t, bool)):
                continue
            to = W.nz(simp(I, subst(W.nz(nx.get(v, v)), el, vals[0])))
            ok = to[:1] == ('vappend',) and to[1] == v and to[2][:2] == ('CHILDREN', E_)
            if not ok and to[:1] == ('vappend',) and to[1] == v:
                g = fates(I, W, b, W.nz(nx.get(v, v))[2])
                ok = g is not None and W.nz(simp(I, subst(g[0], el, vals[0])))[:2] == ('CHILDREN', E_) and all(x == [E_] for _, x in g[1])
            if not ok and to[:1] == ('phi',):
                # an inner loop that pushes the children
                q = W.nz(nx.get(v, v))
                li = next((x for x in all_loops(b) if x.name == q[1]), None)
                wi = walk_of(li) if li is not None else None
                ok = bool(wi and wi[1] and completed(b, wi[0])) and W.nz(I.phis[q][0]) == v and W.nz(simp(I, subst(W.nz(wi[2]), el, vals[0])))[:2] == ('CHILDREN', E_)
                if ok:
                    ei = ('fld', W.nz(wi[2]), ('i', ('ix', wi[0])))
                    ei = (ei, W.nz(ei))
                    ok = all(W.nz(x.get(q, q))[:2] == ('push', q) and plain(W.nz(x.get(q, q))[2]) in ei for x in I.body_phi[li.name])
            if not ok and to != v:
                return False, 'a node contributes %s' % show(to)[:200]
            if not ok and not (G.get(('bin', 'Eq', ('int', 0), ('len', ('CHILDREN', E_, 0)))) is True):
                return False, 'a node contributes nothing'
    return True, ''


def lone(ctx, o, F):
    if F.get(('fld', ('NB', ('SELF',), 0), 'tree')) == {'None'}:
        ctx.ob(o.kind == 'panic', 'lone', 'walking down from a node outside of a tree does not panic', '', o.trace)
        return True
    return not ctx.ob(o.kind == 'ret', 'aborts', 'walking down from a node can abort', '', o.trace)


def empty(F, v):
    for k, t in F.items():
        if isinstance(t, bool) and k[:2] == ('bin', 'Eq') and {k[2], k[3]} == {('int', 0), ('len', v)}:
            return t


def unfront(v, S):
    """the list before the node was put in front of it, and whether it was"""
    if v[:1] == ('vinsert',) and v[2] == ('int', 0) and v[3] == S:
        return v[1], True
    return v, False


def check(ctx):
    W = World('node')
    S = ('SELF',)
    fn = ctx.inherent('NodeBase', 'top_down')
    flag = ('sym', fn.locals[2][1] or 'a2')
    outs, I = ctx.run(fn)
    keys = {e.extra for o in outs for e in flat(o.trace) if e.kind == 'rec'}
    if keys:
        if not ctx.ob(len(keys) == 1, 'one-walk', 'walking down uses several recursive functions'):
            return
        g = ctx.P.fns[keys.pop()]
        nm = I.localname(g)
        if g.key == fn.key:
            ctx.ob(False, 'layers', 'the walk is not from layer to layer')
            return
        at = step(ctx, g, I)
        outs, I = ctx.run(fn, opaque={nm})
        for o in outs:
            F = facts(W, o)
            if F.get(('fld', ('NB', S, 0), 'tree')) == {'None'} or not ctx.ob(o.kind == 'ret', 'aborts', 'walking down can abort', '', o.trace):
                continue
            cs = calls(o.trace, nm)
            if not ctx.ob(len(cs) == 1 and F.get(flag) is not None, 'start', 'walking down does not start one walk, or does not look at whether the node is included', '', o.trace):
                continue
            a = [W.nz(x) for x in cs[0].args]
            v, put = unfront(W.nz(o.value), S)
            first = ('vec', (S,)) if F[flag] and not put else ('vec', ())
            ctx.ob(F[flag] or not put, 'start:selfFalse', 'the list of a walk without the node begins with it', where(cs[0]), o.trace)
            lay = [i for i, x in enumerate(a) if x in (('vec', (S,)), ('&', ('vec', (S,))))]
            ctx.ob(lay == [at], 'start:layer', 'the walk does not start with the node', where(cs[0]), o.trace)
            ctx.ob(v[:1] == ('mut',) and v[3] == first and W.nz(v[1]) == W.nz(cs[0].ret), 'start:self' + str(F[flag]), 'the list of a walk %s the node begins as %s' % ('with' if F[flag] else 'without', show(v[3] if v[:1] == ('mut',) else v)), where(cs[0]), o.trace)
        return
    # ------------------------------------------------ a loop over layers, or over the list itself
    n = 0
    for o in outs:
        F = facts(W, o)
        if lone(ctx, o, F) or any(k[:1] == ('haskey',) and t is False for k, t in F.items() if isinstance(t, bool)):
            continue
        n += 1
        v, put = unfront(W.nz(o.value), S)
        first = ('vec', (S,)) if F.get(flag) and not put else ('vec', ())
        ctx.ob(F.get(flag) is True or not put, 'start:selfFalse', 'the list of a walk without the node begins with it', '', o.trace)
        ctx.ob(F.get(flag) is not None, 'start', 'walking down does not look at whether the node is included', '', o.trace)
        done = False
        if v[:1] == ('phi',):
            l = next((x for x in loops(o.trace) if x.name == v[1]), None)
            lay = [P for P, x in I.phis.items() if l is not None and P[1] == l.name and P != v and W.nz(x[0]) == ('vec', (S,))]
            for P in lay:
                done = True
                ctx.ob(W.nz(I.phis[v][0]) == first, 'start:self' + str(F.get(flag)), 'the list of a walk begins as %s' % show(W.nz(I.phis[v][0])), '', o.trace)
                for b, nx in zip(l.extra, I.body_phi[l.name]):
                    G = trace_facts(W, b)
                    if any(k[:1] == ('haskey',) and t is False and k[2][:1] != ('fld',) for k, t in G.items() if isinstance(t, bool)):
                        continue
                    to = W.nz(nx.get(P, P))
                    ok, why = next_layer(I, W, b, to, P)
                    ctx.ob(ok, 'layer', 'a layer is not all children of the one before: ' + why, '', b)
                    ctx.ob(appended(I, W, b, W.nz(nx.get(v, v)), v, to), 'appended', 'not exactly the next layer is added to the list: %s' % show(W.nz(nx.get(v, v)))[:200], '', b)
                # ends only with an empty layer
                end = False
                for l2 in (P,):
                    end = empty(F, P) is True
                if not end:
                    for k, t in F.items():
                        if isinstance(t, bool) and t and k[:2] == ('bin', 'Eq') and ('int', 0) in k[2:]:
                            q = k[3] if k[2] == ('int', 0) else k[2]
                            if q[:1] == ('len',) and next_layer(I, W, o.trace, q[1], P)[0]:
                                end = True
                ctx.ob(end, 'ends', 'a walk ends although there is a next layer', '', o.trace)
        ctx.ob(done, 'layers', 'the walk is not from layer to layer: %s' % show(v)[:200], '', o.trace)
    ctx.floor(n, 2, 'paths of top_down')


def appended(I, W, trace, t, v, to):
    """is t the list v with the list to behind it?"""
    if t[:2] == ('vappend', v):
        return plain(t[2]) == to
    if t[:1] == ('phi',) and W.nz(I.phis[t][0]) == v:
        l = next((x for x in all_loops(trace) if x.name == t[1]), None)
        w = walk_of(l) if l is not None else None
        if not w or not w[1] or not completed(trace, w[0]) or unwrapped(W.nz(w[2])) != to:
            return False
        el = ('fld', to, ('i', ('ix', w[0])))
        return all(W.nz(x.get(t, t))[:2] == ('push', t) and plain(W.nz(x.get(t, t))[2]) in (el, W.nz(el)) for x in I.body_phi[l.name])
    return False


def step(ctx, g, I0):
    S = ('SELF',)
    W = World('node')
    outs, I = ctx.run(g)
    at = None
    seen = set()
    for o in outs:
        F = facts(W, o)
        if lone(ctx, o, F):
            continue
        recs = [e for e in flat(o.trace) if e.kind == 'rec']
        ws = [e for e in o.trace if e.kind == 'write']
        if recs:
            seen.add('step')
            a = [W.nz(x) for x in recs[0].args]
            if not ctx.ob(len(recs) == 1 and len(a) == 3, 'one-step', 'the walk does not go on with one layer', where(recs[0]), o.trace):
                continue
            syms = [('sym', g.locals[i][1] or 'a%d' % i) for i in (2, 3)]
            li = [i for i in (1, 2) if plain(a[i]) != syms[i - 1]]
            if not ctx.ob(len(li) == 1, 'one-step', 'the walk does not go on with one layer', where(recs[0]), o.trace):
                continue
            at = li[0]
            layer, acc = syms[li[0] - 1], syms[2 - li[0]]
            new = plain(a[li[0]])
            ok, why = next_layer(I, W, o.trace, new, layer)
            ctx.ob(ok, 'layer', 'a layer is not all children of the one before: ' + why, where(recs[0]), o.trace)
            ctx.ob(plain(a[2 - li[0] + 1]) == acc, 'list', 'the list of the walk is not handed on', where(recs[0]), o.trace)
            ap = [e for e in ws if e.name in ('vec.append', 'vec.extend') and contains(e.args[0], acc)]
            ls = [l for l in loops(o.trace) if any(e.kind == 'write' and e.name.startswith('vec.') and contains(e.args[0], acc) for b in l.extra for e in flat(b))]
            how = ap + ls
            ok = len(how) == 1 and o.trace.index(how[0]) < o.trace.index(recs[0])
            ok = ok and (plain(W.nz(ap[0].args[1])) == new if ap else pushes_all(W, ls[0], o.trace, acc, new))
            ctx.ob(ok and not [e for e in ws if e not in ap and contains(e.args[0], acc)], 'appended', 'not exactly the next layer is added to the list before going on', where(recs[0]), o.trace)
            continue
        seen.add('end')
        es = [k for k, t in F.items() if t is True and k[:2] == ('bin', 'Eq') and ('int', 0) in k[2:]]
        ok = False
        for k in es:
            q = k[3] if k[2] == ('int', 0) else k[2]
            for i in (2, 3):
                sy = ('sym', g.locals[i][1] or 'a%d' % i)
                if q[:1] == ('len',) and (plain(q[1]) == sy or next_layer(I, W, o.trace, q[1], sy)[0]):
                    ok = True
        ctx.ob(ok, 'ends', 'a walk ends although there is a next layer', '', o.trace)
        ctx.ob(not [e for e in flat(o.trace) if e.kind == 'write' and any(contains(e.args[0], ('sym', g.locals[i][1] or 'a%d' % i)) for i in (2, 3))], 'end-adds', 'the end of a walk changes its list', '', o.trace)
    ctx.ob(seen == {'step', 'end'}, 'cases', 'a walk does not tell the last layer from others')
    return at
