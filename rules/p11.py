"""Paths as text: parsing is reduced, through all its walks over the pieces of the text, to what becomes of one piece, decided by cases of what the piece is (empty, '.', '..', anything else); printing and the path of a node are reduced to their accumulator: what the text is at the start, what one step adds to it in each case, and when it ends."""
from world import *
from rule import *
import p07

RULE = 'one piece: empty -> nothing, "." -> This, ".." -> Parent, other -> Node(piece); absolute iff leading slash; printing adds exactly the text of each segment with slashes in between; the path of a node prepends the names up to the root'
LITS = ('', '.', '..')


def truth_of(k, piece, cls):
    """truth of a condition on the text of a piece of a class; None if it does not settle it"""
    if k[:2] in (('bin', 'Eq'), ('bin', 'Ne')):
        a, b = plain(k[2]), plain(k[3])
        for x, y in ((a, b), (b, a)):
            if x == piece and y[:1] == ('str',) and y[1] in LITS:
                return (y[1] == cls) == (k[1] == 'Eq')
            if x in (('len', piece), ('app', 'str::len', (piece,), None)) and y == ('int', 0):
                return (cls == '') == (k[1] == 'Eq')
    if k[:2] == ('un', 'Not'):
        r = truth_of(k[2], piece, cls)
        return None if r is None else not r


def seg(v):
    """(kind, text) of a segment"""
    if v[:1] == ('adt',) and v[1].endswith('PathSeg'):
        return (v[2], plain(v[3][0][1]) if v[3] else None)


WANT = {'': [], '.': [('This', None)], '..': [('Parent', None)]}


def piece_cases(ctx, fates_, piece, key, path):
    for cls in LITS + ('other',):
        got = []
        for F, vs in fates_:
            c = [truth_of(k, piece, cls) for k, v in F.items() if isinstance(v, bool)]
            w = [v for k, v in F.items() if isinstance(v, bool)]
            if any(a is not None and a != b for a, b in zip(c, w)):
                continue
            extra = [k for a, k in zip(c, [k for k, v in F.items() if isinstance(v, bool)]) if a is None]
            ctx.ob(not extra, key + ':depends', 'what becomes of a piece of a path depends on %s' % (show(extra[0])[:150] if extra else ''), '', path)
            got.append([seg(v) for v in vs])
        want = WANT.get(cls, [('Node', piece)])
        ctx.ob(bool(got) and all(g == want for g in got), '%s:piece:%s' % (key, cls or 'empty'), 'a piece %r of a path becomes %s' % (cls or '(empty)', ' or '.join(str([x and x[0] for x in g]) for g in got) or 'unclear'), '', path)


def parsing(ctx):
    W = World(None)
    fn = ctx.inherent('NodePath', 'from_str')
    txt = ('sym', fn.locals[1][1] or 'a1')
    outs, I = ctx.run(fn)
    for o in outs:
        if not ctx.ob(o.kind == 'ret' and o.value[:1] == ('adt',), 'parse:aborts', 'parsing a path can abort', '', o.trace):
            continue
        d = {k: W.nz(v) for k, v in o.value[3]}
        F = facts(W, o)
        lead = [(k, v) for k, v in F.items() if isinstance(v, bool) and k[:2] == ('app', 'str::starts_with')]
        slash = lambda t: t[:2] == ('app', 'str::starts_with') and plain(t[2][0]) == txt and t[2][1] in (('char', '/'), ('str', '/'), ('int', 47), ('char', 47))
        ab = d.get('abs')
        ok = slash(ab) or ab in (TRUE, FALSE) and len(lead) == 1 and slash(lead[0][0]) and lead[0][1] == (ab == TRUE)
        ctx.ob(ok, 'parse:absolute', 'whether a path is absolute is %s, not whether its text begins with a slash' % show(ab), '', o.trace)
        f = fates(I, W, o.trace, d.get('path', ('?',)))
        if not ctx.ob(f is not None and f[0][:2] == ('app', 'str::split') and text_of(f[0][2][0], txt, o, ab) and f[0][2][1] in (('char', '/'), ('str', '/'), ('char', 47)), 'parse:pieces', 'the segments of a path are not made from all the pieces of its text between slashes, in order: %s' % show(d.get('path'))[:200], '', o.trace):
            continue
        piece_cases(ctx, f[1], E_, 'parse', o.trace)


def text_of(t, txt, o, ab):
    """the text, with or without leading slashes"""
    t = plain(t)
    if t[:1] == ('app',) and t[1].split('::')[-1] in ('trim_start_matches', 'trim_matches', 'trim_end_matches') and len(t[2]) > 1 and t[2][1] in (('char', '/'), ('str', '/'), ('char', 47)):
        t = plain(t[2][0])
    return t == txt


def adding(ctx):
    W = World(None)
    fn = ctx.inherent('NodePath', 'add_node')
    nm = ('sym', fn.locals[2][1] or 'a2')
    outs, I = ctx.run(fn)
    old = ('fld', ('obj', ('sym', 'self'), 0), 'path')
    fs = []
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'add:aborts', 'adding to a path can abort', '', o.trace):
            continue
        F = {k: v for k, v in facts(W, o).items() if isinstance(v, bool)}
        ws = [e for e in o.trace if e.kind == 'write' and not e.name.startswith('vec.retain.')]
        push = [e for e in ws if e.name == 'vec.push' and contains(place(W.nz(e.args[0])), ('sym', 'self'))]
        rest = [e for e in ws if e not in push and e.name != 'vec.retain']
        ctx.ob(not rest and len(push) <= 1, 'add:changes', 'adding to a path does something else to it: %s' % (rest[0].name if rest else ''), where(rest[0]) if rest else '', o.trace)
        ret = [e for e in ws if e.name == 'vec.retain']
        if not push:
            ctx.ob(not ret, 'add:removes', 'adding to a path removes from it', where(ret[0]) if ret else '', o.trace)
            fs.append((F, []))
            continue
        v = W.nz(push[0].args[1])
        if not ret:
            fs.append((F, [v]))
            continue
        ls = [l for l in loops(o.trace) if any(e.name.startswith('vec.retain.') for b in l.extra for e in b if e.kind == 'write')]
        for l in ls:
            el = element(I, W, walk_of(l))
            bodies = [(trace_facts(W, b), [el] if any(e.name == 'vec.retain.keep' for e in b) else []) for b in l.extra]
            fs += compose(I, [(F, [v])], el, bodies)
            # segments that were there: only empty names may go (there are none)
            for g, vs in bodies:
                if vs:
                    continue
                name = ('fld', el, 'Node.0')
                gone = any(isinstance(t, bool) and truth_of(k, name, '') is True and t or isinstance(t, bool) and truth_of(k, name, '') is False and not t for k, t in g.items())
                ctx.ob(gone and g.get(el) == {'Node'}, 'add:others', 'adding to a path can remove other segments than empty ones', '', o.trace)
    piece_cases(ctx, fs, nm, 'add', None)


def printing(ctx):
    W = World(None)
    fn = ctx.inherent('NodePath', 'to_string')
    outs, I = ctx.run(fn, base=OPAQUE - {'NodePath::to_string'})
    me = ('sym', 'self')
    done = set()
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'print:aborts', 'printing a path can abort', '', o.trace):
            continue
        F = facts(W, o)
        ab = [v for k, v in F.items() if isinstance(v, bool) and k[:1] == ('fld',) and k[2] == 'abs' and plain(k[1]) == me]
        v = plain(W.nz(o.value))
        lead = ''
        while v[:1] == ('cat',) and v[1] and v[1][0][:1] == ('str',):
            lead += v[1][0][1]
            v = ('cat', v[1][1:]) if len(v[1]) > 2 else plain(v[1][1])
        segs = ('fld', me, 'path')
        if v[:1] == ('phi',):
            init, backs = I.phis[v]
            init = plain(W.nz(init))
            l = next(l for l in loops(o.trace) if l.name == v[1])
            if not ctx.ob(init[:1] == ('str',), 'print:begin', 'the text of a path begins with %s' % show(init), '', o.trace):
                continue
            lead += init[1]
            path = [P for P, x in I.phis.items() if P[1] == v[1] and plain(W.nz(x[0])) in (me, segs)]
            w = walk_of(l)
            for b, nx in zip(l.extra, I.body_phi[l.name]):
                G = trace_facts(W, b)
                acc = flat_text(W.nz(nx.get(v, v)))
                if w:
                    el = element(I, W, w)
                    ok = plain(W.nz(w[2])) == segs and w[1] and completed(o.trace, w[0])
                    ix, n1 = ('ix', w[0]), ('len', segs)
                    nxt = [('bin', 'Add', *p_) for p_ in ((ix, ('int', 1)), (('int', 1), ix))]
                    lst = ('bin', 'Sub', n1, ('int', 1))
                    before = more = None
                    for k, t in G.items():
                        if isinstance(t, bool) and k in I.phis and k[:2] == ('phi', v[1]) and nx.get(k) is not None:
                            i0, to = W.nz(I.phis[k][0]), {W.nz(x.get(k, k)) for x in I.body_phi[l.name]}
                            if i0 in (TRUE, FALSE) and to == {FALSE if i0 == TRUE else TRUE}:
                                before = t != (i0 == TRUE)      # a flag that tells the first round from the others
                        if not isinstance(t, bool) or k[:1] != ('bin',):
                            continue
                        a, c = k[2], k[3]
                        if k[1] in ('Eq', 'Ne') and {a, c} == {ix, ('int', 0)}:
                            before = t == (k[1] == 'Ne')
                        elif k[1:] == ('Lt', ('int', 0), ix):
                            before = t
                        elif k[1] == 'Lt' and a in nxt and c == n1 or k[1:] == ('Lt', ix, lst):
                            more = t
                        elif k[1] in ('Eq', 'Ne') and (a in nxt and c == n1 or c in nxt and a == n1 or {a, c} == {ix, lst}):
                            more = t == (k[1] == 'Ne')
                    ctx.ob(ok, 'print:all', 'printing does not walk over all segments in order', '', o.trace)
                else:
                    if not ctx.ob(len(path) == 1, 'print:walk', 'printing is not a walk over the segments', '', o.trace):
                        continue
                    P = path[0]
                    whole = P if plain(W.nz(I.phis[P][0])) == segs else ('fld', P, 'path')
                    el = ('fld', whole, ('i', ('int', 0)))
                    to = W.nz(nx.get(P, P))
                    rest = ('vremove', whole, ('int', 0))
                    took = to == rest if whole == P else to[0] == 'upd' and to[2] == (('path', rest),)
                    ctx.ob(took, 'print:all', 'printing does not take one segment after the other', '', o.trace)
                    more, before = None, None
                    for k, t in G.items():
                        if isinstance(t, bool) and k[:2] == ('bin', 'Eq') and ('int', 0) in k[2:] and contains(k, ('len', whole)) and contains(k, ('int', 1)):
                            more = not t
                        elif isinstance(t, bool) and k[:2] == ('bin', 'Eq') and {k[2], k[3]} == {('int', 1), ('len', whole)}:
                            more = not t
                kinds = G.get(el)
                if not ctx.ob(kinds is not None and acc[:1] == [v], 'print:step', 'printing a segment gives %s' % show(W.nz(nx.get(v, v)))[:150], '', b):
                    continue
                for k in kinds:
                    t = {'This': ['.'], 'Parent': ['..'], 'Node': [('fld', el, 'Node.0')]}[k]
                    if more is not None:
                        t = t + (['/'] if more else [])
                    elif before is not None:
                        t = (['/'] if before else []) + t
                    ctx.ob((more is not None or before is not None) and acc[1:] == merge_text(t), 'print:text:' + k, 'a segment of a path is printed as %s' % [x if isinstance(x, str) else show(x) for x in acc[1:]], '', b)
                    done.add(k)
            if path and not w:
                P = path[0]
                whole = P if plain(W.nz(I.phis[P][0])) == segs else ('fld', P, 'path')
                end = any(isinstance(t, bool) and k[:2] == ('bin', 'Eq') and {k[2], k[3]} == {('int', 0), ('len', whole)} and t for k, t in F.items())
                ctx.ob(end, 'print:end', 'printing ends before all segments are printed', '', o.trace)
        elif v[:1] == ('app',) and v[1].split('::')[-1] == 'join':
            sq = W.nz(v[2][0])
            f = fates(I, W, o.trace, sq[1] if sq[:1] in (('&',), ('obj',)) else sq)
            ok = f is not None and plain(f[0]) == segs and v[2][1] == ('str', '/')
            if ctx.ob(ok, 'print:walk', 'printing does not join the texts of all segments with slashes', '', o.trace):
                for G, vs in f[1]:
                    for k in G.get(E_, ()):
                        t = {'This': ('str', '.'), 'Parent': ('str', '..'), 'Node': ('fld', E_, 'Node.0')}[k]
                        ctx.ob([plain(x) for x in vs] == [t], 'print:text:' + k, 'a segment of a path is printed as %s' % [show(x) for x in vs], '', o.trace)
                        done.add(k)
        elif not ctx.ob(False, 'print:walk', 'printing is not a walk over the segments: %s' % show(v)[:150], '', o.trace):
            continue
        ctx.ob(bool(ab) and lead == ('/' if ab[0] else ''), 'print:lead', 'the text of a path begins with %r' % lead, '', o.trace)
    ctx.ob(done == {'This', 'Parent', 'Node'}, 'print:kinds', 'segments that are never printed: %s' % sorted({'This', 'Parent', 'Node'} - done))
    # ------------------------------------------------ taking the first segment
    fn = ctx.inherent('NodePath', 'pop_front_as_string')
    outs, I = ctx.run(fn)
    segs = ('fld', ('obj', me, 0), 'path')
    first = ('fld', segs, ('i', ('int', 0)))
    seen = set()
    for o in outs:
        F = facts(W, o)
        ctx.ob(o.kind == 'ret', 'pop:aborts', 'taking the first segment can abort', '', o.trace)
        empty = F.get(('bin', 'Eq', ('int', 0), ('len', segs)))
        r = p07.opt(W.nz(o.value))
        pops = [e for e in flat(o.trace) if e.kind == 'write']
        if empty:
            seen.add('none')
            ctx.ob(r == ('None',) and not pops, 'pop:empty', 'an empty path has a first segment', '', o.trace)
            continue
        ctx.ob(len(pops) == 1 and pops[0].name == 'vec.pop' and pops[0].args[1:] in ((('str', 'front'),), ('front',)), 'pop:takes', 'taking the first segment changes the path in another way', '', o.trace)
        for k in F.get(first, ()):
            t = {'This': ('str', '.'), 'Parent': ('str', '..'), 'Node': ('fld', first, 'Node.0')}[k]
            ctx.ob(r is not None and r[0] == 'Some' and plain(r[1]) == t, 'pop:text:' + k, 'the first segment is given as %s' % show(W.nz(o.value)), '', o.trace)
            seen.add(k)
    ctx.ob(seen == {'none', 'This', 'Parent', 'Node'}, 'pop:cases', 'taking the first segment does not look at it')
    for n, b in (('new', FALSE), ('new_abs', TRUE)):
        for o in ctx.run(ctx.inherent('NodePath', n))[0]:
            ctx.ob(o.kind == 'ret' and o.value[:1] == ('adt',) and dict(o.value[3]) == {'path': ('vec', ()), 'abs': b}, 'empty:' + n, 'NodePath::%s gives %s' % (n, show(o.value)), '', o.trace)
    for o in ctx.run(ctx.inherent('NodePath', 'is_absolute'))[0]:
        ctx.ob(o.kind == 'ret' and W.nz(o.value) == ('fld', ('obj', me, 0), 'abs'), 'is_absolute', 'is_absolute gives %s' % show(o.value), '', o.trace)


def now(t):
    """reads of nodes regardless of when (nothing here changes a node)"""
    if isinstance(t, tuple):
        if t[:1] == ('NB',) and len(t) == 3:
            return ('NB', now(t[1]), 0)
        return tuple(now(x) for x in t)
    return t


def flat_text(t):
    """pieces of a text, literals merged"""
    t = plain(now(t))
    if t[:1] == ('cat',):
        r = []
        for x in t[1]:
            r += flat_text(x)
        return merge_text(r)
    return [t[1]] if t[:1] == ('str',) else [t]


def merge_text(ts):
    r = []
    for x in ts:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        elif x != '':
            r.append(x)
    return r


# ------------------------------------------------------------ the path of a node
def node_path(ctx):
    fn = ctx.inherent('NodeBase', 'get_absolute_path')
    S = ('SELF',)
    W = World('node')
    outs, I = ctx.run(fn, opaque={'NodePath::from_str'})
    starts = set()
    seen = set()
    for o in outs:
        F = facts(W, o)
        if skip(ctx, o, F, S):
            continue
        cs = calls(o.trace, 'NodePath::from_str')
        if not ctx.ob(len(cs) == 1 and W.nz(o.value) == W.nz(cs[0].ret), 'node:parsed', 'the path of a node is not its text parsed', '', o.trace):
            continue
        txt = W.nz(cs[0].args[0])
        recs = [e for e in flat(o.trace) if e.kind == 'rec']
        st = loop_state(I, W, o.trace)
        if st:
            node_loop(ctx, I, W, o, F, st, txt, seen)
            continue
        ps = flat_text(txt)
        if recs:
            key = recs[0].extra
            starts.add(key)
        # strip what recursion did to the accumulator, or what it returned
        up = F.get(('fld', ('NB', S, 0), 'parent'))
        ctx.ob(ps[:1] == ['/'] or isinstance(ps[0], str) and ps[0].startswith('/'), 'node:slash', 'the path of a node is not absolute', '', o.trace)
        body = merge_text([x.lstrip('/') if i == 0 and isinstance(x, str) else x for i, x in enumerate(ps)])
        name = ('fld', ('NB', S, 0), 'name')
        if up == {'None'}:
            seen.add('root')
            ctx.ob(body == [name], 'node:root', 'the path of the root is %s' % [x if isinstance(x, str) else show(x) for x in ps], '', o.trace)
        elif len(recs) == 1 and len(body) == 1 and body[0][:1] == ('mut',) and plain(body[0][3]) == name:
            seen.add('acc')
            ctx.ob(now(W.nz(body[0][1])) == now(W.nz(recs[0].ret)) and W.nz(recs[0].args[0]) == ('B', ('fld', ('fld', ('NB', S, 0), 'parent'), 'Some.0')), 'node:up', 'the path of a node does not go on with its parent', where(recs[0]), o.trace)
        elif len(recs) == 1:
            seen.add('val')
            ok = body == [now(W.nz(recs[0].ret)), '/', name] and W.nz(recs[0].args[0]) == ('B', ('fld', ('fld', ('NB', S, 0), 'parent'), 'Some.0'))
            ctx.ob(ok, 'node:up', 'the path of a node is %s' % [x if isinstance(x, str) else show(x) for x in ps], where(recs[0]), o.trace)
        else:
            ctx.ob(False, 'node:up', 'the path of a node is %s' % [x if isinstance(x, str) else show(x) for x in ps], '', o.trace)
    for key in starts:
        tail(ctx, ctx.P.fns[key], seen)
    ctx.ob('root' in seen and len(seen) > 1 or 'loop' in seen, 'node:cases', 'the path of a node does not depend on whether it is the root')


def skip(ctx, o, F, pos):
    """paths of nodes outside of a tree; impossible paths (parents are registered)"""
    if F.get(('fld', ('NB', ('SELF',), 0), 'tree')) == {'None'}:
        ctx.ob(o.kind == 'panic', 'node:lone', 'the path of a node outside of a tree is given', '', o.trace)
        return True
    if any(isinstance(k, tuple) and (k[:1] == ('haskey',) and v is False or k[:1] == ('fld',) and k[2] == 'tree' and v == frozenset(('None',))) for k, v in F.items()):
        return True
    if o.kind == 'ub' and F.get(('fld', ('NB', pos, 0), 'parent')) == {'None'}:
        pass
    return not ctx.ob(o.kind == 'ret', 'node:aborts', 'getting the path of a node can abort', '', o.trace)


def tail(ctx, fn, seen):
    """the recursive part, by the state of what it is given"""
    S = ('SELF',)
    W = World('node')
    outs, I = ctx.run(fn, opaque={'NodePath::from_str'})
    name = ('fld', ('NB', S, 0), 'name')
    up = ('fld', ('fld', ('NB', S, 0), 'parent'), 'Some.0')
    acc = ('sym', fn.locals[2][1] or 'a2') if fn.argc > 1 else None
    for o in outs:
        F = facts(W, o)
        if skip(ctx, o, F, S):
            continue
        recs = [e for e in flat(o.trace) if e.kind == 'rec']
        has = F.get(('fld', ('NB', S, 0), 'parent'))
        if not ctx.ob(has is not None and bool(recs) == (has == {'Some'}) and len(recs) <= 1, 'node:stops', 'the path of a node does not end at the root', '', o.trace):
            continue
        seen.add('root' if has == {'None'} else 'step')
        if recs:
            ctx.ob(W.nz(recs[0].args[0]) == ('B', up), 'node:up', 'the path of a node does not go on with its parent', where(recs[0]), o.trace)
        if acc is None:
            got = flat_text(W.nz(o.value))
            want = [name] if not recs else [now(W.nz(recs[0].ret)), '/', name]
            ctx.ob(got == want, 'node:names', 'the names on the way to a node are put together as %s' % [x if isinstance(x, str) else show(x) for x in got], '', o.trace)
            continue
        old = ('obj', acc, 0)
        empty = None
        for k, v in F.items():
            if isinstance(v, bool) and k[:2] == ('bin', 'Eq') and plain(k[2]) in (acc, ('str', '')) and plain(k[3]) in (acc, ('str', '')):
                empty = v
        ws = [e for e in o.trace if e.kind == 'write']
        if not ctx.ob(len(ws) == 1 and (not recs or o.trace.index(ws[0]) < o.trace.index(recs[0])), 'node:step', 'the name of a node on the way is not added exactly once, before those above it', '', o.trace):
            continue
        got = flat_text(W.nz(ws[0].args[1]))
        want = [name] if empty else [name, '/', acc]
        ctx.ob(got == want, 'node:names', 'the names on the way to a node are put together as %s' % [x if isinstance(x, str) else show(x) for x in got], where(ws[0]), o.trace)


def loop_state(I, W, trace):
    for l in loops(trace):
        mine = {P: v for P, v in I.phis.items() if P[1] == l.name}
        pos = [P for P, v in mine.items() if W.nz(v[0]) in (('SELF',), ('B', ('SELF',)), ('NP', ('SELF',), 0)) or W.nz(v[0]) == ('fld', ('NB', ('SELF',), 0), 'parent')]
        acc = [P for P, v in mine.items() if plain(W.nz(v[0]))[:1] == ('str',) or plain(W.nz(v[0])) == ('fld', ('NB', ('SELF',), 0), 'name') or plain(W.nz(v[0]))[:1] == ('cat',)]
        if len(pos) == 1 and len(acc) == 1:
            return l, pos[0], acc[0]


def node_loop(ctx, I, W0, o, F0, st, txt, seen):
    """a loop from the node up: either the accumulator holds the names below the position (pre), or including it (post)"""
    l, Q, A = st
    S = ('SELF',)
    q0 = W0.nz(I.phis[Q][0])
    a0 = flat_text(W0.nz(I.phis[A][0]))
    isref = q0 in (('B', S), ('NP', S, 0))
    isopt = q0 == ('fld', ('NB', S, 0), 'parent')
    pos = ('POS',)
    if isopt:
        W = World('node', fixed={Q: ('UP',)})
        nxt = ('fld', ('UP',), 'Some.0')
        more = ('UP',)
    else:
        W = World('node', fixed={Q: ('B', pos) if isref else pos})
        more = ('fld', ('NB', pos, 0), 'parent')
        nxt = ('fld', more, 'Some.0')
    name = lambda r: ('fld', ('NB', r, 0), 'name')
    lead = lambda ps: merge_text([x.lstrip('/') if i == 0 and isinstance(x, str) else x for i, x in enumerate(ps)])
    post = lead(a0) == [name(S)]
    if not ctx.ob(post or lead(a0) == [] and not isopt, 'node:begin', 'the path of a node begins with %s' % [x if isinstance(x, str) else show(x) for x in a0], '', o.trace):
        return
    ok = True
    for b, nx in zip(l.extra, I.body_phi[l.name]):
        G = trace_facts(W, b)
        to = W.nz(nx.get(Q, Q))
        got = lead(flat_text(W.nz(nx.get(A, A))))
        want = name(nxt) if post else name(pos)
        sep = [want, '/', A]
        alone = [want] if any(isinstance(v, bool) and v and k[:2] == ('bin', 'Eq') and contains(k, A) and contains(k, ('str', '')) for k, v in G.items()) else [want, A] if any(isinstance(v, bool) and v and k[:2] == ('bin', 'Eq') and contains(k, A) for k, v in G.items()) else sep
        ctx.ob(got in (sep, alone) or not post and got == [want, A] and a0 != [''] and not a0, 'node:names', 'the names on the way to a node are put together as %s' % [x if isinstance(x, str) else show(x) for x in got], '', b)
        ups = (('fld', ('NB', nxt, 0), 'parent'),) if isopt else (('B', nxt), ('NP', nxt, 0)) if isref else (nxt,)
        ctx.ob(G.get(more) == {'Some'} and to in ups, 'node:up', 'the path of a node does not go on with its parent but with %s' % show(to), '', b)
    F = facts(W, o)
    ps = flat_text(W.nz(txt))
    ctx.ob(F.get(more) == {'None'}, 'node:stops', 'the path of a node does not end at the root', '', o.trace)
    body = lead(ps)
    slash = isinstance(ps[0], str) and ps[0].startswith('/') or a0[:1] == ['/']
    want = [A] if post else [name(pos), '/', A]
    ctx.ob(slash and body == want, 'node:slash', 'the path of a node is %s' % [x if isinstance(x, str) else show(x) for x in ps], '', o.trace)
    seen.add('loop')


def check(ctx):
    parsing(ctx)
    adding(ctx)
    printing(ctx)
    node_path(ctx)
