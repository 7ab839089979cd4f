"""The crash report: the drawing is read off as text. The function (or loop) that climbs to the start, the function that draws the children of a node and calls itself for each, and the caller of both are each taken apart path by path: what text, list entries and further calls one child gives, in which order, under which conditions on its place among its siblings, its status and the layers left. Numbers in those conditions are linear in a handful of quantities, so each condition is evaluated on small values of these."""
import itertools
from world import *
from rule import *
import scan
from p13 import pieces, merged, plainref

RULE = "drawing(node, prefix, level): for each child in order one line prefix + connector + name (or ...) + newline, then drawing(child, prefix + column, level - 1) iff level > 0; start == ancestor(origin, view_up)"
SPEC = OPAQUE - {'functions::draw_tree'}
COLOURED = {'JustWarned': 'warnings', 'JustPanicked': 'panics'}


def noep(t):
    """a term without the moments of its reads (nothing changes nodes while the tree is drawn)"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(noep(x) for x in t)
    if t[0] in ('NB', 'NP', 'NODE', 'CHILDREN') and len(t) == 3:
        return (t[0], t[1])
    if t[0] in ('T', 'TN', 'NODES') and len(t) == 2:
        return (t[0],)
    if t[0] == 'obj' and len(t) == 3:
        return noep(plain(t[1])) if plain(t[1])[:1] in (('guarded',), ('NP',), ('sym',), ('NODE',)) else ('obj', t[1])
    if t[0] == 'guarded':
        return ('guarded', plain(t[1]))
    return t


def rid_of(t):
    """the id of the node a value stands for"""
    t = noep(plain(t))
    while isinstance(t, tuple) and t[:1] in (('NP',), ('B',), ('NODE',), ('&',), ('NB',)) and len(t) == 2 and isinstance(t[1], tuple):
        t = t[1]
    return t


def value(t, env):
    """number or truth value of a term for given values of the quantities in it; None if it is about something else"""
    if t in env:
        return env[t]
    if t[:1] == ('int',):
        return t[1]
    if t in (TRUE, FALSE):
        return t == TRUE
    if t[:2] == ('un', 'Not'):
        x = value(t[2], env)
        return None if x is None else not x
    if t[:1] == ('bin',):
        a, b = value(t[2], env), value(t[3], env)
        if a is None or b is None:
            return None
        op = t[1].replace('Unchecked', '').replace('WithOverflow', '')
        return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b,
                'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b}.get(op, lambda: None)()
    if t[:1] == ('app',) and t[1].endswith(('saturating_sub', 'wrapping_sub', 'cmp::min', 'cmp::max')) and len(t[2]) == 2:
        a, b = value(plain(t[2][0]), env), value(plain(t[2][1]), env)
        if a is None or b is None:
            return None
        return {'g_sub': max(0, a - b) if 'saturating' in t[1] else a - b, '::min': min(a, b), '::max': max(a, b)}.get(t[1][-5:])
    return None


def near(*ts, n=5):
    """numbers at which conditions and amounts may change: small ones, and those around the constants in them"""
    c = set()
    for t in ts:
        for k, v in (t.items() if isinstance(t, dict) else [(t, True)]):
            c |= {x[1] for x in subterms(k) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'int' and isinstance(x[1], int)} if isinstance(k, tuple) and k[:1] != ('haskey',) else set()
    c = sorted(x for x in c if 0 <= x)[:12]
    return sorted(set(range(n)) | {x + d for x in c for d in (-2, -1, 0, 1, 2) if x + d >= 0} | {x + y for x in c[:5] for y in c[:5]})


def agrees(G, env):
    for k, v in G.items():
        if isinstance(v, bool) and isinstance(k, tuple):
            r = value(k, env)
            if r is not None and bool(r) != v:
                return False
    return True


def unroll(t, P, I, at):
    """a grown text or list as what was added to it since it was P: ('text', x) | ('entry', x) | ('call', app, argument) | ('loop', phi);
    None if it did not grow out of P"""
    if t == P:
        return []
    if t[:1] == ('cat',):
        xs = list(t[1])
        # a text may stand behind other texts that were made before it
        i = next((i for i, x in enumerate(xs) if unroll(x, P, I, at) is not None), None) if P is not None else None
        if i is not None:
            return [('text', x) for x in xs[:i]] + unroll(xs[i], P, I, at) + [('text', x) for x in xs[i + 1:]]
        if P is not None:
            return None
        r = []
        for x in xs:
            r += unroll(x, None, I, at) if x[:1] in (('mut',), ('phi',)) or x[:1] == ('fld',) and x[1][:1] == ('mut',) else [('text', x)]
        return r
    if t[:1] == ('push',):
        r = unroll(t[1], P, I, at)
        return None if r is None else r + [('entry', t[2])]
    if t[:1] == ('mut',):
        r = unroll(t[3], P, I, at)
        return None if r is None else r + [('call', t[1], t[2])]
    if t[:1] == ('fld',) and t[1][:1] == ('mut',):
        r = unroll(part(t[1][3], t[2]), P, I, at)
        return None if r is None else r + [('call', t[1][1], (t[1][2], t[2]))]
    if t[:1] == ('obj',) and P is None:
        return unroll(t[1], P, I, at)
    if t[:1] == ('phi',):
        q = t if t in I.phis else next((p for p in I.phis if p[1] == t[1] and p[2] == t[2][:2]), None)
        if q is not None:
            r = unroll(at(I.phis[q][0]), P, I, at)
            return None if r is None else r + [('loop', q)]
    if t[:1] == ('vec',) and P is None:
        return [('entry', x) for x in t[1]]
    return None if P is not None else ([] if t in (('str', ''),) else [('text', t)])


def text(parts):
    """the text of parts, with calls and loops in their places"""
    r = []
    for k, *x in parts:
        if k == 'text':
            r += [noep(p) if not isinstance(p, str) else p for p in pieces(x[0])]
        else:
            r.append((k, *x))
    return merged(r)


def part(v, f):
    """field f of a value that was changed in parts"""
    if f is None:
        return v
    if v[:1] == ('upd',):
        d = dict(v[2])
        return d[f] if f in d else part(v[1], f)
    if v[:1] == ('mut',):
        return ('mut', v[1], (v[2], f), part(v[3], f))
    if v[:1] == ('adt',):
        return dict(v[3]).get(f, ('fld', v, f))
    return ('fld', v, f)


def grown(l, I, at):
    """what a loop changes, records by their fields: {place: (phi, field or None)}"""
    r = {}
    for p in [p for p in I.phis if p[1] == l.name]:
        fs = set()
        for nx in I.body_phi[l.name]:
            v = at(nx.get(p, p))
            while v[:1] in (('upd',), ('mut',)):
                if v[0] == 'upd':
                    fs |= {k for k, _ in v[2]}
                v = v[3] if v[0] == 'mut' else v[1]
        for f in sorted(fs) or [None]:
            r[p if f is None else ('fld', p, f)] = (p, f)
    return r


def steps(l, I, at):
    """{phi: change per round} of the numbers a loop counts up or down"""
    r = {}
    for P in [p for p in I.phis if p[1] == l.name]:
        d = set()
        for nx in I.body_phi[l.name]:
            v = at(nx.get(P, P))
            if v == P:
                d.add(0)
            elif v[:1] == ('bin',) and v[1] in ('Add', 'Sub') and P in v[2:] and any(x[:1] == ('int',) for x in v[2:]) and (v[1] == 'Add' or v[2] == P):
                c = next(x for x in v[2:] if x[:1] == ('int',))[1]
                d.add(c if v[1] == 'Add' else -c)
            else:
                d.add(None)
        if len(d) == 1 and None not in d:
            r[P] = d.pop()
    return r


def params(P, f):
    """parameters by what they are used for, told by their types"""
    r = {}
    for i in range(1, f.argc + 1):
        s = P.ty(f.crate, f.locals[i][0])['s']
        n = ('sym', f.locals[i][1] or 'a%d' % i)
        k = 'tree' if 'NodeTreeBase' in s or 'NodeTree' in s else 'node' if 'dyn' in s and 'Node' in s or s.lstrip('&') == 'u64' else 'list' if 'Vec<' in s else 'text' if '&mut' in s and 'String' in s else \
            'number' if s in ('usize', 'u32', 'isize', 'i32', 'i64', 'u8', 'u16') else 'prefix' if s.endswith('str') or 'String' in s else 'other'
        r.setdefault(k, []).append((i - 1, n))
    return r


def world(pr, extra=()):
    fixed = dict(extra)
    for _, n in pr.get('tree', ()):
        fixed[n] = ('TREE',)
    for _, n in pr.get('node', ()):
        fixed[('base', n)] = ('B', n)
    return World(None, fixed=fixed)


def unspecified(F):
    """a path about an id that is not registered, or a registered node without its tree"""
    return any(k[:1] == ('haskey',) and v is False or k[:1] == ('fld',) and k[2] == 'tree' and v == frozenset({'None'}) for k, v in F.items() if isinstance(k, tuple))


def status_of(G, child):
    """what is known of the status of a node"""
    st = [v for k, v in G.items() if isinstance(v, frozenset) and k == ('guarded', ('fld', ('NB', child), 'status'))]
    return st[-1] if st else None


def check_walk(ctx, key):
    P = ctx.P
    g = P.fns[key]
    pr = params(P, g)
    W = world(pr)
    at = W.nz
    outs, I = ctx.run(g, base=SPEC)
    if not ctx.ob(len(pr.get('node', ())) == 1 and pr.get('number') and pr.get('prefix'), 'walk:parameters', 'the function that draws a branch is not given a node, a prefix and the number of layers left'):
        return None
    S = pr['node'][0][1]
    kids = ('CHILDREN', S)
    shows = {}
    lists = {}
    drawn = 0
    for o in outs:
        F = {noep(k): v for k, v in facts(W, o).items()}
        if unspecified(F):
            continue
        if o.kind != 'ret':
            # only what the walk over the children or their own children may hit: ids that are not registered
            T = {}
            for e in flat(o.trace):
                T.update({noep(k): v for k, v in trace_facts(W, [e]).items()})
            ctx.ob(unspecified(T), 'walk:aborts', 'drawing a branch can abort', where(o.trace[-1]) if o.trace else '', o.trace)
            continue
        # the loop that draws: the one that adds text
        ls = []
        for l in loops(o.trace):
            for k, (p, f) in grown(l, I, at).items():
                vs = [part(at(nx.get(p, p)), f) for nx in I.body_phi[l.name]]
                if any(v[:1] == ('cat',) or v[:1] == ('mut',) and v[3][:1] == ('cat',) for v in vs):
                    ls.append((l, k))
        outer = {k: v for k, v in F.items() if isinstance(v, bool) and k[:1] == ('bin',)}
        if not ls:
            # nothing is drawn only where there are no children
            ctx.ob(F.get(('bin', 'Eq', ('int', 0), ('len', kids))) is True, 'walk:children', 'the children of a node are not drawn', '', o.trace)
            continue
        if not ctx.ob(len(ls) == 1, 'walk:one-loop', 'the children of a node are drawn by %d loops' % len(ls), '', o.trace):
            continue
        l, out = ls[0]
        places = grown(l, I, at)
        back = lambda k, nx: part(at(nx.get(places[k][0], places[k][0])), places[k][1])
        w = walk_of(l)
        fs = fates(I, W, o.trace, w[2]) if w else None
        ok = w and w[1] and completed(o.trace, w[0]) and fs is not None and noep(plain(fs[0])) == kids and all(len(v) == 1 or not v and unspecified(f) for f, v in fs[1])
        if not ctx.ob(ok, 'walk:children', 'not every child is drawn once, in order', '', o.trace):
            continue
        drawn += 1
        child = ('CH', S, ('ix', w[0]))
        before = unroll(part(at(I.phis[places[out][0]][0]), places[out][1]), None, I, at) if places[out][0][2][:1] != ('h',) else []
        ctx.ob(not text(before), 'walk:before', 'something is drawn before the children', '', o.trace)
        delta = steps(l, I, at)
        for b, nx in zip(l.extra, I.body_phi[l.name]):
            G = dict(outer)
            if not all([merge_fact(G, noep(k), v) for k, v in trace_facts(W, b).items()]) or unspecified(G):
                continue
            cases = []
            vs = near(G)
            for n, i, L in ((n, i, L) for n in {v + 1 for v in vs} for i in {*vs, *(n - 1 - v for v in vs)} for L in vs if 0 <= i < n):
                env = {('len', kids): n, ('ix', w[0]): i}
                env.update({('len', noep(w[2])): n, ('len', noep(at(w[2]))): n})
                for _, x in pr['number']:
                    env[x] = L
                for p, d in delta.items():
                    v0 = value(noep(at(I.phis[p][0])), env)
                    if v0 is not None:
                        env[p] = v0 + d * i
                if agrees(G, env):
                    cases.append((n, i, L))
            if not cases:
                continue
            last, zero = {i == n - 1 for n, i, L in cases}, {L == 0 for n, i, L in cases}
            if not ctx.ob(len(last) == 1, 'walk:last', 'a child is drawn without regard to whether it is the last', '', b) or not ctx.ob(len(zero) == 1, 'walk:level', 'a child is drawn without regard to whether layers are left', '', b):
                continue
            last, zero = last.pop(), zero.pop()
            got = unroll(back(out, nx), out, I, at)
            if not ctx.ob(got is not None, 'walk:text', 'what was drawn before is not kept', '', b):
                continue
            t = text(got)
            calls_ = [x for x in t if isinstance(x, tuple) and x[0] == 'call' or isinstance(x, tuple) and x[:1] == ('app',) and x[1].startswith('rec:')]
            t = merged([x for x in t if x not in calls_])
            # ---- the line
            pre = [n for _, n in pr['prefix'] if t[:1] == [n]]
            st = status_of(G, child)
            nm = ('fld', ('NB', child), 'name')
            if not ctx.ob(pre and len(t) >= 2 and isinstance(t[1], str) and isinstance(t[-1], str) and t[-1].endswith('\n') and ''.join(x for x in t if isinstance(x, str)).count('\n') == 1, 'walk:line', 'a child is not drawn as one line behind the prefix: %s' % [x if isinstance(x, str) else show(x) for x in t], '', b):
                continue
            if zero:
                ctx.ob(len(t) == 2 and t[1].endswith('...\n') and not any(isinstance(x, tuple) for x in t[1:]), 'walk:dots', 'a child below the last layer is not drawn as ...', '', b)
                conn = t[1][:4]
                ctx.ob(t[1][4:] == '...\n', 'walk:dots', 'a child below the last layer is not drawn as ...', '', b)
            else:
                if not ctx.ob(st is not None and len(st) == 1, 'walk:status', 'a child is drawn without regard to its status', '', b):
                    continue
                s = next(iter(st))
                ctx.ob(len(t) == 3 and t[1:].count(nm) == 1 and t[2] == nm or len(t) == 4 and t[2] == nm, 'walk:name', 'a child is not drawn by its own name: %s' % [x if isinstance(x, str) else show(x) for x in t], '', b)
                conn = t[1][:4]
                shows.setdefault(s, set()).add((t[1][4:], t[-1]))
            ctx.ob(conn == ('\u2514\u2500\u2500 ' if last else '\u251c\u2500\u2500 '), 'walk:connector:%s' % last, 'a child that is %sthe last of its siblings is drawn behind %s' % ('' if last else 'not ', conn), '', b)
            # ---- the branch below
            recs = [e for e in b if e.kind == 'rec']
            childless = G.get(('bin', 'Eq', ('int', 0), ('len', ('CHILDREN', child)))) is True
            if zero or not recs:
                ctx.ob(not recs, 'walk:below', 'a branch below the last layer is drawn', where(recs[0]) if recs else '', b)
                ctx.ob(zero or childless, 'walk:branch', 'the branch of a child is left out', '', b)
            else:
                a = [noep(at(x)) for x in recs[0].args]
                ctx.ob(len(recs) == 1 and recs[0].extra == key, 'walk:once', 'the branch of a child is drawn twice', where(recs[-1]), b)
                ctx.ob(len(calls_) == 1 and t and text(got)[-1] == calls_[0], 'walk:nested', 'the branch of a child does not stand right behind its line', where(recs[0]), b)
                ctx.ob(rid_of(a[pr['node'][0][0]]) == child, 'walk:node', 'the branch of another node is drawn: %s' % show(a[pr['node'][0][0]]), where(recs[0]), b)
                for i, n in pr.get('tree', ()):
                    ctx.ob(a[i] == ('TREE',), 'walk:tree', 'the branch is looked up in another tree', where(recs[0]), b)
                for i, n in pr['prefix']:
                    px = merged(pieces(a[i]))
                    ctx.ob(len(px) == 2 and px[0] == n and isinstance(px[1], str) and len(px[1]) == 4 and (px[1] == '    ' if last else px[1] == '\u2502   '), 'walk:column:%s' % last, 'the lines below a child that is %sthe last start with %s' % ('' if last else 'not ', [x if isinstance(x, str) else show(x) for x in px]), where(recs[0]), b)
                lv = [(i, n) for i, n in pr['number'] if all(value(a[i], {n: L}) == L - 1 for L in near(a[i]) if L)]
                ctx.ob(len(lv) == 1, 'walk:deeper', 'a branch is not drawn with one layer less', where(recs[0]), b)
                for k in ('text', 'list', 'other'):
                    for i, n in pr.get(k, ()):
                        ctx.ob(plainref(a[i]) == n, 'walk:same-' + k, 'a branch is drawn to somewhere else', where(recs[0]), b)
            # ---- what is listed
            listed = {}
            for k, (p, f) in places.items():
                if k != out and p not in delta:
                    u = unroll(back(k, nx), k, I, at)
                    if u is None or p[2][:1] != ('h',):
                        continue
                    ent = [x for x in u if x[0] == 'entry']
                    if ent:
                        listed[(p[2][1], f)] = ent
                        ctx.ob(u[0][0] == 'entry', 'walk:list-order', 'a child is listed after the nodes below it', '', b)
            allents = [x for v in listed.values() for x in v]
            if st is not None and len(st) == 1:
                s = next(iter(st))
                msg = ('fld', ('guarded', ('fld', ('NB', child), 'status')), s + '.0')
                if s not in COLOURED:
                    ctx.ob(not allents, 'walk:list:Normal', 'a node that neither warned nor panicked is listed', '', b)
                elif ctx.ob(len(allents) == 1 or zero and not allents, 'walk:list:' + s, 'a node that %s is listed %d times' % ('warned' if s == 'JustWarned' else 'panicked', len(allents)), '', b) and allents:
                    e = merged([noep(x) if not isinstance(x, str) else x for x in pieces(allents[0][1])])
                    ctx.ob([x for x in e if not isinstance(x, str)] == [nm, msg] and len(e) == 3, 'walk:entry:' + s, 'a node is listed as %s' % [x if isinstance(x, str) else show(x) for x in e], '', b)
                    lists.setdefault(s, set()).update(listed)
            else:
                ctx.ob(not allents, 'walk:list:any', 'a node is listed without regard to its status', '', b)
            ctx.sample('child %slast, %s, %s' % ('' if last else 'not ', '...' if zero else '/'.join(st or ()), 'branch drawn' if recs else 'no branch'))
    ctx.floor(drawn, 1, 'paths that draw children')
    colours(ctx, 'walk', shows)
    ctx.ob(set(lists) == set(COLOURED) and all(len(v) == 1 for v in lists.values()) and lists['JustWarned'] != lists['JustPanicked'], 'walk:lists', 'warnings and panics are not kept in a list each')
    if not all(len(v) == 1 for v in lists.values()) or set(lists) != set(COLOURED):
        return None
    where_ = {s: [(i, f) for ps in pr.values() for i, n in ps for m, f in v if n == m] for s, v in lists.items()}
    return g, pr, {s: v[0] for s, v in where_.items() if v}, shows


def colours(ctx, k, shows):
    ctx.ob(set(shows) == {'Normal', 'JustWarned', 'JustPanicked'} and all(len(v) == 1 for v in shows.values()), k + ':statuses', 'nodes of one status are not always drawn alike: %s' % shows)
    one = {s: next(iter(v)) for s, v in shows.items()}
    if set(one) == {'Normal', 'JustWarned', 'JustPanicked'}:
        ctx.ob(not one['Normal'][0] and one['Normal'][1] == '\n', k + ':plain', 'a node without a warning or panic is coloured')
        for s in COLOURED:
            a, z = one[s]
            ctx.ob(a.startswith('\x1b[') and a.endswith('m') and z == '\x1b[0m\n', k + ':colour:' + s, 'a node that %s is not coloured' % ('warned' if s == 'JustWarned' else 'panicked'))
        ctx.ob(one['JustWarned'] != one['JustPanicked'], k + ':colours', 'warnings and panics have the same colour')


def check_climb(ctx, key):
    """the recursive step to the ancestor the drawing starts from"""
    P = ctx.P
    g = P.fns[key]
    pr = params(P, g)
    W = world(pr)
    outs, I = ctx.run(g, base=SPEC)
    if not ctx.ob(len(pr.get('node', ())) == 1 and len(pr.get('number', ())) == 1, 'climb:parameters', 'the way up is not given a node and a number of layers'):
        return None
    S, K = pr['node'][0][1], pr['number'][0][1]
    par = ('fld', ('NB', S), 'parent')
    seen = set()
    for o in outs:
        F = {noep(k): v for k, v in facts(W, o).items()}
        if unspecified(F):
            continue
        if not ctx.ob(o.kind == 'ret', 'climb:aborts', 'going up can abort', '', o.trace):
            continue
        ks = {L for L in near(F) if agrees(F, {K: L})}
        root = F.get(par)
        recs = [e for e in o.trace if e.kind == 'rec']
        v = rid_of(W.nz(o.value))
        if recs:
            seen.add('up')
            a = [noep(W.nz(x)) for x in recs[0].args]
            ctx.ob(len(recs) == 1 and recs[0].extra == key and W.nz(o.value) == W.nz(recs[0].ret), 'climb:result', 'the way up does not end where it leads', where(recs[0]), o.trace)
            ctx.ob(rid_of(a[pr['node'][0][0]]) == ('fld', par, 'Some.0'), 'climb:parent', 'the way up leads to %s' % show(a[pr['node'][0][0]]), where(recs[0]), o.trace)
            ctx.ob(all(value(a[pr['number'][0][0]], {K: L}) == L - 1 for L in near(a[pr['number'][0][0]]) if L), 'climb:count', 'a step up is not counted', where(recs[0]), o.trace)
            ctx.ob(0 not in ks, 'climb:far', 'the drawing starts further up than asked', where(recs[0]), o.trace)
        else:
            seen.add('stop')
            ctx.ob(v == S, 'climb:start', 'the drawing starts from %s' % show(v), '', o.trace)
            ctx.ob(ks == {0} or root == frozenset({'None'}), 'climb:short', 'the drawing starts below the node asked for', '', o.trace)
    ctx.ob(seen == {'up', 'stop'}, 'climb:paths', 'the way up has no end or no step')
    return g, pr


def climb_loop(ctx, o, W, I, s, origin, up):
    """the way up as a loop: the start is its node when it ends"""
    q = next((p for p in I.phis if p == s or p[1] == s[1] and p[2] == s[2][:len(p[2])]), None)
    l = next((x for x in all_loops(o.trace) if q and x.name == q[1]), None)
    if not ctx.ob(l is not None, 'climb:loop', 'the way up to the start cannot be told', '', o.trace):
        return
    C = ('CUR',)
    Wc = World(None, fixed={**W.fixed, ('base', q): ('B', C), q: ('NP', C, 0)})
    at = Wc.nz
    par = ('fld', ('NB', C), 'parent')
    ctx.ob(rid_of(W.nz(I.phis[q][0])) == origin, 'climb:from', 'the way up starts at %s' % show(W.nz(I.phis[q][0])), '', o.trace)
    delta = steps(l, I, at)
    w = walk_of(l)
    count = None
    if w:
        b = noep(at(w[2]))
        n = [x for x in ([b] if b[:1] == ('range',) else []) ]
        count = n[0] if n else None

    def env(u, j):
        e = {up: u}
        if w:
            e[('ix', w[0])] = j
        for p, d in delta.items():
            v0 = value(noep(at(I.phis[p][0])), e)
            if v0 is not None:
                e[p] = v0 + d * j
        return e
    for b, nx in zip(l.extra, I.body_phi[l.name]):
        G = {noep(k): v for k, v in trace_facts(Wc, b).items()}
        if unspecified(G):
            continue
        ctx.ob(rid_of(at(nx.get(q, q))) == ('fld', par, 'Some.0'), 'climb:parent', 'the way up leads to %s' % show(at(nx.get(q, q))), '', b)
        if not w:
            cs = {(u, j) for u in near(G) for j in near(G) if agrees(G, env(u, j))}
            ctx.ob(all(j < u or j > u for u, j in cs), 'climb:far', 'the drawing starts further up than asked', '', b)
    F = {noep(k): v for k, v in facts(Wc, o).items()}
    if F.get(par) == frozenset({'None'}):
        return
    if w:
        r = noep(at(w[2]))
        ok = completed(o.trace, w[0]) and any(r[:1] == (k,) for k in ('range', 'seq', 'take')) or completed(o.trace, w[0])
        lo, hi = rng(r)
        ctx.ob(ok and lo is not None and all(value(hi, {up: u}) is not None and value(lo, {up: u}) is not None and value(hi, {up: u}) - value(lo, {up: u}) == u for u in near(lo, hi)), 'climb:count', 'the way up has another number of steps: %s' % show(r), '', o.trace)
    else:
        cs = {(u, j) for u in near(F) for j in near(F) if j <= u and agrees(F, env(u, j))}
        ctx.ob(cs and all(j == u for u, j in cs), 'climb:short', 'the drawing starts below the node asked for', '', o.trace)


def rng(r):
    """bounds of a range"""
    if isinstance(r, tuple):
        if r[:1] == ('adt',) and r[1].endswith('Range'):
            d = dict(r[3])
            return plain(d['start']), plain(d['end'])
        if r[:1] in (('range',), ('rangeof',)) and len(r) == 3:
            return r[1], r[2]
        for x in r:
            lo, hi = rng(x)
            if lo is not None:
                return lo, hi
    return None, None


def check(ctx):
    P = ctx.P
    fn = next((f for f in P.fns.values() if f.crate == 'node_tree' and f.path.endswith('functions::draw_tree')), None)
    if not ctx.ob(fn is not None, 'anchor:draw_tree', 'draw_tree is gone'):
        return
    pr = params(P, fn)
    outs, I = ctx.run(fn, base=SPEC)
    keys = {e.extra for o in outs for e in flat(o.trace) if e.kind == 'rec'}
    walks = [k for k in keys if any(x == 'prefix' for x in params(P, P.fns[k]))]
    climbs = [k for k in keys if k not in walks]
    if not ctx.ob(len(walks) == 1 and len(climbs) <= 1 and len(pr.get('number', ())) == 2 and len(pr.get('node', ())) == 1, 'shape', 'the drawing is not one walk down from one node: %s' % sorted(keys)):
        return
    wk = check_walk(ctx, walks[0])
    ck = check_climb(ctx, climbs[0]) if climbs else None
    if wk is None or climbs and ck is None:
        return
    g, gp, at_, shows = wk
    names = {I.localname(P.fns[k]) for k in keys}
    outs, I = ctx.run(fn, base=SPEC, opaque=names)
    up, down = pr['number'][0][1], pr['number'][1][1]
    origin = pr['node'][0][1]
    heads = {}
    n = 0
    for o in outs:
        W0 = world(pr)
        F = {noep(k): v for k, v in facts(W0, o).items()}
        if o.kind == 'panic' and F.get(('haskey', ('NODES',), origin)) is False:
            continue
        if unspecified(F):
            continue
        if not ctx.ob(o.kind == 'ret', 'draw:aborts', 'drawing the tree can abort', '', o.trace):
            continue
        n += 1
        ws = calls(o.trace, I.localname(g))
        if not ctx.ob(len(ws) == 1, 'draw:walk', 'the tree is drawn %d times' % len(ws), '', o.trace):
            continue
        args = ws[0].args
        # ---- where it starts
        raw = args[gp['node'][0][0]]
        if climbs:
            cs = calls(o.trace, I.localname(ck[0]))
            if not ctx.ob(len(cs) == 1, 'draw:climb', 'the start is looked for %d times' % len(cs), '', o.trace):
                continue
            a = [noep(W0.nz(x)) for x in cs[0].args]
            ctx.ob(rid_of(a[ck[1]['node'][0][0]]) == origin, 'draw:origin', 'the way up starts at %s' % show(a[ck[1]['node'][0][0]]), where(cs[0]), o.trace)
            ctx.ob(all(value(a[ck[1]['number'][0][0]], {up: u, down: d}) == u for u in near(a[ck[1]['number'][0][0]]) for d in (0, 2)), 'draw:up', 'the way up has another number of steps', where(cs[0]), o.trace)
            for i, _ in ck[1].get('tree', ()):
                ctx.ob(a[i] == ('TREE',), 'draw:tree', 'another tree is drawn', where(cs[0]), o.trace)
            r = cs[0].ret
            A = ('START',)
            W = World(None, fixed={**W0.fixed, ('base', r): ('B', A), r: ('NP', A, 0)})
        else:
            q = next((x for x in subterms(raw) if isinstance(x, tuple) and x[:1] == ('phi',)), None)
            if not ctx.ob(q is not None, 'draw:climb', 'the drawing does not start from an ancestor', where(ws[0]), o.trace):
                continue
            climb_loop(ctx, o, W0, I, q, origin, up)
            A = ('START',)
            W = World(None, fixed={**W0.fixed, ('base', q): ('B', A), q: ('NP', A, 0)})
        at = W.nz
        a = [noep(at(x)) for x in args]
        F = {noep(k): v for k, v in facts(W, o).items()}
        ctx.ob(rid_of(a[gp['node'][0][0]]) == A, 'draw:start', 'the tree is drawn from %s' % show(a[gp['node'][0][0]]), where(ws[0]), o.trace)
        for i, _ in gp.get('tree', ()):
            ctx.ob(a[i] == ('TREE',), 'draw:tree', 'another tree is drawn', where(ws[0]), o.trace)
        for i, _ in gp['prefix']:
            ctx.ob(not pieces(a[i]), 'draw:prefix', 'the children of the start are drawn behind %s' % show(a[i]), where(ws[0]), o.trace)
        lv = [i for i, _ in gp['number']]
        m = {(u, d): value(a[lv[0]], {up: u, down: d}) for u in near(a[lv[0]]) for d in near(a[lv[0]])}
        ctx.ob(None not in m.values() and all(v >= u + d for (u, d), v in m.items()) and len({v - u - d for (u, d), v in m.items()}) == 1, 'draw:layers', 'the tree is not drawn down to all layers asked for: %s' % show(a[lv[0]]), where(ws[0]), o.trace)
        # ---- the text
        parts = unroll(at(o.value), None, I, at)
        t = text(parts)
        call = [i for i, x in enumerate(t) if isinstance(x, tuple) and (x[0] == 'call' and x[1] == ws[0].ret or x == noep(at(ws[0].ret)))]
        if not ctx.ob(len(call) == 1, 'draw:once', 'what is drawn is not the text once', '', o.trace):
            continue
        head, tail = t[:call[0]], t[call[0] + 1:]
        nm = ('fld', ('NB', A), 'name')
        st = F.get(('guarded', ('fld', ('NB', A), 'status')))
        if ctx.ob(st is not None and len(st) == 1, 'draw:status', 'the start is drawn without regard to its status', '', o.trace):
            s = next(iter(st))
            i = [k for k, x in enumerate(head) if x == nm]
            if ctx.ob(len(i) == 1 and len(head) == 3 and i[0] == 1, 'draw:name', 'the start is not drawn by its name: %s' % [x if isinstance(x, str) else show(x) for x in head], '', o.trace):
                heads.setdefault(s, set()).add((head[0].rsplit('\n', 1)[-1], head[2]))
        # ---- the lists
        empties = 0
        lits = ''
        order = []
        for x in tail:
            if isinstance(x, str):
                lits += x
            elif x[0] == 'loop':
                l = next((y for y in all_loops(o.trace) if y.name == x[1][1]), None)
                w = walk_of(l) if l is not None else None
                src = at(w[2]) if w else ()
                k, m = next(((k, y) for k, i in at_.items() for y in subterms(src) if made(y, ws[0].ret, i)), (None, None))
                if not ctx.ob(k is not None and w[1] and completed(o.trace, w[0]), 'draw:lists', 'a list of the report is not all of the warnings or panics: %s' % show(src), '', o.trace):
                    continue
                order.append(k)
                for b, nx in zip(l.extra, I.body_phi[l.name]):
                    u = unroll(at(nx.get(x[1], x[1])), x[1], I, at)
                    el = [y for y in text(u or []) if not isinstance(y, str)]
                    ok = len(el) == 1 and plain(at(el[0]))[:1] == ('fld',) and contains(el[0], ('ix', w[0]))
                    ctx.ob(ok, 'draw:entry:' + k, 'an entry of a list is left out or shown twice', '', b)
                word = COLOURED[k]
                ctx.ob(lits.lower().rfind(word) > max([lits.lower().rfind(v) for v in COLOURED.values() if v != word]), 'draw:heading:' + k, 'the %s stand below another heading' % word, '', o.trace)
                before = unroll(old(m), None, I, at)
                own = [y for y in before if y[0] == 'entry']
                if st is not None and len(st) == 1:
                    check_own(ctx, o, own, k, s, nm, A)
            else:
                ctx.ob(False, 'draw:rest', 'the report holds %s' % (show(x) if x[0] != 'call' else 'something else'), '', o.trace)
        for k, i in at_.items():
            if order.count(k) == 1:
                continue
            ctx.ob(not order.count(k), 'draw:twice:' + k, 'the %s are listed twice' % COLOURED[k], '', o.trace)
            em = [v for kk, v in facts(W, o).items() if isinstance(v, bool) and kk[:2] == ('bin', 'Eq') and ('int', 0) in kk[2:] and any(made(plain(y), ws[0].ret, i) for y in kk[2:] + tuple(z[1] for z in kk[2:] if z[:1] == ('len',)))]
            ctx.ob(True in em, 'draw:missing:' + k, 'the %s are not listed' % COLOURED[k], '', o.trace)
            empties += 1
        ctx.ob(lits.count('None') == empties, 'draw:none', 'an empty list is not shown as None', '', o.trace)
    ctx.floor(n, 3, 'paths that draw')
    colours(ctx, 'draw', heads)
    ctx.ob(shows == heads, 'draw:alike', 'the start is not drawn like the other nodes')
    report(ctx)


def made(t, call, i):
    """is t what a call left in the place (argument, field)?"""
    i, f = i
    if not isinstance(t, tuple) or f is not None and t[:1] != ('fld',) or f is not None and t[2:] != (f,):
        return False
    t = t if f is None else t[1]
    return isinstance(t, tuple) and t[:1] == ('mut',) and t[1] == call and t[2] == i


def old(m):
    """what was in the place before the call"""
    return m[3] if m[0] == 'mut' else part(m[1][3], m[2])


def check_own(ctx, o, own, k, s, nm, A):
    msg = ('fld', ('guarded', ('fld', ('NB', A), 'status')), s + '.0')
    if s != k:
        ctx.ob(not own, 'draw:own:' + k, 'the start is listed although it did not', '', o.trace)
    else:
        e = merged([noep(x) if not isinstance(x, str) else x for x in pieces(own[0][1])]) if len(own) == 1 else []
        ctx.ob([x for x in e if not isinstance(x, str)] == [nm, msg] and len(e) == 3, 'draw:own:' + k, 'the start is not listed first, by its name and message', '', o.trace)


def report(ctx):
    """the report around the drawing, and what sets its first and last lines"""
    P = ctx.P
    fn = ctx.inherent('Logger', 'post')
    calling = ('sym', fn.locals[2][1] or 'a2')
    tree = ('sym', fn.locals[4][1] or 'a4')
    W = World(None, tree_syms=[tree], fixed={tree: ('TREE',)})
    n = 0
    for o in ctx.run(fn, base=(OPAQUE - {'Logger::post'}) | {'NodeBase::get_absolute_path'})[0]:
        if o.kind != 'ret' or W.nz(o.value) != TRUE:
            continue
        n += 1
        dr = calls(o.trace, 'functions::draw_tree')
        pm = calls(o.trace, 'Logger::post_manual')
        if not ctx.ob(len(dr) >= 1 and len(pm) == 1, 'report:parts', 'a crash report has no drawing or no time', '', o.trace):
            continue
        for d in dr:
            a = [plain(W.nz(x)) for x in d.args]
            ctx.ob(a[0] == ('TREE',) and a[1] == calling, 'report:caller', 'the drawing is not of the caller in its tree', where(d), o.trace)
            ctx.ob(all(x[:1] == ('int',) and x[1] >= 1 for x in a[2:4]), 'report:view', 'the drawing leaves out the nodes around the caller', where(d), o.trace)
        trees = {W.nz(d.ret) for d in dr}
        time = W.nz(pm[0].ret)
        app = [e for e in flat(o.trace) if e.kind == 'write' and e.name == 'string.append']
        pri = [e for e in flat(o.trace) if e.kind == 'call' and e.name.endswith(('io::_print', 'io::_eprint'))]
        for k, evs, i in (('kept', app, 1), ('printed', pri, 0)):
            t = merged(sum((pieces(W.nz(e.args[i])) for e in evs), []))
            v = [('header' if field_of(x, 'crash_header') else 'footer' if field_of(x, 'crash_footer') else 'tree' if x in trees else 'time' if x == time else 'colour' if contains_name(x, 'Log::get_colour') else show(x)) for x in map(lambda y: plain(y) if not isinstance(y, str) else y, t) if not isinstance(x, str)]
            v = [x for x in v if x != 'colour']
            ctx.ob(v == ['header', 'tree', 'time', 'footer'], 'report:' + k, 'the crash report %s is %s' % (k, v), where(evs[0]) if evs else '', o.trace)
            h = ''.join(x for x in t if isinstance(x, str))
            ctx.ob('Exit Code: 1\n' in h, 'report:code:' + k, 'the crash report %s does not tell the exit code' % k, where(evs[0]) if evs else '', o.trace)
    ctx.floor(n, 1, 'paths that report a crash')
    for ty, path in (('Logger', ()), ('NodeTreeBase', ('logger',))):
        for m, f in (('set_default_header_on_panic', 'crash_header'), ('set_default_footer_on_panic', 'crash_footer')):
            fn = ctx.inherent(ty, m)
            msg = ('sym', fn.locals[2][1] or 'a2')
            for o in ctx.run(fn)[0]:
                ws = [e for e in flat(o.trace) if e.kind == 'write']
                ok = o.kind == 'ret' and len(ws) == 1 and ws[0].name == '.'.join(path + (f,)) and plainref(ws[0].args[0]) == ('sym', 'self') and plain(ws[0].args[1]) == msg
                ctx.ob(ok, 'set:%s:%s' % (ty, f), '%s::%s does not set just the %s to the text given' % (ty, m, f[6:]), where(ws[0]) if ws else '', o.trace)
    for f in ('crash_header', 'crash_footer'):
        ok = {g.key for g in P.fns.values() if g.local and g.path.split('::')[-1] in ('set_default_header_on_panic' if 'header' in f else 'set_default_footer_on_panic', 'new') and 'logger::Logger' in g.path}
        ws = scan.field_writers(P, 'Logger', f)
        for k in ws:
            for r in ({k} if k in ok else scan.roots_of(P, k, stop=ok)):
                ctx.ob(r in ok or 'set_default' in P.fns[r].path, 'writer:%s:%s' % (f, P.fns[r].path), '%s changes the %s of the crash report' % (P.fns[r].path, f[6:]), ws[k][0])
        ctx.floor(len(ws), 1, 'writers of the ' + f)
