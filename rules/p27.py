"""The witness crate writes a scene in every form that scene! documents: alone, named, with arguments, with settings, with
children, all of them together and nested, with trailing commas, with links to other scenes, and with variables of the user
that have the names the macro uses for its own. The code made for each is evaluated; the scene it returns - the constructor
called for each node and its arguments, the name given, the fields set and what they are set to, the order of the children, the
scenes linked - must be the tree that is written down, each expression being evaluated once. Wrapping a value for a field
is decided for each kind of field."""
from p26 import *
from interp import map_term

RULE = 'value of the generated code == the tree written in the macro'
WITNESS = True
CL = {'Leaf', 'Args', 'Fields', 'Both', 'Open', 'Eight', 'Many'}
OPQ = {'make', 'mark', 'text', 'flag', 'NodeScene::clone'} | {c + '::new' for c in CL}


def flag(n):
    return ('app', 'flag', (('int', n),))


def node(cl, *args, name=None, kids=(), **sets):
    return ('node', cl, args, name, tuple(sorted(sets.items())), tuple(kids))


def leaf(name=None, *kids):
    return node('Leaf', name=name, kids=kids)


def link(n):
    return ('link', ('sym', n))


def f(v):
    return (F, v)


def deep(i):
    k = [deep(i + 1) if i < 13 else leaf('end')]
    return leaf(str(i), *k) if i % 3 else node('Both', make(i), name=str(i), set=f(text(100 + i)), kids=k)


SCENES = {
    'root': leaf(),
    'named': leaf('Named'),
    'params': node('Args', make(1), text(2)),
    'params_comma': node('Args', make(1), text(2)),
    'params_named': node('Args', make(1), text(2), name='Given'),
    'path': leaf(None, node('Open')),
    'empty': leaf(),
    'children': leaf('Top', leaf('First'), node('Args', make(1), text(2), name='Second'), leaf()),
    'settings': node('Fields', reg=(F, make(1)), exp=(E, text(2)), uni=(U, make(3)), **{'def': (D, flag(4))}),
    'settings_comma': node('Fields', name='Comma', reg=(F, make(2)), **{'def': (D, flag(1))}),
    'settings_none': node('Fields'),
    'settings_sum': node('Fields', reg=(F, ('bin', 'Add', make(1), make(2))), uni=(U, make(4)), **{'def': (D, ('un', 'Not', flag(3)))}),
    'settings_vec': node('Fields', more=(E, ('vec', (make(1),)))),
    'settings_twice': node('Fields', reg=(F, make(2)), exp=(E, text(4))),
    'inner': node('Fields', name='Top', reg=(F, make(1)), exp=(E, text(2)), kids=[
        leaf('A'),
        node('Both', make(3), name='B', set=(F, text(4)), kids=[leaf('C'), leaf('D', leaf('E'))]),
        node('Args', make(5), text(6), name='F', kids=[leaf('G')])]),
    'only_children': node('Fields', kids=[leaf('A'), leaf('B')]),
    'linked': leaf(None, link('two'), leaf('A', link('one'), leaf('B'), link('two')), link('one')),
    'linked_names': leaf(None, link('node'), leaf('A', link('scene'), link('node')), link('scene')),
    'value_names': node('Fields', reg=(F, ('sym', 'node')), uni=(U, ('sym', 'scene')), kids=[node('Both', ('sym', 'node'), set=(F, ('app', 'text', (('sym', 'scene'),))))]),
    'link_root': link('one'),
    'wide': leaf('0', *[leaf(str(i)) for i in range(1, 27)]),
    'deep': deep(0),
    'eight': node('Eight', *map(make, range(8)), name='E', a1=f(make(20)), a0=f(make(21)), kids=[node('Eight', *map(make, range(30, 38)))]),
    'many': node('Many', name='M', **{'m%d' % i: f(make(i + 1)) for i in range(14)}, kids=[
        node('Many', m3=f(make(40)), kids=[leaf()]), leaf('m3'), node('Many', name='M', m13=f(make(41)), m0=f(make(42)), m7=f(make(43))),
        leaf(), leaf(), leaf('with spaces'), leaf(''), leaf(None, leaf(), leaf('Leaf', leaf())), leaf()]),
    'many_links': leaf(None, *map(link, ('one', 'one', 'two', 'three')), leaf(None, link('three'), link('two'), link('one'), leaf(None, link('one'))), link('two'),
                       node('Many', kids=[link('one')]), node('Both', make(1), kids=[link('two'), leaf()]), link('three')),
}

ALSO = {'settings_twice': [('make', (('int', 1),))]}    # set, and set again
# the numbers in the expressions, as they are written
ORDER = {'params': [1, 2], 'settings': [1, 2, 3, 4], 'settings_comma': [1, 2], 'settings_sum': [1, 2, 3, 4], 'settings_twice': [1, 4, 2], 'inner': [1, 2, 3, 4, 5, 6],
         'eight': [*range(8), 20, 21, *range(30, 38)], 'many': [*range(14, 0, -1), 40, 41, 42, 43]}


def read(t, root, bad):
    """the tree that a scene value stands for"""
    t = unbox(t)
    if t[0] == 'upd' and t[1][:2] == ('app', 'NodeScene::clone'):
        for n, v in t[2]:
            if n != 'is_owner':
                bad.append('%s of a linked scene is changed' % n)
            elif v != ('bool', root):
                bad.append('a linked scene is added as an owner')
        t = t[1]
        root = None
    if t[:2] == ('app', 'NodeScene::clone'):
        if root is False:
            bad.append('a linked scene is not added as an ordinary child')
        x = t[2][0]
        return ('link', x[1] if x[0] == '&' else x)
    s = struct(t, 'NodeScene')
    if s is None:
        bad.append('no scene: %r' % (t,))
        return t
    if s['is_owner'] != ('bool', root):
        bad.append('a node is %s' % ('the root but no owner' if root else 'a child but an owner'))
    if s['from_disk'] != ('bool', False):
        bad.append('the scene counts as loaded')
    n = s['this']
    while n[0] == 'box' or n[:2] == ('app', 'NodeAbstract::to_dyn_box'):
        n = n[1] if n[0] == 'box' else n[2][0]
    n = unbox(n)
    name, sets = None, {}
    if n[0] == 'upd':
        for k, v in n[2]:
            if k == 'base':
                if v[0] == 'upd' and [x for x, _ in v[2]] == ['name'] and v[2][0][1][0] == 'str':
                    name = v[2][0][1][1]
                else:
                    bad.append('the base of a node is changed: %r' % (v,))
            else:
                sets[k] = wrapper(v)
        n = n[1]
    if n[0] != 'app' or not n[1].endswith('::new'):
        bad.append('no node: %r' % (n,))
        return n
    ks = kids(s['children'])
    if ks is None:
        bad.append('unknown children: %r' % (s['children'][3:],))
        return n
    return ('node', n[1].split('::')[0], tuple(bare(x) for x in n[2]), name, tuple(sorted((k, (v[0], bare(v[1]))) for k, v in sets.items())), tuple(read(x, False, bad) for x in ks))


def kids(t):
    """the children, also where a known list of them is passed through a loop"""
    if t[0] == 'vec':
        return list(t[1])
    if t[0] == 'seqmap' and t[4] and t[3][0] in ('vec', 'arr'):
        out = []
        for el in t[3][1]:
            x = map_term(t[2], {('fld', (k, t[3][1]), ix): el for k in ('vec', 'arr') for ix in (t[1], ('i', t[1]))}, {})
            if x[0] == 'upd' and x[1][0] == 'adt':
                d = dict(x[2])
                x = x[1][:3] + (tuple((k, d.get(k, v)) for k, v in x[1][3]),)
            out.append(x)
        return out
    return None


def norm_vec(I, o, t):
    """a vector made of an array counts as its elements"""
    if not isinstance(t, tuple):
        return t
    t = tuple(norm_vec(I, o, x) for x in t)
    if t[:1] == ('arr',):
        return ('vec', t[1])
    return t


def count(t, out):
    if isinstance(t, tuple):
        if t[:1] == ('app',) and t[1] in OPQ and t[1] in ('make', 'text', 'flag'):
            out.append((t[1], bare(t[2])))
        if t[:1] == ('node',):
            out.append((t[1] + '::new', bare(t[2])))
        for x in t:
            count(x, out)


def tell(t):
    if not isinstance(t, tuple) or t[:1] != ('node',):
        return '$' + t[1][1] if isinstance(t, tuple) and t[:1] == ('link',) else repr(t)[:80]
    return '%s(%s)%s%s%s' % (t[1], ','.join(show(x) for x in t[2]), ':' + t[3] if t[3] else '', '{%s}' % ','.join(k for k, _ in t[4]) if t[4] else '', '[%s]' % ' '.join(tell(x) for x in t[5]) if t[5] else '')


def check(ctx):
    fs = fns(ctx, 'scenes::')
    for n, want in SCENES.items():
        if not ctx.ob(n in fs, 'scene:' + n, 'the scene %s of the witness crate is gone' % n):
            continue
        fn = fs[n]
        outs, I = ctx.run(fn, opaque=OPQ)
        ctx.ob(len([o for o in outs if o.kind == 'ret']) == len(outs) == 1, 'scene-total:' + n, 'building the scene %s can fail' % n, fn.path)
        for o in outs:
            if o.kind != 'ret':
                continue
            bad = []
            got = norm_vec(I, o, read(stripbox(I, o, o.value), True, bad))
            ctx.ob(not bad, 'scene-shape:' + n, 'scene %s: %s' % (n, '; '.join(bad)[:300]), fn.path, o.trace)
            ctx.ob(got == want, 'scene-tree:' + n, 'the scene written as %s is built as %s' % (tell(want), tell(got)), fn.path, o.trace)
            a, b = [], []
            count(want, a)
            a += ALSO.get(n, [])
            b = [(e.name, tuple(bare(x) for x in e.args)) for e in o.trace if e.kind == 'call' and (e.name in ('make', 'text', 'flag') or e.name in OPQ and e.name.endswith('::new'))]
            ctx.ob(sorted(map(repr, a)) == sorted(map(repr, b)), 'scene-once:' + n, 'scene %s: an expression is not evaluated exactly once' % n, fn.path, o.trace)
            if n in ORDER:
                seen = [e.args[0][1] for e in o.trace if e.kind == 'call' and e.name in ('make', 'text', 'flag')]
                ctx.ob(seen == ORDER[n], 'scene-order:' + n, 'scene %s: the expressions are evaluated in the order %s, written in the order %s' % (n, seen, ORDER[n]), fn.path, o.trace)
            ctx.sample('%s: %s' % (n, tell(want)))
    if ctx.ob('public' in fs, 'public', 'what is declared public is not used any more'):
        ctx.run(fs['public'], opaque=OPQ | {'Kinds::new', 'Kinds::open'})
    k = 0
    for g in ctx.P.fns.values():
        if g.local and g.crate == 'node_tree' and g.j.get('nm') == 'wrap' and g.j.get('impl_trait', '').split('::')[-1].startswith('AsElement'):
            ret = short(ctx.P.ty(g.crate, g.locals[0][0])['s']).split('<')[0]
            outs, I = ctx.run(g)
            me = ('sym', g.locals[1][1])
            for o in outs:
                ctx.ob(o.kind == 'ret' and wrapper(o.value) == (ret, me), 'wrap:' + ret, 'wrapping a value for a %s gives %r' % (ret, o.value), g.path, o.trace)
            k += 1
    ctx.floor(k, 4, 'ways to wrap a value')
    ctx.floor(len(SCENES), 19, 'scenes')
