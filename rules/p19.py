"""Loading is analysed on all paths for operations that can abort: calls that panic, indexing, arithmetic, undefined behaviour. Each one that is reachable must be excluded by what loading keeps true itself: the cached place of every node is not empty and leads to a node of the scene, because it is the place of its parent followed by the index of the child added last, and children are only ever added."""
from world import *
from rule import *
from scn import *
import p18

RULE = 'no panic, no failing index or arithmetic, no undefined path in load_from_str/load, except those the invariant of the place cache excludes; the invariant is inductive'


def check(ctx):
    r = Reader(ctx, None)
    if r.loop is None or not ctx.ob(r.discover(), 'names', 'the names of the metadata can not be made out'):
        return
    # the invariant: places are not empty and lead to nodes
    nb = 0
    for o, b, nx in r.bodies(ctx):
        nb += 1
        r.safe_places(ctx, b)
        grow = [v for k, v in nx.items() if r.phi_names.get(k) == SCENE]
        ctx.ob(all(grown(r.name(v)) or r.facts(b).get(SCENE) == frozenset({'None'}) for v in grow), 'place:replaced', 'a scene that was begun is replaced', '', b)
    ctx.floor(nb, 3, 'ways to load an entry')
    n = 0
    for o in r.outs:
        n += 1
        for e in flat(o.trace):
            if e.kind == 'mayfail':
                ctx.ob(excluded(r, e, o), 'fails:%s' % e.name, '%s can fail: %s' % (e.name, [show(r.name(a))[:200] for a in e.args]), where(e), o.trace)
        if o.kind == 'ret':
            ctx.ob(True, 'returns', '')
            continue
        F = dict(r.fact(k, v) for k, v in facts(r.W, o).items())
        last = o.trace[-1] if o.trace else None
        ctx.ob(empty_place(r, o, F), 'aborts', 'loading can abort (%s)' % o.kind, where(last), o.trace)
    ctx.floor(n, 5, 'paths of load_from_str')
    fn = ctx.inherent('NodeScene', 'load')
    for o in ctx.run(fn, opaque={'NodeScene::load_from_str'})[0]:
        ctx.ob(o.kind == 'ret', 'load:aborts', 'loading a file can abort', where(o.trace[-1]) if o.trace else '', o.trace)
        for e in flat(o.trace):
            if e.kind == 'mayfail':
                ctx.ob(False, 'load:fails', '%s can fail' % e.name, where(e), o.trace)


def grown(v):
    while v[:1] == ('upd',):
        v = v[1]
    return v == SCENE


def is_place(t):
    return t[:1] == ('fld',) and t[1] == TRAV and isinstance(t[2], tuple) and t[2][0] == 'k'


def walked(r, o):
    """walks over cached places: their tags"""
    return {walk_of(l)[0]: l for l in all_loops(o.trace) if walk_of(l) and is_place(r.strip_walk(walk_of(l)[2]))}


def excluded(r, e, o):
    if e.name == 'Overflow':
        t = r.name(e.args[0])
        # (n + 1) - 1
        return t[:2] == ('ovf', 'Sub') and t[3] == ('int', 1) and t[2][:2] == ('bin', 'Add') and ('int', 1) in t[2][2:] and any(x[:1] == ('len',) for x in t[2][2:])
    if e.name == 'index':
        i, n = r.name(e.args[0]), r.name(e.args[1])
        for tag, l in walked(r, o).items():
            if i == ('fld', r.strip_walk(walk_of(l)[2]), ('i', ('ix', tag))) and n[:1] == ('len',) and n[1][:1] == ('fld',) and n[1][2] == 'children':
                at = strip_payload(n[1][1])
                if at == SCENE or at[:1] == ('phi',) and at[1] == l.name:
                    return True
    return False


def empty_place(r, o, F):
    """this path needs a cached place that is empty"""
    ws = walked(r, o)
    for k, v in F.items():
        if k[:1] == ('phi',) and any(l.name == k[1] for l in ws.values()) and v == frozenset({'None'}):
            l = [l for l in ws.values() if l.name == k[1]][0]
            raw = [p for p in r.I.phis if r.name(p) == k]
            # after one step it is something
            return all(r.name(nx[raw[0]])[:1] == ('adt',) and r.name(nx[raw[0]])[2] == 'Some' for nx in r.I.body_phi[l.name])
    return False
