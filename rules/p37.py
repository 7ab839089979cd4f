"""No operation of the library runs forever: every loop and every recursion of every function is found on all paths, and each must have one of the measures of progress: a walk over a finite sequence, a container that loses an element each time, a counter towards a bound, a search for a text that is not in a finite list by counting, the way down to a child, up to a parent, or a layer of a tree that is not empty."""
from world import *
from rule import *
import p32
import p35

RULE = 'every loop / recursion step: a measure strictly decreases in a well-founded order (finite walk; shrinking container; counter with a guard; fresh numbered text against a finite list; child of; parent of; next non-empty layer)'
ASSUMES = ['P06: parent links and child lists form a finite tree', 'hooks and callbacks return, and do not keep adding nodes for ever', 'std: its own functions return; a counter that wraps visits every value', 'P32: the layers of a tree are disjoint']
ENDLESS = ('RangeFrom', 'Repeat', 'Cycle', 'iter::from_fn', 'Successors', 'FromFn', 'repeat', 'cycle', 'successors')


def own_walk(l):
    """the sequence that drives this loop itself: an item of it in every body, not taken by a loop inside of the body"""
    common = None
    for b in l.extra:
        inner = set()
        its = {}
        for e in b:
            if e.kind == 'loop':
                inner |= {x.extra[0] for c in e.extra for x in c if x.kind == 'iter' and x.extra}
            elif e.kind == 'iter' and e.name in ('item', 'skip') and e.extra and e.extra[0] not in inner:
                its[e.extra[0]] = e
        common = its if common is None else {k: v for k, v in common.items() if k in its}
    for e in (common or {}).values():
        return e
    return None


def finite(t):
    return not any(isinstance(x, tuple) and x and isinstance(x[0], str) and (x[0] in ('rangefrom', 'cycle', 'repeat') or any(isinstance(y, str) and any(z in y for z in ENDLESS) for y in x[:3])) for x in subterms(t))


SHRINK = ('vremove', 'vpop', 'mremove')


def shrinks(v, p):
    """v is p with an element less, at p itself or in one of its fields"""
    if v[:1] in tuple((x,) for x in SHRINK):
        while v[0] in SHRINK:
            v = v[1]
        return at(v, p)
    if v[:1] == ('upd',):
        return at(v[1], p) and any(less(x, v[1], f) for f, x in v[2]) and all(less(x, v[1], f) or x[:1] not in (('push',), ('minsert',)) for f, x in v[2])
    if v[:1] == ('adt',):
        return any(less(x, p, f) for f, x in v[3]) and all(less(x, p, f) or plain(x) == ('fld', p, f) or x[:1] in (('bool',), ('int',)) for f, x in v[3])
    return False


def less(x, p, f):
    return isinstance(x, tuple) and x[:1] in tuple((y,) for y in SHRINK) and shrinks(x, ('fld', p, f))


def at(t, p):
    while t != p and isinstance(t, tuple) and t[:1] in (('fld',), ('obj',)):
        t = t[1]
    return t == p


def guards(W, b):
    r = {}
    for e in b:
        if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2:
            k = e.args[0]
            if isinstance(k, tuple):
                r[k] = e.args[1]
    return r


def mentions(t, p):
    return any(x == p for x in subterms(t))


def progress(I, W, l):
    """why this loop ends; None if nothing shows it"""
    w = own_walk(l)
    if w is not None:
        if finite(w.extra[2]) and finite(w.args):
            return 'walk'
        if len(w.args) > 1 and all(taken(I, l, b, {w.args[1]}) for b in l.extra):
            return 'fresh text'
        return None
    for p, (init, backs) in I.phis.items():
        if p[1] != lid(l) or not backs or not all(isinstance(v, tuple) for v in backs):
            continue
        if all(shrinks(v, p) for v in backs):
            return 'shrinks'
        if all(steps(v, p, ('Sub',)) for v in backs) and all(any(mentions(k, p) and k[:1] == ('bin',) for k in guards(W, b)) for b in l.extra):
            return 'counts down'
        if all(steps(v, p, ('Add',)) for v in backs) and all(any(k[:2] in (('bin', 'Lt'), ('bin', 'Le')) and mentions(k[2], p) and not changed(I, l, k[3]) and g is True for k, g in guards(W, b).items()) for b in l.extra):
            return 'counts up'
        if all(steps(v, p, ('Add', 'Sub', 'wrapping_add', 'wrapping_sub')) for v in backs) and all(taken(I, l, b, {p} | set(backs)) for b in l.extra):
            return 'fresh text'
        if all(up_from(W, v, p) for v in backs):
            return 'climbs'
        nx = [(b, m.get(p, p)) for b, m in zip(l.extra, I.body_phi.get(l.name, ()))]
        if nx and all(layer(I, W, b, v, p, trace_facts(W, b)) or p32.empty(trace_facts(W, b), p) is False and p32.next_layer(I, W, b, W.nz(v), p)[0] for b, v in nx):
            return 'layer'
    return None


def steps(v, p, ops):
    """v is p and a fixed step further"""
    if v[:1] == ('bin',) and v[1] in ops:
        a, b = v[2], v[3]
    elif v[:1] == ('app',) and v[1].split('::')[-1] in ops and len(v[2]) >= 2:
        a, b = v[2][0], v[2][1]
    else:
        return False
    if b == p and v[1] == 'Add':
        a, b = b, a
    return a == p and b[:1] == ('int',) and isinstance(b[1], int) and b[1] > 0


def lid(l):
    return l.args[0] if l.args else l.name


def changed(I, l, t):
    return any(isinstance(x, tuple) and x[:2] == ('phi', lid(l)) for x in subterms(t))


def taken(I, l, b, p):
    # p: the counter, or it and its next value
    """in this body a text that counts with p is an element of a list that stays"""
    for e in b:
        if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2 and isinstance(e.args[0], tuple):
            k, v = e.args
            if v is True and k[:2] == ('bin', 'Eq'):
                for x, y in ((k[2], k[3]), (k[3], k[2])):
                    if numbered(I, l, x, p) and not changed(I, l, y):
                        return True
            if v is True and k[:1] in (('haskey',), ('contains',), ('member',)) and len(k) > 2 and numbered(I, l, k[2], p) and not changed(I, l, k[1]):
                return True
    return False


def numbered(I, l, x, ps):
    """a text made of fixed parts and the number once"""
    x = plain(x)
    if isinstance(x, tuple) and x[:2] == ('phi', lid(l)) and x in I.phis:
        return all(isinstance(v, tuple) and v != x and numbered(I, l, v, ps) for v in I.phis[x][1])
    parts = x[1] if isinstance(x, tuple) and x[:1] == ('cat',) else (x,)
    shown = [y for y in parts if displays(I, l, y, ps)]
    return len(shown) == 1 and all(y in shown or not changed(I, l, y) and not any(mentions(y, p) for p in ps) for y in parts)


def displays(I, l, y, ps):
    if not isinstance(y, tuple):
        return False
    if y[:2] == ('phi', lid(l)) and y in I.phis:
        return all(v != y and displays(I, l, v, ps) for v in I.phis[y][1])
    return y[:1] == ('app',) and y[1] in ('disp', 'ToString::to_string') and bool(y[2]) and y[2][0] in ps


def up_from(W, v, p):
    return isinstance(v, tuple) and any(isinstance(x, tuple) and x[:1] == ('fld',) and x[2] == 'parent' and mentions(x[1], p) for x in subterms(v))


def strip(t):
    """the node or scene a pointer, reference or id stands for"""
    while isinstance(t, tuple) and t:
        if t[0] in ('B', 'NB', 'NP', 'base', 'deref', '&', 'obj') and isinstance(t[1], tuple):
            t = t[1]
        elif t[0] == 'fld' and t[2] in ('this', 'rid', 'Some.0') and not (t[2] == 'Some.0' and field_of(t[1], 'parent')):
            t = t[1]
        elif t[0] == 'fld' and isinstance(t[2], tuple) and t[2][0] == 'k':
            t = t[2][1]
        elif t[0] == 'ref' and len(t[1]) == 2 and not t[1][1]:
            t = t[1][0]
        else:
            return t
    return t


def place_of(t):
    """a reference as the place it leads to, in fields"""
    if isinstance(t, tuple) and t[:1] == ('ref',) and t[1][1]:
        r = t[1][0]
        for p in t[1][1]:
            r = ('fld', r, p)
        return r
    return t


def same_place(t, me):
    t = strip(t)
    return t == ('SELF',) and me == ('sym', 'self') or t == me


def descends(W, raw, me):
    """child / parent / smaller / next layer, compared with the parameter"""
    x = strip(place_of(raw))
    y = strip(W.nz(x)) if isinstance(x, tuple) else x
    for t in (x, y):
        if not isinstance(t, tuple):
            continue
        if t[:1] == ('CH',) and same_place(t[1], me):
            return 'child'
        if t[:1] == ('fld',) and isinstance(t[2], tuple) and t[2][0] in ('i', 'ix') and (field_of(t[1], 'children') and same_place(t[1][1], me) or t[1][:1] == ('CHILDREN',) and same_place(t[1][1], me)):
            return 'child'
        if field_of(t, 'Some.0') and field_of(t[1], 'parent') and same_place(t[1][1], me):
            return 'parent'
    if isinstance(raw, tuple) and raw[:2] == ('bin', 'Sub') and raw[2] == me and raw[3][:1] == ('int',) and raw[3][1] > 0:
        return 'counts down'
    return None


def layer(I, W, trace, raw, me, F):
    """the children of the nodes of a layer, when there are any"""
    n = W.nz(raw)
    if not isinstance(n, tuple) or n[:1] not in (('seqmap',), ('phi',), ('&',)):
        return None
    n = plain(n)
    if not p32.next_layer(I, W, trace, n, me)[0]:
        return None
    return 'layer' if p32.empty(F, n) is False else None


def I_name(P, f):
    return p35.I_name(P, f.key) if 'self_ty' in f.j else '::'.join(f.path.split('::')[-2:])


def component(P, key, without=()):
    """functions that both reach and are reached from this one"""
    P.recursive(P.fns[key])
    E = P._edges

    def reach(k):
        seen, todo = set(), [k]
        while todo:
            for x in E.get(todo.pop(), ()):
                if x not in seen and x not in without:
                    seen.add(x)
                    todo.append(x)
        return seen
    return {k for k in reach(key) if key in reach(k)}


POSTS = {'NodeBase::post', 'NodeTreeBase::post', 'Logger::post', 'functions::draw_tree'}


def check(ctx):
    P = ctx.P
    n_fn = n_loop = n_rec = 0
    kinds = {}
    posts = {f.key for f in P.fns.values() if f.local and any(I_name(P, f) == x for x in POSTS)}
    # cycles through a log entry are looked for from Logger::post; those that do not pass through it, from each of their functions
    hub = {k for k in posts if I_name(P, P.fns[k]) == 'Logger::post'}
    ctx.floor(len(hub), 1, 'Logger::post')
    posts = hub | {k for q in posts for k in component(P, q) if component(P, k, hub)}
    mine = {f.path: f for f in P.fns.values() if f.local and f.crate == 'node_tree'}
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.crate != 'node_tree' or not f.local or '{closure' in f.key or 'promoted' in f.path:
            continue
        rec = P.recursive(f)
        own = 'node' if 'NodeBase::' in f.path and 'NodeTreeBase' not in f.path else None
        W = p35.Lw(own, fixed=p35.tree_args(P, f))
        W.nodes = p35.node_args(P, f)
        outs, I = ctx.run(f, base=OPAQUE - POSTS if f.key in posts else OPAQUE)
        n_fn += 1
        nm = f.path.replace('structs::', '')
        ctx.ob(outs, nm + ':never', '%s never comes to an end on any path' % nm)
        seen = set()
        for o in outs:
            for l in all_loops(o.trace):
                if lid(l) in seen or l.fn != f.path and l.fn in mine and f.path not in l.fn:
                    continue   # a loop of another function of the library is judged there
                seen.add(lid(l))
                n_loop += 1
                why = progress(I, W, l)
                kinds[why] = kinds.get(why, 0) + 1
                ctx.ob(why, '%s:loop' % nm, 'nothing shows that this loop in %s comes to an end' % nm, l.sp, o.trace)
            if not rec:
                continue
            J = None
            for e in flat(o.trace):
                if e.kind == 'rec' and e.extra == f.key:
                    n_rec += 1
                    J = J or p35.Judge(I, W, o)
                    why = None
                    for i in range(f.argc):
                        me = ('sym', f.locals[i + 1][1] or 'a%d' % (i + 1))
                        why = why or isinstance(e.args[i], tuple) and shrinks(e.args[i], me) and 'shrinks' or descends(W, e.args[i], me) or layer(I, W, o.trace, e.args[i], me, J.F)
                    kinds[why] = kinds.get(why, 0) + 1
                    ctx.ob(why or J.impossible(), '%s:recursion' % nm, '%s calls itself without getting any further: %s' % (nm, [show(W.nz(a))[:90] for a in e.args]), str(where(e)), o.trace)
    for k, v in sorted(kinds.items(), key=repr):
        ctx.sample('%s: %d' % (k, v))
    ctx.floor(n_fn, 300, 'functions')
    ctx.floor(n_loop, 40, 'loops')
    ctx.floor(n_rec, 8, 'steps of recursions')
