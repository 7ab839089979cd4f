"""Signals: connecting, disconnecting and emitting are analysed on all paths. Connecting stores the given callback once and returns its id; emitting is shown to walk over the ids of all connections there are when it starts, to look every one of them up again when its turn comes, to call exactly the stored callback once with the given parameters if it is still connected (removing a one-shot connection before it is called) and nothing otherwise; disconnecting removes exactly the given id. Copies start without connections and share none."""
from world import *
from rule import *

RULE = 'emit == for each id of a complete snapshot: still connected? (one-shot: remove) call it once with the parameters; connect/disconnect == insert/remove of one id; clone/default/void make an own, empty handler table'


def strip(t):
    """terms without the times of reads, borrows and copies"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'ref' and t[1][0][0] != 'cell':
        return strip(place(t))
    if t[0] in ('&', 'deref') and len(t) == 2:
        return strip(t[1])
    if t[0] == 'obj':
        x = strip(t[1])
        return x if x[:1] in (('sym',), ('mapkey',), ('fld',), ('app',)) else ('obj', x)
    if t[0] == 'app' and t[1].split('::')[-1] in ('clone', 'to_owned') and len(t[2]) == 1:
        return strip(t[2][0])
    if t[0] == 'guarded':
        return ('guarded', strip(t[1]))
    return tuple(strip(x) if isinstance(x, tuple) else x for x in t)


SELF = ('sym', 'self')


def is_data(t):
    """the handler table of the receiver"""
    return isinstance(t, tuple) and t[:1] == ('fld',) and t[2] == 'data' and strip(t[1]) == ('obj', ('guarded', ('fld', SELF, 'hooks')))


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


def project(v, path):
    """a part of a stored value, None if the path does not lead anywhere in it"""
    for f in path:
        if v is None:
            return None
        if v[0] == 'tup' and f.isdigit() and int(f) < len(v[1]):
            v = v[1][int(f)]
        elif v[0] == 'adt':
            d = dict(v[3])
            v = d.get(f.split('.')[-1]) if '.' in f and f.split('.')[0] == v[2] else d.get(f)
        else:
            return None
    return v


def split(t, root):
    """path of fields from root to t"""
    path = []
    while t != root:
        if not (isinstance(t, tuple) and t[:1] == ('fld',)) or not isinstance(t[2], str):
            return None
        path.append(t[2])
        t = t[1]
    return path[::-1]


def connects(ctx, name):
    """the value a way of connecting stores, after checking the operation itself"""
    W = World(None)
    fn = ctx.inherent('Signal', name)
    outs, I = ctx.run(fn)
    val = None
    for o in outs:
        if not ctx.ob(o.kind == 'ret', name + ':aborts', 'connecting can abort', '', o.trace):
            continue
        ins = [e for e in flat(o.trace) if e.kind == 'write' and e.name.startswith(('map.', 'vec.'))]
        if not ctx.ob(len(ins) == 1 and ins[0].name == 'map.insert' and is_data(W.nz(place(ins[0].args[0]))), name + ':stores', 'connecting does not enter exactly one connection', '', o.trace):
            continue
        key, v = ins[0].args[1], W.nz(ins[0].args[2])
        ctx.ob(strip(W.nz(o.value)) == strip(W.nz(key)), name + ':id', 'the id returned is not the one of the connection', where(ins[0]), o.trace)
        # the callback is in a box of its own, made on this path and moved to nothing else
        refs = [x for x in subterms(v) if isinstance(x, tuple) and x[:1] in (('ref',),) and x[1][0][0] == 'cell']
        cb = ('sym', fn.locals[2][1] or 'a2')
        good = [x for x in refs if content_of(I, o, x) == cb] or [x for x in subterms(v) if x == cb]
        ctx.ob(len(good) >= 1, name + ':callback', 'the callback that is stored is not the given one', where(ins[0]), o.trace)
        ctx.ob(not calls(o.trace, 'usercall'), name + ':calls', 'connecting calls the callback', '', o.trace)
        if good:
            val = (v, good[0])
    return val


def content_of(I, o, ref):
    try:
        v = I.load(o.state, ref[1])
        while isinstance(v, tuple) and v[:1] == ('adt',) and len(v[3]) == 1:
            v = v[3][0][1]
        return v
    except Exception:
        return None


def emits(ctx, stored):
    W = World(None)
    fn = ctx.inherent('Signal', 'emit')
    par = ('sym', fn.locals[2][1] or 'a2')
    outs, I = ctx.run(fn)
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'emit:aborts', 'emitting can abort', '', o.trace):
            continue
        inner = [e.ret for e in o.trace if e.kind == 'call' and e.name == 'Element::as_inner' and contains(e.ret, par)]
        doing = [l for l in all_loops(o.trace) if any(e.kind == 'call' and e.name == 'usercall' for b in l.extra for e in flat(b))]
        early = [e for e in o.trace if e.kind == 'call' and e.name == 'usercall']
        ctx.ob(not early, 'emit:outside', 'a callback is called outside of the walk over the connections', '', o.trace)
        if not doing and no_one(W, o):
            continue
        if not ctx.ob(len(doing) == 1 and doing[0] in o.trace, 'emit:walk', 'emitting is not one walk over the connections', '', o.trace):
            continue
        l = doing[0]
        w = walk_of(l)
        if not ctx.ob(w is not None and completed(o.trace, w[0]), 'emit:complete', 'emitting does not reach every connection', '', o.trace):
            continue
        m = members(I, W, o.trace, anyorder(W.nz(w[2])))
        if not ctx.ob(m is not None and completed(o.trace, m[0][0]) and is_data(W.nz(unmap(m[1]))), 'emit:snapshot', 'the connections walked over are not collected from all connections there are: %s' % show(W.nz(w[2]))[:300], '', o.trace):
            continue
        key0 = None
        what = set()
        for b, vs in m[2]:
            if ctx.ob(len(vs) == 1, 'emit:all', 'a connection is left out of (or twice in) the walk', '', b):
                v = strip(vs[0])
                if v[:1] == ('mapkey',):
                    what.add(())
                elif v[0] == 'tup' and any(x[:1] == ('mapkey',) for x in v[1]):
                    what.add(str([x[:1] == ('mapkey',) for x in v[1]].index(True)))
                else:
                    what.add(None)
        if not ctx.ob(len(what) == 1 and None not in what, 'emit:ids', 'the walk is not over the ids of the connections', '', o.trace):
            continue
        at = what.pop()
        el = ('fld', W.nz(w[2]), ('i', ('ix', w[0])))
        key = strip(el if at == () else ('fld', el, at))
        seen = set()
        for b in l.extra:
            body(ctx, W, b, key, strip(el), inner, stored, seen)
        ctx.ob({'gone', 'connect', 'connect_once'} <= seen, 'emit:cases', 'emitting does not tell apart connections that are gone, stay, or are used once: %s' % sorted(seen), '', o.trace)
        changed = [e for e in flat(o.trace) if e.kind == 'write' and not e.name.startswith('vec.') and not (e.name == 'map.remove')]
        ctx.ob(not changed, 'emit:changes', 'emitting changes the connections', where(changed[0]) if changed else '', o.trace)


def anyorder(t):
    while isinstance(t, tuple) and (t[:1] == ('vop',) and t[1].startswith(('sort', 'reverse')) or t[:1] == ('rev',)):
        t = t[2] if t[0] == 'vop' else t[1]
    return t


def unmap(t):
    while isinstance(t, tuple) and t[:1] in (('map_',), ('map',), ('seq',), ('copied',), ('cloned',), ('keys',)):
        t = t[1]
    return t


def no_one(W, o):
    """a path on which nothing is connected"""
    F = facts(W, o)
    return any(k[:1] == ('empty',) and is_data(k[1]) and v is True for k, v in F.items()) or \
        any(t and ('len', d) in (a, b) and ('int', 0) in (a, b) for a, b, t in eq_facts(F) for d in (a[1:2] + b[1:2]) if is_data(d))


def entry_path(t, key, el):
    """path into the stored value a term is read from, None if it is not part of this connection"""
    s = t
    path = []
    while isinstance(s, tuple) and s[:1] in (('fld',), ('obj',)):
        if s[0] == 'fld':
            if isinstance(s[2], tuple) and s[2][0] == 'k' and is_data(s[1]):
                return path[::-1] if strip(s[2][1]) == key else None
            if strip(s) == el:
                p = path[::-1]
                k = split(key, el)
                return p[1:] if k and p and p[0] != k[0] else None
            path.append(s[2])
        s = s[1]
    return None


def body(ctx, W, b, key, el, inner, stored, seen):
    ev = list(flat(b))
    has = [v for k, v in body_bools(W, b).items() if k[:1] == ('haskey',) and is_data(k[1]) and strip(k[2]) == key]
    cs = [e for e in ev if e.kind == 'call' and e.name == 'usercall']
    rem = [e for e in ev if e.kind == 'write' and e.name == 'map.remove']
    rem_ok = all(is_data(W.nz(place(e.args[0]))) and strip(W.nz(e.args[1])) == key for e in rem)
    ctx.ob(rem_ok, 'emit:removes-other', 'emitting removes another connection', where(rem[0]) if rem else '', b)
    if not ctx.ob(has, 'emit:looked-up', 'a connection is not looked up again before its turn', '', b):
        return
    if has[0] is False:
        seen.add('gone')
        ctx.ob(not cs, 'emit:gone', 'a callback that is no longer connected is called', where(cs[0]) if cs else '', b)
        return
    if not ctx.ob(len(cs) == 1, 'emit:once', 'a connected callback is called %d times' % len(cs), '', b):
        return
    c = cs[0]
    p = entry_path(W.nz(c.args[0]), key, el)
    args = [strip(x) for x in c.args[1:]]
    ctx.ob(len(args) == 1 and args[0] in [strip(x) for x in inner], 'emit:parameters', 'the callback is not called with the emitted parameters: %s' % [show(x) for x in args], where(c), b)
    for name, (v, cb) in stored.items():
        fits = True
        for e in b:
            if e.kind == 'assume' and e.name in ('variant', 'bool') and len(e.args) == 2:
                q = entry_path(W.nz(e.args[0]), key, el)
                x = project(v, q) if q is not None else None
                if e.name == 'variant' and x is not None and x[0] == 'adt':
                    vs = e.args[1] if isinstance(e.args[1], (tuple, frozenset, list, set)) else (e.args[1],)
                    fits = fits and x[2] in vs
                elif e.name == 'bool' and x is not None and x[0] == 'bool':
                    fits = fits and x[1] == e.args[1]
        if not fits:
            continue
        seen.add(name)
        got = project(v, p) if p is not None else None
        ctx.ob(got == cb, 'emit:%s:callee' % name, 'what is called is not the callback of this connection', where(c), b)
        if name == 'connect_once':
            ctx.ob(len(rem) == 1 and ev.index(rem[0]) < ev.index(c), 'emit:connect_once:removed', 'a one-shot connection is not removed before it is called', where(c), b)
        else:
            ctx.ob(not rem, 'emit:connect:kept', 'a lasting connection is removed', where(c), b)


def check(ctx):
    W = World(None)
    P = ctx.P
    stored = {}
    for n in ('connect', 'connect_once'):
        v = connects(ctx, n)
        if v:
            stored[n] = v
    ctx.floor(len(stored), 2, 'ways of connecting')
    emits(ctx, stored)
    # ------------------------------------------------ disconnecting
    fn = ctx.inherent('Signal', 'disconnect')
    rid = ('sym', fn.locals[2][1] or 'a2')
    rs = set()
    for o in ctx.run(fn)[0]:
        if not ctx.ob(o.kind == 'ret', 'disconnect:aborts', 'disconnecting can abort', '', o.trace):
            continue
        has = [v for k, v in facts(W, o).items() if k[:1] == ('haskey',) and is_data(k[1]) and strip(k[2]) == rid]
        rem = [e for e in flat(o.trace) if e.kind == 'write']
        v = W.nz(o.value)
        if v[:1] == ('haskey',) and is_data(v[1]) and strip(v[2]) == rid:
            res = None
            rs |= {True, False}
        elif ctx.ob(has and v == ('bool', has[-1]), 'disconnect:result', 'disconnecting does not say whether it was connected', '', o.trace):
            rs.add(has[-1])
        gone = [e for e in rem if e.name == 'map.remove' and is_data(W.nz(place(e.args[0]))) and strip(W.nz(e.args[1])) == rid]
        ctx.ob(len(gone) == len(rem) and (len(gone) == 1 or has and has[-1] is False and not gone), 'disconnect:removes', 'disconnecting does not remove exactly the given connection', '', o.trace)
        ctx.ob(not calls(o.trace, 'usercall'), 'disconnect:calls', 'disconnecting calls something', '', o.trace)
    ctx.ob(rs == {True, False}, 'disconnect:cases', 'disconnecting does not tell connected ids from others')
    # ------------------------------------------------ fresh signals
    fresh = [f for f in P.fns.values() if f.local and 'signals::Signal<T>' in f.path and f.path.split('::')[-1] in ('clone', 'default', 'void', 'new') and '{closure' not in f.key]
    ctx.floor(len(fresh), 3, 'ways to make a signal')
    for f in fresh:
        n = f.path.split('::')[-1]
        for o in ctx.run(f)[0]:
            v = o.value if o.kind == 'ret' else None
            if not ctx.ob(v is not None and v[0] == 'adt' and v[1].endswith('Signal'), 'fresh:' + n, 'a new signal is not made: %s' % show(v), '', o.trace):
                continue
            h = dict(v[3])['hooks']
            ok = isinstance(h, tuple) and h[:1] == ('ref',) and h[1][0][0] == 'cell'
            inner = content_of(ctx.run(f)[1], o, h) if ok else None
            maps = [x for x in subterms(inner) if isinstance(x, tuple) and x[:1] in (('map',), ('emptymap',), ('newmap',))] if inner else []
            ctx.ob(ok and not contains_name(inner, 'self') and inner is not None, 'fresh:%s:own' % n, 'a signal made by %s shares its connections or starts with some: %s' % (n, show(inner)), '', o.trace)
    for f in ctx.P.fns.values():
        if f.local and 'signals::Signal<T>' in f.path and f.path.endswith('::is_ghost_export'):
            for o in ctx.run(f)[0]:
                ctx.ob(o.kind == 'ret' and o.value == ('bool', True), 'ghost', 'a signal can be exported', '', o.trace)
