"""Ownership of node memory: every place of the library that turns a raw pointer back into an owned value, or frees what a pointer points to, is found in the compiled crate; the function it is in is analysed on all paths and has to show that the entry was taken out of the table it was read from first, that it is given back once, or that the function is the unsafe accessor that hands the pointer to its caller. Every scene that is built holds a pointer made from a node the builder owned, never one that another scene holds."""
from world import *
from rule import *
import scan

RULE = 'pointer freed == table entry removed on the same path, once per removal; never a callback, never a pointer still held by a scene; pointer of a new scene == a box owned by its builder'
ASSUMES = ['callers of the unsafe functions (get_node, unregister_node, register_node, add_child_from_ptr) keep to their contracts']

BOXES = ('Box', 'Rc', 'Arc', 'CString', 'Vec', 'String', 'ManuallyDrop')
FREES = ('Box::from_raw', 'Box::from_raw_in', 'Box::from_non_null', 'Rc::from_raw', 'Arc::from_raw', 'Vec::from_raw_parts', 'ptr::drop_in_place', 'mut_ptr::drop_in_place', 'NonNull::drop_in_place',
         'ptr::read', 'ptr::read_unaligned', 'ptr::read_volatile', 'const_ptr::read', 'mut_ptr::read', 'NonNull::read', 'ptr::replace', 'mut_ptr::replace', 'alloc::dealloc', 'ManuallyDrop::drop', 'ManuallyDrop::take',
         'Arc::decrement_strong_count', 'Rc::decrement_strong_count', 'mem::transmute', 'intrinsics::transmute', 'mem::transmute_copy', 'intrinsics::transmute_unchecked', 'mem::zeroed')


def frees(P, f):
    """the calls of a function that make an owner of a pointer, with the type owned"""
    for cj, sp in P.callees(f):
        n = norm(cj['p'])
        if n in FREES:
            ts = [P.ty(f.crate, t) for t in cj.get('a') or [] if isinstance(t, int)]
            if 'transmute' in n:
                if not (len(ts) > 1 and ts[0].get('k') in ('ptr', 'ref') and ts[1].get('k') == 'adt'):
                    continue
            yield n, (ts[0]['s'] if ts else '?'), sp


def outer(P, f):
    while f.j.get('parent') in P.fns:
        f = P.fns[f.j['parent']]
    return f


def tell(name):
    def h(c, ts):
        c.st.add(Ev('call', name, tuple(c.args), None, c.sp, c.fr.path, tuple(ts)))
        return c.args[0] if name != 'mem::zeroed' else None
    return h


def check(ctx):
    P = ctx.P
    sites = {}
    for f in P.fns.values():
        if not f.local or f.crate != 'node_tree':
            continue
        ctx.fns.add(f.path)
        for n, t, sp in frees(P, f):
            sites.setdefault(outer(P, f).key, []).append((n, t, sp, f))
    ctx.floor(len(sites), 2, 'functions that free memory')
    typed = {n: tell(n) for n in FREES if 'transmute' not in n}
    for k, ss in sorted(sites.items()):
        f = P.fns[k]
        nm = f.path.split('::')[-1]
        nm = f.path.replace('structs::', '')
        for n, t, sp, g in ss:
            ctx.ob('FnMut' not in t and 'FnOnce' not in t and 'Fn(' not in t, nm + ':callback', '%s frees a callback, which may be the one that is running' % nm, sp)
            ctx.ob('transmute' not in n, nm + ':transmute', '%s makes an owner of a pointer by transmuting it' % nm, sp)
        if all('transmute' in n for n, _, _, _ in ss):
            continue
        outs, I = ctx.run(f, typed=typed)
        W = World(None)
        seen = 0
        for o in outs:
            taken = []
            for e in flat(o.trace):
                if e.kind == 'write' and e.name in ('map.remove', 'map.take'):
                    taken.append((place(W.nz(e.args[0])), W.nz(e.args[1])))
                elif e.kind == 'call' and e.name in typed:
                    seen += 1
                    v = bare(W.nz(e.args[0]))
                    hit = entry(v)
                    if hit is not None:
                        mine = [t for t in taken if t[1] == hit[1] and t[0] == place(hit[0])]
                        if ctx.ob(bool(mine), nm + ':taken-first', '%s gives a node back that is still in its table' % nm, where(e), o.trace):
                            taken.remove(mine[0])
                    elif f.j.get('unsafe') and o.kind == 'ret' and W.nz(o.value) == v and v[0] == 'fld' and v[2] == 'this':
                        own = [x for x in flat(o.trace) if x.kind == 'call' and x.name in typed]
                        ctx.ob(len(own) == 1, nm + ':handed-out', '%s makes more than one owner of its node' % nm, where(e), o.trace)
                    elif fresh(o, e, v):
                        pass
                    else:
                        ctx.ob(False, nm + ':frees', '%s makes an owner of a pointer that somebody else still holds: %s' % (nm, show(v)[:200]), where(e), o.trace)
        ctx.ob(seen > 0, nm + ':reached', '%s: the place that frees memory is not reached by the analysis' % nm)
        ctx.sample('%s: %s' % (nm, sorted({(n, t) for n, t, _, _ in ss})))
    # ---------------------------------------------------------------- scenes own what they point to
    nb = 0
    for k, sps in sorted(scan.builders(P, 'NodeScene').items()):
        f = outer(P, P.fns[k])
        nm = f.path.replace('structs::', '')
        outs, I = ctx.run(f)
        W = World(None)
        for o in outs:
            if o.kind != 'ret':
                continue
            for s in scenes(W.nz(o.value)):
                nb += 1
                v = dict(s[3]).get('this')
                stolen = isinstance(v, tuple) and v[:1] == ('fld',) and v[2] == 'this'
                ctx.ob(v is not None and not stolen, nm + ':own-node', '%s makes a scene whose node another scene holds' % nm, sps[0], o.trace)
    ctx.floor(nb, 2, 'scenes built')
    # ---------------------------------------------------------------- nobody inside uses the unsafe accessor, nothing is forgotten
    for f, sp, cj in scan.call_sites(P, 'NodeScene::get_node'):
        ctx.ob(False, 'get_node:' + f.path, f.path + ' makes another owner of the node of a scene', sp)
    for n in ('mem::forget', 'Box::leak', 'ManuallyDrop::new', 'Vec::leak', 'String::leak'):
        for f, sp, cj in scan.call_sites(P, n):
            ts = [P.ty(f.crate, t)['s'] for t in cj.get('a') or [] if isinstance(t, int)]
            ctx.ob(not any('Node' in t for t in ts), 'kept:' + f.path, '%s never gives the memory of %s back' % (f.path, ', '.join(ts)), sp)
    # ---------------------------------------------------------------- nothing frees on its own
    for im in P.impls:
        if im['crate'] == 'node_tree' and im['trait'] == 'std::ops::Drop':
            t = P.ty(im['crate'], im['self_ty'])['s']
            for mn, mk in im['methods']:
                bad = [(n, sp) for f in P.fns.values() if f.local and outer(P, f).key == mk for n, _, sp in frees(P, f)]
                for f in P.fns.values():
                    if f.local and outer(P, f).key == mk:
                        bad += [(norm(cj['p']), sp) for cj, sp in P.callees(f) if norm(cj['p']).split('::')[-1] in ('get_node', 'unregister_node')]
                ctx.ob(not bad, 'drop:' + t, 'dropping a %s gives nodes back that may be in a tree' % t, bad[0][1] if bad else '')


def bare(t):
    while isinstance(t, tuple) and t and t[0] in ('&', 'deref'):
        t = t[1]
    return t


def place(t):
    """a map, whichever way and whenever it is named"""
    t, names = bare(t), ()
    if t == ('NODES',):
        return ('nodes', 'data')
    while isinstance(t, tuple) and t and t[0] in ('fld', 'ref', '&', 'deref'):
        if t[0] == 'ref':
            return tuple(t[1][1]) + names
        if t[0] == 'fld':
            names = (t[2],) + names
        t = t[1]
    return names


def entry(v):
    """(map, key) a pointer was read from"""
    if v[0] == 'NP':
        return ('NODES', v[1])
    if v[0] == 'fld' and isinstance(v[2], tuple) and v[2][0] == 'k':
        return v[1], v[2][1]
    if v[0] == 'mapval':
        return v[1], v[2]
    return None


def fresh(o, e, v):
    """made from an owned value on this very path"""
    return v[0] == 'app' and len(v) > 3 and v[3] is not None and any(x.ret == v for x in flat(o.trace)) and not any(x.kind == 'write' and any(contains(a, v) for a in x.args) for x in flat(o.trace))


def scenes(t, d=0):
    if isinstance(t, tuple):
        if t[:1] == ('adt',) and len(t) == 4 and str(t[1]).endswith('NodeScene'):
            yield t
        if d < 12:
            for x in t:
                if isinstance(x, tuple):
                    yield from scenes(x, d + 1)
