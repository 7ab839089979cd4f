"""Ids: the table behind ids is read off its operations as equations over all paths (push returns the counter and advances it by one, lookups return the entry under exactly the given id, take removes exactly that entry and leaves the counter), the tree's registering, unregistering and single lookups are shown to be those operations on the given id, and scans confine the writers of counter and table."""
from world import *
from rule import *
import scan

RULE = 'summary of every table operation == its equation on every path; writers of the counter = push and constructors; tree lookups return exactly the entry of the given id'


def opt(v):
    """('Some', payload) / ('None',) of an Option value"""
    if isinstance(v, tuple) and v[:1] == ('adt',) and v[2] in ('Some', 'None'):
        return ('Some', dict(v[3]).get('0')) if v[2] == 'Some' else ('None',)
    return None


def lookup(ctx, name, outs, W, keyed, entry, extra_ok=lambda e: False):
    """a function returns Some(entry) iff keyed, and changes nothing (but what extra_ok allows)"""
    seen = set()
    for o in outs:
        if not ctx.ob(o.kind == 'ret', name + ':aborts', 'looking up an id can abort', '', o.trace):
            continue
        F = facts(W, o)
        has = [v for k, v in F.items() if k == keyed]
        r = opt(W.nz(o.value))
        if not ctx.ob(r is not None and (len(has) == 1 or name.endswith('root')), name + ':decided', 'the result does not depend on whether the id is registered: ' + show(W.nz(o.value)), '', o.trace):
            continue
        seen.add(has[0])
        if has[0]:
            ctx.ob(r[0] == 'Some' and plain_entry(r[1]) == entry, name + ':found', 'looking up a registered id gives %s' % show(W.nz(o.value)), '', o.trace)
        else:
            ctx.ob(r == ('None',), name + ':missing', 'looking up an unregistered id gives %s' % show(W.nz(o.value)), '', o.trace)
        ws = [e for e in flat(o.trace) if e.kind == 'write' and not extra_ok(e)]
        ctx.ob(not ws, name + ':changes', 'looking up an id changes the tree', where(ws[0]) if ws else '', o.trace)
    ctx.ob(seen == {True, False}, name + ':both', 'the lookup does not tell registered from unregistered ids')


def plain_entry(t):
    while isinstance(t, tuple) and t and t[0] == '&' and len(t) == 2:
        t = t[1]
    return place(t)


def rounds(vec, trace):
    """the loops that go through all of the list, one item a round"""
    r = set()
    for l in loops(trace):
        its = [[e for e in b if e.kind == 'iter' and e.name == 'item'] for b in l.extra]
        if its and all(len(b) == 1 and b[0].args[0] == ('seq', vec) for b in its) and any(e.kind == 'iter' and e.name == 'end' and e.args[0] == ('seq', vec) for e in trace):
            r.add(int(l.name) if str(l.name).isdigit() else l.name)
    return r


def counts(I, h, vec, trace):
    """h starts at 0 and is advanced by one in every round over the list"""
    if h[:1] != ('phi',) or h not in I.phis or h[1] not in rounds(vec, trace):
        return False
    init, backs = I.phis[h]
    return strip_cast(init) == ('int', 0) and len(backs) > 0 and all(b in (('bin', 'Add', h, ('int', 1)), ('bin', 'Add', ('int', 1), h)) for b in backs)


def numbers(k, ix, vec):
    """k is the number of the item ix"""
    k = strip_cast(k)
    return k == ix or k[:1] == ('rangeix',) and strip_cast(k[1]) == ('int', 0) and plain(strip_cast(k[2])) == ('len', vec) and k[3] == 'excl' and ('ix', k[4]) == ix


def filled(I, d, vec, trace):
    """d starts empty, and every round over the list adds its item under its number"""
    if d[:1] != ('phi',) or d not in I.phis or d[1] not in rounds(vec, trace):
        return False
    init, backs = I.phis[d]
    if init != ('emptymap',) and init != ('map', ()) or not backs:
        return False
    for b in backs:
        if b[:1] != ('minsert',) or b[1] != d or b[3][:2] != ('fld', vec) or b[3][2][:1] != ('i',):
            return False
        k = strip_cast(b[2])
        if k != b[3][2][1] and not (counts(I, k, vec, trace) and k[1] == d[1]):
            return False
    return True


def check(ctx):
    P = ctx.P
    W = World(None)
    me = ('obj', ('sym', 'self'), 0)
    data, high = ('fld', me, 'data'), ('fld', me, 'highest')
    H = lambda n: ctx.inherent('RIDHolder', n)
    # ------------------------------------------------ the table
    for o in ctx.run(H('new'))[0]:
        v = dict(o.value[3]) if o.kind == 'ret' and o.value[0] == 'adt' else {}
        ctx.ob(v.get('data') in (('emptymap',), ('map', ())) and v.get('highest') == ('int', 0), 'table:new', 'a new table does not start empty with id 0', '', o.trace)
    fn = H('push')
    outs, _ = ctx.run(fn)
    item = ('sym', fn.locals[2][1] or 'a2')
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'push:aborts', 'registering can abort', '', o.trace):
            continue
        ctx.ob(W.nz(o.value) == high, 'push:id', 'registering returns %s instead of the next free id' % show(W.nz(o.value)), '', o.trace)
        hw = [e for e in flat(o.trace) if e.kind == 'write' and e.name.endswith('highest')]
        ctx.ob(len(hw) >= 1 and W.nz(hw[-1].args[1]) in (('bin', 'Add', high, ('int', 1)), ('bin', 'Add', ('int', 1), high)), 'push:advances', 'the counter is not advanced by one, so an id can be handed out twice', where(hw[-1]) if hw else '', o.trace)
        ins = [e for e in flat(o.trace) if e.kind == 'write' and e.name.startswith('map.')]
        ctx.ob(len(ins) == 1 and ins[0].name == 'map.insert' and W.nz(ins[0].args[1]) == high and W.nz(ins[0].args[2]) == item, 'push:entry', 'the item is not stored under the returned id', where(ins[0]) if ins else '', o.trace)
    for n in ('retrieve', 'modify', 'take'):
        fn = H(n)
        rid = ('sym', fn.locals[2][1] or 'a2')
        outs, _ = ctx.run(fn)
        lookup(ctx, 'table.' + n, outs, W, ('haskey', data, rid), ('fld', data, ('k', rid)), lambda e: n == 'take' and e.name == 'map.remove')
        if n == 'take':
            for o in outs:
                rm = [e for e in flat(o.trace) if e.kind == 'write']
                F = facts(W, o)
                need = F.get(('haskey', data, rid)) is not False
                ctx.ob(len(rm) == 1 or not need and not rm, 'take:once', 'taking an item does not remove exactly one entry', '', o.trace)
                for e in rm:
                    ctx.ob(e.name == 'map.remove' and W.nz(e.args[1]) == rid and contains_name(e.args[0], 'data'), 'take:removes', 'taking an item changes something else than its entry', where(e), o.trace)
    for n, want in (('len', (('len', data),)), ('is_empty', (('bin', 'Eq', ('int', 0), ('len', data)), ('bin', 'Eq', ('len', data), ('int', 0))))):
        for o in ctx.run(H(n))[0]:
            ctx.ob(o.kind == 'ret' and W.nz(o.value) in want, 'table:' + n, '%s() is %s' % (n, show(W.nz(o.value)) if o.value else o.kind), '', o.trace)
    wr = scan.field_writers(P, 'RIDHolder', 'highest')
    ctx.floor(len(wr), 1, 'writers of the counter')
    for k, sps in wr.items():
        r = scan.roots_of(P, k, stop={H('push').key})
        ctx.ob(not r, 'writers:highest:' + P.fns[k].path, 'the counter of ids is also changed by ' + P.fns[k].path, sps[0])
    wr = scan.field_writers(P, 'RIDHolder', 'data')
    ok = {H(n).key for n in ('push', 'modify', 'take', 'iter_mut', 'iter_mut_enumerated')}
    for k, sps in wr.items():
        ctx.ob(not scan.roots_of(P, k, stop=ok), 'writers:data:' + P.fns[k].path, 'the table of ids is also changed by ' + P.fns[k].path, sps[0])
    bs = scan.builders(P, 'RIDHolder')
    for k, sps in bs.items():
        if P.fns[k].path.endswith(('Clone>::clone', 'Default>::default')):
            continue
        ctx.ob(k in (H('new').key, H('from_vec').key) or not scan.roots_of(P, k, stop={H('new').key, H('from_vec').key}), 'builders:' + P.fns[k].path, 'a table of ids is also built by ' + P.fns[k].path, sps[0])
    fn = H('from_vec')
    vec = ('sym', fn.locals[1][1] or 'a1')
    outs, I = ctx.run(fn)
    for o in outs:
        v = dict(o.value[3]) if o.kind == 'ret' and o.value[0] == 'adt' else {}
        h = strip_cast(v.get('highest', ('?',)))
        ctx.ob(plain(W.nz(h)) in (('len', vec), ('len', ('obj', vec, 0))) or counts(I, h, vec, o.trace), 'from_vec:counter', 'a table made of a list does not continue after its last index: ' + show(h), '', o.trace)
        d = v.get('data', ('?',))
        good = d[0] == 'seqmap' and d[2][0] == 'tup' and numbers(d[2][1][0], d[1], vec) and d[2][1][1] == ('fld', vec if d[3][0] == 'zip' else d[3], ('i', d[1]))
        ctx.ob(good or filled(I, d, vec, o.trace), 'from_vec:entries', 'the entries of a table made of a list are not under their indices: ' + show(d), '', o.trace)
    # ------------------------------------------------ the tree
    W = World('tree')
    T = lambda n: ctx.inherent('NodeTreeBase', n)
    for n in ('get_node_raw', 'get_node', 'get_node_mut_raw', 'get_node_mut'):
        fn = T(n)
        rid = ('sym', fn.locals[2][1] or 'a2')
        outs, _ = ctx.run(fn)
        lookup(ctx, n, outs, W, ('haskey', ('NODES', 0), rid), ('NP', rid, 0))
    for n in ('root', 'root_mut'):
        for o in ctx.run(T(n))[0]:
            if o.kind == 'ret':
                ctx.ob(plain_entry(W.nz(o.value)) == ('NP', ('int', 0), 0), n + ':root', '%s() is %s' % (n, show(W.nz(o.value))), '', o.trace)
            else:
                F = facts(W, o)
                ctx.ob(F.get(('haskey', ('NODES', 0), ('int', 0))) is False, n + ':aborts', '%s() can abort although the root is there' % n, '', o.trace)
    fn = T('register_node')
    node = ('sym', fn.locals[2][1] or 'a2')
    nxt = ('fld', ('TN', 0), 'highest')
    for o in ctx.run(fn)[0]:
        if not ctx.ob(o.kind == 'ret', 'register:aborts', 'registering can abort', '', o.trace):
            continue
        ctx.ob(W.nz(o.value) == nxt, 'register:id', 'registering a node returns %s' % show(W.nz(o.value)), '', o.trace)
        ins = [e for e in flat(o.trace) if e.kind == 'write' and e.name.startswith('map.')]
        a = [e for e in ins if contains_name(e.args[0], 'data')]
        ctx.ob(len(a) == 1 and a[0].name == 'map.insert' and W.nz(a[0].args[1]) == nxt and W.nz(a[0].args[2]) == node, 'register:entry', 'the node is not stored under the returned id', '', o.trace)
        b = [e for e in ins if contains_name(e.args[0], 'identity')]
        ctx.ob(len(b) == 1 and b[0].name == 'map.insert' and W.nz(b[0].args[1]) == nxt and b[0].args[2][0] == 'adt' and b[0].args[2][2] == 'NodePath', 'register:identity', 'a registered node does not start without a unique name', '', o.trace)
        ctx.ob(len(ins) == len(a) + len(b), 'register:others', 'registering a node changes other tables', '', o.trace)
    fn = T('unregister_node')
    rid = ('sym', fn.locals[2][1] or 'a2')
    outs, _ = ctx.run(fn)
    key = ('haskey', ('NODES', 0), rid)
    n = 0
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'unregister:aborts', 'unregistering can abort', '', o.trace):
            continue
        n += 1
        F = facts(W, o)
        r = opt(W.nz(o.value))
        has = F.get(key)
        ctx.ob(r is not None and isinstance(has, bool) and (r == ('Some', ('NP', rid, 0)) if has else r == ('None',)), 'unregister:result', 'unregistering gives %s' % show(W.nz(o.value)), '', o.trace)
        rm = [e for e in flat(o.trace) if e.kind == 'write' and e.name.startswith('map.')]
        for field, what in (('data', 'nodes'), ('identity', 'identities')):
            m = [e for e in rm if contains_name(e.args[0], field)]
            need = has is not False
            ctx.ob(all(e.name == 'map.remove' and W.nz(e.args[1]) == rid for e in m) and (len(m) == 1 or not need and not m), 'unregister:' + what, 'unregistering does not remove exactly its entry from the ' + what, where(m[0]) if m else '', o.trace)
    ctx.floor(n, 2, 'paths of unregister_node')
    wr = scan.field_writers(P, 'NodeTreeBase', 'nodes')
    ctx.floor(len(wr), 3, 'writers of the node table')
    stop = {T(n).key for n in ('register_node', 'unregister_node', 'initialize', 'root_mut', 'get_node_mut')}
    for k, sps in wr.items():
        ctx.ob(not scan.roots_of(P, k, stop=stop), 'writers:nodes:' + P.fns[k].path, 'the node table is also changed by ' + P.fns[k].path, sps[0])
    up = scan.graph(P)
    ops = {ctx.inherent('NodeBase', 'add_child_from_ptr').key: 'register_node', ctx.inherent('NodeBase', 'free').key: 'unregister_node', ctx.inherent('NodeBase', 'remove_child').key: 'unregister_node', T('initialize').key: 'register_node'}
    for n in ('register_node', 'unregister_node'):
        cs = up.get(T(n).key, set())
        ctx.floor(len(cs), 1, 'callers of ' + n)
        for k in cs:
            ctx.ob(not scan.roots_of(P, k, stop=set(ops)), 'callers:%s:%s' % (n, P.fns[k].path), '%s is also called by %s' % (n, P.fns[k].path))


def strip_cast(t):
    while isinstance(t, tuple) and t and t[0] == 'cast':
        t = t[-1]
    return t

