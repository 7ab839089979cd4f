"""Life cycle of the tree: the status transitions of process(), queue_termination() and terminate() are read off every path as a table (status before -> status after); every other function is shown not to write the status; the status a frame returns is the status the tree has."""
from world import *
from rule import *
import scan
import p01

RULE = 'transition table of each writer == documented table; writers of the status are exactly the frame, queueing, immediate termination and construction'


def after(W, o, F, ep):
    """{status before: set of statuses after} for one path, from the last write or the unchanged value"""
    ws = [e for e in flat(o.trace) if e.kind == 'write' and e.name == 'status' and W.nz(e.args[0]) == ('TREE',)]
    return ws


def value_of(v, F, cur):
    """what a status term is, for each variant the current status may have"""
    if v[0] == 'adt':
        return {s: v[2] for s in F.get(cur, frozenset(ALL_STATUS))}
    if v == cur:
        return {s: s for s in F.get(cur, frozenset(ALL_STATUS))}
    return None


def variant_numbers(ctx, adt):
    return {v['n']: (v['d'] if v['d'] is not None else i) for i, v in enumerate(ctx.P.adts[adt]['v'])}


def truth(ctx, v, status):
    """what a returned term says of one status, where it is written as a comparison of the variant's number"""
    if v in (TRUE, FALSE):
        return v == TRUE
    if v[0] == 'un' and v[1] == 'Not':
        r = truth(ctx, v[2], status)
        return None if r is None else not r
    if v[0] == 'bin' and v[1] in ('Eq', 'Ne'):
        k = [i for i in (2, 3) if v[i][0] == 'discr' and v[i][1][0] == 'obj' and v[i][1][1] == ('sym', 'self') and v[i][2].endswith('TreeStatus')]
        if k and v[5 - k[0]][0] == 'int':
            return (variant_numbers(ctx, v[k[0]][2]).get(status) == v[5 - k[0]][1]) == (v[1] == 'Eq')
    if v[0] == 'bin' and v[1] in ('BitOr', 'BitAnd'):
        a, b = truth(ctx, v[2], status), truth(ctx, v[3], status)
        if None not in (a, b):
            return (a or b) if v[1] == 'BitOr' else (a and b)
    return None


def payload(v):
    return dict(v[3]).get('0') if v[0] == 'adt' and v[3] else None


def table(ctx, name, W, outs, cur_of, want):
    seen = set()
    for o in outs:
        if o.kind != 'ret':
            ctx.ob(False, name + ':aborts', '%s can panic' % name, '', o.trace)
            continue
        F = facts(W, o)
        cur = cur_of(o)
        if cur is None:
            continue
        ws = after(W, o, F, None)
        ws = [e for e in ws if e in o.trace]
        v = W.nz(ws[-1].args[1]) if ws else cur
        tab = value_of(v, F, cur)
        if not ctx.ob(tab is not None, name + ':status-followed', 'the status that %s sets cannot be told from the previous one: %s' % (name, show(v)), where(ws[-1]) if ws else '', o.trace):
            continue
        for s, t in tab.items():
            seen.add(s)
            ctx.ob(t == want[s], '%s:%s' % (name, s), '%s takes the tree from %s to %s (expected %s)' % (name, s, t, want[s]), where(ws[-1]) if ws else '', o.trace)
            if t == 'QueuedTermination' and s == 'Process' and v[0] == 'adt':
                ctx.ob(payload(v) == ('fld', cur, 'Process.0'), name + ':keeps-paused', 'whether the tree is paused is lost when termination is queued: ' + show(v), where(ws[-1]), o.trace)
        yield o, F, v, cur, ws
    ctx.ob(seen == set(want), name + ':all-statuses', '%s does not handle %s' % (name, sorted(set(want) - seen)))


def check(ctx):
    P = ctx.P
    proc, step = p01.step_fn(ctx)
    sname = Interp(P).localname(step)
    outs, _ = ctx.run(proc, opaque={'NodeBase::top_down', 'NodeTreeBase::get_nodes_mut', sname})
    outs = [o for o in outs if o.kind == 'ret']
    W = World('tree')
    dead = [o for o in outs if facts(W, o).get(('fld', ('T', 0), 'status')) == {'Terminated'}]
    live = [o for o in outs if o not in dead]
    ctx.floor(len(dead), 1, 'paths of a frame of a terminated tree')
    for o in dead:
        ws = [e for e in flat(o.trace) if e.kind == 'write' and e.name == 'status']
        v = W.nz(o.value)
        ctx.ob(not ws and (v == ('fld', ('T', 0), 'status') or v[0] == 'adt' and v[2] == 'Terminated'), 'frame:terminated-stays', 'a frame of a terminated tree has to leave it terminated and say so', where(ws[0]) if ws else '', o.trace)

    def cur_of(o):
        c = calls(o.trace, sname)
        if not c:
            ctx.ob(False, 'frame:walk', 'an active frame does not walk the tree', '', o.trace)
            return None
        # the status the walk left behind: read after it
        F = facts(W, o)
        ks = [k for k in F if isinstance(k, tuple) and k[:1] == ('fld',) and k[2] == 'status' and k[1][0] == 'T' and k[1][1] != 0]
        if len(ks) != 1:
            ctx.ob(False, 'frame:reads-status', 'the status is not looked at after the walk', '', o.trace)
            return None
        return ks[0]
    want = {'Process': 'Process', 'QueuedTermination': 'Terminating', 'Terminating': 'Terminated', 'Terminated': 'Terminated'}
    n = 0
    for o, F, v, cur, ws in table(ctx, 'frame', W, live, cur_of, want):
        n += 1
        r = W.nz(o.value)
        ctx.ob(r == v or value_of(r, F, cur) == value_of(v, F, cur), 'frame:returns-status', 'a frame returns %s although the tree is left as %s' % (show(r), show(v)), '', o.trace)
        c = calls(o.trace, sname)[0]
        for e in ws:
            ctx.ob(o.trace.index(e) > o.trace.index(c), 'frame:status-changes-after-walk', 'the status changes before the frame has run', where(e), o.trace)
    ctx.floor(n, 3, 'ends of a frame')

    # ---- queueing and immediate termination
    for name, want in (('queue_termination', {'Process': 'QueuedTermination', 'QueuedTermination': 'QueuedTermination', 'Terminating': 'Terminating', 'Terminated': 'Terminated'}),
                       ('terminate', {s: 'Terminated' for s in ALL_STATUS})):
        fn = ctx.inherent('NodeTreeBase', name)
        outs, _ = ctx.run(fn)
        for o, F, v, cur, ws in table(ctx, name, W, outs, lambda o: ('fld', ('T', 0), 'status'), want):
            ctx.ob(not hooks(o.trace) and not rec_events(o.trace), name + ':runs-nothing', '%s runs node code' % name, '', o.trace)

    # ---- predicates
    for name, yes in (('is_active', {'Process', 'QueuedTermination', 'Terminating'}), ('has_terminated', {'Terminated'})):
        fn = ctx.inherent('TreeStatus', name)
        outs, _ = ctx.run(fn)
        W2 = World(None)
        got = {}
        for o in outs:
            F = facts(W2, o)
            vs = [v for k, v in F.items() if isinstance(v, frozenset)] or [frozenset(ALL_STATUS)]
            for s in vs[0]:
                r = truth(ctx, o.value, s) if o.kind == 'ret' else None
                got[s] = r if s not in got or got[s] == r else None
        for s in ALL_STATUS:
            ctx.ob(got.get(s) == (s in yes), '%s:%s' % (name, s), '%s() of %s is %s' % (name, s, got.get(s)))

    # ---- nobody else changes the status
    wr = scan.field_writers(P, 'NodeTreeBase', 'status')
    post = ctx.inherent('NodeTreeBase', 'post')
    entries = {ctx.inherent('NodeTreeBase', n).key for n in ('process', 'queue_termination', 'terminate')}
    # posting may carry out the immediate termination itself; when it does is P14
    for o in ctx.run(post, base=OPAQUE - {'NodeTreeBase::post'})[0]:
        for e in flat(o.trace):
            if e.kind == 'write' and e.name == 'status':
                v = W.nz(e.args[1])
                ctx.ob(v[:1] == ('adt',) and v[2] == 'Terminated', 'post:status', 'posting changes the status of the tree to %s' % show(v), where(e), o.trace)
    for k, sps in wr.items():
        r = scan.roots_of(P, k, stop=entries | {post.key})
        ctx.ob(not r, 'writers:' + P.fns[k].path, 'the status of the tree is also changed by ' + P.fns[k].path, sps[0])
    ctx.floor(len(wr), 3, 'writers of the status')
    b = scan.builders(P, 'NodeTreeBase')
    ctx.floor(len(b), 1, 'constructors of a tree')
    for k in b:
        outs, _ = ctx.run(P.fns[k])
        for o in outs:
            st = dict(o.value[3]).get('status') if o.kind == 'ret' and o.value[0] == 'adt' else None
            ok = st is not None and st[0] == 'adt' and st[2] == 'Process' and payload(st) is not None and payload(st)[0] == 'adt' and payload(st)[2] == 'Running'
            ctx.ob(ok, 'new:running', 'a new tree has to be running', b[k][0], o.trace)
