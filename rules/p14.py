"""Panic policy: every path of posting is read off: which status the node gets, that the entry goes to its own tree once and unchanged, that the tree terminates exactly when the logger reports a panic; and every frame that runs is shown to first set the status of every node of the tree back to normal."""
from world import *
from rule import *
import scan
import p13

RULE = 'NodeBase::post: status by level, tree posts once; NodeTreeBase::post: terminated <=> Logger::post is true; process: all statuses reset before the first hook'
MARK = {'Warn': 'JustWarned', 'Panic': 'JustPanicked'}


def status_writes(W, trace):
    return [e for e in flat(trace) if e.kind == 'write' and e.args and isinstance(e.args[0], tuple) and e.args[0][:1] == ('guarded',) and W.nz(e.args[0])[1][2] == 'status']


def check(ctx):
    P = ctx.P
    # ------------------------------------------------ a node posts
    W = World('node')
    fn = ctx.inherent('NodeBase', 'post')
    log = ('sym', fn.locals[2][1] or 'a2')
    cells = set()
    for o in ctx.run(fn, base=(OPAQUE - {'NodeBase::post'}) | {'NodeTreeBase::post'})[0]:
        F = facts(W, o)
        tree = F.get(('fld', ('NB', ('SELF',), 0), 'tree'))
        if not ctx.ob(tree is not None and len(tree) == 1, 'post:tree', 'posting does not ask whether the node is in a tree', '', o.trace):
            continue
        ev = list(flat(o.trace))
        ps = calls(o.trace, 'NodeTreeBase::post')
        if 'None' in tree:
            ctx.ob(o.kind == 'panic' and not ps, 'post:stray', 'posting from a node outside of a tree does not panic', '', o.trace)
            continue
        if not ctx.ob(o.kind == 'ret', 'post:aborts', 'posting from a node of a tree aborts', '', o.trace):
            continue
        ctx.ob(len(ps) == 1 and W.nz(ps[0].args[0]) == ('TREE',) and W.nz(ps[0].args[1]) == ('SELF',) and plain(W.nz(ps[0].args[2])) == log, 'post:forward', 'the message is not posted once, unchanged, for this node to its tree', '', o.trace)
        sw = status_writes(W, o.trace)
        other = [e for e in ev if e.kind == 'write' and e not in sw]
        ctx.ob(not other, 'post:changes', 'posting changes something else', where(other[0]) if other else '', o.trace)
        for lv in p13.allowed(F, log, p13.LABEL):
            cells.add(lv)
            if lv not in MARK:
                ctx.ob(not sw, 'post:%s:status' % lv, 'a %s message changes the status of its node' % lv, '', o.trace)
            elif ctx.ob(len(sw) == 1 and W.nz(sw[0].args[0]) == ('guarded', ('fld', ('NB', ('SELF',), 0), 'status')), 'post:%s:status' % lv, 'a %s message does not set the status of its node once' % lv, '', o.trace):
                v = W.nz(sw[0].args[1])
                ctx.ob(v[:1] == ('adt',) and v[2] == MARK[lv] and plain(v[3][0][1]) == ('fld', log, lv + '.0'), 'post:%s:mark' % lv, 'a %s message sets the status to %s' % (lv, show(v)), where(sw[0]), o.trace)
    ctx.ob(len(cells) == 4, 'post:levels', 'not every level is decided')
    # ------------------------------------------------ the tree posts
    W = World('tree')
    fn = ctx.inherent('NodeTreeBase', 'post')
    rid, log = ('sym', fn.locals[2][1] or 'a2'), ('sym', fn.locals[3][1] or 'a3')
    cells = set()
    for o in ctx.run(fn, base=(OPAQUE - {'NodeTreeBase::post'}))[0]:
        if not ctx.ob(o.kind == 'ret', 'tree:aborts', 'posting can abort', '', o.trace):
            continue
        lp = calls(o.trace, 'Logger::post')
        if not ctx.ob(len(lp) == 1 and p13.plainref(lp[0].args[0]) == ('fld', ('sym', 'self'), 'logger') and plain(W.nz(lp[0].args[1])) == rid and plain(W.nz(lp[0].args[2])) == log, 'tree:forward', 'the message is not given to the logger once and unchanged', '', o.trace):
            continue
        said = [v for k, v in facts(W, o).items() if k == W.nz(lp[0].ret) and isinstance(v, bool)]
        ws = [e for e in flat(o.trace) if e.kind == 'write']
        if not ctx.ob(said, 'tree:asks', 'the answer of the logger is not looked at', '', o.trace):
            continue
        cells.add(said[-1])
        if said[-1]:
            ctx.ob(len(ws) == 1 and ws[0].name == 'status' and W.nz(ws[0].args[0]) == ('TREE',) and W.nz(ws[0].args[1])[2] == 'Terminated', 'tree:terminates', 'a panic does not terminate the tree', '', o.trace)
        else:
            ctx.ob(not ws, 'tree:stays', 'a message that is no panic changes the tree', where(ws[0]) if ws else '', o.trace)
    ctx.ob(cells == {True, False}, 'tree:cases', 'panics and other messages are not told apart')
    # ------------------------------------------------ the status of a node
    W = World('node')
    for o in ctx.run(ctx.inherent('NodeBase', 'status'))[0]:
        v = plain(W.nz(o.value)) if o.kind == 'ret' else None
        while isinstance(v, tuple) and v[:1] == ('obj',):
            v = v[1]
        ctx.ob(v == ('guarded', ('fld', ('NB', ('SELF',), 0), 'status')), 'status:read', 'status() gives something else: %s' % show(v), '', o.trace)
    # ------------------------------------------------ a frame
    W = World('tree')
    fn = ctx.inherent('NodeTreeBase', 'process')
    outs, I = ctx.run(fn, opaque={'NodeTreeBase::process_tail', 'NodeBase::top_down'})
    frames = 0
    for o in outs:
        pt = [e for e in o.trace if e.kind == 'call' and e.name == 'NodeTreeBase::process_tail']
        if not pt:
            continue
        frames += 1
        before = o.trace[:o.trace.index(pt[0])]
        good = False
        for l in all_loops(before):
            if l not in before:
                continue
            w = walk_of(l)
            if not w or not completed(before, w[0]):
                continue
            good = good or resets(ctx, I, W, o, before, l, w)
        ctx.ob(good, 'frame:reset', 'a frame does not set the status of every node back to normal before it runs', where(pt[0]), o.trace)
        late = [e for e in status_writes(W, o.trace[o.trace.index(pt[0]):])]
        ctx.ob(not late, 'frame:late', 'a frame changes statuses after its hooks ran', where(late[0]) if late else '', o.trace)
    ctx.floor(frames, 1, 'paths that run a frame')
    # ------------------------------------------------ nothing else sets a status
    setters = {f.key for f in P.fns.values() if f.local and f.path.endswith('NodeBase::set_status')}
    ok = {ctx.inherent('NodeBase', 'post').key, ctx.inherent('NodeTreeBase', 'process').key}
    for s in setters:
        for r in scan.roots_of(P, s, stop=ok):
            if r == s:
                continue
            ctx.ob(r in ok, 'setter:' + P.fns[r].path, '%s sets the status of a node' % P.fns[r].path)
    # ------------------------------------------------ nothing else starts the logger or the termination
    for f, sp, cj in scan.call_sites(P, 'structs::logger::Logger::post'):
        rs = scan.roots_of(P, f.key, stop={ctx.inherent('NodeTreeBase', 'post').key})
        for r in rs:
            ctx.ob(r == ctx.inherent('NodeTreeBase', 'post').key, 'logger:' + f.path, '%s posts past the tree' % f.path, sp)


def base_of(I, W, trace, seq, depth=0):
    """ids walked over: the sequence behind in-order images that leave nothing out"""
    seq = W.nz(seq)
    while depth < 6 and isinstance(seq, tuple):
        depth += 1
        if seq[:1] in (('map_',), ('copied',), ('cloned',), ('seq',), ('flat1',), ('flat',)):
            seq = seq[1]
        elif seq[:1] == ('seqmap',):
            m = members(I, W, trace, seq)
            if m is None or not completed(trace, m[0][0]):
                return seq
            if any(not vs and not [1 for k, v in body_bools(W, b).items() if k[:1] == ('haskey',) and v is False] for b, vs in m[2]):
                return seq
            seq = W.nz(m[1])
        else:
            break
    return plain(seq)


def resets(ctx, I, W, o, trace, l, w):
    base = base_of(I, W, trace, w[2])
    whole = base[:1] == ('app',) and base[1] == 'NodeBase::top_down' and base[2][0] == ('B', ('int', 0)) and base[2][1] == ('bool', True) or base[:1] == ('NODES',) or contains_nodes(base)
    if not whole:
        return False
    ok = False
    for b in l.extra:
        sw = status_writes(W, b)
        if len(sw) == 1:
            v = W.nz(sw[0].args[1])
            ok = True
            if not (v[:1] == ('adt',) and v[2] == 'Normal'):
                return False
        elif sw:
            return False
        else:
            # an id that is not in the table has no node to reset
            gone = [k for k, v in body_bools(W, b).items() if k[:1] == ('haskey',) and v is False] or [e for e in b if e.kind == 'assume' and e.name == 'variant' and e.args[1] in ('None', frozenset({'None'}), ('None',))]
            if not gone:
                return False
    return ok


def contains_nodes(t):
    while isinstance(t, tuple) and t[:1] in (('map_',), ('seq',), ('values',), ('map',)):
        t = t[1]
    return t[:1] == ('NODES',)
