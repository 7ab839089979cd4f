"""Frame processing: every path of the per-node step of NodeTreeBase::process is enumerated over (tree status x own mode x inherited mode) and compared with the documented matrix; the walk over the children and the values handed down are checked on the same paths."""
from world import *
from rule import *

RULE = 'for each feasible (status, own mode, inherited mode) combination of a path: hooks called on the path == matrix; children walked once, in order, with the effective mode and the same delta'


def expected(status, sub, eff):
    if status in ('Process', 'QueuedTermination'):
        run = eff in ('Always', 'Pausable') if sub == 'Running' else eff in ('Always', 'Inverse')
        return ['Node::process'] if run else []
    if status == 'Terminating':
        return ['Node::terminal']
    return []


def step_fn(ctx):
    """the recursive per-node step, found from the public entry point"""
    proc = ctx.inherent('NodeTreeBase', 'process')
    outs, _ = ctx.run(proc, opaque={'NodeBase::top_down', 'NodeTreeBase::get_nodes_mut', 'NodeBase::children'})
    recs = {e.extra for o in outs for e in rec_events(o.trace)}
    recs = {k for k in recs if ctx.P.may_hook(k)}
    if len(recs) != 1:
        raise AnalysisError('frame processing: %d recursive steps run hooks (expected the one that walks the tree)' % len(recs))
    step = ctx.P.fns[recs.pop()]
    return proc, step


def roles(ctx, step):
    r = {}
    for i in range(1, step.argc + 1):
        s = ctx.P.ty(step.crate, step.locals[i][0])['s']
        kind = 'tree' if 'NodeTreeBase' in s else 'rid' if s == 'u64' else 'delta' if s == 'f32' else 'mode' if s.endswith('ProcessMode') else None
        if kind is None or kind in r.values():
            raise AnalysisError('the per-node step takes an unexpected parameter of type ' + s)
        r[i - 1] = kind
    if set(r.values()) != {'tree', 'rid', 'delta', 'mode'}:
        raise AnalysisError('the per-node step does not take a node id, a delta and an inherited mode')
    return {v: k for k, v in r.items()}


def check(ctx):
    P = ctx.P
    proc, step = step_fn(ctx)
    role = roles(ctx, step)
    sname = None
    # ---------------- the entry point
    I0 = Interp(P)
    sname = I0.localname(step)
    outs, _ = ctx.run(proc, opaque={'NodeBase::top_down', 'NodeTreeBase::get_nodes_mut', sname})
    W = World('tree')
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        F = facts(W, o)
        st = F.get(('fld', ('T', 0), 'status'), frozenset(ALL_STATUS))
        cs = calls(o.trace, sname)
        if st == {'Terminated'}:
            ctx.ob(not cs and not hooks(o.trace), 'entry:terminated-runs-nothing', 'a terminated tree still processes nodes', where(cs[0]) if cs else '', o.trace)
            continue
        ctx.ob('Terminated' not in st, 'entry:split-on-terminated', 'process() does not tell an active tree from a terminated one', '', o.trace)
        ok = len(cs) == 1 and not any(e.kind == 'loop' and any(x in cs for b in e.extra for x in flat(b)) for e in o.trace)
        if not ctx.ob(ok, 'entry:one-walk', 'one frame has to walk the tree exactly once (found %d walks)' % len(cs), where(cs[0]) if cs else '', o.trace):
            continue
        n += 1
        c = cs[0]
        ctx.ob(W.nz(c.args[role['tree']]) == ('TREE',) and c.args[role['rid']] == ('int', 0), 'entry:root', 'the walk has to start at the root node', where(c), o.trace)
        m = c.args[role['mode']]
        ctx.ob(m[0] == 'adt' and m[2] == 'Pausable', 'entry:root-mode', 'the root inherits pausable by default, found ' + show(m), where(c), o.trace)
        d = W.nz(c.args[role['delta']])
        nows = [e.ret for e in flat(o.trace) if e.kind == 'call' and e.name == 'Instant::now']
        lf = [e for e in o.trace if e.kind == 'write' and e.name == 'last_frame']
        # elapsed: (now of this frame) - (the remembered time of the previous frame)
        el = d[2][0] if d[:2] == ('app', 'Duration::as_secs_f32') else ('?',)
        el = el[1] if el[0] == '&' else el
        okd = el[:2] == ('app', 'Instant::duration_since') and len(el[2]) == 2 and el[2][0] in nows and el[2][1][:1] == ('fld',) and el[2][1][2] == 'last_frame' and el[2][1][1][0] == 'T'
        ctx.ob(okd, 'entry:delta', 'the delta has to be the time since the previous frame, found ' + show(d), where(c), o.trace)
        ctx.ob(len(lf) == 1 and W.nz(lf[0].args[1]) in nows and contains(d, W.nz(lf[0].args[1])), 'entry:last-frame', 'the time of this frame has to be remembered for the next one', where(lf[0]) if lf else '', o.trace)
        ix = o.trace.index(c)
        ctx.ob(not hooks(o.trace[:ix]) and not hooks(o.trace[ix + 1:]), 'entry:no-other-hooks', 'hooks are called outside of the walk', '', o.trace)
    ctx.floor(n, 3, 'active frame paths')

    # ---------------- the per-node step
    outs, I = ctx.run(step, opaque={'NodeBase::children'})
    pn = [step.locals[i + 1][0] for i in range(step.argc)]
    sym = [('sym', step.locals[i + 1][1] or 'a%d' % (i + 1)) for i in range(step.argc)]
    W = World(None, fixed={sym[role['tree']]: ('TREE',)})
    rid, delta, mode = sym[role['rid']], sym[role['delta']], sym[role['mode']]
    here = ('NP', rid, 0)
    seen = {}
    walked = 0
    for o in outs:
        if o.kind != 'ret':
            bad = o.kind == 'ub' and not any(isinstance(k, tuple) and k[:1] == ('haskey',) and isinstance(k[2], tuple) and k[2][:1] == ('CH',) and v is False for k, v in facts(W, o).items())
            ctx.ob(not bad, 'step:ub', 'the per-node step can reach undefined behaviour', '', o.trace)
            if o.kind == 'panic':
                # only a broken link between nodes, or an inherited mode that is never passed, may stop a frame
                F = facts(W, o)
                ok = F.get(mode) == {'Inherit'} or any(isinstance(k, tuple) and k[:1] == ('haskey',) and isinstance(k[2], tuple) and k[2][:1] == ('CH',) and v is False for k, v in F.items()) \
                    or any(k[:1] == ('fld',) and k[2] == 'tree' and v == {'None'} for k, v in F.items() if isinstance(k, tuple))
                ctx.ob(ok, 'step:panic', 'a frame can panic while processing a node', '', o.trace)
            continue
        F = facts(W, o)
        hk = [e for e in flat(o.trace) if e in hooks(o.trace)]
        recs = rec_events(o.trace)
        present = F.get(('haskey', ('NODES', 0), rid))
        if present is False:
            ctx.ob(not hk and not recs, 'step:missing-node', 'a node that is no longer in the tree is processed', '', o.trace)
            continue
        ctx.ob(present is True, 'step:presence', 'the node is used without checking that it is still in the tree', '', o.trace)
        pm = [e for e in o.trace if e.kind == 'call' and e.name == 'Node::process_mode']
        if not ctx.ob(len(pm) >= 1 and all(W.nz(e.args[0]) == here for e in pm), 'step:mode-asked', 'the mode of the node itself has to decide', where(pm[0]) if pm else '', o.trace):
            continue
        own = W.nz(pm[0].ret)
        st = F.get(('fld', ('T', 0), 'status'), frozenset(ALL_STATUS))
        names = [e.name for e in hk]
        ctx.ob(all(e in o.trace for e in hk), 'step:hook-not-in-loop', 'a hook is called in a loop', where(hk[0]) if hk else '', o.trace)
        for e in hk:
            ctx.ob(W.nz(e.args[0]) == here, 'step:hook-receiver', 'the hook has to be called on the node of this step', where(e), o.trace)
            if e.name == 'Node::process':
                ctx.ob(e.args[1] == delta, 'step:hook-delta', 'process has to be given the delta of this frame', where(e), o.trace)
            if e.name == 'Node::terminal':
                ctx.ob(e.args[1][0] == 'adt' and e.args[1][2] == 'TreeExit', 'step:terminal-reason', 'a terminating tree has to report the tree exit reason', where(e), o.trace)
        ownv = F.get(own, frozenset(ALL_MODES))
        inhv = F.get(mode, frozenset(ALL_MODES)) - {'Inherit'}
        combos = []
        for s in st:
            subs = ('Running', 'Paused') if s in ('Process', 'QueuedTermination') else (None,)
            if subs[0]:
                subs = [x for x in subs if x in F.get(('fld', ('fld', ('T', 0), 'status'), s + '.0'), frozenset(('Running', 'Paused')))]
            for sb in subs:
                for ow in ownv:
                    for ih in inhv:
                        eff = ih if ow == 'Inherit' else ow
                        combos.append((s, sb, ow, ih, eff))
        for (s, sb, ow, ih, eff) in combos:
            want = expected(s, sb, eff)
            lab = '%s%s own=%s inherited=%s' % (s, '(%s)' % sb if sb else '', ow, ih)
            if names == want:
                seen.setdefault((s, sb, ow, ih), []).append(o)
                ctx.ob(True, 'matrix:' + lab, '')
            else:
                ctx.ob(False, 'matrix:' + lab, 'in tree status %s a node with this mode has to run %s, found %s' % (lab, want or 'nothing', names or 'nothing'), where(hk[0]) if hk else '', o.trace)
        # ---- children
        ep = o.state.epoch
        stays = [v for k, v in F.items() if isinstance(k, tuple) and k[:1] == ('haskey',) and k[2] == rid and k[1] != ('NODES', 0)]
        rl = [e for e in o.trace if e.kind == 'loop' and any(x.kind == 'rec' for b in e.extra for x in flat(b))]
        if not recs:
            gone = False in stays
            ended = any(srcs(W, e) == rid for e in iter_ends(o.trace))
            ctx.ob(gone or ended or st == {'Terminated'}, 'step:children-walked', 'the children of a node are not processed on a path', '', o.trace)
            continue
        walked += 1
        ctx.ob(len(rl) == 1, 'step:one-child-loop', 'the children have to be walked by one loop, found %d' % len(rl), '', o.trace)
        for l in rl:
            for b in l.extra:
                rs = [x for x in b if x.kind == 'rec']
                deep = [x for x in flat(b) if x.kind == 'rec']
                # an iteration may only be skipped for a child that is gone
                ctx.ob(len(rs) == 1 and len(deep) == 1, 'step:once-per-child', 'a child is processed %d times in one iteration' % len(deep), where(deep[0]) if deep else '', o.trace)
                items = [x for x in b if x.kind == 'iter' and x.name == 'item']
                ctx.ob(len(items) == 1 and plain(W, items[0].args[0]) == rid, 'step:child-source', 'the walk has to go over all children of the node, first to last', where(items[0]) if items else '', b)
        if hk:
            ih = o.trace.index(hk[0])
            il = min(o.trace.index(l) for l in rl) if rl else 0
            ctx.ob(ih < il, 'step:parent-first', 'a node has to run before its children', where(hk[0]), o.trace)
        for e in recs:
            a = e.args
            ctx.ob(e.extra == step.key and W.nz(a[role['tree']]) == ('TREE',), 'step:rec-tree', 'the walk leaves the tree', where(e), o.trace)
            c = W.nz(a[role['rid']])
            ctx.ob(c[0] == 'CH' and c[1] == rid, 'step:rec-child', 'the walk has to continue with a child of the node, found ' + show(c), where(e), o.trace)
            ctx.ob(a[role['delta']] == delta, 'step:rec-delta', 'the children have to be given the same delta', where(e), o.trace)
            m = W.nz(a[role['mode']])
            for ow in ownv:
                okm = m == mode if ow == 'Inherit' else (m == own or (m[0] == 'adt' and m[2] == ow and len(ownv) == 1))
                ctx.ob(okm, 'step:rec-mode:' + ow, 'a child has to inherit the effective mode of its parent (own mode %s), found %s' % (ow, show(m)), where(e), o.trace)
        # leaving the loop early is only right once the tree is terminated
        if rl:
            after = o.trace[o.trace.index(rl[-1]) + 1:]
            done = any(x.kind == 'iter' and x.name == 'end' for x in after)
            if not done:
                fin = [v for k, v in F.items() if isinstance(k, tuple) and k[:1] == ('fld',) and k[2] == 'status' and k[1][0] == 'T' and k[1][1] != 0]
                ctx.ob(any(v == {'Terminated'} for v in fin), 'step:walk-cut-short', 'the walk over the children stops before the last child although the tree is not terminated', where(rl[-1]), o.trace)
    ctx.floor(walked, 10, 'paths that walk the children')
    for s in ALL_STATUS:
        for sb in (('Running', 'Paused') if s in ('Process', 'QueuedTermination') else (None,)):
            for ow in ALL_MODES:
                for ih in ALL_MODES[1:]:
                    ctx.ob((s, sb, ow, ih) in seen or any(k.startswith('matrix:') for k in ctx.viol), 'covered:%s/%s/%s/%s' % (s, sb, ow, ih), 'no path handles this combination')

    # ---------------- nobody else runs process()
    reach = set()
    todo = [proc.key]
    kids = {}
    for f in P.fns.values():
        if f.j.get('parent'):
            kids.setdefault(f.j['parent'], []).append(f.key)
    callers = {}
    for f in P.fns.values():
        if not f.local:
            continue
        for cj, sp in P.callees(f):
            if norm(cj['p']) == 'Node::process':
                callers.setdefault(f.key, []).append(sp)
    up = {}
    for f in P.fns.values():
        if f.local:
            for cj, _ in P.callees(f):
                if cj.get('rk'):
                    up.setdefault(cj['rk'], set()).add(f.key)
            if f.j.get('parent'):
                up.setdefault(f.key, set()).add(f.j['parent'])
    sites = 0
    for k, sps in callers.items():
        # walk up the callers until the entry point; any other root is a second way into the hook
        roots, todo, seenk = set(), [k], set()
        while todo:
            x = todo.pop()
            if x in seenk:
                continue
            seenk.add(x)
            if x == proc.key:
                continue
            ps = up.get(x, set()) - {x}
            if not ps or P.fns[x].j.get('pub'):
                roots.add(x)
            todo += ps
        sites += len(sps)
        ctx.ob(not roots, 'who-calls-process:' + P.fns[k].path, 'the process hook is also reached from ' + ', '.join(P.fns[r].path for r in roots), sps[0])
    ctx.floor(sites, 1, 'call sites of the process hook')


def plain(W, d):
    """the node whose children an iterator walks, in order and completely; None otherwise"""
    d = W.nz(d)
    while d and d[0] in ('map_', 'cloned', 'inspect', 'copied') and len(d) > 1:
        d = d[1]
    if not d or d[0] != 'seq' or len(d) > 2:
        return None
    return kids_of(d[1])


def kids_of(v):
    if v[0] == 'CHILDREN':
        return v[1]
    if v[0] == 'app' and v[1] == 'NodeBase::children':
        b = v[2][0]
        return b[1] if b[0] == 'B' else b[1][1] if b[0] == '&' and b[1][0] == 'NB' else None
    if v[0] == 'seqmap' and v[4] is True:
        return kids_of(v[3])
    return None


def srcs(W, e):
    return plain(W, e.args[0])
