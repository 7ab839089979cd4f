"""Path resolution: every path of the resolver is matched against its definition by cases of the path given (no segment left, '.', '..', a name) and of what the tree holds there; taking a step must hand exactly the rest of the path to exactly the node the step leads to, and 'nothing there' may only be answered where there is nothing (a name: after a search of all children in which none had it). The same for where a resolution starts (caller or root) and for the lookups a node offers."""
from world import *
from rule import *
import p07, p10

RULE = 'resolve(node, path) = node if path empty else resolve(step(node, first), rest); None only where step has no target; absolute paths start at the root iff its name is the first segment'


def seg_rest(v, path):
    """is v the path without its first segment (and otherwise the same)?"""
    if v[:1] == ('obj',) and len(v) == 3:
        v = v[1]
    segs = ('fld', path, 'path')
    rest = ('vremove', segs, ('int', 0))
    if v[0] == 'upd' and v[1] == path:
        d = dict((x[0], x[1]) for x in v[2])
        return list(d) == ['path'] and plain(d['path']) == rest
    if v[0] == 'adt' and v[1].endswith('NodePath'):
        d = dict(v[3])
        return plain(d.get('path')) == rest and d.get('abs') == ('fld', path, 'abs')
    return False


def same_path(v, path):
    v = plain(v)
    if v == path or v == ('obj', path, 0):
        return True
    if v[0] == 'adt' and v[1].endswith('NodePath'):
        d = dict(v[3])
        return all(plain(d.get(f)) == ('fld', path, f) for f in ('path', 'abs'))
    return False


def is_empty(F, segs):
    """does the path have no segment? from the facts of a path"""
    for k, v in F.items():
        if k[:2] == ('bin', 'Eq') and {k[2], k[3]} == {('int', 0), ('len', segs)} and isinstance(v, bool):
            return v
    return None


def walk_state(I, W, trace):
    """(loop event, position, path) if the trace has a loop that carries the position and the remaining path"""
    for l in loops(trace):
        mine = {P: v for P, v in I.phis.items() if P[1] == l.name}
        pos = [P for P, v in mine.items() if W.nz(v[0]) in (('SELF',), ('B', ('SELF',)), ('NP', ('SELF',), 0))]
        pth = [P for P, v in mine.items() if plain(W.nz(v[0])) == ('sym', 'path')]
        if len(pos) == 1 and len(pth) == 1:
            return l, pos[0], pth[0]


def resolver(ctx):
    fn = ctx.inherent('NodeBase', 'get_node_raw')
    S = ('SELF',)
    arg = ('sym', fn.locals[2][1] or 'a2')
    outs, I = ctx.run(fn)
    seen = set()
    bodies = set()
    for o in outs:
        W = World('node', fixed={arg: ('sym', 'path')})
        pos, path = S, ('sym', 'path')
        st = walk_state(I, W, o.trace)
        if st:
            l, Q, path = st
            isref = W.nz(I.phis[Q][0]) != S
            pos = ('POS',)
            W = World('node', fixed={arg: ('sym', 'path'), Q: ('B', pos) if isref else pos})
            if l.name not in bodies:
                bodies.add(l.name)
                for b, nx in zip(l.extra, I.body_phi[l.name]):
                    to = W.nz(nx.get(Q, Q))
                    to = ('B', to[1]) if isref and to[:1] in (('B',), ('NP',)) else to if isref else ('B', to)
                    judge(ctx, I, W, b, p10.body_facts(W, b), pos, path, seen, to=to, rest=W.nz(nx.get(path, path)))
        F = facts(W, o)
        ws = [e for e in flat(o.trace) if e.kind == 'write' and not e.name.startswith('vec.pop') and contains(W.nz(e.args[0]), ('TREE',))]
        ctx.ob(not ws, 'resolve:changes', 'resolving a path changes the tree', where(ws[0]) if ws else '', o.trace)
        if F.get(('fld', ('NB', S, 0), 'tree')) == {'None'}:
            ctx.ob(o.kind == 'panic', 'resolve:lone', 'resolving a path from a node outside of a tree does not panic', '', o.trace)
            continue
        if impossible(F, pos):
            continue
        if not ctx.ob(o.kind == 'ret', 'resolve:aborts', 'resolving a path can abort', '', o.trace):
            continue
        r = W.nz(o.value)
        recs = [e for e in flat(o.trace) if e.kind == 'rec']
        if recs:
            if ctx.ob(len(recs) == 1 and r == W.nz(recs[0].ret) and len(recs[0].args) == 2, 'resolve:result', 'the result of the remaining path is not what is returned', where(recs[0]), o.trace):
                judge(ctx, I, W, o.trace, F, pos, path, seen, to=W.nz(recs[0].args[0]), rest=W.nz(recs[0].args[1]))
        else:
            judge(ctx, I, W, o.trace, F, pos, path, seen, r=r)
    need = {'empty', 'This', 'ParentTrue', 'ParentFalse', 'child', 'none'}
    ctx.ob(need <= seen, 'resolve:cases', 'resolving never handles: %s' % sorted(need - seen))


def impossible(F, pos):
    """nodes of a tree, their parents and their children are registered in it and connected to it (P03, P06)"""
    for k, v in F.items():
        if isinstance(k, tuple) and k[:1] == ('haskey',) and v is False and k[2] != ('fld', ('fld', ('NB', pos, 0), 'parent'), 'Some.0'):
            return True
        if isinstance(k, tuple) and k[:1] == ('fld',) and k[2] == 'tree' and k[1][:1] == ('NB',) and v == frozenset(('None',)):
            return True
    return False


def judge(ctx, I, W, trace, F, pos, path, seen, to=None, rest=None, r=None):
    """one case of one step from (pos, path): it goes on with (to, rest), or ends with r"""
    segs = ('fld', path, 'path')
    first = ('fld', segs, ('i', ('int', 0)))
    parent = ('fld', ('NB', pos, 0), 'parent')
    up = ('fld', parent, 'Some.0')
    at = ''
    if to is None:
        opt = p07.opt(r)
        got = show(r)
    else:
        opt = None
        got = show(to)
        ctx.ob(seg_rest(rest, path), 'resolve:rest', 'after a step, not exactly the remaining path is resolved: ' + show(rest)[:200], at, trace)
    empty = is_empty(F, segs)
    if empty:
        seen.add('empty')
        ctx.ob(opt == ('Some', pos), 'resolve:empty', 'a path without segments leads to %s, not to the node itself' % got, at, trace)
        return
    kind = F.get(first)
    if not ctx.ob(empty is False and kind is not None, 'resolve:looks', 'a path is resolved without looking at its first segment', at, trace):
        return
    for k in sorted(kind):
        if k == 'This':
            seen.add(k)
            ctx.ob(to == ('B', pos), 'resolve:this', "'.' leads to %s, not to the node itself" % got, at, trace)
        elif k == 'Parent':
            has = F.get(parent) == {'Some'} and F.get(('haskey', ('NODES', 0), up)) is not False
            seen.add(k + str(has))
            if has:
                ctx.ob(to == ('B', up), 'resolve:parent', "'..' leads to %s, not to the parent" % got, at, trace)
            else:
                ctx.ob(opt == ('None',), 'resolve:no-parent', "'..' of a node without parent leads to %s" % got, at, trace)
        elif to is not None:
            seen.add('child')
            n = to[1] if to[0] == 'B' else ('?',)
            ok = n[0] == 'CH' and n[1] == pos and equal(F, ('fld', first, 'Node.0'), ('fld', ('NB', n, 0), 'name'))
            ctx.ob(ok, 'resolve:child', 'a name leads to %s, which is not shown to be a child of that name' % got, at, trace)
        elif ctx.ob(opt == ('None',), 'resolve:name', 'a name leads to %s' % got, at, trace):
            seen.add('none')
            ctx.ob(no_child(I, W, trace, pos, ('fld', first, 'Node.0')), 'resolve:search', 'a path is refused although not all children were asked for the name', at, trace)


def no_child(I, W, trace, rid, name):
    """a completed walk over all children of rid, none of which has the name"""
    for l in all_loops(trace):
        w = walk_of(l)
        if not w or not completed(trace, w[0]):
            continue
        el = element(I, W, w)
        while el[0] == 'adt' and el[1].endswith(('::Tp', '::TpDyn')):
            el = dict(el[3])['node']
        if el[0] in ('NP', 'B', 'NODE'):
            el = el[1]
        if el[:2] != ('CH', rid) or el[2] != ('ix', w[0]):
            continue
        src = W.nz(w[2])
        while src[:1] == ('seqmap',):
            if src[3] is not True and src[4] is not True:
                break
            src = src[3] if isinstance(src[3], tuple) else src[2]
        real = [b for b in l.extra if body_bools(W, b).get(('haskey', ('NODES', 0), el)) is not False]
        if real and all(equal(body_bools(W, b), name, ('fld', ('NB', el, 0), 'name')) is False for b in real):
            return True
    return False


def starts(ctx):
    fn = ctx.trait_method('NodeGetter', 'get_from', 'NodePath')
    me, tree, caller = (('sym', fn.locals[i][1] or 'a%d' % i) for i in (1, 2, 3))
    W = World(None, fixed={tree: ('TREE',)})
    path = ('obj', me, 0)
    outs, I = ctx.run(fn, opaque={'NodeBase::get_node_raw'})
    seen = set()
    for o in outs:
        F = facts(W, o)
        if F.get(('haskey', ('NODES', 0), ('int', 0))) is False:
            continue                                            # a tree has its root (P06)
        if not ctx.ob(o.kind == 'ret', 'start:aborts', 'looking up a path can abort', '', o.trace):
            continue
        ab = F.get(('fld', path, 'abs'))
        r = W.nz(o.value)
        opt = p07.opt(r)
        cs = calls(o.trace, 'NodeBase::get_node_raw')
        if not ctx.ob(ab is not None and len(cs) <= 1 and (not cs and opt == ('None',) or bool(cs) and r == W.nz(cs[0].ret)), 'start:result', 'a path leads to something else than what resolving it gives: ' + show(r), '', o.trace):
            continue
        a = [W.nz(x) for x in cs[0].args] if cs else None
        if not ab:
            who = F.get(caller)
            known = F.get(('haskey', ('NODES', 0), ('fld', caller, 'Some.0')))
            if who == {'None'} or known is False:
                seen.add('nobody')
                ctx.ob(not cs, 'start:nobody', 'a relative path is resolved without its caller', where(cs[0]) if cs else '', o.trace)
            else:
                seen.add('caller')
                ctx.ob(bool(cs) and a[0] == ('B', ('fld', caller, 'Some.0')) and same_path(a[1], path), 'start:relative', 'a relative path is not resolved as it is from its caller', where(cs[0]) if cs else '', o.trace)
            continue
        segs = ('fld', path, 'path')
        first = ('fld', segs, ('i', ('int', 0)))
        rootname = ('fld', ('NB', ('int', 0), 0), 'name')
        if is_empty(F, segs):
            seen.add('empty')
            ctx.ob(not cs, 'start:empty', 'an absolute path without segments leads somewhere', where(cs[0]) if cs else '', o.trace)
            continue
        kind = F.get(first, frozenset(('Node', 'This', 'Parent')))
        for k in sorted(kind):
            text = {'This': ('str', '.'), 'Parent': ('str', '..'), 'Node': ('fld', first, 'Node.0')}[k]
            m = equal(F, text, rootname)
            if m is None and k == 'Node':
                ctx.ob(False, 'start:root-name', 'an absolute path is resolved without comparing its first segment to the name of the root', '', o.trace)
                continue
            if m is None:
                # '.' or '..' treated as different from every name
                m = False
            seen.add('root' if m else 'other')
            if m:
                ctx.ob(bool(cs) and a[0] == ('B', ('int', 0)) and seg_rest(a[1], path), 'start:absolute', 'an absolute path is not resolved from the root without its first segment', where(cs[0]) if cs else '', o.trace)
            else:
                ctx.ob(not cs, 'start:other-root', 'an absolute path that does not start with the name of the root leads somewhere', where(cs[0]) if cs else '', o.trace)
    need = {'nobody', 'caller', 'empty', 'root', 'other'}
    ctx.ob(need <= seen, 'start:cases', 'looking up a path never handles: %s' % sorted(need - seen))


def lookups(ctx):
    from p08 import res, pointer
    for name in ('get_node', 'get_node_dyn'):
        fn = ctx.inherent('NodeBase', name)
        W = World('node')
        S = ('SELF',)
        path = ('sym', fn.locals[2][1] or 'a2')
        outs, I = ctx.run(fn, opaque={'NodeTreeBase::get_node_rid'})
        seen = set()
        for o in outs:
            F = facts(W, o)
            if F.get(('fld', ('NB', S, 0), 'tree')) == {'None'}:
                ctx.ob(o.kind == 'panic', name + ':lone', 'looking a node up from outside of a tree does not panic', '', o.trace)
                continue
            if not ctx.ob(o.kind == 'ret', name + ':aborts', '%s can abort' % name, '', o.trace):
                continue
            cs = calls(o.trace, 'NodeTreeBase::get_node_rid')
            if not ctx.ob(len(cs) == 1 and W.nz(cs[0].args[0]) == ('TREE',) and plain(W.nz(cs[0].args[1])) == path and p07.opt(W.nz(cs[0].args[2])) == ('Some', S), name + ':asks', '%s does not look the given path up from this node' % name, where(cs[0]) if cs else '', o.trace):
                continue
            found = W.nz(cs[0].ret)
            rid = ('fld', found, 'Some.0')
            v = F.get(found)
            r, tree, owner = res(W.nz(o.value))
            if not ctx.ob(v is not None and r is not None and tree == ('TREEPTR',) and owner == S, name + ':result', '%s gives %s' % (name, show(W.nz(o.value))[:200]), '', o.trace):
                continue
            if v == {'None'}:
                seen.add('none')
                ctx.ob(r[0] == 'Err' and contains_name(r[1], 'InvalidPath') and contains(r[1], path), name + ':invalid', 'a path that leads nowhere gives %s' % show(r[1])[:200], '', o.trace)
                continue
            known = F.get(('haskey', ('NODES', 0), rid))
            ty = [b for k, b in F.items() if k[:2] == ('app', 'is_type') and k[2][0][:2] == ('NP', rid)]
            if known is False:
                want = 'IsNull'
            elif ty and not ty[0]:
                want = 'WrongType'
            else:
                seen.add('found')
                ok = r[0] == 'Ok' and pointer(r[1], 'Tp' if name == 'get_node' else 'TpDyn') == (('TREEPTR',), S, rid) and (name != 'get_node' or ty == [True])
                ctx.ob(ok, name + ':found', 'a path that leads to a node gives %s' % show(r[1])[:200], '', o.trace)
                continue
            ctx.ob(r[0] == 'Err' and contains_name(r[1], want), name + ':error', 'a path to a node that is not fitting gives %s' % show(r[1])[:200], '', o.trace)
        ctx.ob(seen == {'none', 'found'}, name + ':cases', '%s does not tell paths that lead somewhere from others' % name)
    fn = ctx.inherent('NodeTreeBase', 'get_node_rid')
    W = World('tree')
    a, b = (('sym', fn.locals[i][1] or 'a%d' % i) for i in (2, 3))
    for o in ctx.run(fn)[0]:
        cs = calls(o.trace, 'NodeGetter::get_from')
        ok = o.kind == 'ret' and len(cs) == 1 and W.nz(o.value) == W.nz(cs[0].ret) and W.nz(cs[0].args[1]) == ('TREE',) and W.nz(cs[0].args[2]) == b and (contains(W.nz(cs[0].ret), a) or contains(W.nz(cs[0].args[0]), a))
        ctx.ob(ok, 'tree:forwards', 'the tree does not look a path up as it was asked to', '', o.trace)


def check(ctx):
    resolver(ctx)
    starts(ctx)
    lookups(ctx)
