"""Tree pointers: for every operation of Tp and TpDyn the three situations its pointee can be in (not registered, registered with another type or without the trait, registered and fitting) are enumerated, and in each of them every path of the operation is shown to end in exactly the documented result: the node the table holds, the documented error, or a report to the owner followed by a panic. Scans show that pointers are only made by the constructors that check."""
from world import *
from rule import *
import scan
import p07

RULE = 'outcome of every operation == documented outcome, per (registered?, fits?) state of the pointee; pointers only built by checked constructors and never changed'
MISSING, WRONG, RIGHT = 'not registered', 'of another type', 'fitting'


def states(F, node):
    """states of the pointee that the facts of a path allow"""
    k = [v for t, v in F.items() if t[:1] == ('haskey',) and t[2] == node and isinstance(v, bool)]
    ty = [v for t, v in F.items() if t[:2] == ('app', 'is_type') and isinstance(v, bool) and t[2][0][:2] == ('NP', node) and '::' not in t[2][1][1].split('|')[-1]]
    r = {MISSING, WRONG, RIGHT}
    for v in k:
        r &= {WRONG, RIGHT} if v else {MISSING}
    for v in ty:
        r &= {RIGHT, MISSING} if v else {WRONG, MISSING}
    return r


def truth(W, v, node, st):
    """value of a boolean term in a state"""
    v = W.nz(v)
    if v in (TRUE, FALSE):
        return v == TRUE
    if v[:2] == ('un', 'Not'):
        r = truth(W, v[2], node, st)
        return None if r is None else not r
    if v[:1] == ('haskey',) and v[2] == node:
        return st != MISSING
    if v[:2] == ('app', 'is_type') and v[2][0][:2] == ('NP', node) and '::' not in v[2][1][1].split('|')[-1]:
        return st == RIGHT
    if v[:1] == ('bin',) and v[1] in ('BitAnd', 'BitOr', 'And', 'Or'):
        a, b = truth(W, v[2], node, st), truth(W, v[3], node, st)
        if v[1] in ('BitAnd', 'And'):
            return a and b if None not in (a, b) else False if False in (a, b) else None
        return a or b if None not in (a, b) else True if True in (a, b) else None
    return None


def own(t):
    """fields of the pointer itself, however self is passed"""
    if isinstance(t, tuple):
        if t[:1] == ('fld',) and t[1] in (('obj', ('sym', 'self'), 0), ('sym', 'self')):
            return ('my', t[2])
        return tuple(own(x) for x in t)
    return t


def res(v):
    """('Ok', x) / ('Err', variant) of a TreeResult and what it is attached to"""
    if v[:1] == ('adt',) and v[1].endswith('TreeResult'):
        d = dict(v[3])
        o = d.get('object', ('?',))
        if o[:1] == ('adt',) and o[2] in ('Ok', 'Err'):
            x = o[3][0][1]
            return (o[2], x), d.get('tree'), d.get('owner')
    return None, None, None


def pointer(v, ty):
    if v[:1] == ('adt',) and v[1].endswith('::' + ty):
        d = dict(v[3])
        return d.get('tree'), d.get('owner'), d.get('node')


def decide(ctx, fn, spec, name, node, tree, owner, W):
    """spec: state -> ('node',) | ('err', variant) | ('ok-node',) | ('ok', ty) | ('ptr', ty) | ('panic',) | ('bool', b)"""
    outs, I = ctx.run(fn)
    done = set()
    for o in outs:
        F = {own(k): v for k, v in facts(W, o).items()}
        ws = [e for e in flat(o.trace) if e.kind == 'write']
        ctx.ob(not ws, name + ':changes', 'using a tree pointer changes something', where(ws[0]) if ws else '', o.trace)
        for st in sorted(states(F, node)):
            if o.kind == 'ub' and st == MISSING and spec.get(st) is None:
                continue
            want = spec.get(st)
            if want is None:
                continue
            done.add(st)
            v = own(W.nz(o.value)) if o.value is not None else ('?',)
            tell = '%s a node that is %s it gives %s' % ('pointing to', st, 'a panic' if o.kind == 'panic' else o.kind if o.kind != 'ret' else show(v)[:160])
            key = '%s:%s' % (name, st)
            if want[0] == 'panic':
                if ctx.ob(o.kind == 'panic', key, tell, '', o.trace):
                    gone = [x for t, x in F.items() if t[:1] == ('haskey',) and t[2] == owner]
                    posts = [e for e in calls(o.trace, 'NodeBase::post')]
                    logged = [e for e in posts if own(W.nz(e.args[0])) == ('B', owner) and e.args[1][:1] == ('adt',) and e.args[1][2] == 'Panic']
                    ctx.ob(logged or False in gone or st == MISSING and owner == node, key + ':reported', 'a misused tree pointer panics without its owner reporting it', '', o.trace)
                continue
            if not ctx.ob(o.kind == 'ret', key, tell, '', o.trace):
                continue
            if want[0] == 'bool':
                ctx.ob(truth(World(None), v, node, st) is want[1], key, tell, '', o.trace)
            elif want[0] == 'node':
                ctx.ob(plainp(v) == ('NP', node, 0), key, tell, '', o.trace)
            elif want[0] == 'ptr':
                ctx.ob(pointer(v, want[1]) == (tree, owner, node), key, tell, '', o.trace)
            else:
                r, t, w = res(v)
                ctx.ob(r is not None and t == tree and w == owner, key + ':reports-to', 'the result is not attached to the tree and owner of the pointer: ' + show(v)[:200], '', o.trace)
                if want[0] == 'err':
                    ctx.ob(r is not None and r[0] == 'Err' and r[1][:1] == ('adt',) and r[1][2] == want[1], key, tell, '', o.trace)
                elif want[0] == 'ok-node':
                    ctx.ob(r is not None and r[0] == 'Ok' and plainp(r[1]) == ('NP', node, 0), key, tell, '', o.trace)
                else:
                    ctx.ob(r is not None and r[0] == 'Ok' and pointer(r[1], want[1]) == (tree, owner, node), key, tell, '', o.trace)
    ctx.ob(done == {s for s in spec if spec[s] is not None}, name + ':cases', 'not all situations of the pointee lead to a result: %s' % sorted(done))


def plainp(v):
    while isinstance(v, tuple) and v[:1] in (('&',), ('deref',)) and len(v) == 2:
        v = v[1]
    if v[:1] == ('NODE',):
        return ('NP', v[1], v[2])
    return v


def check(ctx):
    P = ctx.P
    my = lambda f: ('my', f)
    node, tree, owner = my('node'), my('tree'), my('owner')
    W = World(None)
    E = lambda v: ('err', v)
    OKN = ('ok-node',)
    B = lambda b: ('bool', b)
    tp = {
        'to_dyn': {MISSING: ('panic',), WRONG: ('ptr', 'TpDyn'), RIGHT: ('ptr', 'TpDyn')},
        'try_to_dyn': {MISSING: E('IsNull'), WRONG: ('ok', 'TpDyn'), RIGHT: ('ok', 'TpDyn')},
        'is_valid': {MISSING: B(False), WRONG: B(False), RIGHT: B(True)},
        'is_null': {MISSING: B(True), WRONG: B(True), RIGHT: B(False)},
        'get': {MISSING: ('panic',), WRONG: ('panic',), RIGHT: ('node',)},
        'get_mut': {MISSING: ('panic',), WRONG: ('panic',), RIGHT: ('node',)},
        'try_get': {MISSING: E('IsNull'), WRONG: E('WrongType'), RIGHT: OKN},
        'try_get_mut': {MISSING: E('IsNull'), WRONG: E('WrongType'), RIGHT: OKN},
    }
    dyn = {
        'is_valid': {MISSING: B(False), WRONG: B(True), RIGHT: B(True)},
        'is_null': {MISSING: B(True), WRONG: B(False), RIGHT: B(False)},
        'get': {MISSING: ('panic',), WRONG: ('node',), RIGHT: ('node',)},
        'get_mut': {MISSING: ('panic',), WRONG: ('node',), RIGHT: ('node',)},
        'try_get': {MISSING: E('IsNull'), WRONG: OKN, RIGHT: OKN},
        'try_get_mut': {MISSING: E('IsNull'), WRONG: OKN, RIGHT: OKN},
        'to': {MISSING: E('IsNull'), WRONG: E('WrongType'), RIGHT: ('ok', 'Tp')},
        'is': {MISSING: B(False), WRONG: B(False), RIGHT: B(True)},
        'is_of': {MISSING: B(False), WRONG: B(False), RIGHT: B(True)},
        'cast': {MISSING: E('AttemptedDynCastOnNull'), WRONG: E('DynCastFailed'), RIGHT: OKN},
        'cast_mut': {MISSING: E('AttemptedDynCastOnNull'), WRONG: E('DynCastFailed'), RIGHT: OKN},
    }
    for ty, ops in (('Tp', tp), ('TpDyn', dyn)):
        for n, spec in ops.items():
            decide(ctx, ctx.inherent(ty, n), spec, '%s::%s' % (ty, n), node, tree, owner, W)
        for tr, n, like in (('Deref', 'deref', 'get'), ('DerefMut', 'deref_mut', 'get_mut')):
            f = ctx.trait_method(tr, n, r'::%s<' % ty)
            decide(ctx, f, ops[like], '%s::%s' % (ty, n), node, tree, owner, W)
        # the constructor
        f = ctx.inherent(ty, 'new')
        t, w, x = (('sym', f.locals[i][1] or 'a%d' % i) for i in (1, 2, 3))
        Wn = World(None, tree_syms={t})
        spec = {MISSING: E('IsNull'), WRONG: E('WrongType') if ty == 'Tp' else ('ok', ty), RIGHT: ('ok', ty)}
        decide(ctx, f, spec, ty + '::new', x, t, w, Wn)
        bs = scan.builders(P, ty)
        ctx.floor(len(bs), 1, 'places that build a ' + ty)
        okb = {f.key} | {g.key for g in P.method('Clone', 'clone', r'::%s<' % ty)}
        for k, sps in bs.items():
            ctx.ob(k in okb or not scan.roots_of(P, k, stop=okb), 'builders:%s:%s' % (ty, P.fns[k].path), 'a %s is built without checking its node by %s' % (ty, P.fns[k].path), sps[0] if sps else '')
        for fld in ('node', 'tree', 'owner'):
            for k, sps in scan.field_writers(P, ty, fld).items():
                ctx.ob(False, 'writers:%s:%s:%s' % (ty, fld, P.fns[k].path), 'the %s of a %s is changed by %s' % (fld, ty, P.fns[k].path), sps[0] if sps else '')
    # a node's pointers to itself
    S = ('SELF',)
    W = World('node')
    for n, ty in (('this', 'Tp'), ('this_dyn', 'TpDyn')):
        f = ctx.inherent('NodeBase', n)
        outs, _ = ctx.run(f)
        got = 0
        for o in outs:
            F = facts(W, o)
            lone = F.get(('fld', ('NB', S, 0), 'tree'))
            st = states(F, S)
            if lone == {'None'}:
                ctx.ob(o.kind == 'panic', n + ':alone', 'a node outside of a tree gives a pointer to itself', '', o.trace)
            elif st == {MISSING}:
                continue    # a node of a tree is registered with it
            elif st == {WRONG} and ty == 'Tp':
                ctx.ob(o.kind == 'panic', n + ':type', 'a node gives a pointer to itself of a wrong type', '', o.trace)
            else:
                got += 1
                ctx.ob(o.kind == 'ret' and pointer(W.nz(o.value), ty) == (('TREEPTR',), S, S), n + ':self', 'a node\'s pointer to itself is ' + show(W.nz(o.value))[:200] if o.value else o.kind, '', o.trace)
        ctx.floor(got, 1, 'paths of %s that give a pointer' % n)
