"""A new tree is wired to its one base before anything of the user runs: every constructor is followed from the base it makes, through the storing of it, to the walk over the scene; the accessors of every tree type (TreeSimple and those that derive(Tree) makes) are read off; whole-crate scans show that nothing else makes, stores or initialises a base."""
from world import *
from rule import *
import scan

RULE = 'constructor == make base (given verbosity; empty tables; running) ; store in the tree ; initialise the stored base with a pointer to the same tree and the given scene, once; accessors == the stored base / the tree itself'
ASSUMES = ['what user trees do in their constructors besides calling initialize_base is theirs', 'std: Box does not move what it holds']
WITNESS = True
INIT = 'NodeTreeBase::initialize'
SET = 'NodeTree::set_base'


def cell(t):
    """what a reference or pointer leads to, without the reference"""
    return plain(t) if isinstance(t, tuple) else t


def base_of(t):
    """the tree whose base this is"""
    if t[:1] == ('base',):
        return cell(t[1])
    if t[:1] == ('ref',) and t[1][1][-2:] == ('base', 'Some.0'):
        root, path = t[1][0], t[1][1][:-2]
        return ('ref', (root, path)) if root[:1] == ('cell',) or path else plain(root[1])
    return None


def struct(t):
    """fields of a struct term, looking through changes made by calls on a part of it"""
    return dict(t[3]) if isinstance(t, tuple) and t[:1] == ('adt',) and len(t) > 3 else {}


def is_empty(t):
    return t[:1] in (('emptymap',), ('emptyset',), ('emptyvec',)) or t[:1] == ('seq',) and not t[1] or t == ('app', 'HashMap::new', (), None) or 'empty' in str(t[0])


def made_with(v, verb):
    """problems of a fresh base"""
    d = struct(v)
    if v[2:3] != ('NodeTreeBase',) or not d:
        return ['it is not a base made on the spot: ' + show(v)[:120]]
    r = []
    st = d.get('status', ('?',))
    if st[:1] != ('adt',) or st[2] != 'Process' or dict(st[3]).get('0', ('?',) * 3)[2] != 'Running':
        r.append('its status is %s' % show(st)[:80])
    for k in ('identity', 'singletons'):
        if not is_empty(d.get(k, ('?',))):
            r.append('its %s are %s' % (k, show(d.get(k))[:80]))
    nodes = struct(d.get('nodes', ('?',)))
    bad = [k for k, x in nodes.items() if not is_empty(x) and x != ('int', 0)]
    if not nodes or bad:
        r.append('its table of nodes is not an empty one: ' + show(d.get('nodes'))[:120])
    vs = [dict(x[3]).get('verbosity_level') or next((y for k, y in x[3] if 'verbos' in k), None) for x in subterms(d.get('logger', ('?',))) if isinstance(x, tuple) and x[:1] == ('adt',) and x[2:3] == ('Logger',)]
    if verb not in vs or any(x != verb for x in vs):
        r.append('its logger has the verbosity %s' % [show(x) for x in vs if x])
    if d.get('last_frame', ('?',) * 2)[:2] != ('app', 'Instant::now'):
        r.append('its clock starts at %s' % show(d.get('last_frame'))[:80])
    return r


def check(ctx):
    P = ctx.P
    W = World(None)
    n = 0
    # ---- construction
    init = [f for f in P.fns.values() if f.crate == 'node_tree' and f.local and f.path.endswith('::initialize_base')]
    ctx.floor(len(init), 1, 'initialize_base')
    users = [f for f in P.fns.values() if f.local and f.crate == 'node_tree' and any(cj.get('rk') in {i.key for i in init} for cj, _ in P.callees(f))]
    ctx.floor(len(users), 1, 'constructors of trees')
    for f in init + users:
        outs, I = ctx.run(f, opaque={INIT, SET})
        nm = f.path.split('::', 1)[-1]
        names = [f.locals[i][1] for i in range(1, f.argc + 1)]
        tys = {P.ty(f.crate, f.locals[i][0])['s'].split('::')[-1]: f.locals[i][1] for i in range(1, f.argc + 1)}
        verb = tys.get('LoggerVerbosity')
        ctx.ob(any(o.kind == 'ret' for o in outs), nm + ':returns', '%s never gives a tree' % nm)
        for o in outs:
            if not ctx.ob(o.kind == 'ret', nm + ':aborts', '%s may abort' % nm, '', o.trace):
                continue
            n += 1
            ev = list(flat(o.trace))
            sets = [e for e in ev if e.kind == 'call' and e.name == SET]
            inits = [e for e in ev if e.kind == 'call' and e.name == INIT]
            if not ctx.ob(len(sets) == 1 and len(inits) == 1 and all(e in o.trace for e in sets + inits), nm + ':once', '%s stores a base %d times and initialises one %d times, instead of each once' % (nm, len(sets), len(inits)), '', o.trace):
                continue
            s, i = sets[0], inits[0]
            ctx.ob(o.trace.index(s) < o.trace.index(i), nm + ':order', '%s initialises the base before the tree has it' % nm, where(i), o.trace)
            tree = cell(s.args[0])
            for bad in made_with(s.args[1], ('sym', verb)) or ['']:
                ctx.ob(not bad, nm + ':base', '%s gives the tree a base that is not a new one: %s' % (nm, bad), where(s), o.trace)
            b = i.args[0]
            ctx.ob(base_of(b) in (tree, plain(tree)), nm + ':same-tree', '%s initialises %s, which is not the base of the tree it stored one in' % (nm, show(b)[:100]), where(i), o.trace)
            ctx.ob(cell(i.args[1]) == tree, nm + ':pointer', '%s gives the nodes a pointer to %s instead of the tree' % (nm, show(i.args[1])[:100]), where(i), o.trace)
            ctx.ob(i.args[2][:1] == ('sym',) and i.args[2][1] in names and i.args[2] != ('sym', verb), nm + ':scene', '%s makes its nodes from %s' % (nm, show(i.args[2])[:100]), where(i), o.trace)
            if f in users:
                ctx.ob(cell(o.value) == tree, nm + ':result', '%s returns %s, not the tree it initialised' % (nm, show(o.value)[:100]), '', o.trace)
                late = [e for e in o.trace[o.trace.index(s):] if e.kind == 'write' and e.name == 'base']
                ctx.ob(not late, nm + ':replaced', '%s replaces the base after it was stored' % nm, where(late[0]) if late else '', o.trace)
            else:
                ctx.ob(tree[:1] == ('deref',) or plain(tree) == ('sym', names[0]) or tree == ('sym', names[0]), nm + ':given-tree', '%s works on %s instead of the tree it is given' % (nm, show(tree)), where(s), o.trace)
    # ---- nothing else makes or stores a base
    mk = [P.fns[k].path for k in scan.builders(P, 'structs::node_tree_base::NodeTreeBase')]
    ctx.ob(mk and all(p.endswith('NodeTreeBase::new') for p in mk), 'builders', 'a base is built by %s' % mk)
    for name, callers in ((SET, ('initialize_base',)), (INIT, ('initialize_base',)), ('NodeTreeBase::new', ('initialize_base',))):
        cs = [(f, sp) for f in P.fns.values() if f.local for cj, sp in P.callees(f) if norm(cj['p']).split('::', 0)[-1].endswith(name)]
        ctx.floor(len(cs), 1, 'calls of ' + name)
        for f, sp in cs:
            ok = any(r in {i.key for i in init} or P.fns[r].path.endswith('initialize_base') for r in [f.key]) or all(r in {i.key for i in init} for r in scan.roots_of(P, f.key, {i.key for i in init}))
            ctx.ob(ok, 'calls:' + name, '%s calls %s, besides the constructor' % (f.path, name), sp)
    # ---- accessors
    seen = {}
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.local or 'self_ty' not in f.j or '{closure' in f.key:
            continue
        ty = P.ty(f.crate, f.j['self_ty'])['s']
        a = P.adts.get(P.ty(f.crate, f.j['self_ty']).get('d', ''))
        if not a or not any(x[0] == 'base' and 'NodeTreeBase' in x[1] for v in a['v'] for x in v['f']):
            continue
        m = f.j.get('nm')
        if m not in ('set_base', 'base', 'base_mut', 'deref', 'deref_mut') and not (m or '').startswith('as_'):
            continue
        seen.setdefault(ty, set()).add(m)
        outs, I = ctx.run(f, ub=True)
        k = '%s::%s' % (ty.split('::')[-1], m)
        for o in outs:
            have = next((v for q, v in facts(W, o).items() if isinstance(q, tuple) and q[:1] == ('fld',) and q[2] == 'base'), None)
            if o.kind != 'ret':
                ctx.ob(have == frozenset(['None']), k + ':aborts', '%s fails although there is a base' % k, '', o.trace)
                continue
            n += 1
            ws = [e for e in flat(o.trace) if e.kind == 'write']
            if m == 'set_base':
                v = ws[-1].args[1] if ws else ('?',)
                ctx.ob(len(ws) == 1 and ws[0].name == 'base' and v[:1] == ('adt',) and v[2] == 'Some' and dict(v[3]).get('0', ('?',))[:1] == ('sym',), k, '%s does not store the base it is given' % k, where(ws[0]) if ws else '', o.trace)
                continue
            ctx.ob(not ws and not [e for e in flat(o.trace) if e.kind == 'call'], k + ':effect', '%s changes something' % k, where(ws[0]) if ws else '', o.trace)
            v = cell(o.value)
            if m.startswith('as_'):
                ctx.ob(v in (('sym', 'self'), ('deref', ('sym', 'self'))) or plain(v) == ('sym', 'self'), k, '%s gives %s instead of the tree' % (k, show(o.value)), '', o.trace)
            else:
                ctx.ob(base_of(v) == ('sym', 'self'), k, '%s gives %s instead of the base of the tree' % (k, show(o.value)), '', o.trace)
    want = {'set_base', 'base', 'base_mut', 'deref', 'deref_mut', 'as_dyn', 'as_dyn_mut', 'as_dyn_raw', 'as_dyn_raw_mut', 'as_any', 'as_any_mut'}
    for ty, ms in seen.items():
        ctx.ob(want <= ms, 'accessors:' + ty, 'the tree %s lacks %s' % (ty, sorted(want - ms)))
    ctx.floor(len(seen), 2, 'tree types')
    ctx.floor(n, 20, 'paths of constructors and accessors')
