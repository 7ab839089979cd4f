"""What the structural hash of a scene takes in is listed on all paths of internal_structural_hash, structural_hash and the Hash implementation: the type name of the node, the ownership and the number of children, then every child in order by the same routine, and nothing else; each result goes to the same hasher."""
from world import *
from rule import *
from scn import canon, noid, fl, is_app

RULE = 'hashed sequence == type name, ownership, number of children, then each child by the same routine; nothing else reaches the hasher'
SELF = ('sym', 'self')
KIDS = fl(SELF, 'children')


def strip(t):
    t = noid(canon(t))
    while isinstance(t, tuple) and t[:1] in (('seq',), ('obj',)):
        t = t[1]
    return t


def routine(ctx, fn, hasher, outs, I, name):
    """the things fed to `hasher` on every path"""
    W = World(None)
    n = 0
    told = {True: set(), False: set()}      # what is hashed in place of the ownership once it is known
    for o in outs:
        own = [v for k, v in facts(W, o).items() if isinstance(v, bool) and strip(k) == fl(SELF, 'is_owner')]
        if not ctx.ob(o.kind == 'ret', name + ':aborts', 'hashing can abort', '', o.trace):
            continue
        n += 1
        seen, below, whole = {}, 0, False
        at = 0
        for e in o.trace:
            if e.kind == 'call' and e.name in ('Hash::hash', 'Hash::hash_slice') or e.kind == 'call' and e.name.startswith('Hasher::write'):
                at += 1
                h, x = (W.nz(e.args[1]), strip(W.nz(value(I, e, 0)))) if e.name.startswith('Hash::') else (W.nz(e.args[0]), strip(W.nz(e.args[1])))
                if not ctx.ob(h == W.nz(hasher(o)), name + ':hasher', 'something is fed to another hasher', where(e), o.trace):
                    continue
                what = 'type' if x in (('app', 'NodeAbstract::name_as_type', (fl(SELF, 'this'),), None),) else 'owner' if x == fl(SELF, 'is_owner') else 'count' if x == ('len', KIDS) else 'children' if x == KIDS else None
                if what is None and x[:1] in (('int',), ('bool',), ('str',)) and own:
                    what = 'owner'
                    told[own[0]].add(x)
                if ctx.ob(what is not None, name + ':foreign', 'the hash depends on ' + show(x)[:200], where(e), o.trace):
                    ctx.ob(what not in seen, name + ':twice', 'the %s is hashed twice' % what, where(e), o.trace)
                    seen[what] = at
            elif e.kind == 'loop':
                w = walk_of(e)
                if not ctx.ob(w is not None and w[1] and completed(o.trace, w[0]) and strip(W.nz(w[2])) == KIDS, name + ':walk', 'hashing does not go through all children in order', where(e), o.trace):
                    continue
                at += 1
                below = at
                el = ('fld', KIDS, ('i', ('ix', w[0])))
                for b in e.extra:
                    rec = [x for x in flat(b) if x.kind in ('rec',) or x.kind == 'call' and x.name.startswith(('Hash', 'NodeScene::'))]
                    ok = len(rec) == 1 and strip(W.nz(rec[0].args[0])) == el and W.nz(rec[0].args[1]) == W.nz(hasher(o)) and rec[0].name in ('NodeScene::hash', 'NodeScene::internal_structural_hash', 'Hash::hash')
                    ctx.ob(ok, name + ':child', 'a child is not hashed exactly once by the same routine', where(rec[0]) if rec else '', b)
            elif e.kind == 'write':
                ctx.ob(False, name + ':writes', 'hashing changes something', where(e), o.trace)
        if 'children' in seen:
            seen['count'] = below = seen.pop('children')
        ctx.ob(set(seen) == {'type', 'owner', 'count'}, name + ':all', 'only %s of the node is hashed' % sorted(seen), '', o.trace)
        ctx.ob(below > 0 or empty(W, o), name + ':below', 'the children are not hashed', '', o.trace)
        ctx.ob(below == 0 or seen.get('count', 0) <= below, name + ':prefix', 'the number of children is hashed after them', '', o.trace)
    if told[True] or told[False]:
        ctx.ob(len(told[True]) == len(told[False]) == 1 and not told[True] & told[False], name + ':owner', 'what is hashed for an owner and for another node does not tell them apart: %s' % sorted(map(repr, told[True] | told[False])), '')
    ctx.floor(n, 1, 'paths of ' + name)


def empty(W, o):
    return any(k[:2] == ('bin', 'Eq') and {strip(k[2]), strip(k[3])} == {('int', 0), ('len', KIDS)} and v is True for k, v in facts(W, o).items())


def value(I, e, i):
    """what the reference given to a call points to: the terms of the result tell the values at the time"""
    r = e.ret
    if isinstance(r, tuple) and r[:1] == ('app',) and len(r[2]) > i:
        return r[2][i]
    return e.args[i]


def check(ctx):
    import p16
    fn = ctx.inherent('NodeScene', 'internal_structural_hash')
    outs, I = ctx.run(fn)
    st = ('sym', fn.locals[2][1] or 'a2')
    routine(ctx, fn, lambda o: st, outs, I, 'routine')
    fn = ctx.trait_method('Hash', 'hash', 'NodeScene')
    outs, I = ctx.run(fn)
    st2 = ('sym', fn.locals[2][1] or 'a2')
    routine(ctx, fn, lambda o: st2, outs, I, 'Hash')
    fn = ctx.inherent('NodeScene', 'structural_hash')
    outs, I = ctx.run(fn)

    def own(o):
        fin = [e for e in flat(o.trace) if e.kind == 'call' and e.name == 'Hasher::finish']
        return fin[0].args[0] if fin else None
    for o in outs:
        mk = [e for e in flat(o.trace) if e.kind == 'call' and e.name == 'DefaultHasher::new']
        fin = [e for e in flat(o.trace) if e.kind == 'call' and e.name == 'Hasher::finish']
        ok = len(mk) == 1 and len(fin) == 1 and o.kind == 'ret' and o.value == fin[0].ret
        ctx.ob(ok, 'structural:hasher', 'the hash is not the one a default hasher gives at the end: ' + (show(o.value)[:200] if o.value else ''), '', o.trace)
        if len(fin) == 1:
            after = o.trace[o.trace.index(fin[0]) + 1:] if fin[0] in o.trace else []
            ctx.ob(not [e for e in after if e.kind in ('call', 'loop')], 'structural:end', 'something is hashed after the result was taken', '', o.trace)
    routine(ctx, fn, own, outs, I, 'structural')
