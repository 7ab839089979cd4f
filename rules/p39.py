"""Comparing, hashing, ordering and copying agree, for every type of the library that can be compared, hashed, ordered or
copied: on every path of an equality that can say yes, all parts were found equal; on every path that can say no, some
part was found different; a hash is fed with parts of the value (and the kind it is of), with nothing else; a copy is of the same kind and has every part of
the original; an order puts a field that is void behind every one that is not, compares two values by their own order, in
this direction, and the partial order is the total one."""
from world import *
from rule import *

RULE = 'eq: yes iff every part equal; hash: fed from the compared parts only; clone: every part of the original; cmp: variants by rank, values by their own order'
FIELDS = ('Field', 'UniqueField', 'ExportableField', 'DefaultField')
# copies with a meaning of their own: decided by P16, P18, P24 and P25
OWN = ('Signal', 'NodeBase', 'NodeScene', 'Field', 'UniqueField')
EQ = ('PartialEq::eq', 'ptr::eq', 'addr_eq', 'const_ptr::eq')


def strip(t):
    while isinstance(t, tuple) and t and (t[0] in ('&', 'deref', 'obj', 'copied', 'cloned', 'ref') or t[0] == 'app' and t[1] in ('Clone::clone', 'ToOwned::to_owned')):
        t = t[2][0] if t[0] == 'app' else t[1]
    return t


def place(t):
    """(root symbol, 'a.b') of a part; None for anything else"""
    t = strip(t)
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'sym':
        return t[1], ''
    if t[0] == 'fld':
        p = place(t[1])
        return p and (p[0], (p[1] + '.' if p[1] else '') + (t[2] if isinstance(t[2], str) else repr(t[2])))
    if t[0] == 'seq':
        return place(t[1])
    return None


class Eq:
    """what one path of an equality knows"""

    def __init__(self, W, fn, o):
        self.W = W
        self.a, self.b = fn.locals[1][1], fn.locals[2][1] if fn.argc > 1 else None
        self.same, self.diff, self.var, self.odd = set(), set(), {}, []
        self.infeasible = False
        for k, v in facts(W, o).items():
            if isinstance(v, frozenset):
                p = place(k)
                if p:
                    self.var[p] = self.var.get(p, v) & v
            elif isinstance(v, bool):
                self.know(k, v)
        for (r, p), v in list(self.var.items()):
            o2 = (self.b if r == self.a else self.a, p)
            w = self.var.get(o2)
            if ('kind', p) in self.same or ('all', p) in self.same:
                if w is not None and not (v & w):
                    self.infeasible = True
                self.var[o2] = v if w is None else v & w
                self.var[(r, p)] = self.var[o2]
            elif w is not None and not (v & w):
                self.diff.add(('kind', p))
        for p in self.diff & self.same:
            self.infeasible = True

    def atom(self, t):
        """(what, place) compared by a comparison of two values, or None"""
        if t[0] == 'bin' and t[1] in ('Eq', 'Ne'):
            x, y = t[2], t[3]
        elif t[0] == 'app' and (t[1] in EQ or t[1] in ('PartialEq::ne',)):
            x, y = t[2][0], t[2][1]
        else:
            return None
        x, y = strip(x), strip(y)
        if x[:1] == ('adt',) and y[:1] == ('adt',) and x[1] == y[1] and x[2] == y[2] or x[:1] == ('tup',) and y[:1] == ('tup',):
            xs = [z[1] for z in x[3]] if x[0] == 'adt' else list(x[1])
            ys = [z[1] for z in y[3]] if y[0] == 'adt' else list(y[1])
            return [self.atom(('bin', 'Eq', p, q)) for p, q in zip(xs, ys)]
        kind = 'all'
        if x[:1] == ('discr',) and y[:1] == ('discr',) or x[:1] == y[:1] == ('app',) and x[1].endswith('discriminant') and y[1].endswith('discriminant'):
            kind, x, y = 'kind', x[1] if x[0] == 'discr' else x[2][0], y[1] if y[0] == 'discr' else y[2][0]
        p, q = place(x), place(y)
        if p is None or q is None or {p[0], q[0]} != {self.a, self.b} or p[1] != q[1]:
            return None
        return [(kind, p[1])]

    def know(self, k, v):
        k = self.W.nz(k)
        while k[:1] == ('not',):
            k, v = k[1], not v
        if k[:1] == ('bin',) and k[1] in ('BitAnd', 'BitOr'):
            if v == (k[1] == 'BitAnd'):
                self.know(k[2], v)
                self.know(k[3], v)
            else:
                self.odd.append(k)
            return
        at = self.atom(k)
        at = at and [y for x in at for y in ([x] if isinstance(x, tuple) else x or [None])]
        if not at or None in at:
            self.odd.append(k)
            return
        if k[:2] == ('bin', 'Ne') or k[:2] == ('app', 'PartialEq::ne'):
            v = not v
        if v:
            self.same |= set(at)
        elif len(at) == 1:
            self.diff.add(at[0])
        else:
            self.diff.add(('some', repr(at)))

    def complete(self, P, ty, p, depth=0):
        """are all parts of the part p of type ty known to be the same? the first that is not"""
        if ('all', p) in self.same or ty.startswith('std::marker::PhantomData') or ty == '()':
            return None
        a = P.adts.get(re.sub(r"<.*", '', ty).strip())
        if a is None or depth > 4 or a['k'] not in ('struct', 'enum') or not (a.get('local') or re.match(r'std::(option|result)::', ty)):
            return p or 'the value'
        sub = re.search(r'<(.*)>$', ty)
        if a['k'] == 'struct':
            for n, t, _ in a['v'][0]['f']:
                r = self.complete(P, t, (p + '.' if p else '') + n, depth + 1)
                if r:
                    return r
            return None
        va, vb = self.var.get((self.a, p)), self.var.get((self.b, p))
        names = [v['n'] for v in a['v']]
        if ('kind', p) in self.same and va is None and vb is None:
            va = vb = frozenset(names)
        if va is None or vb is None:
            return (p or 'the value') + ' (its kind)'
        if not (('kind', p) in self.same or len(va) == 1 and va == vb):
            return (p or 'the value') + ' (its kind)'
        for v in a['v']:
            if v['n'] not in va & vb:
                continue
            for n, t, _ in v['f']:
                r = self.complete(P, t, (p + '.' if p else '') + v['n'] + '.' + n, depth + 1)
                if r:
                    return r
        return None


def short(fn, P):
    return re.sub(r"<.*", '', P.ty(fn.crate, fn.j['self_ty'])['s']).split('::')[-1]


def impls(P, tr, m):
    r = {}
    for f in P.method(tr, m, r'.'):
        t = P.ty(f.crate, f.j['self_ty'])['s']
        if P.adts.get(re.sub(r"<.*", '', t), {}).get('local'):
            r[short(f, P)] = (f, re.sub(r"<.*", '', t))
    return r


def eqs(ctx):
    P = ctx.P
    got = impls(P, 'PartialEq', 'eq')
    for n, (f, ty) in sorted(got.items()):
        outs, I = ctx.run(f)
        yes = no = 0
        for o in outs:
            W = World(None)
            E = Eq(W, f, o)
            if E.infeasible:
                continue
            if o.kind != 'ret':
                ctx.ob(False, 'aborts:' + n, 'comparing two values can end in %s' % o.kind, f.path, o.trace)
                continue
            v = W.nz(o.value)
            for w in (True, False):
                if v[:1] == ('bool',) and v[1] != w:
                    continue
                X = Eq(W, f, o)
                if v[:1] != ('bool',):
                    X.know(v, w)
                if w:
                    r = X.complete(P, ty, '')
                    yes += 1
                    ctx.ob(r is None, 'equal:%s' % n, 'two values are called equal without looking at %s' % r, f.path, o.trace)
                    ctx.ob(not X.diff, 'equal-different:%s' % n, 'two values are called equal although they differ in %s' % sorted(X.diff)[:1], f.path, o.trace)
                else:
                    no += 1
                    ctx.ob(X.diff or v[:1] != ('bool',) and X.odd and v in X.odd and v[:2] == ('bin', 'BitAnd'), 'different:%s' % n, 'two values are called different although no difference was found', f.path, o.trace)
        ctx.ob(yes, 'reaches-equal:' + n, 'two values are never equal', f.path)
        kinds = P.adts[ty]
        ctx.ob(no or all(not v['f'] for v in kinds['v']) and len(kinds['v']) == 1, 'reaches-different:' + n, 'all values are equal', f.path)
    for n in impls(P, 'PartialEq', 'ne'):
        f = impls(P, 'PartialEq', 'ne')[n][0]
        outs, I = ctx.run(f)
        for o in outs:
            v = World(None).nz(o.value)
            ctx.ob(v[:1] == ('not',) or v[:2] == ('bin', 'Ne'), 'ne:' + n, 'an inequality of its own', f.path, o.trace)
    return got


def hashes(ctx):
    P = ctx.P
    got = {k: v for k, v in impls(P, 'Hash', 'hash').items() if k not in ('NodeScene',)}
    for n, (f, ty) in sorted(got.items()):
        outs, I = ctx.run(f)
        a, st = f.locals[1][1], f.locals[2][1]
        seen = {}
        for o in outs:
            W = World(None)
            if o.kind != 'ret':
                ctx.ob(False, 'hash-aborts:' + n, 'hashing can end in %s' % o.kind, f.path, o.trace)
                continue
            for k, v in facts(W, o).items():
                ctx.ob(isinstance(v, frozenset) and (place(k) or ('',))[0] == a or isinstance(v, bool) and derived(strip(k), a), 'hash-input:' + n, 'what is hashed depends on %s, which is no part of the value' % show(k), f.path, o.trace)
            fed = []
            for e in flat(o.trace):
                if e.kind in ('write', 'drop') or e.kind == 'loop' and not e.extra:
                    continue
                if e.kind == 'loop':
                    ctx.ob(all(all(q.kind in ('call', 'assume') for q in b) for b in e.extra), 'hash-loop:' + n, 'a loop in a hash does something else', f.path, o.trace)
                    continue
                if e.kind != 'call':
                    continue
                r = e.ret if isinstance(e.ret, tuple) and e.ret[:1] == ('app',) and len(e.ret[2]) == len(e.args) else None
                ts = [W.nz(r[2][i] if r else x) for i, x in enumerate(e.args)]   # what the references point to, at the time
                into = [i for i, x in enumerate(ts) if strip(x) == ('sym', st)]
                if not into:
                    ctx.ob(e.name.split('::')[-1] in ('deref', 'as_ref', 'iter', 'next', 'into_iter', 'len', 'as_str', 'as_slice', 'discriminant', 'borrow'), 'hash-calls:' + n, 'hashing also calls %s' % e.name, f.path, o.trace)
                    continue
                for i, x in enumerate(ts):
                    if i in into:
                        continue
                    x = strip(x)
                    ctx.ob(derived(x, a), 'hash-input:' + n, 'the hash takes in %s, which is no part of the value' % show(x), f.path, o.trace)
                    fed.append(x)
            seen[tuple(map(repr, fed))] = 1
        ctx.ob(len(outs) > 0, 'hash-paths:' + n, 'hashing has no path', f.path)
    return got


def derived(x, a):
    """made from the value alone"""
    if x[:1] in (('int',), ('bool',), ('str',), ('unit',)):
        return True
    if x[:1] == ('discr',):
        p = place(x[1])
        return bool(p and p[0] == a)
    p = place(x)
    if p:
        return p[0] == a and p[1] != ''   # the value as a whole is its address
    if x[:1] == ('tup',):
        return all(derived(strip(y), a) for y in x[1])
    if x[:1] in (('bin',), ('un',), ('not',), ('len',), ('cast',)):
        return all(derived(strip(y), a) for y in x[1:] if isinstance(y, tuple))
    if x[:1] == ('app',):
        return x[1].split('::')[-1] in ('len', 'as_str', 'iter', 'next', 'discriminant', 'as_ref', 'as_slice', 'to_string') and all(derived(strip(y), a) for y in x[2])
    return False


def clones(ctx):
    P = ctx.P
    got = {k: v for k, v in impls(P, 'Clone', 'clone').items() if k not in OWN}
    for n, (f, ty) in sorted(got.items()):
        outs, I = ctx.run(f)
        a = f.locals[1][1]
        for o in outs:
            W = World(None)
            if o.kind != 'ret':
                ctx.ob(False, 'copy-aborts:' + n, 'copying can end in %s' % o.kind, f.path, o.trace)
                continue
            F = {place(k): v for k, v in facts(W, o).items() if isinstance(v, frozenset) and place(k)}
            r = part(P, W.nz(o.value), ty, a, '', F)
            ctx.ob(r is None, 'copy:' + n, 'a copy differs from the original: %s' % r, f.path, o.trace)
            w = [e for e in flat(o.trace) if e.kind == 'write' and place(e.args[0]) and place(e.args[0])[0] == a]
            ctx.ob(not w, 'copy-writes:' + n, 'copying changes the original', f.path, o.trace)
    return got


def part(P, v, ty, a, p, F, depth=0):
    """is the term v the part p of the original?"""
    x = strip(v)
    if place(x) == (a, p) or ty.startswith('std::marker::PhantomData') or ty == '()':
        return None
    if x[:1] == ('adt',) and depth < 4:
        d = P.adts.get(re.sub(r'<.*', '', ty))
        if d is None or re.sub(r'<.*', '', ty).split('::')[-1] != x[1].split('::')[-1]:
            return 'its %s is %s' % (p or 'value', show(v))
        if d['k'] == 'enum':
            k = F.get((a, p))
            if k is None or k != frozenset([x[2]]):
                return 'its %s is made %s while the original is %s' % (p or 'kind', x[2], '/'.join(sorted(k or [])) or 'not looked at')
        vs = [w for w in d['v'] if w['n'] == x[2]]
        have = dict(x[3])
        for n, t, _ in vs[0]['f'] if vs else []:
            q = '.'.join(y for y in (p, x[2] if d['k'] == 'enum' else '', n) if y)
            if n not in have:
                return '%s is missing' % q
            r = part(P, have[n], t, a, q, F, depth + 1)
            if r:
                return r
        return None
    return 'its %s is %s' % (p or 'value', show(v))


RANK = {'Less': -1, 'Equal': 0, 'Greater': 1}


def orders(ctx):
    P = ctx.P
    n = 0
    for tr, m in (('PartialOrd', 'partial_cmp'), ('Ord', 'cmp')):
        got = impls(P, tr, m)
        for ty in FIELDS:
            ctx.ob(ty in got, '%s:%s' % (m, ty), '%s has no %s' % (ty, m))
        for ty, (f, full) in sorted(got.items()):
            d = P.adts[full]
            outs, I = ctx.run(f)
            a, b = f.locals[1][1], f.locals[2][1]
            names = [v['n'] for v in d['v']]
            rank = {v: i for i, v in enumerate(['Valid', 'Void'])} if set(names) == {'Valid', 'Void'} else {v: i for i, v in enumerate(names)}
            for x in names:
                for y in names:
                    hit = 0
                    for o in outs:
                        W = World(None)
                        F = facts(W, o)
                        ok, atoms = True, {}
                        for k, v in F.items():
                            p = place(k)
                            if isinstance(v, frozenset) and p and p[1] == '' and p[0] in (a, b):
                                ok = ok and (x if p[0] == a else y) in v
                            elif isinstance(v, bool) and k[:1] == ('bin',) and k[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                                s = [num(z, a, b, x, y, rank, d) for z in (k[2], k[3])]
                                if None not in s:
                                    c = {'Eq': s[0] == s[1], 'Ne': s[0] != s[1], 'Lt': s[0] < s[1], 'Le': s[0] <= s[1], 'Gt': s[0] > s[1], 'Ge': s[0] >= s[1]}[k[1]]
                                    ok = ok and c == v
                        if not ok:
                            continue
                        hit += 1
                        n += 1
                        if o.kind != 'ret':
                            ctx.ob(False, '%s-aborts:%s' % (m, ty), 'comparing can end in %s' % o.kind, f.path, o.trace)
                            continue
                        v = result(W.nz(o.value), a, b, x, y, rank, d)
                        if x != y:
                            w = -1 if rank[x] < rank[y] else 1
                        else:
                            fs = [g for g in d['v'] if g['n'] == x][0]['f']
                            if not fs:
                                w = 0
                            else:
                                w = ('of', (x + '.' if d['k'] == 'enum' else '') + fs[0][0])
                        ctx.ob(v == w, '%s:%s %s %s' % (m, ty, x, y), 'comparing a %s to a %s gives %s' % (x, y, show(W.nz(o.value))), f.path, o.trace)
                    ctx.ob(hit, '%s-covered:%s %s %s' % (m, ty, x, y), 'no path compares a %s to a %s' % (x, y), f.path)
    for tr, ms in (('PartialOrd', ('lt', 'le', 'gt', 'ge')), ('Ord', ('max', 'min', 'clamp'))):
        for m in ms:
            for ty, (f, _) in impls(P, tr, m).items():
                ctx.ob(False, 'own:%s::%s' % (ty, m), 'an order with a %s of its own' % m, f.path)
    return n


def num(t, a, b, x, y, rank, d):
    t = strip(t)
    if t[:1] == ('int',):
        return t[1]
    if t[:1] == ('discr',):
        p = place(t[1])
        if p and p[1] == '':
            v = x if p[0] == a else y
            for w in d['v']:
                if w['n'] == v:
                    return w['d'] if w['d'] is not None else 0
    if t[:1] == ('cast',):
        return num(t[1], a, b, x, y, rank, d)
    return None


def result(v, a, b, x, y, rank, d):
    if v[:1] == ('adt',) and v[2] == 'Some':
        return result(v[3][0][1], a, b, x, y, rank, d)
    if v[:1] == ('adt',) and v[2] in RANK:
        return RANK[v[2]]
    if v[:2] == ('bin', 'Cmp') or v[:1] == ('app',) and v[1].split('::')[-1] in ('cmp', 'partial_cmp'):
        l, r = (v[2], v[3]) if v[0] == 'bin' else v[2][:2]
        s, t = num(l, a, b, x, y, rank, d), num(r, a, b, x, y, rank, d)
        if s is not None and t is not None:
            return (s > t) - (s < t)
        p, q = place(l), place(r)
        if p and q and p[0] == a and q[0] == b and p[1] == q[1]:
            return ('of', p[1])
    return ('other', show(v))


def check(ctx):
    e = eqs(ctx)
    h = hashes(ctx)
    c = clones(ctx)
    n = orders(ctx)
    for t in h:
        ctx.ob(t in e, 'hash-without-eq:' + t, '%s is hashed but cannot be compared' % t)
    for t, least in (('compared', e), ('hashed', h), ('copied', c)):
        ctx.sample('%s: %s' % (t, ', '.join(sorted(least))))
    for t in ('Tp', 'TpDyn', 'TreeOption', 'TreeResult', 'NodePath', 'PathSeg', 'NodeError', 'TPError'):
        for what, s in (('compared', e), ('hashed', h), ('copied', c)):
            ctx.ob(t in s, '%s:%s' % (what, t), '%s can not be %s' % (t, what))
    for t in ('ProcessMode', 'TreeStatus', 'TreeProcess', 'TerminationReason') + FIELDS:
        ctx.ob(t in e, 'compared:' + t, '%s can not be compared' % t)
    for t in ('RIDHolder', 'NodeStatus', 'NodeIdentity', 'Log', 'Logger', 'LoggerVerbosity'):
        ctx.ob(t in c, 'copied:' + t, '%s can not be copied' % t)
    ctx.floor(n, 20, 'ordered pairs')
