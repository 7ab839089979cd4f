"""TreeOption and TreeResult: every public operation of both is decided case by case - for each state of the receiver, of a second TreeOption/TreeResult and of a nested one, every path is shown to return (or store) the value std's Option/Result gives, to call the given functions exactly as often and with the same values, and to stay attached to the receiver's tree and owner; failing unwraps report to the owner and panic."""
from world import *
from rule import *

RULE = 'result, stored value, callback calls and attachment of every operation == those of the std operation of the same name, per state of all operands'
X, E, Y, Z, ZE = ('X',), ('E',), ('Y',), ('Z',), ('ZE',)
A1, A2 = ('arg', 1), ('arg', 2)
NONE_ = ('None',)


def some(x):
    return ('Some', x)


def ok(x):
    return ('Ok', x)


def err(x):
    return ('Err', x)


def TO(o):
    return ('TO', o)


def TR(o):
    return ('TR', o)


def call(f, *a):
    return ('call', f) + a


def obj(c):
    return ('objof', c)


PANIC, UB = ('panic',), ('ub',)
T_, F_ = ('bool', True), ('bool', False)
DEF = ('default',)


class V:
    """canonical form of the values of one path in one state"""

    def __init__(self, ctx, fn, W, o, kind, st):
        self.W, self.o, self.st, self.kind = W, o, st, kind
        self.args = {}
        for i in range(1, fn.j['argc'] + 1 if 'argc' in fn.j else 5):
            if i < len(fn.locals) and fn.locals[i][1]:
                self.args[('sym', fn.locals[i][1])] = i - 1
        self.calls = {}
        self.order = []
        for e in calls(o.trace, 'usercall'):
            v = call(self.c(e.args[0]), *[self.c(x) for x in e.extra[1]])
            self.calls[e.ret] = v
            self.order.append(v)

    def payload(self, whole, variant):
        me = {'None': NONE_, 'Some': some, 'Ok': ok, 'Err': err}

    def whole(self, who):
        """the option/result inside of receiver ('s'), second operand ('b') or nested value ('n')"""
        s = self.st.get(who)
        if s is None:
            return ('obj', who)
        names = {'s': (X, E), 'b': (Y, ('F',)), 'n': (Z, ZE)}[who]
        return NONE_ if s == 'None' else some(names[0]) if s == 'Some' else ok(names[0]) if s == 'Ok' else err(names[1])

    def c(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if t in self.args:
            n = self.args[t]
            return ('wrap', 's') if n == 0 else ('wrap', 'b') if n == 1 and 'b' in self.st else ('arg', n)
        if t in self.calls if hasattr(self, 'calls') else False:
            return self.calls[t]
        if k in ('ref',):
            return self.c(place(t)) if t[1][0][0] != 'cell' else self.cell(t)
        if k in ('&', 'deref', 'copied', 'cloned'):
            return self.c(t[1])
        if k == 'obj':
            return self.c(t[1])
        if k == 'base':
            return ('target', self.c(t[1]))
        if k in ('bool',):
            return t
        if k == 'tup':
            return ('tup', tuple(self.c(x) for x in t[1]))
        if k == 'fld':
            b = self.c(t[1])
            f = t[2]
            if b == ('wrap', 's') and f in ('tree', 'owner', 'p_life'):
                return ('my', f)
            if b[:1] == ('wrap',) and f == 'object':
                return self.whole(b[1])
            if b in (X, ) and f == 'object' and 'n' in self.st:
                return self.whole('n')
            if b[:1] in (('TO',), ('TR',)) and f == 'object':
                return b[1]
            if b[:1] == ('call',) and f == 'object':
                return obj(b)
            if isinstance(f, str) and f.endswith('.0') and b[:1] == (f[:-2],) and len(b) == 2:
                return b[1]
            return ('f', b, f)
        if k == 'adt':
            ty, var, fs = t[1].split('::')[-1], t[2], t[3]
            if ty in ('Option', 'Result'):
                return (var,) + tuple(self.c(x) for _, x in fs)
            if ty in ('TreeOption', 'TreeResult'):
                d = dict(fs)
                if self.c(d['tree']) == ('my', 'tree') and self.c(d['owner']) == ('my', 'owner'):
                    return ('TO' if ty == 'TreeOption' else 'TR', self.c(d['object']))
                return ('detached', ty, self.c(d['tree']), self.c(d['owner']), self.c(d['object']))
            return ('adt', ty) + tuple(self.c(x) for _, x in fs)
        if k == 'bin' and t[1] in ('Eq', 'Ne'):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[:1] == ('discr',) and b[:1] == ('int',):
                    w = self.c(a[1])
                    if w[0] in ('None', 'Some', 'Ok', 'Err'):
                        d = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1}[w[0]]
                        return ('bool', (d == b[1]) == (t[1] == 'Eq'))
        if k == 'un' and t[1] == 'Not':
            a = self.c(t[2])
            return ('bool', not a[1]) if a[0] == 'bool' else ('not', a)
        if k == 'app' and t[1] == 'Option::as_slice':
            return ('slice', self.c(t[2][0]))
        if k == 'app' and t[1] in ('slice::from_ref', 'slice::from_mut'):
            return ('slice', some(self.c(t[2][0])))
        if k in ('arr', 'pv') and t[1] in ((), ('arr', ())):
            return ('slice', NONE_)
        if k == 'app' and t[1] == 'default':
            return DEF
        if k == 'app' and t[1] in ('Deref::deref', 'DerefMut::deref_mut'):
            return ('target', self.c(t[2][0]))
        if k == 'app' and t[1] in ('Clone::clone', 'ToOwned::to_owned'):
            return self.c(t[2][0])
        return (k,) + tuple(self.c(x) if isinstance(x, tuple) else x for x in t[1:])

    def cell(self, t):
        return ('cell', t[1])

    def value(self, v):
        v = self.c(v)
        if v == ('wrap', 's'):
            return (TO if self.kind == 'TreeOption' else TR)(self.whole('s'))
        return v

    def stored(self):
        """what the receiver holds at the end, None if it was not written"""
        ws = [e for e in flat(self.o.trace) if e.kind == 'write']
        last = None
        for e in ws:
            if e.name == 'object' and self.c(e.args[0]) in (('wrap', 's'), ('target', ('wrap', 's'))):
                last = self.c(e.args[1])
            else:
                return ('write', e.name)
        return last


def cases(spec_states):
    r = [{}]
    for k, vs in spec_states.items():
        r = [dict(x, **{k: v}) for x in r for v in vs]
    return r


OPT, RES = ('None', 'Some'), ('Ok', 'Err')


def opt_specs():
    """name -> (operands, f(st) -> list of acceptable (value, calls, stored))"""
    S = lambda st: st['s'] == 'Some'
    o1 = {'s': OPT}
    two = {'s': OPT, 'b': OPT}

    def me(st):
        return some(X) if S(st) else NONE_

    def b(st):
        return some(Y) if st['b'] == 'Some' else NONE_
    p = {}

    def d(names, states, f):
        for n in names.split():
            p[n] = (states, f)
    R = lambda v, c=(), w=None: (v, tuple(c), w)
    d('to_option', o1, lambda st: R(me(st)))
    d('is_some', o1, lambda st: R(('bool', S(st))))
    d('is_none', o1, lambda st: R(('bool', not S(st))))
    d('is_some_and', o1, lambda st: R(call(A1, X), [call(A1, X)]) if S(st) else R(F_))
    d('as_ref as_mut', o1, lambda st: R(TO(me(st))))
    d('expect unwrap', o1, lambda st: R(X) if S(st) else R(PANIC))
    d('as_slice as_mut_slice', o1, lambda st: R(('slice', me(st))))
    d('unwrap_or', o1, lambda st: R(X) if S(st) else R(A1))
    d('unwrap_or_else', o1, lambda st: R(X) if S(st) else R(call(A1), [call(A1)]))
    d('unwrap_or_default', o1, lambda st: R(X) if S(st) else R(DEF))
    d('unwrap_unchecked', o1, lambda st: R(X) if S(st) else None)
    d('map', o1, lambda st: R(TO(some(call(A1, X))), [call(A1, X)]) if S(st) else R(TO(NONE_)))
    d('inspect', o1, lambda st: R(TO(me(st)), [call(A1, X)] if S(st) else []))
    d('map_or', o1, lambda st: R(call(A2, X), [call(A2, X)]) if S(st) else R(A1))
    d('map_or_else', o1, lambda st: R(call(A2, X), [call(A2, X)]) if S(st) else R(call(A1), [call(A1)]))
    d('ok_or', o1, lambda st: R(TR(ok(X))) if S(st) else R(TR(err(A1))))
    d('ok_or_else', o1, lambda st: R(TR(ok(X))) if S(st) else R(TR(err(call(A1))), [call(A1)]))
    d('as_deref as_deref_mut', o1, lambda st: R(TO(some(('target', X)))) if S(st) else R(TO(NONE_)))
    d('iter', o1, lambda st: R(('adt', 'Iter', ('adt', 'Item', me(st)))))
    d('iter_mut', o1, lambda st: R(('adt', 'IterMut', ('adt', 'Item', me(st)))))
    d('and', two, lambda st: R(TO(b(st))) if S(st) else R(TO(NONE_)))
    d('and_then', o1, lambda st: R(TO(obj(call(A1, X))), [call(A1, X)]) if S(st) else R(TO(NONE_)))
    d('filter', o1, lambda st: R(TO(me(st)) if st['t'] else TO(NONE_), [call(A1, X)]) if S(st) else R(TO(NONE_)))
    d('or', two, lambda st: R(TO(me(st))) if S(st) else R(TO(b(st))))
    d('or_else', o1, lambda st: R(TO(me(st))) if S(st) else R(TO(obj(call(A1))), [call(A1)]))
    d('xor', two, lambda st: R(TO(me(st) if S(st) and st['b'] == 'None' else b(st) if not S(st) and st['b'] == 'Some' else NONE_)))
    d('insert', o1, lambda st: R(('place',), (), some(A1)))
    d('get_or_insert', o1, lambda st: R(('place',), (), None if S(st) else some(A1)))
    d('get_or_insert_default', o1, lambda st: R(('place',), (), None if S(st) else some(DEF)))
    d('get_or_insert_with', o1, lambda st: R(('place',), () if S(st) else (call(A1),), None if S(st) else some(call(A1))))
    d('take', o1, lambda st: R(TO(me(st)), (), NONE_))
    d('take_if', o1, lambda st: (R(TO(me(st)), [call(A1, X)], NONE_) if st['t'] else R(TO(NONE_), [call(A1, X)])) if S(st) else R(TO(NONE_)))
    d('replace', o1, lambda st: R(me(st), (), some(A1)))
    d('zip', two, lambda st: R(TO(some(('tup', (X, Y))))) if S(st) and st['b'] == 'Some' else R(TO(NONE_)))
    d('transfer_owner', {'b': OPT}, lambda st: R(TO(b(st))))
    d('unzip', o1, lambda st: R(('tup', (TO(some(('f', X, '0'))), TO(some(('f', X, '1')))))) if S(st) else R(('tup', (TO(NONE_), TO(NONE_)))))
    d('copied cloned', o1, lambda st: R(TO(me(st))))
    d('transpose', {'s': OPT, 'n': RES}, lambda st: R(TR(ok(TO(NONE_)))) if not S(st) else R(TR(ok(TO(some(Z))))) if st['n'] == 'Ok' else R(TR(err(ZE))))
    d('flatten', {'s': OPT, 'n': OPT}, lambda st: R(TO(some(Z))) if S(st) and st['n'] == 'Some' else R(TO(NONE_)))
    return p


def res_specs():
    S = lambda st: st['s'] == 'Ok'
    o1 = {'s': RES}
    two = {'s': RES, 'b': RES}

    def me(st):
        return ok(X) if S(st) else err(E)

    def b(st):
        return ok(Y) if st['b'] == 'Ok' else err(('F',))
    p = {}

    def d(names, states, f):
        for n in names.split():
            p[n] = (states, f)
    R = lambda v, c=(), w=None: (v, tuple(c), w)
    d('to_result', o1, lambda st: R(me(st)))
    d('to_option', o1, lambda st: R(some(X) if S(st) else NONE_))
    d('is_ok', o1, lambda st: R(('bool', S(st))))
    d('is_err', o1, lambda st: R(('bool', not S(st))))
    d('is_ok_and', o1, lambda st: R(call(A1, X), [call(A1, X)]) if S(st) else R(F_))
    d('is_err_and', o1, lambda st: R(call(A1, E), [call(A1, E)]) if not S(st) else R(F_))
    d('ok', o1, lambda st: R(TO(some(X) if S(st) else NONE_)))
    d('err', o1, lambda st: R(TO(some(E) if not S(st) else NONE_)))
    d('as_ref as_mut', o1, lambda st: R(TR(me(st))))
    d('map', o1, lambda st: R(TR(ok(call(A1, X))), [call(A1, X)]) if S(st) else R(TR(err(E))))
    d('map_or', o1, lambda st: R(call(A2, X), [call(A2, X)]) if S(st) else R(A1))
    d('map_or_else', o1, lambda st: R(call(A2, X), [call(A2, X)]) if S(st) else R(call(A1, E), [call(A1, E)]))
    d('map_err', o1, lambda st: R(TR(err(call(A1, E))), [call(A1, E)]) if not S(st) else R(TR(ok(X))))
    d('inspect', o1, lambda st: R(TR(me(st)), [call(A1, X)] if S(st) else []))
    d('inspect_err', o1, lambda st: R(TR(me(st)), [call(A1, E)] if not S(st) else []))
    d('as_deref as_deref_mut', o1, lambda st: R(TR(ok(('target', X)))) if S(st) else R(TR(err(E))))
    d('iter', o1, lambda st: R(('adt', 'Iter', some(X) if S(st) else NONE_)))
    d('iter_mut', o1, lambda st: R(('adt', 'IterMut', some(X) if S(st) else NONE_)))
    d('expect unwrap', o1, lambda st: R(X) if S(st) else R(PANIC))
    d('expect_err unwrap_err', o1, lambda st: R(E) if not S(st) else R(PANIC))
    d('unwrap_or_default', o1, lambda st: R(X) if S(st) else R(DEF))
    d('unwrap_unchecked', o1, lambda st: R(X) if S(st) else None)
    d('unwrap_err_unchecked', o1, lambda st: R(E) if not S(st) else None)
    d('and', two, lambda st: R(TR(b(st))) if S(st) else R(TR(err(E))))
    d('and_then', o1, lambda st: R(('result-of', call(A1, X)), [call(A1, X)]) if S(st) else R(TR(err(E))))
    d('or', two, lambda st: R(TR(me(st))) if S(st) else R(TR(b(st))))
    d('or_else', o1, lambda st: R(TR(me(st))) if S(st) else R(TR(obj(call(A1, E))), [call(A1, E)]))
    d('unwrap_or', o1, lambda st: R(X) if S(st) else R(A1))
    d('unwrap_or_else', o1, lambda st: R(X) if S(st) else R(call(A1, E), [call(A1, E)]))
    d('transfer_owner', {'b': RES}, lambda st: R(TR(b(st))))
    d('copied cloned', o1, lambda st: R(TR(me(st))))
    d('transpose', {'s': RES, 'n': OPT}, lambda st: R(TO(some(TR(err(E))))) if not S(st) else R(TO(some(TR(ok(Z))))) if st['n'] == 'Some' else R(TO(NONE_)))
    d('flatten', {'s': RES, 'n': RES}, lambda st: R(TR(err(E))) if not S(st) else R(TR(ok(Z))) if st['n'] == 'Ok' else R(TR(err(ZE))))
    return p


def allowed(W, fn, o, states):
    """the states of the operands a path is possible in"""
    F = facts(W, o)
    syms = [('sym', fn.locals[i][1]) for i in (1, 2) if i < len(fn.locals) and fn.locals[i][1]]
    r = []
    for st in cases(states):
        good = True
        for k, v in F.items():
            if not isinstance(v, frozenset):
                continue
            t = k
            path = []
            while isinstance(t, tuple) and t[:1] in (('fld',), ('obj',)):
                if t[0] == 'fld':
                    path.append(t[2])
                t = t[1]
            path.reverse()
            who = None
            if syms and t == syms[0] and path == ['object']:
                who = 's'
            elif len(syms) > 1 and t == syms[1] and path == ['object']:
                who = 'b'
            elif syms and t == syms[0] and path[:1] == ['object'] and path[-1] == 'object' and len(path) == 3:
                who = 'n'
            if who in st and st[who] not in v:
                good = False
        if good:
            r.append(st)
    return r


def check(ctx):
    P = ctx.P
    for kind, specs in (('TreeOption', opt_specs()), ('TreeResult', res_specs())):
        mod = 'tree_option' if kind == 'TreeOption' else 'tree_result'
        fns = [f for f in P.fns.values() if f.local and f.path.startswith('structs::%s::%s::<' % (mod, kind)) and '{closure' not in f.key]
        names = {f.path.split('::')[-1] for f in fns}
        for n in specs:
            ctx.ob(n in names, '%s::%s:exists' % (kind, n), 'the operation %s::%s is gone' % (kind, n))
        ctx.floor(len(fns), 30, 'operations of ' + kind)
        for fn in fns:
            n = fn.path.split('::')[-1]
            if n in specs:
                one(ctx, fn, kind, n, *specs[n])
        new = [f for f in fns if f.path.endswith('::new')]
        for f in new:
            a = [('sym', f.locals[i][1] or 'a%d' % i) for i in (1, 2, 3)]
            for o in ctx.run(f)[0]:
                v = dict(o.value[3]) if o.kind == 'ret' and o.value[0] == 'adt' else {}
                ctx.ob((v.get('tree'), v.get('owner'), v.get('object')) == tuple(a), kind + '::new', 'a new %s does not hold what it is made of' % kind, '', o.trace)


def one(ctx, fn, kind, name, states, spec):
    key = '%s::%s' % (kind, name)
    W = World(None)
    outs, I = ctx.run(fn)
    done = []
    for o in outs:
        for st in allowed(W, fn, o, states):
            vv = V(ctx, fn, W, o, kind, st)
            B = {vv.c(e.args[0]): e.args[1] for e in o.trace if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2}
            truth = [v for k, v in B.items() if isinstance(k, tuple) and k[:1] == ('call',)]
            for t in (truth[-1:] or [True, False]):
                want = spec(dict(st, t=t))
                if want is None:
                    continue
                done.append(st)
                tell = '%s of %s %s' % (name, ', '.join('%s=%s' % (dict(s='self', b='other', n='inner')[k], v) for k, v in st.items()), 'panics' if o.kind == 'panic' else 'gives ' + show(o.value)[:180] if o.kind == 'ret' else 'is undefined')
                k = '%s:%s' % (key, '/'.join(st.values()))
                if want[0] == PANIC:
                    if ctx.ob(o.kind == 'panic', k, tell, '', o.trace):
                        alive = [v for t2, v in facts(W, o).items() if t2[:1] == ('haskey',) and vv.c(t2[2]) == ('my', 'owner')]
                        posts = [e for e in calls(o.trace, 'NodeBase::post') if vv.c(W.nz(e.args[0])) == ('B', ('my', 'owner')) and e.args[1][:1] == ('adt',) and e.args[1][2] == 'Panic']
                        ctx.ob(posts or alive[-1:] == [False], k + ':reported', 'a failed %s panics without its owner reporting it' % name, '', o.trace)
                    continue
                if not ctx.ob(o.kind == 'ret', k, tell, '', o.trace):
                    continue
                got = vv.value(o.value)
                exp = want[0]
                if exp == ('place',):
                    good = isinstance(o.value, tuple) and o.value[:1] == ('ref',) and vv.args.get(o.value[1][0][1]) == 0 and o.value[1][1] == ('object', 'Some.0')
                elif exp[:1] == ('result-of',):
                    good = got in (exp[1], TR(obj(exp[1])))
                elif exp[0] == 'bool' and got != exp and name in ('is_some_and', 'is_ok_and', 'is_err_and'):
                    good = False
                else:
                    good = got == exp or exp[:1] == ('call',) and truth and got == ('bool', truth[-1])
                ctx.ob(good, k, tell, '', o.trace)
                ctx.ob(tuple(vv.order) == want[1], k + ':callbacks', '%s calls %s' % (name, [show(x) for x in vv.order] or 'no callback'), '', o.trace)
                w = vv.stored()
                ctx.ob(w == want[2] or want[2] is not None and w is None and vv.whole('s') == want[2] or want[2] is None and w == vv.whole('s'), k + ':stores', 'after %s the receiver holds %s' % (name, w), '', o.trace)
    need = [st for st in cases(states) if any(spec(dict(st, t=t)) is not None for t in (True, False))]
    ctx.ob(all(s in done for s in need), key + ':cases', '%s has no result in some states of its operands' % name)
