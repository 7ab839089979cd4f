"""Fields of nodes: for each kind of field, every operation is decided case by case - for each state of the field (and of
a second one) every path must return the prescribed value, leave the prescribed content, and panic exactly where a value is
asked of a void field (leaving the field as it was). The compound assignment operators are checked against the operator of
the trait they implement: it is applied once, to the value in place and the right operand in this order."""
from world import *
from rule import *

RULE = 'result and content after each operation == table, per state of the operands; operator applied == operator of the trait'
OPS = ['AddAssign', 'SubAssign', 'MulAssign', 'DivAssign', 'RemAssign', 'BitOrAssign', 'BitXorAssign', 'BitAndAssign', 'ShlAssign', 'ShrAssign']
METH = {'AddAssign': 'add_assign', 'SubAssign': 'sub_assign', 'MulAssign': 'mul_assign', 'DivAssign': 'div_assign', 'RemAssign': 'rem_assign',
        'BitOrAssign': 'bitor_assign', 'BitXorAssign': 'bitxor_assign', 'BitAndAssign': 'bitand_assign', 'ShlAssign': 'shl_assign', 'ShrAssign': 'shr_assign'}
TWO = ('Field', 'UniqueField')
ONE = ('ExportableField', 'DefaultField')
X, R = ('X',), ('R',)
VOID = ('void',)
PANIC = 'panic'


def val(x):
    return ('valid', x)


def some(x):
    return ('Some', x)


NONE_ = ('None',)


class Case:
    """one operation in one state of its operands; st: 's'/'b' -> 'Valid' | 'Void' (second operand only if it is a field)"""

    def __init__(self, fn, W, o, ty, st):
        self.W, self.o, self.ty, self.st = W, o, ty, st
        names = [l[1] for l in fn.locals[1:fn.argc + 1]]
        self.who = {}
        for n, k in zip(names, ('s', 'b')):
            self.who[('sym', n)] = k
        self.two = ty in TWO

    def content(self, k):
        """what the operand k holds at the start"""
        if k == 'b' and 'b' not in self.st:
            return R
        p = X if k == 's' else R
        return val(p) if not self.two or self.st[k] == 'Valid' else VOID

    def c(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if t in self.who:
            return self.content(self.who[t])
        if k in ('&', 'deref', 'copied', 'cloned', 'obj'):
            return self.c(t[1])
        if k == 'ref':
            return ('at',) + tuple(self.c(place(t))) if t[1][0][0] != 'cell' else t
        if k == 'fld':
            b = self.c(t[1])
            if b[:1] == ('valid',) and t[2] == ('Valid.0' if self.two else '0'):
                return b[1]
            return ('f', b, t[2])
        if k == 'adt':
            ty = t[1].split('::')[-1]
            if ty == self.ty:
                return val(self.c(t[3][0][1])) if t[3] else VOID
            if ty in ('Option',):
                return (t[2],) + tuple(self.c(x) for _, x in t[3])
            return (ty, t[2]) + tuple(self.c(x) for _, x in t[3])
        if k == 'discr':
            w = self.c(t[1])
            return {'void': ('int', 1), 'valid': ('int', 0)}.get(w[0], ('discr', w))
        if k == 'bin' and t[1] in ('Eq', 'Ne'):
            a, b = self.c(t[2]), self.c(t[3])
            if a[:1] == ('int',) and b[:1] == ('int',):
                return ('bool', (a == b) == (t[1] == 'Eq'))
            r = ('eq',) + tuple(sorted((a, b), key=repr))
            return r if t[1] == 'Eq' else ('not', r)
        if k == 'un' and t[1] == 'Not':
            a = self.c(t[2])
            return ('bool', not a[1]) if a[0] == 'bool' else ('not', a)
        if k == 'app' and t[1] in ('PartialEq::eq', 'PartialEq::ne'):
            a = self.c(('bin', 'Eq', t[2][0], t[2][1]))
            return a if t[1].endswith('eq') else ('not', a)
        if k == 'app' and t[1] == 'default':
            return ('default',)
        if k == 'app' and t[1] in ('Clone::clone', 'ToOwned::to_owned'):
            return self.c(t[2][0])
        if k == 'app':
            return ('app', t[1]) + tuple(self.c(x) for x in t[2])
        return (k,) + tuple(self.c(x) if isinstance(x, tuple) else x for x in t[1:])

    def feasible(self, F):
        for k, v in F.items():
            w = self.c(k)
            if isinstance(v, frozenset):
                n = {'void': 'Void', 'valid': 'Valid', 'Some': 'Some', 'None': 'None'}.get(w[0] if w else None)
                if n and n not in v:
                    return False
            elif w[:1] == ('bool',) and w[1] != v:
                return False
        return True

    def final(self):
        """the content of the field at the end; None and a reason if something else was written"""
        cur = self.content('s')
        for e in flat(self.o.trace):
            if e.kind != 'write':
                continue
            tgt = e.args[0]
            while tgt[:1] in (('&',), ('obj',), ('deref',)):
                tgt = tgt[1]
            if tgt[:1] == ('ref',):
                tgt = place(tgt)
                while tgt[:1] in (('&',), ('obj',), ('deref',)):
                    tgt = tgt[1]
            if self.who.get(tgt) != 's':
                continue
            if e.name == '':
                cur = self.c(self.W.nz(e.args[1]))
            elif e.name == ('Valid.0' if self.two else '0') and cur[0] == 'valid':
                cur = val(self.c(self.W.nz(e.args[1])))
            else:
                return ('written', e.name)
        return cur


def judge(ctx, fn, ty, what, spec, states, keep=True):
    """spec(st) -> (value or PANIC or None for any, content at the end or None for any)"""
    outs, I = ctx.run(fn)
    W = World(None)
    seen = 0
    for st in states:
        want, after = spec(st)
        got = 0
        for o in outs:
            C = Case(fn, W, o, ty, st)
            F = facts(W, o)
            if not C.feasible(F):
                continue
            got += 1
            tag = '%s::%s%s' % (ty, what, ''.join(' %s=%s' % kv for kv in sorted(st.items())))
            if want is PANIC:
                ctx.ob(o.kind == 'panic', 'panic:' + tag, '%s of a void field does not panic' % what, fn.path, o.trace)
            elif o.kind != 'ret':
                ctx.ob(False, 'aborts:' + tag, '%s can end in %s' % (what, o.kind), fn.path, o.trace)
                continue
            elif want is not None:
                v = C.c(W.nz(o.value))
                ctx.ob(v == want or isinstance(want, list) and v in want, 'result:' + tag, '%s returns %s' % (what, show(W.nz(o.value))), fn.path, o.trace)
            if after is not None:
                f = C.final()
                ctx.ob(f == after, 'content:' + tag, '%s leaves %s' % (what, f), fn.path, o.trace)
            bad = [e for e in flat(o.trace) if e.kind in ('mayfail', 'ub')]
            ctx.ob(not bad, 'fails:' + tag, '%s can fail: %s' % (what, bad[:1]), fn.path, o.trace)
        ctx.ob(got > 0, 'covered:%s::%s %s' % (ty, what, sorted(st.items())), '%s has no path in a state it is used in' % what, fn.path)
        seen += got
    return seen


S1 = [{'s': 'Valid'}, {'s': 'Void'}]
S2 = [{'s': a, 'b': b} for a in ('Valid', 'Void') for b in ('Valid', 'Void')]
NOST = [{}]


def content(st, k='s', p=X):
    return val(p) if st.get(k, 'Valid') == 'Valid' else VOID


def check(ctx):
    n = 0
    inh = lambda ty, m: ctx.inherent('node_field::' + ty, m)

    def tm(tr, m, ty, arg=None):
        r = [f for f in ctx.P.method(tr, m, r'node_field::%s<T>$' % ty)]
        if arg is not None:
            r = [f for f in r if ('%s<T>>' % tr.split('::')[-1] in f.path) == (arg == 'T')]
        if len(r) != 1:
            raise AnalysisError('anchor %s::%s for %s: %d implementations' % (tr, m, ty, len(r)))
        return r[0]

    def at(*v):
        return ('at',) + v
    for ty in TWO + ONE:
        two = ty in TWO
        st1 = S1 if two else NOST
        st2 = S2 if two else [{'b': 'Valid'}]
        # made from a value
        def given(fn, what):
            outs, I = ctx.run(fn)
            W = World(None)
            nm = fn.locals[1][1]
            for o in outs:
                v = W.nz(o.value)
                good = o.kind == 'ret' and v[:1] == ('adt',) and v[1].split('::')[-1] == ty and v[2] == ('Valid' if two else ty) and len(v[3]) == 1 and v[3][0][1] == ('sym', nm)
                ctx.ob(good, 'made:%s::%s' % (ty, what), '%s does not hold the value it is made from: %s' % (what, show(v)), fn.path, o.trace)
            ctx.floor(len(outs), 1, '%s::%s' % (ty, what))
        given(inh(ty, 'new'), 'new')
        given(tm('From', 'from', ty), 'from')
        # dereferencing
        for tr, m in (('Deref', 'deref'), ('DerefMut', 'deref_mut')):
            f = tm(tr, m, ty)
            n += judge(ctx, f, ty, m, lambda st: (PANIC, content(st)) if st.get('s') == 'Void' else ([at(*X), X], content(st)), st1)
        # copies and void
        f = tm('Clone', 'clone', ty)
        n += judge(ctx, f, ty, 'clone', lambda st: (VOID if ty == 'UniqueField' else content(st), content(st)), st1)
        f = tm('Voidable', 'void', ty)
        n += judge(ctx, f, ty, 'void', lambda st: (VOID if two else [val(('default',))], None), NOST)
        # equality
        f = tm('PartialEq', 'eq', ty)
        EQ = ('eq',) + tuple(sorted((X, R), key=repr))

        def eq(st):
            if not two:
                return EQ, content(st)
            if st['s'] == st['b']:
                return (EQ if st['s'] == 'Valid' else ('bool', True)), content(st)
            return ('bool', False), content(st)
        n += judge_eq(ctx, f, ty, eq, st2)
        if two:
            f = inh(ty, 'is_reachable')
            n += judge(ctx, f, ty, 'is_reachable', lambda st: (('bool', st['s'] == 'Valid'), content(st)), S1)
            f = inh(ty, 'is_void')
            n += judge(ctx, f, ty, 'is_void', lambda st: (('bool', st['s'] == 'Void'), content(st)), S1)
            f = inh(ty, 'take')
            n += judge(ctx, f, ty, 'take', lambda st: (some(X) if st['s'] == 'Valid' else NONE_, VOID), S1)
            f = inh(ty, 'write_valid')
            n += judge(ctx, f, ty, 'write_valid', lambda st: (some(X) if st['s'] == 'Valid' else NONE_, val(R)), S1)
            f = inh(ty, 'force_take')
            n += judge(ctx, f, ty, 'force_take', lambda st: (X, None) if st['s'] == 'Valid' else (PANIC, None), S1)
        else:
            f = tm('Default', 'default', ty)
            n += judge(ctx, f, ty, 'default', lambda st: ([val(('default',))], None), NOST)
        # operators
        for op in OPS:
            for arg, sts in ((None, st2), ('T', st1)):
                f = tm(op, METH[op], ty, arg or 'Self')

                def spec(st):
                    if 'Void' in st.values():
                        return PANIC, content(st)
                    return None, val(('app', op, X, R))
                n += judge(ctx, f, ty, '%s%s' % (METH[op], ' of a value' if arg else ''), spec, sts)
    ctx.floor(n, 214, 'paths judged')
    ctx.sample('operators checked: %d kinds of field x %d operators x 2 right operands' % (4, len(OPS)))


def judge_eq(ctx, fn, ty, spec, states):
    """equality: a path may also decide by comparing the values"""
    outs, I = ctx.run(fn)
    W = World(None)
    n = 0
    EQ = ('eq',) + tuple(sorted((X, R), key=repr))
    for st in states:
        want, after = spec(st)
        for o in outs:
            C = Case(fn, W, o, ty, st)
            F = facts(W, o)
            if not C.feasible(F):
                continue
            n += 1
            tag = '%s::eq%s' % (ty, ''.join(' %s=%s' % kv for kv in sorted(st.items())))
            v = C.c(W.nz(o.value)) if o.kind == 'ret' else None
            if want == EQ and v in (('bool', True), ('bool', False)):
                known = {C.c(k): x for k, x in F.items() if isinstance(x, bool)}
                v = EQ if known.get(EQ) is v[1] or known.get(('not', EQ)) is (not v[1]) else v
            ctx.ob(v == want, 'result:' + tag, 'eq gives %s' % (v,), fn.path, o.trace)
    return n
