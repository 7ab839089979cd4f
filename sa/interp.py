from engine import *

DEREF_NODE = ('Deref::deref', 'DerefMut::deref_mut')
HOOKS = {'Node::loaded', 'Node::ready', 'Node::process', 'Node::terminal'}
VOLATILE = ('NodeBase', 'NodeTreeBase', 'dyn traits::node', 'RIDHolder', 'Mutex', 'node_base', 'dyn node_tree::')


class Frame:
    __slots__ = ('body', 'key', 'path', 'crate', 'no', 'loops', 'blocks', 'locals', 'stack', 'cur')

    def __init__(self, body, crate, no, stack, key, path):
        self.body = body
        self.crate = crate
        self.no = no
        self.key = key
        self.path = path
        self.blocks = body['blocks']
        self.locals = body['locals']
        if '_loops' not in body:
            body['_loops'] = find_loops(self.blocks)
        self.loops = body['_loops']
        self.stack = stack


class Call:
    __slots__ = ('name', 'args', 'at', 'callee', 'fr', 'st', 'sp', 'dty', 'interp', 'curtag')

    def __init__(self, name, args, at, callee, fr, st, sp, dty):
        self.name, self.args, self.at, self.callee, self.fr, self.st, self.sp, self.dty = name, args, at, callee, fr, st, sp, dty


# values of these types can be reached, and changed, by user hooks through the tree
VOLATILE_SELF = ('NodeBase', 'NodeTreeBase')


class Interp:
    def __init__(self, prog, opaque=(), max_steps=400000, volatile_base=True, transparent_hooks=()):
        self.p = prog
        self.opaque = set(opaque)
        self.ub = False      # end paths on which an unchecked access finds nothing as 'ub', rather than leave them out
        self.typed = {}      # callee -> f(call, types it is instantiated with): answers for calls of which only the types matter
        self.cnt = itertools.count(1)
        self.frames = itertools.count(1)
        self.steps = 0
        self.max_steps = max_steps
        self.phis = {}
        self.collects = {}
        self.body_phi = {}
        self.fns_seen = set()
        self.calls_seen = 0
        self.promo = {}
        self.models = {}
        self.inst = set(transparent_hooks)
        self.reads = None    # a set when asked for: (pointer, epoch, function, where) of every access through a pointer
        self.cur = ('', '')
        self.tag_epoch = {}  # loop or call number -> epochs in which what it leaves behind was current
        self.entry = {}      # loop -> life of the epoch it was entered in
        self.life = {}       # epoch -> the earlier one since which no user code ran
        self.broken = set()
        self.kept = set()    # shared values (Arc, Rc) that were cloned, and so stay alive
        import models
        models.install(self)

    # ---------------------------------------------------------------- entry
    def analyse(self, fn, args=None, st=None):
        st = st or State()
        if args is None:
            args = []
            for i in range(1, fn.argc + 1):
                nm = fn.locals[i][1] or 'a%d' % i
                args.append(('sym', nm))
        if args and 'self_ty' in fn.j:
            t = self.p.ty(fn.crate, fn.j['self_ty'])['s'].split('::')[-1]
            if t in VOLATILE_SELF:
                self.volatile_syms = frozenset([args[0]])
        res = self.call_fn(fn, args, st, ())
        return [Outcome(k, s, v) for (k, v, s) in res]

    def fresh(self, name, args=()):
        return ('app', name, tuple(args), next(self.cnt))

    def new_cell(self, st, v):
        c = ('h', next(self.cnt))
        st.cells[c] = v
        return ('ref', (('cell', c), ()))

    # ---------------------------------------------------------------- memory
    def obj_default(self, st, ptr):
        if ptr[0] == 'pv':
            return ptr[1]
        if ptr[0] == 'mapslot':
            return ('mapval', ptr[1], ptr[2], ptr[3])
        ep = 0
        if self.is_volatile(ptr):
            ep = st.epoch
        return ('obj', ptr, ep)

    def is_volatile(self, ptr):
        # objects user hooks can reach through the tree: nodes, bases, trees, guarded content
        k = ptr[0]
        if k in ('base', 'guarded', 'mapval', 'nodeptr'):
            return True
        if k == 'sym':
            return ptr in self.volatile_syms
        if k == 'fld':
            return True
        return False
    volatile_syms = frozenset()

    def root_value(self, st, root):
        if root[0] == 'cell':
            v = st.cells.get(root[1])
            if v is None:
                v = ('undef', root[1])
            return v
        if self.reads is not None:
            self.reads.add((root[1], st.epoch) + self.cur)
        v = st.heap.get(root[1])
        if v is None:
            v = self.obj_default(st, root[1])
        return v

    def walk1(self, st, v, e):
        k = v[0]
        if isinstance(e, str):
            if k == 'adt':
                if '.' in e:
                    var, f = e.split('.', 1)
                    if var != v[2]:
                        return ('undef', 'variant')
                else:
                    f = e
                for n, x in v[3]:
                    if n == f:
                        return x
                return ('undef', f)
            if k in ('tup', 'clo', 'arr'):
                xs = v[1] if k != 'clo' else v[2]
                try:
                    return xs[int(e)]
                except Exception:
                    return ('undef', e)
            if k == 'upd':
                for n, x in v[2]:
                    if n == e:
                        return x
                return self.walk1(st, v[1], e)
            if k == 'undef':
                return ('undef', (v[1], e))
            if k == 'repeat':
                return v[1]
            return ('fld', v, e)
        if e[0] == 'i':
            if k in ('vec', 'arr') and e[1][0] == 'int' and 0 <= e[1][1] < len(v[1]):
                return v[1][e[1][1]]
            if k == 'repeat':
                return v[1]
            if k == 'upd':
                for n, x in v[2]:
                    if n == e:
                        return x
                if e[1][0] == 'int' and all(n[0] == 'i' and n[1][0] == 'int' for n, _ in v[2] if not isinstance(n, str)):
                    return self.walk1(st, v[1], e)
            return ('fld', v, e)
        return ('fld', v, e)

    def load(self, st, loc):
        root, proj = loc
        v = self.root_value(st, root)
        for e in proj:
            v = self.walk1(st, v, e)
        return v

    def update(self, v, proj, x):
        if not proj:
            return x
        e = proj[0]
        k = v[0]
        if isinstance(e, str):
            if k == 'adt':
                f = e.split('.', 1)[1] if '.' in e else e
                if any(n == f for n, _ in v[3]):
                    return ('adt', v[1], v[2], tuple((n, self.update(y, proj[1:], x) if n == f else y) for n, y in v[3]))
            if k in ('tup', 'arr') and e.isdigit() and int(e) < len(v[1]):
                i = int(e)
                return (k, tuple(self.update(y, proj[1:], x) if j == i else y for j, y in enumerate(v[1])))
            if k == 'clo' and e.isdigit():
                i = int(e)
                return (k, v[1], tuple(self.update(y, proj[1:], x) if j == i else y for j, y in enumerate(v[2])))
        elif e[0] == 'i' and k in ('vec', 'arr') and e[1][0] == 'int' and 0 <= e[1][1] < len(v[1]):
            i = e[1][1]
            return (k, tuple(self.update(y, proj[1:], x) if j == i else y for j, y in enumerate(v[1])))
        old = self.walk1(None, v, e)
        new = self.update(old, proj[1:], x)
        if k == 'upd':
            return ('upd', v[1], tuple((n, y) for n, y in v[2] if n != e) + ((e, new),))
        return ('upd', v, ((e, new),))

    def store(self, st, loc, x, fr=None, sp=''):
        root, proj = loc
        if root[0] == 'cell':
            c = root[1]
            v = st.cells.get(c, ('undef', c))
            st.cells[c] = self.update(v, proj, x)
            return
        p = root[1]
        if self.reads is not None:
            self.reads.add((p, st.epoch) + self.cur)
        v = st.heap.get(p)
        if v is None:
            v = self.obj_default(st, p)
        st.heap[p] = self.update(v, proj, x)
        st.add(Ev('write', '.'.join(e if isinstance(e, str) else '[]' for e in proj), (p, x), None, sp, fr.path if fr else ''))

    def deref(self, v):
        if v[0] == 'ref':
            return v[1]
        return (('obj', v), ())

    def mkref(self, loc):
        if loc[0][0] == 'obj' and not loc[1]:
            return loc[0][1]
        return ('ref', loc)

    def loadp(self, st, ptr):
        return self.load(st, self.deref(ptr))

    def lifeof(self, e):
        return self.life.get(e, e)

    def havoc(self, st, why):
        tag = next(self.cnt)
        st.epoch = tag
        for p in list(st.heap):
            if self.is_volatile(p):
                del st.heap[p]
        st.vers.clear()
        st.known.clear()

    # ---------------------------------------------------------------- places / operands
    def eval_loc(self, fr, st, place):
        l, proj, _ = place
        loc = (('cell', (fr.no, l)), ())
        cur = self.p.ty(fr.crate, fr.locals[l][0])
        variant = None
        for e in proj:
            k = e[0]
            if k == '*':
                v = self.load(st, loc)
                loc = self.deref(v)
                ct = self.p.ty(fr.crate, e[1])
                cur = self.pointee(fr.crate, ct)
            elif k == 'f':
                name = e[2]
                if cur is not None and cur.get('k') == 'adt' and cur['d'] in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull') and e[1] == 0:
                    cur = self.p.ty(fr.crate, e[3])
                    continue
                if cur is not None and cur.get('k') == 'adt' and cur['d'] in ('std::mem::ManuallyDrop', 'std::mem::MaybeUninit', 'std::mem::MaybeDangling', 'std::cell::UnsafeCell', 'std::cell::Cell'):
                    cur = self.p.ty(fr.crate, e[3])
                    continue
                if variant is not None:
                    name = variant + '.' + name
                    variant = None
                loc = (loc[0], loc[1] + (name,))
                cur = self.p.ty(fr.crate, e[3])
            elif k == 'v':
                variant = e[2]
            elif k == 'i':
                iv = st.cells.get((fr.no, e[1]), ('undef', 0))
                loc = (loc[0], loc[1] + (('i', iv),))
                cur = self.elemty(fr.crate, cur)
            elif k == 'ci':
                if e[2]:
                    base = self.load(st, loc)
                    n = len(base[1]) if base[0] in ('vec', 'arr') else None
                    ix = ('int', n - e[1]) if n is not None else ('fromend', e[1])
                else:
                    ix = ('int', e[1])
                loc = (loc[0], loc[1] + (('i', ix),))
                cur = self.elemty(fr.crate, cur)
            elif k == 'ss':
                loc = (loc[0], loc[1] + (('ss', e[1], e[2], e[3]),))
            else:
                loc = (loc[0], loc[1] + ('?',))
        if variant is not None:
            loc = (loc[0], loc[1] + (variant + '.*',))
        return loc

    def pointee(self, crate, t):
        if t.get('k') in ('ref', 'ptr'):
            return self.p.ty(crate, t['t'])
        if t.get('k') == 'adt' and t['d'] == 'std::boxed::Box':
            return self.p.ty(crate, t['a'][0])
        return None

    def elemty(self, crate, t):
        if t is not None and t.get('k') in ('array', 'slice'):
            return self.p.ty(crate, t['t'])
        return None

    def const(self, fr, st, c):
        if 'promoted' in c:
            return self.promoted(fr, c['of'], c['promoted'])
        if 'fn' in c:
            return ('fnref', c['fn'].get('rk') or c['fn'].get('rp') or c['fn']['p'], FnRefBox(c['fn'], fr.crate))
        if 'rtcheck' in c:
            return FALSE
        if 'bool' in c:
            return ('bool', c['bool'])
        if 'int' in c:
            t = self.p.ty(fr.crate, c['ty']) if isinstance(c.get('ty'), int) else {}
            if t.get('k') == 'adt':
                if t['d'] == 'std::option::Option' and int(c['int']) == 0 and isinstance((t.get('a') or [None])[0], int) and self.p.ty(fr.crate, t['a'][0])['k'] in ('ref', 'ptr', 'fnptr', 'fndef'):
                    return ('adt', t['d'], 'None', ())
                a = self.p.adts.get(t['d'])
                if a and a['k'] == 'enum' and not any(v['f'] for v in a['v']):
                    for n, d in self.variants(t['d']).items():
                        if d == int(c['int']):
                            return ('adt', t['d'], n, ())
            return ('int', int(c['int']))
        if 'char' in c:
            return ('char', c['char'])
        if 'str' in c:
            return ('str', c['str'])
        if 'bytes' in c:
            return ('pv', ('arr', tuple(('int', b) for b in c['bytes'])))
        if 'float' in c:
            return ('float', c['float'])
        t = self.p.ty(fr.crate, c['ty'])
        if t['k'] == 'tuple' and not t['a']:
            return UNIT
        if t['k'] == 'closure':
            return ('clo', t['d'], ())
        if t['k'] == 'adt':
            a = self.p.adts.get(t['d'])
            if a and len(a['v']) == 1 and not a['v'][0]['f']:
                return ('adt', t['d'], a['v'][0]['n'], ())
            if c.get('zst') and a and a['k'] == 'struct':
                return ('adt', t['d'], a['v'][0]['n'], tuple((f[0], ('zst', f[1])) for f in a['v'][0]['f']))
        if 'name' in c or 'sym' in c:
            # named constant: evaluate its body if we have it
            nm = c.get('name') or c.get('sym')
            f = self.p.by_path.get((fr.crate, nm))
            if f is not None:
                v = self.const_body(f)
                if v is not None:
                    return v
            return ('const', nm, t['s'])
        return ('const', t['s'])

    def const_body(self, f):
        k = ('const', f.key)
        if k in self.promo:
            return self.promo[k]
        self.promo[k] = None
        st = State()
        try:
            res = self.call_body(f.j, f.crate, f.key, f.path, [], st, ('const',))
        except AnalysisError:
            return None
        rets = [r for r in res if r[0] == 'ret']
        if len(rets) == 1:
            self.promo[k] = self.freeze(rets[0][2], rets[0][1])
        return self.promo[k]

    def freeze(self, st, v):
        if not isinstance(v, tuple):
            return v
        if v and v[0] == 'ref':
            return ('pv', self.freeze(st, self.load(st, v[1])))
        return tuple(self.freeze(st, x) for x in v)

    def promoted(self, fr, of, idx):
        k = (of, idx)
        if k not in self.promo:
            f = self.p.fns[of]
            st = State()
            res = self.call_body(f.j['promoted'][idx], f.crate, of + '::promoted', f.path, [], st, ('promo',))
            rets = [r for r in res if r[0] == 'ret']
            if len(rets) != 1:
                raise AnalysisError('promoted')
            self.promo[k] = self.freeze(rets[0][2], rets[0][1])
        return self.promo[k]

    def operand(self, fr, st, o):
        if o[0] == 'k':
            return self.const(fr, st, o[1])
        return self.load(st, self.eval_loc(fr, st, o[1]))

    # ---------------------------------------------------------------- facts
    def variants(self, adt):
        a = self.p.adts.get(adt)
        if a is None:
            raise AnalysisError('unknown adt ' + adt)
        return {v['n']: (v['d'] if v['d'] is not None else i) for i, v in enumerate(a['v'])}

    def fact_variants(self, st, t, adt):
        f = st.facts.get(('V', t))
        if f is not None:
            return f
        return frozenset(self.variants(adt))

    def set_variants(self, st, t, adt, names):
        cur = self.fact_variants(st, t, adt)
        new = cur & frozenset(names)
        if not new:
            return False
        if new != cur:
            st.facts[('V', t)] = new
            st.add(Ev('assume', 'variant', (t, tuple(sorted(new)))))
        return True

    def assume(self, st, t, truth):
        """False if contradictory"""
        k = t[0]
        if k == 'bool':
            return t[1] == truth
        if k == 'un' and t[1] == 'Not':
            return self.assume(st, t[2], not truth)
        if k == 'bin' and t[1] == 'Ne':
            return self.assume(st, ('bin', 'Eq', t[2], t[3]), not truth)
        if k == 'bin' and t[1] == 'Eq':
            a, b = t[2], t[3]
            if b[0] == 'discr':
                a, b = b, a
            if a[0] == 'discr' and b[0] == 'int':
                vs = self.variants(a[2])
                names = [n for n, d in vs.items() if (d == b[1]) == truth]
                return self.set_variants(st, a[1], a[2], names)
        cur = st.facts.get(('B', t))
        if cur is not None:
            return cur == truth
        st.facts[('B', t)] = truth
        st.add(Ev('assume', 'bool', (t, truth)))
        return True

    def truth(self, st, t):
        k = t[0]
        if k == 'bool':
            return t[1]
        if k == 'un' and t[1] == 'Not':
            r = self.truth(st, t[2])
            return None if r is None else not r
        if k == 'bin' and t[1] == 'Ne':
            r = self.truth(st, ('bin', 'Eq', t[2], t[3]))
            return None if r is None else not r
        if k == 'bin' and t[1] == 'Eq':
            a, b = t[2], t[3]
            if b[0] == 'discr':
                a, b = b, a
            if a[0] == 'discr' and b[0] == 'int':
                cur = self.fact_variants(st, a[1], a[2])
                vs = self.variants(a[2])
                d = {vs[n] == b[1] for n in cur}
                if len(d) == 1:
                    return d.pop()
                return None
        return st.facts.get(('B', t))

    def binop(self, st, op, a, b):
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            if op in ('Add', 'AddUnchecked'):
                return ('int', x + y)
            if op in ('Sub', 'SubUnchecked'):
                return ('int', x - y)
            if op == 'Mul':
                return ('int', x * y)
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return ('bool', {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
        if op in ('Sub', 'SubUnchecked') and a[0] == 'bin' and a[1] in ('Add', 'AddUnchecked'):
            # what was added is taken off again
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if y == b:
                    return x
        if a[0] == 'bool' and b[0] == 'bool':
            if op in ('Eq', 'Ne'):
                return ('bool', (a[1] == b[1]) == (op == 'Eq'))
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                return ('bool', {'BitAnd': a[1] and b[1], 'BitOr': a[1] or b[1], 'BitXor': a[1] != b[1]}[op])
        if op in ('Eq', 'Ne'):
            if a[0] == 'bool':
                a, b = b, a
            if b[0] == 'bool':
                return a if (b[1] == (op == 'Eq')) else self.neg(a)
            if a == b and a[0] not in ('float',):
                return ('bool', op == 'Eq')
            if a[0] in ('str', 'char') and b[0] == a[0]:
                return ('bool', (a[1] == b[1]) == (op == 'Eq'))
            if repr(a) > repr(b):
                a, b = b, a
            t = ('bin', 'Eq', a, b)
            return t if op == 'Eq' else ('un', 'Not', t)
        if op == 'Gt':
            return ('bin', 'Lt', b, a)
        if op == 'Ge':
            return ('un', 'Not', ('bin', 'Lt', a, b))
        if op == 'Le':
            return ('un', 'Not', ('bin', 'Lt', b, a))
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if x == TRUE:
                    return y
                if x == FALSE:
                    return FALSE
        if op == 'BitOr':
            for x, y in ((a, b), (b, a)):
                if x == FALSE:
                    return y
                if x == TRUE:
                    return TRUE
        if op in ('Add', 'Mul', 'BitXor') and repr(a) > repr(b):
            a, b = b, a
        return ('bin', op.replace('Unchecked', ''), a, b)

    def neg(self, v):
        if v[0] == 'bool':
            return ('bool', not v[1])
        if v[0] == 'un' and v[1] == 'Not':
            return v[2]
        return ('un', 'Not', v)

    def discr(self, st, v, adt):
        if v[0] == 'adt':
            return ('int', self.variants(v[1])[v[2]])
        if v[0] == 'upd' and v[1][0] == 'adt':
            return self.discr(st, v[1], adt)
        f = st.facts.get(('V', v))
        if f is not None and len(f) == 1:
            return ('int', self.variants(adt)[next(iter(f))])
        return ('discr', v, adt)

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref':
            return self.mkref(self.eval_loc(fr, st, r[2]))
        if k == 'cast':
            v = self.operand(fr, st, r[2])
            kind = r[1]
            if kind in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
                ty = self.p.ty(fr.crate, r[3])['s']
                ft = self.p.ty(fr.crate, r[4])['s']
                if ty == ft:
                    return v
                if v[0] == 'int' and kind == 'IntToInt':
                    return v
                if v[0] == 'bool':
                    return ('int', int(v[1]))
                if v[0] == 'discr':
                    return v
                return ('cast', ft, ty, v)
            return v
        if k == 'bin':
            op = r[1]
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            if op.endswith('WithOverflow'):
                o = op[:-len('WithOverflow')]
                return ('tup', (self.binop(st, o, a, b), ('ovf', o, a, b, self.p.ty(fr.crate, r[4])['s']) if not (a[0] == 'int' and b[0] == 'int' and (o != 'Sub' or a[1] >= b[1])) else FALSE))
            return self.binop(st, op, a, b)
        if k == 'un':
            v = self.operand(fr, st, r[2])
            if r[1] == 'Not':
                return self.neg(v)
            if r[1] == 'PtrMetadata':
                return ('len', self.loadp(st, v))
            if r[1] == 'Neg' and v[0] == 'int':
                return ('int', -v[1])
            return ('un', r[1], v)
        if k == 'discr':
            pl = r[1]
            v = self.load(st, self.eval_loc(fr, st, pl))
            t = self.p.ty(fr.crate, pl[2])
            if t['k'] == 'adt':
                return self.discr(st, v, t['d'])
            return ('discr?', v)
        if k == 'agg':
            vals = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'tuple':
                return ('tup', tuple(vals)) if vals else UNIT
            if kk[0] == 'array':
                return ('arr', tuple(vals))
            if kk[0] == 'adt':
                a = self.p.adts[kk[1]]
                fs = a['v'][kk[2]]['f']
                if kk[4] is not None:
                    return ('adt', kk[1], kk[3], ((fs[kk[4]][0], vals[0]),))
                return ('adt', kk[1], kk[3], tuple((fs[i][0], x) for i, x in enumerate(vals)))
            if kk[0] == 'closure':
                return ('clo', kk[1], tuple(vals))
            if kk[0] == 'rawptr':
                return vals[0]
            return ('agg', tuple(vals))
        if k == 'repeat':
            return ('repeat', self.operand(fr, st, r[1]), r[2])
        return ('rv?', k)

    # ---------------------------------------------------------------- execution
    def call_fn(self, fn, args, st, stack):
        if fn.local:
            self.fns_seen.add(fn.key)
        return self.call_body(fn.j, fn.crate, fn.key, fn.path, args, st, stack)

    def call_body(self, body, crate, key, path, args, st, stack):
        fr = Frame(body, crate, next(self.frames), stack + (key,), key, path)
        if len(args) != body['argc']:
            raise AnalysisError('arity %s: %d vs %d' % (path, len(args), body['argc']))
        for i, a in enumerate(args):
            st.cells[(fr.no, i + 1)] = a
        out = self.run(fr, 0, st, frozenset(), frozenset())
        res = []
        for kind, val, s in out:
            if kind == 'ret':
                v = s.cells.get((fr.no, 0), UNIT)
                if isinstance(v, tuple) and v[0] == 'undef':
                    v = UNIT
                if not (stack and stack[0] in ('promo', 'const')):
                    for l in range(len(fr.locals)):
                        s.cells.pop((fr.no, l), None)
                res.append(('ret', v, s))
            else:
                res.append((kind, val, s))
        return res

    def run(self, fr, b0, st0, stop, active, first=False):
        work = [(b0, st0, first)]
        results = []
        while work:
            b, st, fst = work.pop()
            while True:
                if b in stop and not fst:
                    results.append(('stop', b, st))
                    break
                if b in fr.loops and b not in active:
                    for r in self.do_loop(fr, b, st, active):
                        if r[0] == 'stop':
                            work.append((r[1], r[2], False))
                        else:
                            results.append(r)
                    break
                fst = False
                self.steps += 1
                if self.steps > self.max_steps:
                    raise AnalysisError('analysis budget exceeded in ' + fr.path)
                nxt = self.exec_block(fr, b, st)
                conts = []
                for r in nxt:
                    if r[0] == 'goto':
                        conts.append((r[1], r[2]))
                    else:
                        results.append(r)
                if not conts:
                    break
                for c in conts[1:]:
                    work.append((c[0], c[1], False))
                b, st = conts[0]
        return results

    def do_loop(self, fr, h, st0, active):
        L = fr.loops[h]
        exits = set()
        for b in L:
            for x in succs(fr.blocks[b]):
                if x not in L:
                    exits.add(x)
        stop = frozenset(exits | {h})
        sp = fr.blocks[h]['sp']

        def body(st):
            out = []
            for r in self.run(fr, h, st, stop, active | {h}, True):
                if r[0] == 'stop' and r[1] == h:
                    out.append(('back', None, r[2]))
                elif r[0] == 'stop':
                    out.append(('exit', r[1], r[2]))
                else:
                    out.append(r)
            return out
        res = []
        for r in self.loop(st0, body, sp, fr):
            if r[0] == 'exit':
                res.append(('stop', r[1], r[2]))
            else:
                res.append(r)
        return res

    OPAQUE_AS = {'NodeScene::iterate': 'Instanceable::iterate'}   # made opaque, but the closure is still called
    REC = {'adt', 'tup', 'it', 'clo', 'upd'}

    def widen(self, old, new, lid, path):
        if old == new:
            return old
        if isinstance(old, tuple) and isinstance(new, tuple) and len(old) == len(new) and old and new:
            if old[0] == new[0] == 'cat' and len(old) == 2:
                # a text that changes in its parts; one that grows is another text
                if len(old[1]) != len(new[1]):
                    return ('phi', lid, path)
                return ('cat', tuple(self.widen(o, n, lid, path + (i,)) for i, (o, n) in enumerate(zip(old[1], new[1]))))
            if old[0] == new[0] and old[0] in self.REC and not (old[0] == 'adt' and old[1:3] != new[1:3]) and not (old[0] == 'clo' and old[1] != new[1]) and not (old[0] == 'it' and old[1] != new[1]) and not (old[0] == 'upd' and [x[0] for x in old[2]] != [x[0] for x in new[2]]):
                return (old[0],) + tuple(self.widen(o, n, lid, path + (i,)) for i, (o, n) in enumerate(zip(old[1:], new[1:])))
            if not isinstance(old[0], str) or (len(old) == 2 and isinstance(old[0], str) and not isinstance(new[0], tuple) and old[0] == new[0] and path and path[-1] == 'fields'):
                return tuple(self.widen(o, n, lid, path + (i,)) for i, (o, n) in enumerate(zip(old, new)))
            if len(old) == 2 and old[0] == new[0] and isinstance(old[0], str) and isinstance(old[1], tuple) and len(path) >= 2 and old[0] not in ('ref', 'len', 'vec', 'arr', 'base', 'pv', 'sym', 'int', 'cat', 'str'):
                # (fieldname, value) pair of an adt
                return (old[0], self.widen(old[1], new[1], lid, path + ('f',)))
        return ('phi', lid, path)

    def loop(self, st0, body, sp, fr):
        """generic loop: body(state)->[(back|exit|ret|panic|ub, payload, state)]"""
        lid = next(self.cnt)
        head = st0.copy()
        self.entry[lid] = self.lifeof(head.epoch)
        T0 = ('L', lid)
        base_trace = st0.trace
        seen_heap = set(st0.heap)
        for rnd in range(14):
            s = head.copy()
            s.trace = None
            self.tag_epoch.setdefault(lid, set()).add(head.epoch)
            outs = body(s)
            changed = False
            newhead = head.copy()
            new_seen = set()
            phis = {}
            for kind, _, o in outs:
                if kind != 'back':
                    continue
                for c, v in head.cells.items():
                    nv = o.cells.get(c)
                    if nv is None or nv == v:
                        continue
                    w = self.widen(newhead.cells[c], nv, lid, ('c', c))
                    if w != newhead.cells[c]:
                        newhead.cells[c] = w
                        changed = True
                    phis.setdefault(('c', c), []).append(nv)
                for p in set(head.heap) | set(o.heap):
                    hv = head.heap.get(p)
                    ov = o.heap.get(p)
                    if hv == ov:
                        continue
                    if p not in seen_heap:
                        # iteration-local object identity unless the same key shows up again
                        new_seen.add(p)
                        continue
                    hv0 = newhead.heap.get(p) or self.obj_default(head, p)
                    ov0 = ov if ov is not None else self.obj_default(o, p)
                    w = self.widen(hv0, ov0, lid, ('h', p))
                    if newhead.heap.get(p) != w and w != self.obj_default(newhead, p):
                        newhead.heap[p] = w
                        changed = True
                if o.epoch != head.epoch:
                    if self.lifeof(o.epoch) != self.lifeof(head.epoch):
                        self.broken.add(lid)
                        self.life.pop(('pe', lid), None)
                    elif lid not in self.broken and head.epoch != ('pe', lid):
                        self.life[('pe', lid)] = self.lifeof(head.epoch)
                if o.epoch != head.epoch and newhead.epoch != ('pe', lid):
                    newhead.epoch = ('pe', lid)
                    changed = True
                for m in set(head.vers) | set(o.vers):
                    if head.vers.get(m) != o.vers.get(m) and newhead.vers.get(m) != ('pm', lid):
                        newhead.vers[m] = ('pm', lid)
                        changed = True
                for m in list(newhead.known):
                    if o.known.get(m) != head.known.get(m):
                        del newhead.known[m]
                        changed = True
            if new_seen and rnd < 4:
                changed = True
            seen_heap |= new_seen
            if not changed:
                break
            if newhead.epoch == ('pe', lid):
                for p in list(newhead.heap):
                    if self.is_volatile(p) and newhead.heap[p] == st0.heap.get(p):
                        del newhead.heap[p]
            head = newhead
        else:
            raise AnalysisError('loop did not stabilise at ' + sp)
        backs = [o for k, _, o in outs if k == 'back']
        if not backs:
            res = []
            for kind, pl, o in outs:
                seg = trace_list(o.trace)
                o.trace = base_trace
                for e in seg:
                    o.add(e)
                res.append((kind, pl, o))
            return res
        # phi provenance
        for c, v in st0.cells.items():
            hv = head.cells.get(c)
            if hv != v:
                self.record_phi(hv, v, [o.cells.get(c, ('undef', 0)) for o in backs], lid)
        for p, hv in head.heap.items():
            v = st0.heap.get(p) or self.obj_default(st0, p)
            if hv != v:
                self.record_phi(hv, v, [o.heap.get(p) or self.obj_default(o, p) for o in backs], lid)
        here = [P for P in self.phis if P[1] == lid]
        self.body_phi[lid] = [{P: self.at_back(P, head, o) for P in here} for o in backs]
        outs, btr = self.canon(lid, outs, backs)
        ev = Ev('loop', lid, (), None, sp, fr.path if fr else '', btr)
        res = []
        for kind, pl, o in outs:
            if kind == 'back':
                continue
            seg = trace_list(o.trace)
            o.trace = base_trace
            o.add(ev)
            for e in seg:
                o.add(e)
            res.append((kind, pl, o))
        return res

    # ------------------------------------------------------------ loop normal forms
    def canon(self, lid, outs, backs):
        """rewrites two loop shapes to what the library iterators give: a counter that runs over the indices of a
        sequence (the counter becomes the index of an iteration), and a vector that one push per iteration fills
        (on exhaustion it becomes the mapped sequence)"""
        traces = [trace_list(o.trace) for o in backs]
        mine = [(P, v) for P, v in self.phis.items() if P[1] == lid]
        # ---- counters
        for P, (init, vals) in mine:
            if init != ('int', 0) or not vals or any(v != ('bin', 'Add', *sorted((P, ('int', 1)), key=repr)) for v in vals):
                continue
            X = None
            for o in backs:
                g = [t[1][3][1] for t, v in o.facts.items() if t[0] == 'B' and isinstance(t[1], tuple) and t[1][:3] == ('bin', 'Lt', P) and t[1][3][0] == 'len' and v is True]
                if len(g) != 1 or (X is not None and g[0] != X) or contains(g[0], P):
                    X = None
                    break
                X = g[0]
            if X is None:
                continue
            guard = ('bin', 'Lt', P, ('len', X))
            T = ('t', next(self.cnt))
            ixt = ('ix', T)

            def ev1(m, trace, val):
                r = []
                for e in trace:
                    if e.kind == 'assume' and e.args and e.args[0] == guard:
                        e = Ev('iter', 'item' if e.args[1] else 'end', (('seq', X),) + ((self.walk1(State(), X, ('i', ixt)),) if e.args[1] else ()), None, e.sp, e.fn, (T, True, X))
                        r.append(e)
                    else:
                        r.append(map_ev(e, m))
                return r
            m1 = {P: ixt}
            traces = [ev1(m1, t, True) for t in traces]
            outs2 = []
            for kind, pl, o in outs:
                if kind == 'back':
                    map_state(o, m1)
                    outs2.append((kind, pl, o))
                    continue
                ended = o.facts.get(('B', guard)) is False
                m = {P: ('len', X)} if ended else m1
                tr = ev1(m, trace_list(o.trace), not ended)
                map_state(o, m)
                o.trace = None
                for e in tr:
                    o.add(e)
                outs2.append((kind, map_term(pl, m, {}) if isinstance(pl, tuple) else pl, o))
            outs = outs2
            for Q, (i2, v2) in mine:
                self.phis[Q] = (map_term(i2, m1, {}), [map_term(v, m1, {}) if v not in (('bin', 'Add', *sorted((P, ('int', 1)), key=repr)),) else v for v in v2])
            mine = [(Q, self.phis[Q]) for Q, _ in mine]
            backs = [o for k, _, o in outs if k == 'back']
        # ---- vectors that are emptied from one end
        for P, (init, vals) in mine:
            ends = {v[2] for v in vals if isinstance(v, tuple) and v[:2] == ('vremove', P)}
            if P[2][0] != 'c' or len(ends) != 1 or len(vals) != 1 or contains(init, P) or init[0] in ('vec', 'emptymap') and not init[1:2]:
                continue
            end = next(iter(ends))
            if end not in (('last',), ('int', 0)):
                continue
            guards = {t[1] for o in backs for t, v in o.facts.items() if t[0] == 'B' and isinstance(t[1], tuple) and t[1][:2] == ('bin', 'Eq') and set(t[1][2:4]) == {('len', P), ('int', 0)} and v is False}
            if len(guards) != 1:
                continue
            guard = next(iter(guards))
            T = ('t', next(self.cnt))
            item = self.walk1(State(), init, ('i', ('ix', T)))
            m1 = {self.walk1(State(), P, ('i', end)): item}
            src, ext = (('seq', init), (T, True, init)) if end == ('int', 0) else (('rev', ('seq', init)), (T, False, ('rev', init)))
            cell = P[2][1]

            def ev2(trace, m):
                r = []
                for e in trace:
                    if e.kind == 'assume' and e.args and e.args[0] == guard:
                        if not any(x.kind == 'iter' and x.extra == ext for x in r):
                            r.append(Ev('iter', 'end' if e.args[1] else 'item', (src,) + (() if e.args[1] else (item,)), None, e.sp, e.fn, ext))
                    elif not (e.kind == 'write' and e.name == 'vec.pop' and e.args[0][0] == 'ref' and e.args[0][1][0] == ('cell', cell) and not e.args[0][1][1]):
                        r.append(map_ev(e, m))
                return r
            new = [ev2(t, m1) for t in traces]
            if any(contains(x, P) for t in new for e in t for x in (e.args, e.ret) if isinstance(x, tuple)) or any(contains(x, P) for Q, (i2, v2) in mine if Q != P for x in v2 for x in [map_term(x, m1, {})]):
                continue
            traces = new
            for kind, pl, o in outs:
                m = m1
                ended = o.facts.get(('B', guard)) is True
                if ended:
                    m = dict(m1)
                    m[P] = ('vec', ())
                tr = ev2(trace_list(o.trace), m)
                map_state(o, m)
                if kind != 'back':
                    o.trace = None
                    for e in tr:
                        o.add(e)
            outs = [(k, map_term(pl, m1, {}) if isinstance(pl, tuple) else pl, o) for k, pl, o in outs]
            for Q, (i2, v2) in mine:
                self.phis[Q] = (map_term(i2, m1, {}), [map_term(v, m1, {}) for v in v2])
            mine = [(Q, self.phis[Q]) for Q, _ in mine]
            backs = [o for k, _, o in outs if k == 'back']
        # ---- filled vectors
        src = None
        for t in traces:
            its = {e.extra[0]: e for e in t if e.kind == 'iter' and e.name == 'item' and e.extra}
            src = its if src is None else {k: v for k, v in src.items() if k in its}
        if src:
            tag, e0 = next(iter(src.items()))
            _, aligned, base = e0.extra
            for P, (init, vals) in mine:
                if init != ('vec', ()) or not vals:
                    continue
                pushes = [v for v in vals if v[0] == 'push' and v[1] == P]
                if not pushes or any(v != P and v not in pushes for v in vals) or contains(base, P):
                    continue
                TB = ('t', next(self.cnt))
                self.collects.setdefault(TB, set()).add(tag)
                es = list(dict.fromkeys(map_term(v[2], {('ix', tag): ('ix', TB)}, {}) for v in pushes))
                full = aligned and len(vals) == len(pushes)
                new = ('seqmap', ('ix', TB), es[0] if len(es) == 1 else ('alts', tuple(es)), base, full, 'vec')
                for kind, pl, o in outs:
                    if kind != 'back' and any(e.kind == 'iter' and e.name == 'end' and e.extra and e.extra[0] == tag for e in trace_list(o.trace)):
                        tr = [map_ev(e, {P: new}) for e in trace_list(o.trace)]
                        map_state(o, {P: new})
                        o.trace = None
                        for e in tr:
                            o.add(e)
        return outs, traces

    def at_back(self, P, head, o):
        """value of a phi at the end of one iteration"""
        q = P[2]
        if not (isinstance(q, tuple) and len(q) >= 2):
            return None
        if q[0] == 'c':
            hv, ov = head.cells.get(q[1]), o.cells.get(q[1])
        else:
            hv, ov = head.heap.get(q[1]), o.heap.get(q[1]) or self.obj_default(o, q[1])

        def go(h, v):
            if h == P:
                return v
            if isinstance(h, tuple) and isinstance(v, tuple) and len(h) == len(v):
                for a, b in zip(h, v):
                    if isinstance(a, tuple):
                        r = go(a, b)
                        if r is not None:
                            return r
            return None
        return go(hv, ov)

    def record_phi(self, hv, init, backs, lid):
        if not isinstance(hv, tuple) or not hv:
            return
        if hv[0] == 'phi' and hv[1] == lid:
            self.phis[hv] = (init, list(dict.fromkeys(backs)))
            return
        for i, x in enumerate(hv):
            if isinstance(x, tuple):
                def sub(v):
                    return v[i] if isinstance(v, tuple) and len(v) > i and isinstance(v[i], tuple) else ('undef', 0)
                self.record_phi(x, sub(init), [sub(b) for b in backs], lid)

    def exec_block(self, fr, b, st):
        blk = fr.blocks[b]
        for s in blk['s']:
            if s[0] == '=':
                self.cur = (fr.path, s[3])
                v = self.rvalue(fr, st, s[2])
                self.store(st, self.eval_loc(fr, st, s[1]), v, fr, s[3])
            elif s[0] == 'setd':
                pass
        t = blk['t']
        k = t[0]
        sp = blk['sp']
        self.cur = (fr.path, sp)
        if k == 'goto':
            return [('goto', t[1], st)]
        if k == 'return':
            return [('ret', None, st)]
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'drop':
            loc = self.eval_loc(fr, st, t[1])
            v = self.load(st, loc)
            ty = self.p.ty(fr.crate, t[1][2])
            out = []
            for kind, val, s in self.drop_value(fr, st, v, ty, sp, loc):
                out.append(('goto', t[2], s) if kind == 'ret' else (kind, val, s))
            return out
        if k == 'assert':
            c = self.operand(fr, st, t[1])
            r = self.truth(st, c)
            if r is None:
                st.add(Ev('mayfail', t[3], tuple([c] + [self.operand(fr, st, x) for x in t[5]]), None, sp, fr.path))
                if c[0] != 'ovf':
                    self.assume(st, c, t[2])
            elif r != t[2]:
                st.add(Ev('panic', t[3], (), None, sp, fr.path))
                return [('panic', t[3], st)]
            return [('goto', t[4], st)]
        if k == 'call':
            f = self.operand(fr, st, t[1])
            args = [self.operand(fr, st, a) for a in t[2]]
            at = [self.p.ty(fr.crate, x) for x in t[5]]
            dty = self.p.ty(fr.crate, t[3][2])
            fr.cur = b
            res = self.call(fr, st, f, args, at, sp, dty)
            out = []
            for kind, val, s in res:
                if kind == 'skip':
                    out.append(('goto', b, s))
                elif kind == 'ret':
                    if t[4] is None:
                        out.append(('panic', 'diverge', s))
                        continue
                    self.cur = (fr.path, sp)
                    self.store(s, self.eval_loc(fr, s, t[3]), val, fr, sp)
                    out.append(('goto', t[4], s))
                else:
                    out.append((kind, val, s))
            return out
        if k == 'unreachable':
            if self.ub and fr.path.split('::')[-1] in ('unwrap_unchecked', 'unwrap_err_unchecked', 'unreachable_unchecked'):
                st.add(Ev('ub', fr.path.split('::')[-1], (), None, sp, fr.path, fr.stack))
                return [('ub', fr.path, st)]
            return []
        if k == 'resume':
            return []
        raise AnalysisError('terminator ' + k)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        targets = t[2]
        other = t[3]
        m = re.fullmatch(r'i(8|16|32|64|128|size)', self.p.ty(fr.crate, t[4])['s'])
        if m:   # the values of a switch are dumped as unsigned bits
            bits = 64 if m.group(1) == 'size' else int(m.group(1))
            if v[0] != 'discr' and not (v[0] == 'int' and v[1] >= 1 << bits - 1):   # the numbers of variants are dumped in the same way
                targets = [(val - (1 << bits) if val >= 1 << bits - 1 else val, tb) for val, tb in targets]
        if v[0] == 'discr':
            v = self.discr(st, v[1], v[2])
        if v[0] in ('int', 'bool'):
            n = int(v[1])
            for val, tb in targets:
                if val == n:
                    return [('goto', tb, st)]
            return [('goto', other, st)]
        if v[0] == 'char':
            n = ord(v[1])
            for val, tb in targets:
                if val == n:
                    return [('goto', tb, st)]
            return [('goto', other, st)]
        out = []
        if v[0] == 'discr':
            cur = self.fact_variants(st, v[1], v[2])
            vs = self.variants(v[2])
            rest = set(cur)
            for val, tb in targets:
                names = [n for n in cur if vs[n] == val]
                rest -= set(names)
                if names:
                    s = st.copy()
                    if self.set_variants(s, v[1], v[2], names):
                        out.append(('goto', tb, s))
            if rest:
                s = st.copy()
                if self.set_variants(s, v[1], v[2], rest):
                    out.append(('goto', other, s))
            return out
        dt = self.p.ty(fr.crate, t[4])['s']
        if dt == 'bool':
            r = self.truth(st, v)
            tb = {val: x for val, x in targets}
            f_t = tb.get(0, other)
            t_t = tb.get(1, other)
            if r is not None:
                return [('goto', t_t if r else f_t, st)]
            s = st.copy()
            if self.assume(s, v, False):
                out.append(('goto', f_t, s))
            if self.assume(st, v, True):
                out.append(('goto', t_t, st))
            return out
        # general integer switch
        for val, tb in targets:
            s = st.copy()
            if self.assume(s, self.binop(s, 'Eq', v, ('int', val)), True):
                out.append(('goto', tb, s))
        ok = True
        for val, tb in targets:
            ok = ok and self.assume(st, self.binop(st, 'Eq', v, ('int', val)), False)
        if ok:
            out.append(('goto', other, st))
        return out

    def drop_value(self, fr, st, v, ty, sp, loc):
        """returns [('ret',UNIT,state)...]"""
        if v[0] in ('undef', 'int', 'bool', 'str', 'unit', 'sym_moved'):
            return [('ret', UNIT, st)]
        for g in self.guards_in(v):
            st.add(Ev('unlock', 'Mutex', (g[1],), None, sp, fr.path))
        if ty['k'] == 'adt':
            f = self.drop_impl(ty['d'])
            if f is not None:
                r = self.call_fn(f, [self.mkref(loc)], st, fr.stack)
                return r
        s = ty['s']
        if ('dyn' in s or ty['k'] == 'param') and not (v[0] == 'adt' and v[2] == 'None') and not s.startswith('&'):
            st.add(Ev('drop', s, (v,), None, sp, fr.path))
        return [('ret', UNIT, st)]

    _drops = None

    def drop_impl(self, adt):
        if self._drops is None:
            self._drops = {}
            for im in self.p.impls:
                if im['trait'] and im['trait'].endswith('ops::Drop'):
                    t = self.p.ty(im['crate'], im['self_ty'])
                    if t['k'] == 'adt':
                        self._drops[t['d']] = self.p.fns.get(im['methods'][0][1])
        return self._drops.get(adt)

    def guards_in(self, v):
        if not isinstance(v, tuple):
            return
        if v and v[0] == 'guard':
            yield v
            return
        if v and v[0] in ('adt', 'tup', 'clo', 'arr'):
            for x in v[1:]:
                if isinstance(x, tuple):
                    for y in (x if not (x and isinstance(x[0], str)) else (x,)):
                        if isinstance(y, tuple):
                            if len(y) == 2 and isinstance(y[0], str) and isinstance(y[1], tuple):
                                yield from self.guards_in(y[1])
                            else:
                                yield from self.guards_in(y)

    # ---------------------------------------------------------------- calls
    def call(self, fr, st, f, args, at, sp, dty):
        if f[0] != 'fnref':
            return self.call_value(fr, st, f, args, sp)
        box = f[2]
        return self.call_def(fr, st, box.j, box.crate, args, at, sp, dty)

    def call_def(self, fr, st, cj, ccrate, args, at, sp, dty):
        self.calls_seen += 1
        name = norm(cj['p'])
        r = cj['r']
        c = Call(name, args, at, cj, fr, st, sp, dty)
        if name in self.typed:
            x = self.typed[name](c, [self.p.ty(ccrate, t)['s'] for t in cj.get('a') or [] if isinstance(t, int)])
            if x is not None:
                return self.wrap(x, st)
        if r == 'virtual':
            return self.virtual(c)
        rk = cj.get('rk')
        tname = norm(cj['rp']) if cj.get('rp') and not cj['rp'].startswith('<') else name
        fn = self.p.fns.get(rk) if rk else None
        if fn is not None and fn.local and r in ('item', 'closure_once'):
            nm2 = self.localname(fn)
            if nm2 in self.opaque and nm2 in self.OPAQUE_AS:
                return self.wrap(self.models[self.OPAQUE_AS[nm2]](c), st)
            if nm2 in self.opaque or tname in self.opaque:
                return self.opaque_call(c, nm2 if nm2 in self.opaque else tname)
            if nm2 in self.models:
                return self.wrap(self.models[nm2](c), st)
            if fn.key in fr.stack:
                st.add(Ev('rec', nm2, tuple(args), None, sp, fr.path, fn.key))
                before = self.lifeof(st.epoch)
                self.havoc(st, 'rec')
                if not self.p.may_hook(fn.key):
                    self.life[st.epoch] = before
                ret = self.fresh('rec:' + nm2, args)
                st.trace[1].ret = ret
                self.clobber(st, args, at, ret)
                return [('ret', ret, st)]
            return self.call_fn(fn, args, st, fr.stack)
        m = self.models.get(name)
        if m is not None:
            x = m(c)
            if x is not NotImplemented:
                return self.wrap(x, st)
        if name in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            a = args[1]
            av = list(a[1]) if a[0] == 'tup' else [] if a == UNIT else [self.walk1(st, a, '0')]
            return self.call_value(fr, st, args[0], av, sp)
        if fn is not None:
            if fr.stack.count(fn.key) >= (1 if fn.local else 6):
                return self.opaque_call(c, name)
            return self.call_fn(fn, args, st, fr.stack)
        if r == 'unresolved':
            u = self.unresolved(c)
            if u is not None:
                return u
        if name.endswith('::drop_in_place'):
            return [('ret', UNIT, st)]
        return self.opaque_call(c, name)

    def localname(self, fn):
        """Type::method for inherent/trait methods, last segments otherwise"""
        j = fn.j
        if 'self_ty' in j:
            t = self.p.ty(fn.crate, j['self_ty'])
            tn = strip_generics(t['s'].lstrip('&')).split('::')[-1]
            return tn + '::' + j.get('nm', '?')
        return norm(fn.path)

    def wrap(self, x, st):
        if isinstance(x, list):
            return x
        return [('ret', x, st)]

    def virtual(self, c):
        st = c.st
        name = c.name
        tr = c.callee.get('tr', '')
        recv = c.args[0]
        if name in DEREF_NODE or name.split('::')[-1] in ('base', 'base_mut') and 'Abstract' in name:
            return [('ret', ('base', self.nodeid(st, recv)), st)]
        if name.split('::')[-1] in ('base', 'base_mut') and 'NodeTree' in name:
            return [('ret', ('base', self.nodeid(st, recv)), st)]
        if name.split('::')[-1] in ('as_any_ref', 'as_any_mut', 'as_dyn', 'as_dyn_mut', 'as_dyn_raw', 'as_dyn_raw_mut'):
            return [('ret', recv, st)]
        if name in ('FnMut::call_mut', 'FnOnce::call_once', 'Fn::call'):
            a = c.args[1]
            av = a[1] if a[0] == 'tup' else ()
            return self.usercall(c.fr, st, recv, av, c.sp)
        self.handed(c)
        ret = self.fresh(name, c.args)
        st.add(Ev('call', name, tuple(c.args), ret, c.sp, c.fr.path, ('virtual', st.epoch)))
        if name in HOOKS:
            self.havoc(st, name)
            return [('ret', UNIT, st)]
        return [('ret', ret, st)]

    def nodeid(self, st, v):
        return v

    def usercall(self, fr, st, f, args, sp):
        ret = self.fresh('usercall', (f,) + tuple(args))
        vals = []
        for a in args:
            n = 0
            while isinstance(a, tuple) and a[0] == 'ref' and n < 12:
                try:
                    a = self.loadp(st, a)
                except AnalysisError:
                    break
                n += 1
            vals.append(a)
        st.add(Ev('call', 'usercall', (f,) + tuple(args), ret, sp, fr.path, ('virtual', tuple(vals))))
        self.havoc(st, 'usercall')
        return [('ret', ret, st)]

    def unresolved(self, c):
        name = c.name
        if name in DEREF_NODE:
            return [('ret', ('base', c.args[0]), c.st)]
        last = name.split('::')[-1]
        if last in ('base', 'base_mut'):
            return [('ret', ('base', c.args[0]), c.st)]
        if last in ('as_dyn', 'as_dyn_mut', 'as_dyn_raw', 'as_dyn_raw_mut', 'as_any_ref', 'as_any_mut'):
            return [('ret', c.args[0], c.st)]
        tr = c.callee.get('tr')
        if tr and name in self.inst:
            out = []
            nm = c.callee['nm']
            for im in self.p.impls:
                if im['trait'] == tr:
                    for mn, mk in im['methods']:
                        if mn == nm and mk in self.p.fns:
                            s = c.st.copy()
                            s.add(Ev('assume', 'impl', (tr, self.p.ty(im['crate'], im['self_ty'])['s'])))
                            s.facts[('impl', tr)] = self.p.ty(im['crate'], im['self_ty'])['s']
                            out += self.call_fn(self.p.fns[mk], c.args, s, c.fr.stack)
            return out
        return None

    def call_value(self, fr, st, f, args, sp):
        ptr = None
        seen = 0
        while f[0] in ('ref', 'pv') and seen < 8:
            ptr = f
            f = self.loadp(st, f)
            seen += 1
        if f[0] == 'clo':
            fn = self.p.fns.get(f[1])
            if fn is None:
                raise AnalysisError('closure body ' + f[1])
            st_ty = self.p.ty(fn.crate, fn.locals[1][0])
            if st_ty['k'] == 'ref':
                self_arg = ptr if ptr is not None else self.new_cell(st, f)
            else:
                self_arg = f
            n = fn.argc - 1
            a = list(args)
            if n != len(a):
                raise AnalysisError('closure arity %s %d %d' % (fn.path, n, len(a)))
            return self.call_fn(fn, [self_arg] + a, st, fr.stack)
        if f[0] == 'fnref':
            box = f[2]
            at = [{'s': '?', 'k': 'other'} for _ in args]
            fn = self.p.fns.get(box.j.get('rk') or '')
            if fn is not None and fn.local:
                at = [self.p.ty(fn.crate, fn.locals[i + 1][0]) for i in range(fn.argc)]
            return self.call_def(fr, st, box.j, box.crate, args, at, sp, {'s': '?', 'k': 'other'})
        return self.usercall(fr, st, ptr if (ptr is not None and f[0] == 'undef') else f, args, sp)

    PURE = set()

    def handed(self, c):
        """references handed to code that is not followed count as used there and then"""
        if self.reads is not None:
            for a, t in zip(c.args, c.at):
                u = self.pointee(c.fr.crate, t) if t.get('k') == 'ref' else None
                if u is not None and u.get('k') not in ('slice', 'ref') and u.get('s') != 'str':
                    while a[0] == 'ref' and a[1][0][0] == 'obj':
                        a = a[1][0][1]
                    if a[0] != 'ref':
                        self.reads.add((a, c.st.epoch, c.fr.path, c.sp))

    def opaque_call(self, c, name):
        st = c.st
        self.handed(c)
        last = name.split('::')[-1]
        if name in self.PURE:
            return [('ret', ('app', name, tuple(self.snap(st, a) for a in c.args), None), st)]
        ret = self.fresh(name, [self.snap(st, a) if t.get('k') == 'ref' and not t.get('m') else a for a, t in zip(c.args, c.at)])
        st.add(Ev('call', name, tuple(c.args), ret, c.sp, c.fr.path, self.snapargs(st, c)))
        rk = c.callee.get('rk')
        if rk in self.p.fns and self.p.fns[rk].local and self.p.may_hook(rk):
            self.havoc(st, name)
        self.clobber(st, c.args, c.at, ret)
        if c.dty.get('k') == 'tuple' and not c.dty.get('a'):
            ret = UNIT
        if c.dty.get('s') == '!':
            return [('panic', name, st)]
        return [('ret', ret, st)]

    def snapargs(self, st, c):
        return tuple(self.snap(st, a) for a in c.args)

    def snap(self, st, v, d=0):
        """replace refs to cells by their content (for provenance in opaque terms)"""
        if v[0] == 'ref' and d < 6:
            reads, self.reads = self.reads, None
            r = ('&', self.snap(st, self.load(st, v[1]), d + 1))
            self.reads = reads
            return r
        if v[0] in ('adt', 'tup', 'arr', 'vec') and d < 6:
            if v[0] == 'adt':
                return ('adt', v[1], v[2], tuple((n, self.snap(st, x, d + 1)) for n, x in v[3]))
            return (v[0], tuple(self.snap(st, x, d + 1) for x in v[1]))
        return v

    def clobber(self, st, args, at, tag):
        if isinstance(tag, tuple) and len(tag) > 3:
            self.tag_epoch.setdefault(tag[3], set()).add(st.epoch)
        for i, (a, t) in enumerate(zip(args, at)):
            if t.get('k') == 'ref' and t.get('m') and a[0] == 'ref':
                old = self.load(st, a[1])
                self.store_quiet(st, a[1], ('mut', tag, i, old))
            elif t.get('k') in ('ref', 'ptr') and t.get('m') and a[0] not in ('ref',):
                old = st.heap.get(a) or self.obj_default(st, a)
                st.heap[a] = ('mut', tag, i, old)

    def store_quiet(self, st, loc, x):
        tr = st.trace
        self.store(st, loc, x)
        st.trace = tr


def map_term(t, m, memo):
    if not isinstance(t, tuple):
        return t
    r = memo.get(t)
    if r is None:
        r = m.get(t)
        if r is None:
            ch = False
            out = []
            for x in t:
                y = map_term(x, m, memo) if isinstance(x, tuple) else x
                ch = ch or y is not x
                out.append(y)
            r = tuple(out) if ch else t
        memo[t] = r
    return r


def map_ev(e, m, memo=None):
    memo = {} if memo is None else memo
    if e.kind == 'loop':
        return Ev('loop', e.name, e.args, e.ret, e.sp, e.fn, [[map_ev(x, m, memo) for x in b] for b in e.extra])
    return Ev(e.kind, e.name, map_term(e.args, m, memo) if isinstance(e.args, tuple) else e.args, map_term(e.ret, m, memo), e.sp, e.fn, map_term(e.extra, m, memo) if isinstance(e.extra, tuple) else e.extra)


def map_state(st, m):
    memo = {}
    f = lambda x: map_term(x, m, memo)
    st.cells = {k: f(v) for k, v in st.cells.items()}
    st.heap = {f(k): f(v) for k, v in st.heap.items()}
    st.facts = {f(k): v for k, v in st.facts.items()}
    st.known = {f(k) if isinstance(k, tuple) else k: f(v) for k, v in st.known.items()}
    st.vers = {f(k) if isinstance(k, tuple) else k: v for k, v in st.vers.items()}


class FnRefBox:
    """callee json carried inside a term; identity by key so that terms stay comparable"""
    __slots__ = ('j', 'crate')

    def __init__(self, j, crate):
        self.j = j
        self.crate = crate

    def __eq__(self, o):
        return isinstance(o, FnRefBox) and (self.j.get('rk'), self.j['p'], self.j['a']) == (o.j.get('rk'), o.j['p'], o.j['a'])

    def __hash__(self):
        return hash((self.j.get('rk'), self.j['p']))

    def __repr__(self):
        return 'fn:' + self.j['p']
