"""Whether from_value undoes to_value: the value a type is written as is put, as a term, in the place of the value that
is read, and the reading is evaluated by the laws of TOML values, casts, texts and sequences."""
import re
from world import *
from rule import where
from scn import canon, noid

VARIANTS = {'String', 'Integer', 'Float', 'Boolean', 'Datetime', 'Array', 'InlineTable'}
INTS = {'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'}
SCALAR = {**{k: 'Integer' for k in INTS}, 'f32': 'Float', 'f64': 'Float', 'bool': 'Boolean', 'char': 'String', 'String': 'String', 'str': 'String'}
AS = {'Value::as_bool': 'Boolean', 'Value::as_integer': 'Integer', 'Value::as_float': 'Float', 'Value::as_str': 'String', 'Value::as_array': 'Array',
      'Value::as_inline_table': 'InlineTable', 'Value::as_datetime': 'Datetime'}
IS = {'Value::is_bool': 'Boolean', 'Value::is_integer': 'Integer', 'Value::is_float': 'Float', 'Value::is_str': 'String', 'Value::is_array': 'Array',
      'Value::is_inline_table': 'InlineTable', 'Value::is_datetime': 'Datetime'}
SAME = {'Formatted::into_value', 'Formatted::value', 'Formatted::new', 'guarded', 'str::as_str', 'String::as_str'}
PARTIAL = {'Duration::from_secs_f64', 'Duration::from_secs_f32', 'Duration::new', 'Duration::mul_f64', 'Duration::mul_f32'}
SELF, VALUE = ('sym', 'self'), ('sym', 'value')
# constructors of glam and the fields their arguments become
XYZW = ('x', 'y', 'z', 'w')
COLS = ('x_axis', 'y_axis', 'z_axis', 'w_axis')
GLAM = re.compile(r'^(D|B|U|I|U8|I8|U16|I16|U64|I64)?(Vec|Mat|Quat|Affine)([234]?)(A?)$')


def fld(t, f):
    return ('fld', t, f)


def isapp(t, name=None, n=None):
    return isinstance(t, tuple) and t[:1] == ('app',) and name in (None, t[1]) and (n is None or len(t[2]) == n)


class Codec:
    def __init__(self, ty):
        self.ty = ty
        self.short = re.sub(r'\b(?:[a-z_0-9]+::)+', '', ty)
        self.env = {}
        self.glam = ty.startswith('glam::')
        m = GLAM.match(self.short) if self.glam else None
        self.gm = m
        if m:
            p = m.group(1) or ''
            self.scalar = 'bool' if p == 'B' else 'f64' if p == 'D' else 'f32' if m.group(2) != 'Vec' or p == '' else {'U': 'u32', 'I': 'i32'}.get(p) or p.lower()
        m = re.match(r'^\[\w+; (\w+)\]$', self.short)
        self.length = m.group(1) if m else None
        self.arity = len([x for x in self.ty[1:-1].split(',') if x.strip()]) if re.match(r'^\(\w+,.*\)$', self.ty) else None
        self.is_set = bool(re.match(r'^(Hash|BTree)Set<', self.short))
        self.is_map = bool(re.match(r'^(Hash|BTree)Map<', self.short))

    # ------------------------------------------------------------ what a term is
    def scalar_of(self, t):
        """primitive type of a term, as far as it can be told"""
        if t == SELF:
            if self.short in ('NodePath',):
                return 'str'
            return self.short if self.short in SCALAR else 'datetime' if self.short == 'Datetime' else None
        if t[:1] == ('cast',):
            return t[2]
        if t[:1] == ('bool',):
            return 'bool'
        if t[:1] == ('str',) or isapp(t, 'disp') or t[:1] in (('cat',),):
            return 'str'
        if t[:1] == ('mapkey',) and t[1] == SELF and self.is_map:
            return 'char' if re.match(r'^\w+<char,', self.short) else 'str'
        if t[:1] == ('fld',) and isapp(t[1], 'Path::to_str') and t[2] == 'Some.0':
            return 'str'
        if isapp(t, 'Duration::as_secs_f64'):
            return 'f64'
        if self.glam:
            b = t
            while isinstance(b, tuple) and b[:1] == ('fld',):
                b = b[1]
            if b == SELF or isapp(b):
                return self.scalar if self.component(t) else None
        return None

    def component(self, t):
        """(path of named fields) if the term is one number of a glam value"""
        if t[:1] != ('fld',):
            return None
        f = t[2]
        return f if f in XYZW else None

    def shape(self, t):
        """(kind of TOML value, what is in it) of a term that stands for a value; None if it is not known to be one"""
        if not isinstance(t, tuple):
            return None
        if t[:1] == ('adt',) and t[1].endswith('Value') and t[2] in VARIANTS:
            return t[2], t[3][0][1]
        if isapp(t, 'to_toml', 1):
            t = t[2][0]
            if t[:1] in (('minsert',), ('emptymap',)):
                return 'InlineTable', t
            if t[:1] == ('seqmap',):
                return ('InlineTable' if t[5] == 'map' else 'Array'), t
            if t[:1] == ('vec',):
                return 'Array', t
        s = self.scalar_of(t)
        if s == 'datetime':
            return 'Datetime', t
        return (SCALAR[s], t) if s in SCALAR and (s != 'char') else None

    # ------------------------------------------------------------ terms
    def norm(self, t):
        return noid(canon(t))

    def read(self, t, V):
        """the term with V read in place of the value, evaluated"""
        if not isinstance(t, tuple) or not t:
            return t
        if t == VALUE:
            return V
        t = tuple(self.read(x, V) if isinstance(x, tuple) else x for x in t)
        return self.step(t)

    def step(self, t):
        k = t[0]
        if k == 'app':
            if t[1] in SAME and len(t[2]) == 1:
                return t[2][0]
            if t[1] == 'guarded':
                return t[2][0]
            if isapp(t, 'InlineTable::new', 0):
                return ('emptymap',)
            if isapp(t, 'NodePath::from_str', 1) and t[2][0] == SELF and self.short == 'NodePath':
                return SELF     # P11: the path of the printed text of a path is that path
            if isapp(t, 'disp', 1) and self.scalar_of(t[2][0]) == 'str':
                return t[2][0]
            m = re.match(r'^\w+::to_array$', t[1])
            if m and self.glam and len(t[2]) == 1:
                return ('arr', tuple(fld(t[2][0], f) for f in XYZW[:self.dim(m.group(0))]))
            m = re.match(r'^\w+::(to_cols_array_2d)$', t[1])
            if self.glam and isapp(t, 'into', 2) and t[2][1] in (('ty', 'glam::' + x) for x in ('Vec3', 'Vec3A', 'Mat3', 'Mat3A')):
                return t[2][0]
            g = self.construct(t)
            if g is not None:
                return g
        elif k == 'guarded':
            return t[1]
        elif k == 'cast':
            if t[3][:1] == ('cast',) and t[3][2] == t[1] and t[3][1] == t[2] and self.lossless(t[2], t[1]):
                return t[3][3]
            if t[1] == t[2]:
                return t[3]
        elif k == 'len':
            b = t[1]
            if b[:1] in (('vec',), ('arr',)):
                return ('int', len(b[1]))
            if b[:1] == ('seqmap',) and b[5] in ('vec', 'map') and b[3][:1] not in (('filter',), ('filter_map',), ('flat',), ('skip',), ('take',), ('take_while',), ('skip_while',), ('step_by',), ('chain',), ('zip',)):
                return self.step(('len', b[3]))
            if isapp(b, 'str::chars', 1) and self.one_char(b[2][0]):
                return ('int', 1)
        elif k == 'fld':
            return self.project(t)
        elif k == 'seqmap':
            return self.seq(t)
        elif k == 'mapkey':
            b = t[1]
            if b[:1] == ('seqmap',) and b[5] == 'map' and b[2][:1] == ('tup',):
                return self.read(subst(b[2][1][0], b[1][1], t[2]), VALUE)
        return t

    def lossless(self, small, big):
        w = lambda n: int(re.sub(r'\D', '', n.replace('size', '64')))
        if small in INTS and big in INTS:
            return w(small) <= w(big)
        return (small, big) in (('f32', 'f64'),)

    def keeps(self, small, big):
        """every number of the first type is one of the second"""
        w = lambda n: int(re.sub(r'\D', '', n.replace('size', '64')))
        return w(small) < w(big) and (small[0] == 'u' or big[0] == 'i') or small == big

    def one_char(self, t):
        if isapp(t, 'disp', 1):
            t = t[2][0]
        return self.scalar_of(t) == 'char'

    def dim(self, name):
        m = re.search(r'(\d)A?::', name)
        return int(m.group(1))

    def project(self, t):
        b, f = t[1], t[2]
        if isinstance(f, str):
            v, _, i = f.partition('.')
            if v in VARIANTS and i == '0':
                s = self.shape(b)
                if s:
                    return s[1] if s[0] == v else ('bad', f)
            if isapp(b) and b[1] in AS and f == 'Some.0':
                return self.step(fld(b[2][0], AS[b[1]] + '.0'))
            if isapp(b, 'Exportable::from_value', 1) and f == 'Some.0':
                y = b[2][0]
                if isapp(y, 'Exportable::to_value', 1):
                    return y[2][0]
            if isapp(b, 'str::parse', 2) and f == 'Ok.0' and self.reparsed(b):
                return b[2][0][2][0] if isapp(b[2][0], 'disp', 1) else SELF
            if isapp(b, 'try_into', 2) and f == 'Ok.0':
                return b[2][0]
            if isapp(b, 'Duration::try_from_secs_f64', 1) and f == 'Ok.0' and isapp(b[2][0], 'Duration::as_secs_f64', 1):
                return b[2][0][2][0]
            if b[:1] == ('adt',):
                for n, x in b[3]:
                    if f in (n, b[2] + '.' + n):
                        return x
            if b[:1] == ('tup',) and f.isdigit() and int(f) < len(b[1]):
                return b[1][int(f)]
            if isapp(b, 'NodePath::from_str', 1):
                return t
        elif f[0] == 'i':
            if b[:1] in (('vec',), ('arr',)) and f[1][:1] == ('int',) and 0 <= f[1][1] < len(b[1]):
                return b[1][f[1][1]]
            if b[:1] == ('seqmap',) and b[5] == 'vec' and b[4]:
                return self.read(subst(b[2], b[1], f[1]), VALUE)
            if isapp(b, 'str::chars', 1) and f[1] == ('int', 0) and self.one_char(b[2][0]):
                x = b[2][0]
                return x[2][0] if isapp(x, 'disp', 1) else x
        elif f[0] == 'k':
            if b[:1] == ('minsert',):
                if b[2] == f[1]:
                    return b[3]
                if b[2][:1] == f[1][:1] == ('str',):
                    return self.project(fld(b[1], f))
            if b[:1] == ('seqmap',) and b[5] == 'map' and b[2][:1] == ('tup',):
                # the entry whose key is that of element t
                for u in self.tags(f[1]):
                    if self.read(subst(b[2][1][0], b[1][1], u), VALUE) == f[1]:
                        return self.read(subst(b[2][1][1], b[1][1], u), VALUE)
            if b[:1] == ('mremove',) and b[2][:1] == f[1][:1] == ('str',) and b[2] != f[1]:
                return self.project(fld(b[1], f))
        return t

    def tags(self, t):
        if isinstance(t, tuple):
            if t[:1] == ('t',) and len(t) == 2:
                yield t
            else:
                if t[:1] == ('mapkey',) and isinstance(t[2], int):
                    yield t[2]
                for x in t:
                    yield from self.tags(x)

    def reparsed(self, b):
        x, ty = b[2]
        if isapp(x, 'disp', 1) and x[2][0] == SELF and self.short in ('Ipv4Addr', 'Ipv6Addr', 'IpAddr') and ty[1] == self.ty:
            return True
        if isapp(x, 'disp', 1) and ty[1] == 'char' and self.one_char(x):
            return True
        return x[:1] == ('fld',) and x[1] == ('app', 'Path::to_str', (SELF,), None) and x[2] == 'Some.0' and self.short == 'PathBuf' and ty[1] == self.ty

    def seq(self, t):
        _, tb, body, base, order, kind = t
        if base[:1] in (('vec',), ('arr',)) and order and kind == 'vec':
            return ('vec', tuple(self.read(subst(body, tb, ('int', i)), VALUE) for i in range(len(base[1]))))
        if base[:1] == ('seqmap',):
            el = tb[1]
            b2 = subst(base[2], base[1][1], el)
            order = order and base[4]
            return self.seq(('seqmap', tb, self.read(body, VALUE), base[3], order, kind))
        if kind == 'map':
            if body == ('tup', (('mapkey', base, tb[1]), fld(base, ('k', ('mapkey', base, tb[1]))))) and base == SELF and self.is_map:
                return SELF
        elif body == fld(base, ('i', tb)):
            if base == SELF and (self.is_set if kind == 'set' else (order and not self.is_set)):
                return SELF
            if base != SELF and order and kind == 'vec':
                return base
        return t

    # ------------------------------------------------------------ glam
    def construct(self, t):
        """the value a glam constructor makes of arguments that are the parts of one value"""
        if not self.glam:
            return None
        n = t[1].split('::')[-1]
        ty = t[1].split('::')[0]
        a = t[2]
        if len(a) == 1 and n in ('from_array', 'from_slice', 'from', 'from_cols_array_2d') and a[0][:1] in (('vec',), ('arr',)):
            a = a[0][1]
        names = None
        if re.match(r'^(b|d|u8|u16|u64|i8|i16|i64|u|i)?vec[234]a?$', n) or n in ('new', 'from_array', 'from_slice', 'from', 'from_xyzw', 'quat', 'dquat'):
            names = XYZW
        elif re.match(r'^d?mat[234]a?$', n) or n == 'from_cols':
            names = COLS
        elif re.match(r'^from_mat[23]_translation$', n):
            names = ('matrix' + n[8], 'translation')
        if names is None or not a or len(a) > len(names):
            return None
        b = None
        for f, x in zip(names, a):
            if x[:1] != ('fld',) or x[2] != f or (b is not None and x[1] != b):
                return None
            b = x[1]
        return b if self.parts(b, names) == len(a) else None

    def parts(self, b, names):
        """how many parts a glam term has"""
        if names[0].startswith('matrix'):
            return 2
        t = b
        path = []
        while t[:1] == ('fld',):
            path.append(t[2])
            t = t[1]
        if t != SELF:
            return None
        kind, n = self.gm.group(2), int(self.gm.group(3) or 4)
        for f in reversed(path):
            if kind == 'Affine' and f.startswith('matrix'):
                kind = 'Mat'
            elif kind == 'Affine' and f == 'translation':
                kind = 'Vec'
            elif kind == 'Mat' and f in COLS[:n]:
                kind = 'Vec'
            else:
                return None
        return n if (kind == 'Mat') == (names is COLS) else None

    # ------------------------------------------------------------ facts
    def fact(self, k, v, V):
        """True, False, or None if it is not known"""
        if isapp(k) and k[1] in AS and isinstance(v, frozenset):
            s = self.shape(k[2][0])
            if s:
                return ('Some' if s[0] == AS[k[1]] else 'None') in v
        if isapp(k) and k[1] in IS:
            s = self.shape(k[2][0])
            if s:
                return (s[0] == IS[k[1]]) == v
        if k in self.env:
            e = self.env[k]
            if isinstance(e, frozenset) and isinstance(v, frozenset):
                return True if e <= v else False if not (e & v) else None
            return e == v
        if isinstance(v, frozenset):
            if v <= VARIANTS:
                s = self.shape(k)
                if s:
                    return s[0] in v
            if isapp(k, 'Exportable::from_value', 1) and isapp(k[2][0], 'Exportable::to_value', 1):
                return 'Some' in v
            if isapp(k, 'str::parse', 2) and self.reparsed(k):
                return 'Ok' in v
            if isapp(k, 'try_into', 2) and self.length and k[2][0] == SELF:
                return 'Ok' in v
            if isapp(k, 'Duration::try_from_secs_f64', 1) and isapp(k[2][0], 'Duration::as_secs_f64', 1):
                return 'Ok' in v
            if k[:1] == ('adt',):
                return k[2] in v
            return None
        if isapp(k, 'fits', 3):
            x, to = k[2][0], k[2][2][1]
            if x[:1] == ('cast',) and x[1] == to and x[2] in INTS and to in INTS and self.keeps(to, x[2]):
                return v is True
            return None
        if k[:1] == ('haskey',):
            r = self.haskey(k[1], k[2])
            return None if r is None else r == v
        if k[:1] == ('bin',) and k[1] in ('Eq', 'Lt', 'Le', 'Gt', 'Ge', 'Ne'):
            a, b = k[2], k[3]
            if a[:1] == b[:1] == ('int',):
                x, y = a[1], b[1]
                return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[k[1]] == v
            if self.length and {a, b} == {('const', self.length, 'usize'), ('len', SELF)}:
                return (k[1] in ('Eq', 'Le', 'Ge')) == v
        return None

    def haskey(self, m, key):
        if m[:1] == ('emptymap',):
            return False
        if m[:1] == ('minsert',):
            if m[2] == key:
                return True
            if m[2][:1] == key[:1] == ('str',):
                return self.haskey(m[1], key)
        if m[:1] == ('mremove',):
            if m[2] == key:
                return False
            if m[2][:1] == key[:1] == ('str',):
                return self.haskey(m[1], key)
        if m[:1] == ('seqmap',):
            return True if self.project(fld(m, ('k', key))) != fld(m, ('k', key)) else None
        if key[:1] == ('mapkey',) and key[1] == m:
            return True
        return None

    # ------------------------------------------------------------ the same value
    def is_self(self, t):
        if t == SELF:
            return True
        if t[:1] == ('tup',) and self.arity:
            return t[1] == tuple(fld(SELF, str(i)) for i in range(self.arity))
        if t[:1] == ('adt',):
            if t[1].endswith('option::Option') or 'Option<' in self.short:
                if not self.short.startswith('Option<'):
                    return False
                return self.env.get(SELF) == frozenset({t[2]}) and all(x == fld(SELF, t[2] + '.' + n) for n, x in t[3])
            if t[1].split('::')[-1] == self.short.split('<')[0]:
                return bool(t[3]) and all(x in (fld(SELF, n), SELF) for n, x in t[3]) and (len(t[3]) == 1 or all(x != SELF for n, x in t[3]))
        if t[:1] == ('fld',) and self.length and isapp(t[1], 'try_into') and t[2] == 'Ok.0':
            return t[1][2][0] == SELF
        return False


def filled(I, W, trace, t, norm):
    """maps and sets that a loop fills with one entry per element of a sequence, as what they are"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[:1] == ('phi',) and t in I.phis:
        init, backs = I.phis[t]
        init = norm(W.nz(init))
        if (init == ('emptymap',) or isapp(init, 'InlineTable::new', 0)) and backs and all(b[:1] == ('minsert',) and b[1] == t for b in backs):
            es = {(norm(W.nz(b[2])), norm(W.nz(b[3]))) for b in backs}
            if len(es) == 1:
                k, v = es.pop()
                for l in all_loops(trace):
                    w = walk_of(l)
                    if w and l.name == t[1] and l.extra and completed(trace, w[0]) and contains_name((k, v), w[0]):
                        base = norm(W.nz(w[2]))
                        if base[:1] not in (('filter',), ('filter_map',), ('skip',), ('take',), ('flat',), ('rev',)):
                            TB = ('t', ('fill', t[1]))
                            k, v = retag(k, w[0], TB), retag(v, w[0], TB)
                            return ('seqmap', ('ix', TB), k if v == ('unit',) or v == ('tup', ()) else ('tup', (k, v)), base, False, 'set' if v in (('unit',), ('tup', ())) else 'map')
    return tuple(filled(I, W, trace, x, norm) if isinstance(x, tuple) else x for x in t)


def retag(t, a, b):
    """the element with tag b for the one with tag a"""
    if isinstance(t, tuple):
        if t[:1] == ('ix',) and len(t) == 2 and t[1] == a:
            return ('ix', b)
        if t[:1] == ('mapkey',) and t[2] == a:
            return ('mapkey', retag(t[1], a, b), b)
        return tuple(retag(x, a, b) for x in t)
    return t


def shown(t):
    return show(t)[:160]


def impls(ctx):
    """[(type, to_value, from_value, is_ghost_export)] of all implementations of Exportable"""
    P = ctx.P
    d = {}
    for m in ('to_value', 'from_value', 'is_ghost_export'):
        for f in P.method('Exportable', m, '.'):
            d.setdefault(P.ty(f.crate, f.j['self_ty'])['s'], {})[m] = f
    return sorted((t, x.get('to_value'), x.get('from_value'), x.get('is_ghost_export')) for t, x in d.items())


OPQ = {'NodePath::from_str'}


def ghost(ctx, f):
    """True, False, or the term that decides"""
    if f is None:
        return False
    outs, I = ctx.run(f)
    vs = {repr(o.value): o.value for o in outs if o.kind == 'ret'}
    if len(vs) == 1 and all(o.kind == 'ret' for o in outs):
        v = list(vs.values())[0]
        return v[1] if v[0] == 'bool' else v
    return None


def judge(ctx, ty, fw, fr):
    """obligations for one type: reading what was written gives the value back, reading anything never panics,
    values of another kind or shape are refused"""
    W = World(None)
    wo, IW = ctx.run(fw, opaque=OPQ)
    ro, IR = ctx.run(fr, opaque=OPQ)
    C0 = Codec(ty)
    readers = []
    for o in ro:
        if o.kind == 'unwind':
            continue
        if o.kind != 'ret':
            ctx.ob(False, 'panic:%s' % C0.short, '%s::from_value can panic: %s' % (C0.short, shown(W.nz(o.value)) if o.value else o.kind), where(o.trace[-1] if o.trace else None), o.trace)
            continue
        F = {C0.norm(k): v for k, v in facts(W, o).items()}
        for e, EF in with_facts(C0, W, o.trace, F):
            if e.kind == 'mayfail':
                ok = discharged(C0, e, EF, W)
                ctx.ob(ok, 'fail:%s:%s' % (C0.short, e.name), '%s::from_value: this can fail for some value (%s)' % (C0.short, e.name), where(e), o.trace)
        v = filled(IR, W, o.trace, C0.norm(W.nz(IR.snap(o.state, o.value))), C0.norm)
        for n in PARTIAL:
            if contains_name(v, n) or any(contains_name(k, n) for k in F):
                ctx.ob(False, 'panic:%s:%s' % (C0.short, n), '%s::from_value: %s panics for some arguments' % (C0.short, n), fr.path, o.trace)
        readers.append((o, F, v))
    # ---- round trip
    kinds = set()
    n = 0
    for o in wo:
        if o.kind == 'unwind':
            continue
        F = {C0.norm(k): v for k, v in facts(W, o).items()}
        if o.kind != 'ret':
            allowed = C0.short == 'PathBuf' and F.get(('app', 'Path::to_str', (SELF,), None)) == frozenset({'None'})
            ctx.ob(allowed, 'write-panic:%s' % C0.short, '%s::to_value can panic' % C0.short, where(o.trace[-1] if o.trace else None), o.trace)
            continue
        C = Codec(ty)
        C.env = F
        V = C.read(filled(IW, W, o.trace, C.norm(W.nz(IW.snap(o.state, o.value))), C.norm), VALUE)
        s = C.shape(V)
        if s:
            kinds.add(s[0])
        elif isapp(V, 'Exportable::to_value', 1):
            kinds.add('inner')
        some = False
        for r, RF, rv in readers:
            fs = [C.fact(C.read(k, V), v, V) for k, v in RF.items()]
            if False in fs:
                continue
            n += 1
            x = C.read(rv, V)
            good = x[:1] == ('adt',) and x[2] == 'Some' and C.is_self(x[3][0][1])
            some |= good
            ctx.ob(good, 'roundtrip:%s' % C0.short, '%s: the value %s is read back as %s' % (C0.short, shown(V), shown(x)), fr.path, r.trace)
        ctx.ob(some, 'unread:%s' % C0.short, '%s: no path of from_value accepts the value %s that to_value writes' % (C0.short, shown(V)), fr.path)
    # ---- refusal
    for o, F, v in readers:
        if v[:1] == ('adt',) and v[2] == 'Some':
            refuses(ctx, C0, o, F, v, kinds, fr, W)
    return n, kinds


def with_facts(C, W, trace, F):
    """the events of a trace with what is known when they happen (on the whole path through a loop body)"""
    for e in trace:
        yield e, F
        if e.kind == 'loop':
            for b in e.extra:
                BF = dict(F)
                BF.update({C.norm(k): x for k, x in trace_facts(W, b).items()})
                yield from with_facts(C, W, b, BF)


def discharged(C, e, F, W):
    a = C.norm(W.nz(e.args)) if e.args else ()
    if e.name == 'index' and len(a) == 2 and a[0][:1] == ('int',):
        return a[0][1] < bounds(C, F, a[1])[0]
    return False


INF = 1 << 64


def bounds(C, F, L):
    """(least, most) a length can be by the facts"""
    L = C.step(L)
    if L[:1] == ('int',):
        return L[1], L[1]
    lo, hi = 0, INF
    for k, v in F.items():
        if k[:1] != ('bin',) or not isinstance(v, bool):
            continue
        a, b = (C.step(x) if isinstance(x, tuple) and x[:1] == ('len',) else x for x in (k[2], k[3]))
        op = k[1]
        if b == L and a[:1] == ('int',):
            n = a[1]
        elif a == L and b[:1] == ('int',):
            n = b[1]
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        else:
            continue
        # n op L
        if not v:
            op = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}.get(op)
        if op == 'Eq':
            lo, hi = max(lo, n), min(hi, n)
        elif op == 'Lt':
            lo = max(lo, n + 1)
        elif op == 'Le':
            lo = max(lo, n)
        elif op == 'Gt':
            hi = min(hi, n - 1)
        elif op == 'Ge':
            hi = min(hi, n)
        elif op == 'Ne' and n == lo:
            lo += 1
    return lo, hi


def kind_facts(F, X):
    """the kinds of value the facts leave for X"""
    ks = set(VARIANTS)
    for k, v in F.items():
        if isinstance(v, frozenset):
            if k == X and v <= VARIANTS:
                ks &= v
            elif isapp(k) and k[1] in AS and k[2][0] == X:
                ks &= {AS[k[1]]} if v == frozenset({'Some'}) else ks - {AS[k[1]]}
        elif isapp(k) and k[1] in IS and k[2][0] == X:
            ks &= {IS[k[1]]} if v else ks - {IS[k[1]]}
    return ks


def refuses(ctx, C, o, F, v, kinds, fr, W):
    if kinds == {'inner'}:
        return
    ks = kind_facts(F, VALUE)
    ctx.ob(ks <= kinds, 'kind:%s' % C.short, '%s::from_value accepts a value of kind %s; to_value writes %s' % (C.short, '/'.join(sorted(ks - kinds)), '/'.join(sorted(kinds))), fr.path, o.trace)
    arr = fld(VALUE, 'Array.0')
    if 'Array' in kinds and len(ks) == 1:
        want = C.arity or (C.gm and C.parts(SELF, COLS if C.gm.group(2) == 'Mat' else XYZW))
        if want:
            ctx.ob(bounds(C, F, ('len', arr)) == (want, want), 'length:%s' % C.short, '%s::from_value accepts an array of another length' % C.short, fr.path, o.trace)
        elif C.length:
            ok = any(x is True and k[:2] == ('bin', 'Eq') and is_len(C, k, arr) and ('const', C.length, 'usize') in k for k, x in F.items())
            ctx.ob(ok or any(isapp(k, 'try_into') for k in F), 'length:%s' % C.short, '%s::from_value accepts an array of another length' % C.short, fr.path, o.trace)
    # every component is one that was accepted
    def sound(t):
        if isinstance(t, tuple):
            if t[:1] == ('fld',) and t[2] == 'Some.0' and isapp(t[1], 'Exportable::from_value'):
                return True
            if t[:1] == ('app',) and t[1].startswith(('Option::unwrap', 'Result::unwrap')):
                return False
            if t[:1] == ('alts',):
                return False
            if t[:1] == ('seqmap',) and t[3][:1] in (('filter',), ('filter_map',), ('flat',), ('skip',), ('take',), ('take_while',), ('skip_while',), ('step_by',)):
                return False
            return all(sound(x) for x in t if isinstance(x, tuple))
        return True
    ctx.ob(sound(v) or C.short == 'NodePath', 'refuse:%s' % C.short, '%s::from_value leaves out or replaces parts it cannot read: %s' % (C.short, shown(v)), fr.path, o.trace)
    # one character only
    if 'char' in C.short:
        for k, ok in chars_checked(C, o, F, v, W):
            ctx.ob(ok, 'one-char:%s' % C.short, '%s::from_value takes a text of several characters for a character' % C.short, fr.path, o.trace)


def is_len(C, k, arr):
    for x in (k[2], k[3]):
        if x == ('len', arr) or C.step(x) == ('len', arr):
            return True
        if x[:1] == ('len',) and x[1][:1] == ('seqmap',) and x[1][3] == arr and x[1][5] == 'vec':
            return True
    return False


def one(C, F):
    """do the facts say that a text is one character?"""
    for k, x in F.items():
        if isapp(k, 'str::parse', 2) and k[2][1] == ('ty', 'char') and x == frozenset({'Ok'}):
            return True
        if k[:1] == ('bin',):
            for y in k[2:]:
                if y[:1] == ('len',) and isapp(y[1], 'str::chars') and bounds(C, F, y) == (1, 1):
                    return True
    return False


def chars_checked(C, o, F, v, W):
    if C.short == 'char':
        yield 'char', one(C, F)
        return
    seen = False
    for l in loops(o.trace):
        for b in l.extra:
            seen = True
            yield 'key', one(C, {C.norm(k): x for k, x in trace_facts(W, b).items()})
    if not seen:
        yield 'loop', False
