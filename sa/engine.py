"""Path-sensitive abstract interpreter over MIR dumps (see DESIGN.md, section "Engine").

Abstract values are hash-consed provenance terms (tuples); control is explored over the inlined
CFG with enum-variant / boolean facts; every natural loop is widened to a generic iteration.
No code of /repo is executed and no solver is used: the domain is terms + finite variant sets.
"""
import json, re, sys, itertools
sys.setrecursionlimit(20000)

UNIT = ('unit',)
NONE = ('adt', 'std::option::Option', 'None', ())


def SOME(v):
    return ('adt', 'std::option::Option', 'Some', (('0', v),))


def OK(v):
    return ('adt', 'std::result::Result', 'Ok', (('0', v),))


def ERR(v):
    return ('adt', 'std::result::Result', 'Err', (('0', v),))


TRUE = ('bool', True)
FALSE = ('bool', False)


class AnalysisError(Exception):
    pass


def strip_generics(p):
    out = []
    depth = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            depth += 1
        elif c == '>' and p[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')


_norm = {}


def norm(p):
    r = _norm.get(p)
    if r is None:
        m = re.match(r'^<(.*) as (.*)>::(\w+)$', p)
        if m:
            tr = strip_generics(m.group(2)).split('::')[-1]
            r = tr + '::' + m.group(3)
        else:
            q = strip_generics(p).split('::')
            r = '::'.join(q[-2:])
        _norm[p] = r
    return r


class Fn:
    __slots__ = ('j', 'key', 'path', 'crate', 'blocks', 'locals', 'argc', 'loops', 'local', 'loop_of')

    def __init__(self, j, crate):
        self.j = j
        self.key = j['key']
        self.path = j['path']
        self.local = j['local']
        self.crate = crate
        self.init(j)

    def init(self, j):
        self.blocks = j['blocks']
        self.locals = j['locals']
        self.argc = j['argc']
        self.loops = None


def succs(b):
    t = b['t']
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


def find_loops(blocks):
    """natural loops: header -> set(blocks)"""
    n = len(blocks)
    order = []
    seen = set()
    stack = [(0, iter(succs(blocks[0])))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(succs(blocks[x]))))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = list(reversed(order))
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for x in succs(blocks[b]):
            preds[x].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for x in succs(blocks[b]):
            if dom(x, b):
                body = loops.setdefault(x, {x})
                st = [b]
                while st:
                    y = st.pop()
                    if y not in body:
                        body.add(y)
                        st.extend(preds[y])
    return loops


class Program:
    def __init__(self, files):
        self.fns = {}
        self.adts = {}
        self.traits = {}
        self.impls = []
        self.tys = {}
        for f in files:
            d = json.load(open(f))
            cr = d['crate']
            self.tys[cr] = d['tys']
            for j in d['fns']:
                if j['local'] or j['key'] not in self.fns:
                    self.fns[j['key']] = Fn(j, cr)
            for k, v in d['adts']:
                if v is not None and (k not in self.adts or v.get('local')):
                    self.adts[k] = v
                    if v.get('local'):
                        self.adts[cr + '::' + k] = v
            for t in d['traits']:
                self.traits[t['path']] = t
            for im in d['impls']:
                im = dict(im)
                im['crate'] = cr
                self.impls.append(im)
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault((f.crate, f.path), f)

    def ty(self, cr, ix):
        return self.tys[cr][ix]

    HOOKS = {'Node::loaded', 'Node::ready', 'Node::process', 'Node::terminal'}

    def callees(self, f):
        for b in f.blocks:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
                yield t[1][1]['fn'], b['sp']

    def recursive(self, f):
        """does the local function (or a closure of it) call itself, directly or through other local functions?"""
        if getattr(self, '_edges', None) is None:
            self._edges = {}
            for g in self.fns.values():
                if g.local:
                    self._edges.setdefault(g.key, set()).update(cj['rk'] for cj, _ in self.callees(g) if cj.get('rk'))
                    if g.j.get('parent'):
                        self._edges.setdefault(g.j['parent'], set()).add(g.key)
        seen, todo = set(), [f.key]
        while todo:
            for k in self._edges.get(todo.pop(), ()):
                if k == f.key:
                    return True
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
        return False

    def may_hook(self, key):
        """may a call of this local function run a user hook or user callback?"""
        if self._hooky is None:
            kids = {}
            for f in self.fns.values():
                if f.local and f.j.get('parent'):
                    kids.setdefault(f.j['parent'], []).append(f.key)
            direct, edges = set(), {}
            for f in self.fns.values():
                if not f.local:
                    continue
                es = set(kids.get(f.key, ()))
                for cj, _ in self.callees(f):
                    if norm(cj['p']) in self.HOOKS or cj['r'] == 'virtual' and norm(cj['p']) in ('FnMut::call_mut', 'FnOnce::call_once', 'Fn::call'):
                        direct.add(f.key)
                    if cj.get('rk'):
                        es.add(cj['rk'])
                edges[f.key] = es
            ch = True
            while ch:
                ch = False
                for k, es in edges.items():
                    if k not in direct and es & direct:
                        direct.add(k)
                        ch = True
            self._hooky = direct
        return key in self._hooky
    _hooky = None

    def find(self, suffix, crate=None):
        """functions whose path (without generics) ends with suffix"""
        r = []
        for f in self.fns.values():
            if not f.local or (crate and f.crate != crate):
                continue
            p = f.path
            if p == suffix or p.endswith('::' + suffix):
                r.append(f)
            else:
                q = strip_generics(p) if not p.startswith('<') else p
                if q == suffix or q.endswith('::' + suffix):
                    r.append(f)
        return r

    def one(self, suffix, crate='node_tree'):
        r = self.find(suffix, crate)
        if len(r) != 1:
            raise AnalysisError('anchor %r: %d functions match' % (suffix, len(r)))
        return r[0]

    def method(self, trait, meth, self_sub, crate='node_tree'):
        """the fn implementing trait (last path segment)::meth for a self type matching regex"""
        r = []
        for f in self.fns.values():
            if f.local and f.crate == crate and f.j.get('nm') == meth and f.j.get('impl_trait', '').split('::')[-1] == trait:
                t = self.ty(f.crate, f.j['self_ty'])['s']
                if re.search(self_sub, t):
                    r.append(f)
        return r

    def inherent(self, tyname, meth, crate='node_tree'):
        r = [f for f in self.fns.values() if f.local and f.crate == crate and f.j.get('nm') == meth and 'impl_key' in f.j and not f.j.get('impl_trait')
             and re.search(r'(^|::)%s(<|$)' % tyname, self.ty(f.crate, f.j['self_ty'])['s'])]
        if len(r) != 1:
            raise AnalysisError('anchor %s::%s: %d functions match' % (tyname, meth, len(r)))
        return r[0]


class State:
    __slots__ = ('cells', 'heap', 'facts', 'epoch', 'vers', 'trace', 'known')

    def __init__(self):
        self.cells = {}
        self.heap = {}
        self.facts = {}
        self.epoch = 0
        self.vers = {}    # map location -> version tag
        self.known = {}   # (maploc) -> tuple of (key, value|None)
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.epoch = self.epoch
        s.vers = dict(self.vers)
        s.known = dict(self.known)
        s.trace = self.trace
        return s

    def add(self, ev):
        self.trace = (self.trace, ev)


def trace_list(tr, upto=None):
    out = []
    while tr is not upto:
        out.append(tr[1])
        tr = tr[0]
    out.reverse()
    return out


class Ev:
    """kind: call | write | assume | loop | panic | drop | lock | unlock | mayfail | ub | rec"""
    __slots__ = ('kind', 'name', 'args', 'ret', 'sp', 'fn', 'extra')

    def __init__(self, kind, name, args=(), ret=None, sp='', fn='', extra=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.ret = ret
        self.sp = sp
        self.fn = fn
        self.extra = extra

    def __repr__(self):
        if self.kind == 'loop':
            return 'LOOP#%s{%s}' % (self.name, ' || '.join('; '.join(map(repr, b)) for b in self.extra))
        return '%s %s(%s)%s @%s' % (self.kind, self.name, ', '.join(show(a) for a in self.args), '' if self.ret is None else '->' + show(self.ret), self.sp.split('/')[-1])


class Outcome:
    __slots__ = ('kind', 'state', 'value', 'trace')

    def __init__(self, kind, state, value):
        self.kind = kind
        self.state = state
        self.value = value
        self.trace = trace_list(state.trace)


def show(v, d=0):
    try:
        return _show(v, d)
    except (IndexError, TypeError, AttributeError, ValueError):
        return 'term:' + repr(v)[:80]


def _show(v, d=0):
    if not isinstance(v, tuple):
        return str(v)
    k = v[0] if v else ''
    if d > 9:
        return '…'
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, d + 1) for x in v) + ')'
    if k in ('int', 'bool', 'char'):
        return str(v[1])
    if k == 'str':
        return json.dumps(v[1])
    if k == 'sym':
        return v[1]
    if k == 'adt':
        nm = v[1].split('::')[-1]
        return (nm + '::' + v[2] if v[2] != nm else nm) + ('(' + ', '.join(show(x[1], d + 1) for x in v[3]) + ')' if v[3] else '')
    if k == 'obj':
        return '*' + show(v[1], d + 1) + ('' if v[2] == 0 else '@%s' % (v[2],))
    if k == 'fld':
        return show(v[1], d + 1) + '.' + (v[2] if isinstance(v[2], str) else '[%s]' % show(v[2][1], d + 1) if isinstance(v[2], tuple) and len(v[2]) > 1 else str(v[2]))
    if k == 'ref':
        return '&' + show_loc(v[1], d + 1)
    if k == 'app':
        return '%s(%s)%s' % (v[1], ', '.join(show(a, d + 1) for a in v[2]), '' if v[3] is None else '#%s' % (v[3],))
    if k == 'tup':
        return '(' + ', '.join(show(x, d + 1) for x in v[1]) + ')'
    if k in ('vec', 'arr'):
        return k + '[' + ', '.join(show(x, d + 1) for x in v[1]) + ']'
    if k == 'clo':
        return 'closure:' + v[1].split('::')[-2] + '(' + ','.join(show(x, d + 1) for x in v[2]) + ')'
    if k == 'base':
        return 'base(%s)' % show(v[1], d + 1)
    if k == 'bin':
        return '(%s %s %s)' % (show(v[2], d + 1), v[1], show(v[3], d + 1))
    return k + '(' + ', '.join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in v[1:]) + ')'


def show_loc(l, d=0):
    root, proj = l
    s = 'c%s' % (root[1],) if root[0] == 'cell' else '*' + show(root[1], d + 1)
    for e in proj:
        s += '.' + (e if isinstance(e, str) else '[%s]' % (show(e[1], d + 1) if len(e) > 1 and isinstance(e[1], tuple) else e,))
    return s


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, u):
    return any(x == u for x in subterms(t))
