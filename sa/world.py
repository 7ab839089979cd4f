"""Vocabulary shared by the rules: what terms of the analysed program mean for a node tree.

nz(t) rewrites a provenance term with the linkage invariants (P06 establishes them):
  ('TREE',)            pointer to the tree a node is connected to
  ('T', ep)            its content at epoch ep
  ('NP', rid, ep)      the node pointer stored under rid in the tree's table, read at epoch ep
  ('B', rid)           the base of the node registered under rid
  ('NB', rid, ep)      its content at epoch ep;  a node's own rid field is rid itself
  ('CH', rid, ix)      the rid stored at index ix of the children of node rid
"""
from engine import *


class World:
    def __init__(self, self_kind=None, tree_syms=(), fixed=()):
        """self_kind: what the symbol `self` points to: 'tree', 'node' or None"""
        self.memo = {}
        self.tree_syms = set(tree_syms)
        self.fixed = dict(fixed)
        if self_kind == 'tree':
            self.fixed[('sym', 'self')] = ('TREE',)
        elif self_kind == 'node':
            self.fixed[('sym', 'self')] = ('B', ('SELF',))

    def nz(self, t):
        if not isinstance(t, tuple):
            return t
        r = self.memo.get(t)
        if r is None:
            try:
                r = self._nz(t)
            except IndexError:
                r = t
            self.memo[t] = r
        return r

    def _nz(self, t):
        if t in self.fixed:
            return self.fixed[t]
        if not t or not isinstance(t[0], str):
            return tuple(self.nz(x) for x in t)
        k = t[0]
        if k == 'mut':
            # (mut, call, argno, old)
            old = self.nz(t[3])
            if isinstance(old, tuple) and old and old[0] in ('T', 'NB'):
                return old[:-1] + (('after', t[1][3] if len(t[1]) > 3 else t[1]),)
            return ('mut', t[1], t[2], old)
        t = (k,) + tuple(self.nz(x) for x in t[1:])
        if k == 'base':
            x = t[1]
            if x[0] == 'NP':
                return ('B', x[1])
            if x[0] in ('TREE', 'B'):
                return x
            if x[0] == 'TREEPTR':
                return ('TREE',)
            if x in self.tree_syms:
                return ('TREE',)
            if x[0] == 'fld' and x[2] == 'tree':
                return ('TREE',)
            if x[0] == 'fld' and x[2] == 'Some.0' and x[1][0] == 'fld' and x[1][2] == 'tree':
                return ('TREE',)
        elif k == 'phi':
            q = t[2]
            if isinstance(q, tuple) and len(q) == 2 and q[0] == 'h':
                if q[1] == ('TREE',):
                    return ('T', ('phi', t[1]))
                if q[1][0] == 'B':
                    return ('NB', q[1][1], ('phi', t[1]))
        elif k == 'obj':
            if t[1] == ('TREE',):
                return ('T', t[2])
            if t[1][0] == 'B':
                return ('NB', t[1][1], t[2])
            if t[1][0] == 'NP':
                return ('NODE', t[1][1], t[2])
        elif k == 'fld':
            x, f = t[1], t[2]
            if x[0] == 'T' and f == 'nodes':
                return ('TN', x[1])
            if x[0] == 'TN' and f == 'data':
                return ('NODES', x[1])
            if x[0] == 'NODES' and isinstance(f, tuple) and f[0] == 'k':
                return ('NP', f[1], x[1])
            if x[0] == 'NB':
                if f == 'rid':
                    return x[1]
                if f == 'children':
                    return ('CHILDREN', x[1], x[2])
            if x[0] == 'fld' and f == 'Some.0' and x[2] == 'tree':
                return ('TREEPTR',)
            if x[0] == 'CHILDREN' and isinstance(f, tuple) and f[0] == 'i':
                return ('CH', x[1], f[1])
            if f == 'node' and x[0] == 'fld' and isinstance(x[2], tuple) and x[2][0] == 'i' and x[1][0] == 'app' and x[1][1] == 'NodeBase::children':
                b = x[1][2][0]
                if b[0] == 'B':
                    return ('CH', b[1], x[2][1])
                if b[0] == '&' and b[1][0] == 'NB':
                    return ('CH', b[1][1], x[2][1])
            if f == 'rid' and x[0] == 'NODE':
                return x[1]
        return t


def flat(trace, depth=0):
    """all events, loop bodies included (each body once)"""
    for e in trace:
        if e.kind == 'loop':
            for b in e.extra:
                yield from flat(b, depth + 1)
        else:
            yield e


def calls(trace, *names, deep=True):
    return [e for e in (flat(trace) if deep else trace) if e.kind == 'call' and e.name in names]


def hooks(trace):
    return calls(trace, 'Node::loaded', 'Node::ready', 'Node::process', 'Node::terminal')


def loops(trace):
    return [e for e in trace if e.kind == 'loop']


def field_of(t, name):
    """term is a read of field `name`"""
    return isinstance(t, tuple) and t[:1] == ('fld',) and t[2] == name


def facts(W, o):
    """normalised facts of a path: {term: frozenset of variants | bool}"""
    r = {}
    for k, v in o.state.facts.items():
        if k[0] in 'VB' and len(k) == 2:
            t = W.nz(k[1])
            if k[0] == 'V' and t in r and isinstance(r[t], frozenset):
                v = r[t] & v
            r[t] = v
    return r


ALL_MODES = ('Inherit', 'Always', 'Pausable', 'Inverse')
ALL_STATUS = ('Process', 'QueuedTermination', 'Terminating', 'Terminated')


def rec_events(trace):
    return [e for e in flat(trace) if e.kind == 'rec']


def iter_ends(trace):
    """sources of the loops of this trace that ran to exhaustion"""
    return [e for e in trace if e.kind == 'iter' and e.name == 'end']


def same_epoch(a, b):
    """is the epoch of a read the epoch of an event? (the content a loop starts with is the one of the loop's epoch)"""
    n = lambda x: ('phi',) + x[1:] if isinstance(x, tuple) and x[:1] == ('pe',) else x
    return n(a) == n(b)


def stale(W, t, now):
    """node pointers read from the table at another epoch than `now`"""
    return [x for x in subterms(W.nz(t)) if isinstance(x, tuple) and x[:1] == ('NP',) and not same_epoch(x[2], now)]


# ------------------------------------------------------------ loops over sequences
def walk_of(l):
    """(tag, in order and complete?, sequence) of the iteration that drives a loop; None if there is none"""
    common = None
    for b in l.extra:
        its = {e.extra[0]: e for e in b if e.kind == 'iter' and e.name in ('item', 'skip') and e.extra}
        common = its if common is None else {k: v for k, v in common.items() if k in its}
    for tag, e in (common or {}).items():
        return e.extra
    return None


def all_loops(trace):
    for e in trace:
        if e.kind == 'loop':
            yield e
            for b in e.extra:
                yield from all_loops(b)


def members(I, W, trace, seq):
    """how a collected sequence came about: (base sequence, [(body, [collected values])]) of the loop that collected
    it to its end; None if there is no such loop"""
    if not (isinstance(seq, tuple) and seq[:1] == ('seqmap',)):
        return None
    tags = I.collects.get(seq[1][1], ())
    for l in all_loops(trace):
        w = walk_of(l)
        if w and w[0] in tags:
            TB = seq[1]
            out = []
            for b in l.extra:
                vs = []
                for e in flat(b):
                    if e.kind == 'collect':
                        vs.append(subst(W.nz(e.args[0]), TB, ('ix', w[0])))
                    elif e.kind == 'write' and e.name == 'vec.push':
                        v = W.nz(e.args[1])
                        els = seq[2][1] if seq[2][0] == 'alts' else (seq[2],)
                        if subst(v, ('ix', w[0]), TB) in [W.nz(x) for x in els]:
                            vs.append(v)
                out.append((b, vs))
            base = w[2]
            while isinstance(base, tuple) and base[:1] in (('filter',), ('filter_map',)):
                base = base[1]
            return w, base, out
    return None


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def completed(trace, tag):
    return any(e.kind == 'iter' and e.name == 'end' and e.extra and e.extra[0] == tag for e in trace)


def element(I, W, walk):
    """the (normalised) element of one iteration of a walk"""
    tag, al, base = walk
    return W.nz(I.walk1(State(), base, ('i', ('ix', tag))))


def body_bools(W, b):
    """boolean facts assumed in a loop body (or trace)"""
    return {W.nz(e.args[0]): e.args[1] for e in b if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2}


def has_key(facts_, rid):
    """is rid in the tree's table? looked up in a dict of facts; None if not asked"""
    vs = [v for k, v in facts_.items() if isinstance(k, tuple) and k[:1] == ('haskey',) and k[2] == rid and isinstance(k[1], tuple) and k[1][:1] == ('NODES',)]
    return vs[-1] if vs else None


def child_list(t):
    """rid of the node whose child list a (normalised) sequence is"""
    if isinstance(t, tuple) and t:
        if t[0] == 'CHILDREN':
            return t[1]
        if t[0] == 'app' and t[1] == 'NodeBase::children':
            b = t[2][0]
            if b[0] == 'B':
                return b[1]
            if b[0] == '&' and b[1][0] == 'NB':
                return b[1][1]


def plain(t):
    """a value without borrows, copies and conversions between string types"""
    while isinstance(t, tuple) and t:
        if t[0] in ('&', 'deref') and len(t) == 2 and isinstance(t[1], tuple):
            t = t[1]
        elif t[0] == 'obj' and len(t) == 3 and isinstance(t[1], tuple) and (t[1][:1] in (('sym',), ('cat',), ('mapkey',), ('str',), ('E',)) or t[1][:1] == ('fld',) and t[2] == 0):
            t = t[1]
        elif t[0] == 'app' and t[2] and t[1].endswith(('::to_string', '::as_str', '::deref', '::clone', '::to_owned', '::into', '::borrow', '::as_ref')):
            t = t[2][0]
        else:
            return t
    return t


def eq_facts(F):
    """[(a, b, equal?)] of the equalities among facts {term: bool}"""
    r = []
    for k, v in F.items():
        if isinstance(k, tuple) and isinstance(v, bool) and k[:2] in (('bin', 'Eq'), ('bin', 'Ne')):
            r.append((plain(k[2]), plain(k[3]), v == (k[1] == 'Eq')))
    return r


def equal(F, a, b):
    """do facts say that a and b are equal? True / False / None"""
    a, b = plain(a), plain(b)
    for x, y, v in eq_facts(F):
        if (x, y) == (a, b) or (y, x) == (a, b):
            return v


def not_member(I, W, trace, seq, v, name=lambda x: x):
    """does a search of the whole sequence on this trace show that v equals none of its elements?"""
    for l in loops(trace):
        w = walk_of(l)
        if w and w[1] and completed(trace, w[0]) and W.nz(w[2]) == seq:
            el = element(I, W, w)
            if all(equal(body_bools(W, b), el, v) is False for b in l.extra):
                return True
    return False


def contains_name(t, n):
    """does a name occur anywhere in a term?"""
    if isinstance(t, tuple):
        return any(contains_name(x, n) for x in t)
    return t == n


def place(t, ep=0):
    """the content a reference points to, as a read at epoch ep"""
    if isinstance(t, tuple) and t[:1] == ('ref',) and isinstance(t[1], tuple) and t[1][0][0] != 'cell':
        r = ('obj', t[1][0][1], ep)
        for f in t[1][1]:
            r = ('fld', r, f)
        return r
    return t


# ------------------------------------------------------------ what a chain of filters and maps does to one element
def simp(I, t):
    """projections of values that are known"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(simp(I, x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'fld' and len(t) == 3 and isinstance(t[1], tuple) and t[1][:1] in (('adt',), ('tup',)) and isinstance(t[2], str):
        try:
            return I.walk1(State(), t[1], t[2])
        except Exception:
            return t
    return t


def merge_fact(F, k, v):
    """add a fact to F; False if it contradicts"""
    if isinstance(v, frozenset):
        if k[:1] == ('adt',):
            return k[2] in v
        old = F.get(k)
        v = v if old is None else v & old
        F[k] = v
        return bool(v)
    if k[:2] == ('bin', 'Eq') and k[2][:1] == k[3][:1] == ('str',):
        return v == (k[2] == k[3])
    if k in F and F[k] != v:
        return False
    F[k] = v
    return True


def trace_facts(W, b):
    r = {}
    for e in b:
        if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2:
            r[W.nz(e.args[0])] = e.args[1]
        elif e.kind == 'assume' and e.name == 'variant':
            vs = e.args[1] if isinstance(e.args[1], (tuple, frozenset, list, set)) else (e.args[1],)
            r[W.nz(e.args[0])] = frozenset(vs)
    return r


E_ = ('E',)


def fates(I, W, trace, seq):
    """(base sequence, [(facts about an element ('E',) of it, values it turns into)]) of a sequence made from a base
    by complete walks in order; None if it is not such a sequence"""
    seq = W.nz(seq)
    if seq[:1] == ('vretain',):
        inner = fates(I, W, trace, seq[1])
        if inner is None:
            return None
        for l in all_loops(trace):
            w = walk_of(l)
            if w and W.nz(w[2]) == seq[1] and completed(trace, w[0]) and any(e.name.startswith('vec.retain.') for b in l.extra for e in b if e.kind == 'write'):
                el = element(I, W, w)
                bodies = []
                for b in l.extra:
                    k = [e.name.split('.')[-1] for e in b if e.kind == 'write' and e.name.startswith('vec.retain.')]
                    if len(k) != 1:
                        return None
                    bodies.append((trace_facts(W, b), [el] if k[0] == 'keep' else []))
                return inner[0], compose(I, inner[1], el, bodies)
        return None
    if seq[:1] == ('seqmap',):
        m = members(I, W, trace, seq)
        if m is None or not completed(trace, m[0][0]):
            return None
        base = W.nz(m[1])
        while base[:1] in (('filter',), ('filter_map',)):
            base = base[1]
        inner = fates(I, W, trace, base)
        if inner is None:
            return None
        el = W.nz(('fld', base, ('i', ('ix', m[0][0]))))
        return inner[0], compose(I, inner[1], el, [(trace_facts(W, b), vs) for b, vs in m[2]])
    if seq == ('vec', ()):
        return seq, []
    return seq, [({}, [E_])]


def compose(I, inner, el, bodies):
    out = []
    for F0, vals in inner:
        acc = [(dict(F0), [])]
        for v in vals:
            nxt = []
            for F, vs in acc:
                for bf, bv in bodies:
                    G = dict(F)
                    ok = True
                    for k, t in bf.items():
                        ok = ok and merge_fact(G, simp(I, subst(k, el, v)), t)
                    if ok:
                        nxt.append((G, vs + [simp(I, subst(x, el, v)) for x in bv]))
            acc = nxt
        out += acc
    return out


DISCR = {'std::option::Option': ('None', 'Some'), 'core::option::Option': ('None', 'Some'), 'std::result::Result': ('Ok', 'Err'), 'core::result::Result': ('Ok', 'Err')}


def evalb(v, A):
    """value of a boolean term where A gives the variants and truth values of its parts; None if they do not decide it"""
    if v in (TRUE, FALSE):
        return v == TRUE
    if v in A and isinstance(A[v], bool):
        return A[v]
    if v[:2] == ('un', 'Not'):
        r = evalb(v[2], A)
        return None if r is None else not r
    if v[:1] == ('bin',):
        op, a, b = v[1], v[2], v[3]
        if op in ('BitAnd', 'And', 'BitOr', 'Or'):
            x, y = evalb(a, A), evalb(b, A)
            if op in ('BitAnd', 'And'):
                return False if False in (x, y) else True if (x, y) == (True, True) else None
            return True if True in (x, y) else False if (x, y) == (False, False) else None
        for p, q in ((a, b), (b, a)):
            if p[:1] == ('discr',) and q[:1] == ('int',) and op in ('Eq', 'Ne'):
                names, is_ = DISCR.get(p[2]), A.get(p[1])
                if isinstance(is_, frozenset) and len(is_) == 1:
                    is_ = next(iter(is_))
                if names and isinstance(is_, str) and isinstance(q[1], int) and q[1] < len(names):
                    return (names[q[1]] == is_) == (op == 'Eq')
        if op in ('Eq', 'Ne') and (v[:1] + (('Ne' if op == 'Eq' else 'Eq'),) + v[2:]) in A:
            r = A[v[:1] + (('Ne' if op == 'Eq' else 'Eq'),) + v[2:]]
            return not r if isinstance(r, bool) else None
    return None
