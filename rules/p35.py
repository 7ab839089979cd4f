"""No safe operation goes past something that is missing: every path of every public safe function of nodes, trees, paths and pointers that ends in a panic or reaches an unchecked unwrap with nothing in it is shown to contradict the linkage of a consistent tree (P06), or to be one of the endings the documentation of the function names."""
from world import *
from rule import *
import scan
from p34 import value, near

RULE = 'conditions of a path that ends in a panic or an unchecked miss: contradict (id of a linked or looked-up node is in the table; its tree and owner are set), or are the documented ones of the function'
ASSUMES = ['P06: what a registered node names as child, parent or owner is registered, and its tree and owner are set', 'P23: a scene gives the parent before the child', 'P32: a walk down gives registered nodes, each once',
           'P09: a node whose operation runs is there until user code runs', 'a node made by clone_as_instance is in no tree (P24, P26)']
FILES = ('node_base.rs', 'node_tree_base.rs', 'node_path.rs', 'node_scene.rs', 'tree_pointer.rs', 'rid.rs', 'signals.rs', 'node_registry.rs', 'node.rs', 'node_getter.rs', 'instanceable.rs', 'tree_option.rs', 'tree_result.rs', 'node_field.rs')
# operations that say they panic for a node that is in no tree
NOTREE = set('this this_dyn register_as_singleton add_child add_child_from_ptr remove_child get_child get_child_dyn children get_node get_node_dyn get_node_raw top_down get_absolute_path post free save_as_branch owner '
             'owner_dyn parent parent_dyn num_children childless'.split())
POINTER = set('to_dyn get get_mut deref deref_mut'.split())
# what an operation may panic about besides
ROOT = {'root', 'root_mut'}
DUPES = {'get_nodes_mut', 'get_all_valid_nodes_mut'}
KNOWN = NOTREE | POINTER | ROOT | DUPES | set('set_name name rid depth is_root is_owner status set_status process initialize_base get_from clone save save_to_str queue_termination terminate register_as_singleton get_node_identity get_nodes '
                                              'get_all_valid_nodes get_node_mut get_node_raw get_node_mut_raw get_node_rid is_active has_terminated get_log iterate append push take retrieve modify emit connect connect_once disconnect'.split())


class Lw(World):
    """links keep the moment they were read"""
    nodes = ()   # parameters that are nodes

    def _nz(self, t):
        if isinstance(t, tuple) and t and t[0] == 'base':
            x = self.nz(t[1])
            if field_of(x, 'Some.0') and field_of(x[1], 'parent') and contains_name(x, 'items'):
                return ('B', ('SCENEPARENT', x))
            if x[:1] == ('app',) and x[1].endswith('clone_as_instance'):
                return ('B', ('FRESH', x))
            if x[:1] == ('sym',) and x[1] in self.nodes or x[:1] == ('app',) and x[1].startswith('rec:') and x[1].endswith(('::get_start', '::deref')):
                return ('B', ('GIVEN', x))
        if isinstance(t, tuple) and t and t[0] == 'fld':
            x = self.nz(t[1])
            if x[:1] == ('CHILDREN',) and isinstance(t[2], tuple) and t[2][0] == 'i':
                return ('CH', x[1], self.nz(t[2][1]), x[2])
        return World._nz(self, t)


def run(ctx, f, **kw):
    return ctx.run(f, ub=True, opaque=set() if 'NodeBase::top_down' in f.path else {'NodeBase::top_down'}, **kw)


class Judge:
    def __init__(self, I, W, o, root=False):
        self.I, self.W, self.root = I, W, root
        self.F = facts(W, o)
        self.raw = [(k, v) for k, v in o.state.facts.items() if k[0] in 'B' and len(k) == 2]
        self.walks = {l.args[0] if l.args else l.name for l in all_loops(o.trace) if 'NodeBase::top_down' in l.fn}

    def life(self, e):
        if isinstance(e, tuple) and e[:1] in (('pe',), ('phi',)) and e[1] in self.I.entry:
            return e if e[1] in self.I.broken else self.I.entry[e[1]]
        return self.I.lifeof(e)

    def within(self, b):
        J = Judge.__new__(Judge)
        J.__dict__.update(self.__dict__)
        J.F = dict(self.F, **{})
        J.F.update(trace_facts(self.W, b))
        return J

    def looked_up(self, x, e):
        """has this id been found in the table (in the same life)?"""
        return any(v is True and k[:1] == ('haskey',) and k[1][:1] == ('NODES',) and same_id(k[2], x) and self.life(k[1][1]) == self.life(e) for k, v in self.F.items() if isinstance(k, tuple))

    def walk(self, t):
        """what top_down gave (P32: registered nodes, each once): the moments it was made at, if it is one"""
        for x in subterms(t):
            if isinstance(x, tuple) and len(x) == 4 and x[:1] == ('app',) and x[1] in ('NodeBase::top_down', 'rec:NodeBase::top_down_tail'):
                return {self.life(z) for z in self.I.tag_epoch.get(x[3], ())} or {None}
            if isinstance(x, tuple) and x[:1] == ('phi',) and x[1] in self.walks:
                return {self.life(x)}
        return None

    def each(self, s, e, depth, hyp):
        """every element of the sequence s is in the table at e"""
        if depth > 8 or not isinstance(s, tuple):
            return False
        if s[:1] == ('vec',):
            return all(self.registered(x, e, depth + 1, hyp) for x in s[1])
        if s[:1] == ('push',):
            return self.each(s[1], e, depth + 1, hyp) and self.registered(s[2], e, depth + 1, hyp)
        if s[:1] == ('seqmap',):
            return self.registered(s[2], e, depth + 1, hyp)
        if s[:1] == ('phi',):
            return s in hyp or s in self.I.phis and self.life(s) == self.life(e) and self.steps(s, lambda v, h: self.each(v, e, depth + 1, h), hyp)
        return False

    def steps(self, p, ok, hyp):
        """what a loop carries: so at the start, and after each round if before it"""
        init, backs = self.I.phis[p]
        return all(isinstance(v, tuple) and ok(self.W.nz(v), hyp | {p}) for v in (init, *backs))

    def maybe(self, t, e, depth, hyp):
        """an Option of an id: nothing, or an id in the table"""
        if t[:1] == ('adt',) and t[2] in ('None', 'Some'):
            return t[2] == 'None' or self.registered(dict(t[3])['0'], e, depth + 1, hyp)
        if t[:1] == ('phi',):
            return t in hyp or t in self.I.phis and self.life(t) == self.life(e) and self.steps(t, lambda v, h: self.maybe(v, e, depth + 1, h), hyp)
        return t[:1] == ('fld',) and self.registered(('fld', t, 'Some.0'), e, depth + 1, hyp)

    def registered(self, x, e, depth=0, hyp=frozenset()):
        """is the id x in the table at moment e, given the invariants?"""
        if depth > 8 or not isinstance(x, tuple):
            return False
        if self.looked_up(x, e):
            return True
        if x[:1] == ('SCENEPARENT',):
            return True
        if x == ('SELF',):
            return self.life(e) == self.life(0) and any(k == ('fld', ('NB', x, k[1][2]), 'tree') and v == frozenset(['Some']) for k, v in self.F.items() if isinstance(k, tuple) and k[:1] == ('fld',) and k[1][:1] == ('NB',))
        if x[:1] == ('GIVEN',):
            # a node that was handed over, or found by climbing: as SELF
            then = {0} if x[1][:1] == ('sym',) else self.I.tag_epoch.get(x[1][3], ())
            return any(self.life(z) == self.life(e) for z in then) and any(k[:1] == ('fld',) and k[2] == 'tree' and k[1][:2] == ('NB', x) and v == frozenset(['Some']) for k, v in self.F.items() if isinstance(k, tuple))
        if x[:1] == ('CH',):
            return self.life(x[3]) == self.life(e) and self.registered(x[1], x[3], depth + 1, hyp)
        if field_of(x, 'Some.0') and x[1][:1] == ('fld',) and x[1][2] in ('parent', 'owner') and x[1][1][:1] == ('NB',):
            nb = x[1][1]
            return self.life(nb[2]) == self.life(e) and self.registered(nb[1], nb[2], depth + 1, hyp)
        # an element of a walk down, as long as no user code runs
        made = self.walk(x)
        if made is not None:
            return self.life(e) in made
        if field_of(x, 'Some.0') and x[1][:1] == ('phi',):
            return self.maybe(x[1], e, depth, hyp)
        if x[:1] == ('phi',):
            return x in hyp or x in self.I.phis and self.life(x) == self.life(e) and self.steps(x, lambda v, h: self.registered(v, e, depth + 1, h), hyp)
        if x[:1] == ('fld',) and isinstance(x[2], tuple) and x[2][:1] == ('i',) and x[1][:1] in (('phi',), ('vec',), ('push',)):
            return self.each(x[1], e, depth + 1, hyp)
        # an element of what was made from nodes that are there
        if x[:1] == ('fld',) and isinstance(x[2], tuple) and x[2][:1] == ('i',) and x[1][:1] == ('seqmap',):
            return self.registered(x[1][2], e, depth + 1, hyp)
        return False

    def found(self, t):
        """the lookups a sequence was made by: (id, moment)"""
        return [(x[1], x[2]) for x in subterms(t) if isinstance(x, tuple) and x[:1] == ('NP',) and len(x) == 3]

    def impossible(self):
        both = {}
        for k, v in self.raw:
            if both.setdefault(self.W.nz(k[1]), v) != v and isinstance(v, bool):
                return 'the same question, two answers'
        for k, v in self.F.items():
            if not isinstance(k, tuple):
                continue
            if k[:1] == ('haskey',) and v is False and k[1][:1] == ('NODES',) and self.registered_but(k[2], k[1][1]):
                return 'the table has the id'
            if k[:1] == ('haskey',) and v is False and k[2] == ('int', 0) and k[1][:1] == ('NODES',) and any(isinstance(q, tuple) and q[:1] == ('fld',) and q[1] == ('T', k[1][1]) and q[2] == 'status' and isinstance(w, frozenset) and 'Terminated' not in w for q, w in self.F.items()):
                return 'an active tree has its root'
            if v is False and k[:2] == ('bin', 'Eq') and k[2][:1] == k[3][:1] == ('len',) and any(x[:1] == ('seqmap',) and x[-1] == 'set' and self.walk(x[3]) is not None and x[3] == y for x, y in ((k[2][1], k[3][1]), (k[3][1], k[2][1]))):
                return 'a walk gives each node once'
            if v is True and k[:1] == ('haskey',) and k[1][:1] == ('phi',) and (k[2][:1] == ('int',) or self.walk(k[2]) is not None):
                return 'a walk gives each node once'   # the set of those seen before (P28)
            if v is False and k[:2] == ('bin', 'Eq') and any(x == ('int', 1) and y[:1] == ('len',) and y[1][:2] == ('minsert', ('emptymap',)) for x, y in ((k[2], k[3]), (k[3], k[2]))):
                return 'one is one'
            if v == frozenset(['None']) and k[:1] == ('fld',) and k[1][:1] == ('seqmap',):
                val = k[1][2]
                opts = [x for x in (val[1] if val[:1] == ('alts',) else (val,)) if isinstance(x, tuple)]
                ids = [self.found(x) for x in opts if x[:1] == ('adt',) and x[2] == 'Some']
                if ids and all(i and self.registered(*i[-1]) for i in ids):
                    return 'every lookup finds its node'
            if v == frozenset(['None']) and k[:1] == ('alts',):
                # an element of a list a loop filled with what a lookup found
                ids = [self.found(x) for x in k[1] if isinstance(x, tuple) and x[:1] == ('adt',) and x[2] == 'Some']
                if ids and all(i and self.registered(*i[-1]) for i in ids):
                    return 'every lookup finds its node'
            if k[:1] == ('fld',) and k[2] in ('tree', 'owner') and v == frozenset(['None']) and k[1][:1] == ('NB',):
                x, e = k[1][1], k[1][2]
                if self.registered(x, e) and not (x == ('SELF',) and k[2] == 'tree' and self.only_none(e)):
                    return 'a registered node has a tree and an owner'
                if x == ('SELF',) and k[2] == 'tree' and self.had_tree():
                    return 'the tree of a node stays'
            if k[:1] == ('fld',) and k[2] == 'tree' and v == frozenset(['Some']) and k[1][:1] == ('NB',) and k[1][1][:1] == ('FRESH',):
                return 'a new node is in no tree'
        return None

    def registered_but(self, x, e):
        """as registered(), not using the lookup that failed"""
        return self.registered(x, e)

    def had_tree(self):
        return any(v == frozenset(['Some']) and k[:1] == ('fld',) and k[2] == 'tree' and k[1][:2] == ('NB', ('SELF',)) for k, v in self.F.items() if isinstance(k, tuple))

    def only_none(self, e):
        return False


def same_id(a, b):
    return a == b


def I_name(P, k):
    f = P.fns[k]
    if 'self_ty' in f.j:
        return strip_generics(P.ty(f.crate, f.j['self_ty'])['s'].lstrip('&')).split('::')[-1] + '::' + f.j.get('nm', '?')
    return f.path.split('::')[-1]


def node_args(P, f):
    return {f.locals[i][1] or 'a%d' % i for i in range(1, f.argc + 1) if P.ty(f.crate, f.locals[i][0])['s'].replace('mut ', '').replace('&', '').split("'")[0].strip().startswith('dyn ') and 'Node' in P.ty(f.crate, f.locals[i][0])['s']}


def params(f):
    return [f.locals[i][1] or 'a%d' % i for i in range(1, f.argc + 1)]


def tree_args(P, f):
    r = {}
    for i in range(1, f.argc + 1):
        t = P.ty(f.crate, f.locals[i][0])['s'].lstrip('&').replace('mut ', '').replace('*', '').split('::')[-1]
        if t in ('NodeTreeBase', ):
            r[('sym', f.locals[i][1] or 'a%d' % i)] = ('TREE',)
    return r


def check(ctx):
    P = ctx.P
    n = n_ix = n_post = n_rec = 0
    needs, variants = set(), {}
    hooked = {I_name(P, k) for k in P.fns if P.may_hook(k)} - set(POSTS)
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.crate != 'node_tree' or not f.local or '{closure' in f.key or 'promoted' in f.path or not (f.j.get('pub') and not f.j.get('unsafe') or P.recursive(f)):
            continue
        if not str(f.j.get('span', '')).split(':')[0].endswith(FILES):
            continue
        nm = f.path.split('::')[-1]
        own = 'node' if 'NodeBase::' in f.path and 'NodeTreeBase' not in f.path else None
        W = Lw(own, fixed=tree_args(P, f))
        outs, I = run(ctx, f)
        n += 1
        inner = not f.j.get('pub')
        for o in outs:
            if o.kind not in ('ub', 'panic'):
                continue
            J = Judge(I, W, o)
            why = J.impossible()
            if not why and o.kind == 'panic':
                why = documented(J, nm, own)
            if not why and inner and own and bare(J):
                # a step of a recursion, which is entered for nodes of a tree only (below)
                why = 'precondition: in a tree'
                needs.add(f.key)
            if not why and inner and o.kind == 'panic' and '::Tp' in f.path:
                why = 'P08'
            if not why and inner:
                # or for some variants of a parameter only
                for k, v in J.F.items():
                    if k[:1] == ('sym',) and k[1] in params(f) and isinstance(v, frozenset) and len(v) == 1:
                        why = 'precondition: %s is not %s' % (k[1], set(v))
                        variants.setdefault(f.key, set()).add((k[1], *v))
            if o.kind == 'ub' or nm in KNOWN or inner:
                ctx.ob(why, '%s:%s' % (f.path.replace('structs::', ''), 'missing' if o.kind == 'ub' else 'panics'),
                       '%s %s when %s' % (nm, 'goes on without a value that is missing' if o.kind == 'ub' else 'panics', ', '.join('%s is %s' % (show(k), set(v) if isinstance(v, frozenset) else v) for k, v in list(J.F.items())[-3:])), str(where(o.trace[-1]))[-120:], o.trace)
        if nm.startswith('load'):
            continue   # P19
        for o in outs:
            if o.kind != 'ret':
                continue
            J = Judge(I, W, o)
            for e, J2 in within(J, o.trace):
                if e.kind == 'mayfail' and e.name in ('index', 'Vec::remove', 'slice range', 'map index', 'get_unchecked', 'str slice'):
                    n_ix += 1
                    ctx.ob(in_bounds(J2, e, o), '%s:%s' % (f.path.replace('structs::', ''), e.name), '%s takes an element that may not be there: %s' % (nm, [show(W.nz(a))[:160] for a in e.args if isinstance(a, tuple)]), str(where(e))[-120:], o.trace)
            for what in posts(ctx, J, o.trace, hooked) if nm != 'post' else ():
                n_post += 1
                ctx.ob(what[0], '%s:posts' % f.path.replace('structs::', ''), '%s logs in the name of %s, which a hook may have freed' % (nm, what[1]), what[2], o.trace)
    # recursions that need a tree: each step goes on to nodes of the tree
    for f in P.fns.values():
        if f.key in needs:
            W = Lw('node', fixed=tree_args(P, f))
            outs, I = run(ctx, f)
            for o in outs:
                J = Judge(I, W, o)
                for e in flat(o.trace):
                    if e.kind == 'rec':
                        x = W.nz(plain(e.args[0]))
                        x = x[1] if x[:1] in (('B',), ('NB',)) else x
                        n_rec += 1
                        ctx.ob(J.registered(x, 0), '%s:goes on' % f.path.replace('structs::', ''), 'goes on to %s, which is not known to be in the tree' % show(x), str(where(e))[-100:], o.trace)
    # and every call, from outside or from a step, gives no variant that a step does not take
    for f in P.fns.values() if variants else ():
        if not f.local or 'promoted' in f.path or not any(cj.get('rk') in variants for cj, _ in P.callees(f)):
            continue
        W = Lw(None)
        outs, I = ctx.run(f, opaque={'NodeTreeBase::' + k.split('::')[-1] for k in variants})
        for o in outs:
            J = Judge(I, W, o)
            for e in flat(o.trace):
                g = next((P.fns[k] for k in variants if e.kind in ('rec', 'call') and e.name.split('::')[-1] == k.split('::')[-1]), None)
                if g is not None:
                    for pn, v in variants[g.key]:
                        a = W.nz(e.args[params(g).index(pn)])
                        n_rec += 1
                        same = f.key == g.key and a == ('sym', pn)
                        ctx.ob(same or a[:1] == ('adt',) and a[2] != v or v not in J.F.get(a, (v,)), '%s:%s' % (f.path.replace('structs::', ''), pn), '%s may call %s with the %s %s, for which it panics' % (f.path.split('::')[-1], g.path.split('::')[-1], pn, v), str(where(e))[-100:], o.trace)
    ctx.floor(n_rec, len(needs), 'steps of recursions')
    ctx.floor(n, 60, 'public safe functions')
    ctx.floor(n_ix, 5, 'accesses by index')
    ctx.floor(n_post, 20, 'log entries')


def within(J, trace):
    """all events, each with the facts of the body it is in"""
    for e in trace:
        if e.kind == 'loop':
            for b in e.extra:
                yield from within(J.within(b), b)
        else:
            yield e, J


def in_bounds(J, e, o):
    W = J.W
    a = [W.nz(x) for x in e.args]
    if e.name in ('index', 'Vec::remove'):
        i, n = a[0], a[1]
        if i[:1] == ('ix',) and n[:1] == ('len',) and any(w and ('ix', w[0]) == i and W.nz(w[2]) == n[1] for w in map(walk_of, all_loops(o.trace))):
            return True   # an element of a walk over the sequence itself
        if i[:1] == ('ix',) and n[:1] == ('len',) and n[1][:1] == ('CHILDREN',):
            # the index of an element of a walk over the same children
            for l in all_loops(o.trace):
                w = walk_of(l)
                if w and ('ix', w[0]) == i and any(isinstance(x, tuple) and x[:2] == ('CHILDREN', n[1][1]) and J.life(x[2]) == J.life(n[1][2]) for x in subterms(W.nz(w[2]))):
                    return True
            return False
        rel = [(k, v) for k, v in J.F.items() if isinstance(v, bool) and isinstance(k, tuple) and k[:1] == ('bin',)]
        ns = near({k: v for k, v in rel})
        for x in ns:
            for y in ns:
                env = {i: x, n: y}
                if all(value(k, env) in (None, v) for k, v in rel) and not x < y:
                    return False
        return True
    if e.name == 'str slice':
        v, r = a[0], a[1]
        return any(isinstance(t, tuple) and t[:1] == ('app',) and t[1].startswith('str::trim') and plain(t[2][0]) == plain(v) for t in subterms(r))
    return False


POSTS = ('NodeTreeBase::post', 'NodeBase::post', 'Logger::post')


def posts(ctx, J, trace, hooked, seen=None, gone=None):
    """every log entry: is the node it names known to be there? (ok, name, where)"""
    W = J.W
    known = {} if seen is None else dict(seen)
    gone = set() if gone is None else gone
    run_user = [seen is not None and seen.get('user', False)]
    for e in trace:
        if e.kind == 'loop':
            user = any(is_user(x, hooked) for b in e.extra for x in flat(b))
            if user:
                known = {}
                run_user[0] = True
            for b in e.extra:
                yield from posts(ctx, J.within(b), b, hooked, dict(known, user=run_user[0]), gone)
            continue
        if is_user(e, hooked):
            known = {}
            run_user[0] = True
        if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2 and e.args[1] is True:
            k = W.nz(e.args[0])
            if k[:1] == ('haskey',) and k[1][:1] == ('NODES',):
                known[k[2]] = True
        if e.kind == 'write' and e.name == 'map.remove' and contains_name(e.args[0], 'nodes'):
            gone.add(W.nz(e.args[1]))
        if e.kind == 'call' and e.name in POSTS:
            if e.name == 'NodeBase::post':
                x = W.nz(plain(e.args[0]))
                x = x[1] if x[:1] in (('B',), ('NB',)) else x
            else:
                x = W.nz(plain(e.args[1]))
            yield bool(x not in gone and (known.get(x) or not run_user[0] and J.registered(x, 0))), show(x), str(where(e))[-100:]


def is_user(e, hooked):
    return e.kind == 'usercall' or e.kind in ('call', 'rec') and (e.name in HOOKS or e.name in hooked)


HOOKS = ('Node::terminal', 'Node::ready', 'Node::loaded', 'Node::process')


def bare(J):
    return any(k[:1] == ('fld',) and k[2] == 'tree' and k[1][:2] == ('NB', ('SELF',)) and v == frozenset(['None']) for k, v in J.F.items() if isinstance(k, tuple))


def documented(J, nm, own):
    F = J.F
    if own and nm in NOTREE and bare(J):
        return 'documented: not in a tree'
    if nm == 'this' and any(k[:1] in (('app',), ('is_type',)) and 'is_type' in repr(k)[:40] and v is False for k, v in F.items()):
        return 'documented: wrong type'
    if nm in ROOT and any(k[:1] == ('haskey',) and v is False and k[2] == ('int', 0) for k, v in F.items()):
        return 'documented: no root'
    if nm in DUPES and any(k[:2] == ('bin', 'Eq') and v is False and contains_name(k, 'len') or v is True and k[:1] == ('haskey',) and k[1][:1] == ('phi',) for k, v in F.items()):
        return 'documented: duplicates'
    if nm in POINTER:
        return 'P08'
    return None
