"""The vocabulary of scene files: what the writer (NodeScene::save_to_str) puts into a document and what the reader
(NodeScene::load_from_str) takes out of it, both read off all paths of the two functions."""
from world import *
from rule import where


def canon(t):
    """terms without borrows and times of reads; copies of strings are the strings"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'ref' and isinstance(t[1], tuple) and t[1][0][0] != 'cell':
        return canon(place(t))
    if t[0] in ('&', 'deref') and len(t) == 2:
        return canon(t[1])
    if t[0] == 'obj' and len(t) == 3:
        x = canon(t[1])
        return ('obj', x) if x[:1] == ('base',) else x
    if t[0] == 'app' and len(t[2]) == 1 and t[1].split('::')[-1] in ('clone', 'to_owned', 'to_string', 'as_str', 'deref', 'into', 'as_ref', 'borrow') and t[1] != 'NodeScene::clone' and not (t[1].endswith('as_str') and t[1].split('::')[0] in ('Value', 'Item')):
        return canon(t[2][0])
    if t[0] == 'cat' and len(t[1]) == 1:
        return canon(t[1][0])
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def fl(t, f):
    return ('fld', t, f)


def noid(t):
    """without the times of calls"""
    if isinstance(t, tuple):
        if t[:1] == ('app',) and len(t) == 4:
            return ('app', t[1], noid(t[2]), None)
        return tuple(noid(x) for x in t)
    return t


def is_app(t, name, n=None):
    return isinstance(t, tuple) and t[:1] == ('app',) and t[1] == name and (n is None or len(t[2]) == n)


def toml_of(t):
    """the value that is turned into a toml value"""
    if is_app(t, 'to_toml', 1):
        return t[2][0]


def item_of(t):
    """the toml value in an item"""
    if isinstance(t, tuple) and t[:1] == ('adt',) and t[2] == 'Value' and t[1].endswith('Item'):
        return t[3][0][1]
    return t


def entries(t):
    """(what it was made from, [(key, value)]) of a table that was filled"""
    if isinstance(t, tuple) and t[:1] == ('upd',):
        b, es = entries(t[1])
        return b, es + [(p, v) for p, v in t[2]]
    if isinstance(t, tuple) and t[:1] == ('minsert',):
        b, es = entries(t[1])
        return b, es + [(('k', t[2]), t[3])]
    return t, []


def one_entry(new, old):
    """(key, value) if the table `new` is `old` with exactly one more entry"""
    if isinstance(new, tuple) and new[:1] in (('upd',), ('minsert',)):
        b, es = entries(new)
        if b == old and len(es) == 1 and es[0][0][0] == 'k' and len(es[0][0]) == 2:
            return es[0][0][1], es[0][1]


class Writer:
    """what one entry of a saved document is made of; None where the code does something else"""
    def __init__(self, ctx):
        self.ok = False
        W = World(None)
        fn = ctx.inherent('NodeScene', 'save_to_str')
        outs, I = ctx.run(fn, opaque={'NodeScene::clone', 'NodeScene::iterate', 'NodeScene::update_internal'})
        self.I, self.outs, self.W = I, outs, W
        C = lambda t: canon(W.nz(t))
        ctx.floor(len(outs), 1, 'paths of save_to_str')
        self.schemes = []
        for o in outs:
            self.path(ctx, I, W, C, o)
        self.ok = bool(self.schemes) and len({repr(s) for s in self.schemes}) == 1
        ctx.ob(self.ok, 'save:scheme', 'entries of the document are not all written the same way: %s' % self.schemes[:3])
        if self.ok:
            self.s = self.schemes[0]

    def path(self, ctx, I, W, C, o):
        if not ctx.ob(o.kind == 'ret', 'save:aborts', 'saving a scene can abort', '', o.trace):
            return
        v = C(o.value)
        parts = v[3][0][1] if v[:1] == ('adt',) and v[2] == 'Ok' else None
        parts = parts[1] if isinstance(parts, tuple) and parts[:1] == ('cat',) else (parts,)
        if not ctx.ob(parts[0] is not None, 'save:refuses', 'saving a scene gives ' + show(v)[:200], '', o.trace):
            return
        # everything before the document is comments and empty lines
        pre = []
        for p in parts[:-1]:
            pre.append(p[1] if p[:1] == ('str',) else None)
        ctx.ob(None not in pre and all(not l.strip() or l.lstrip().startswith('#') for l in ''.join(x or '' for x in pre).split('\n')) and (not pre or ''.join(pre).endswith('\n')),
               'save:text', 'the text of a scene is its document with something else in front of it: %s' % [show(p)[:100] for p in parts], '', o.trace)
        d = parts[-1]
        d = d[2][0] if is_app(d, 'disp', 1) else d
        if not ctx.ob(d[:1] == ('phi',) and is_app(noid(C(I.phis.get(unc(I, d, W), ((), ()))[0])), 'DocumentMut::new'), 'save:document', 'the text is not made from a document that is filled node by node: ' + show(d)[:200], '', o.trace):
            return
        lid = d[1]
        l = [x for x in loops(o.trace) if x.name == lid]
        if not ctx.ob(len(l) == 1, 'save:walk', 'the document is not filled in one walk over the nodes', '', o.trace):
            return
        l = l[0]
        w = walk_of(l)
        seq = C(w[2]) if w else None
        src = seq[1] if isinstance(seq, tuple) and seq[:1] in (('items',),) else None
        if not ctx.ob(w is not None and w[1] and completed(o.trace, w[0]) and src is not None, 'save:walk', 'not every node of the scene is written, in order', '', o.trace):
            return
        self.numbering(ctx, W, C, o, src, l)
        raw = unc(I, d, W)
        for b, nx in zip(l.extra, I.body_phi[lid]):
            back = [C(v) for k, v in nx.items() if C(k) == d]
            s = self.entry(ctx, I, W, C, o, b, d, back[0] if back else None, C(element(I, W, w)), w)
            if s:
                self.schemes.append(s)

    def numbering(self, ctx, W, C, o, src, l):
        """root 0 and the rest numbered, before the copies that are written are made"""
        ev = [e for e in o.trace if e is l or e.kind == 'write' and e.name == 'rid' or e.kind == 'call' and e.name in ('NodeScene::update_internal', 'NodeScene::clone')]
        root = up = cl = None
        for i, e in enumerate(ev):
            if e is l:
                at = i
            elif e.kind == 'write':
                if C(e.args[0]) == ('base', fl(('sym', 'self'), 'this')) and e.args[1] == ('int', 0):
                    root = i
                elif C(e.args[0])[:2] == ('base', fl(C(src), 'this')) and e.args[1] == ('int', 0):
                    root = i
            elif e.name == 'NodeScene::clone':
                cl = i
            elif C(e.args[0]) in (('sym', 'self'), src) and e.args[1] == ('int', 0):
                up = i
        ok = noid(src) in (('sym', 'self'), ('app', 'NodeScene::clone', (('sym', 'self'),), None))
        ctx.ob(ok, 'save:whole', 'what is written is not the scene that is saved: ' + show(src)[:200], '', o.trace)
        one = [e for e in flat(o.trace) if e.kind == 'write' and e.name == 'rid']
        ctx.ob(root is not None and up is not None and len(one) == 1 and max(root, up) < at, 'save:numbered', 'the nodes are not numbered from 0 before they are written', '', o.trace)
        whose = {('sym', 'self')} if cl is None or root is not None and up is not None and max(root, up) < cl else {src}
        ctx.ob(all(C(e.args[0]) in whose for e in ev if e.kind == 'call' and e.name == 'NodeScene::update_internal'), 'save:numbered', 'the numbers are given after the copy that is written was made', '', o.trace)

    def entry(self, ctx, I, W, C, o, b, d, back, el, w):
        one = one_entry(back, d)
        if not ctx.ob(one is not None, 'save:entry', 'a node does not lead to exactly one new entry of the document: ' + show(back or ())[:300], '', b):
            return
        key, table = one
        if table[:1] == ('adt',) and table[2] == 'Table' and table[3][0][1][:1] == ('phi',):
            table = table[3][0][1]
        node = fl(el, 'node')
        B = ('obj', ('base', node))
        s = {}
        ps = key[1] if key[:1] == ('cat',) else ()
        ok = len(ps) == 3 and ps[0] == fl(B, 'name') and ps[1][:1] == ('str',) and is_app(ps[2], 'disp', 1) and ps[2][2][0] == fl(B, 'rid')
        if not ctx.ob(ok, 'save:key', 'the key of a node is not made from its name, a separator and its number: ' + show(key)[:200], '', b):
            return
        s['sep'] = ps[1][1]
        ctx.ob(len(s['sep']) >= 1 and not any(c.isdigit() for c in s['sep']), 'save:key', 'the separator can not be told from the number', '', b)
        # fields: a loop over all of what save_from_owned gives
        phi, inner = table, None
        if table[:1] == ('phi',):
            ls = [x for x in loops(b) if x.name == table[1]]
            init = C(I.phis[unc(I, table, W)][0])
            if not ctx.ob(len(ls) == 1, 'save:fields', 'the fields of a node are not written in one walk', '', b):
                return
            inner = ls[0]
        else:
            init = table
        es0 = entries(init)
        if not ctx.ob(noid(es0[0]) == ('adt', es0[0][1], 'Table', (('0', ('app', 'Table::new', (), None)),)) if es0[0][:1] == ('adt',) else is_app(es0[0], 'Table::new'), 'save:table', 'a node does not get a table of its own: ' + show(es0[0])[:200], '', b):
            return
        metas = [(p[1], v) for p, v in es0[1] if p[0] == 'k']
        if not ctx.ob(len(metas) == 1 and metas[0][0][:1] == ('str',), 'save:metadata', 'a node does not get exactly one table of metadata: ' + show(init)[:200], '', b):
            return
        s['metadata'] = metas[0][0][1]
        mt = item_of(metas[0][1])
        mb, me = entries(toml_of(mt) or mt)
        mb = noid(item_of(mb))
        mb = toml_of(mb) or mb
        mb, first = entries(mb)      # what was put in before the table was put in its place
        me = first + me
        if not ctx.ob(any(is_app(x, 'InlineTable::new') for x in subterms(mb)), 'save:metadata', 'the metadata are no inline table of their own: ' + show(mb)[:200], '', b):
            return
        isroot = trace_facts_c(C, b).get(fl(el, 'parent'))
        got = {}
        for p, v in me:
            if not ctx.ob(p[0] == 'k' and p[1][:1] == ('str',), 'save:metadata', 'metadata under a computed key', '', b):
                return
            v = noid(item_of(v))
            v = noid(toml_of(v) or v)
            if v == noid(('app', 'NodeAbstract::name_as_type', (node,), None)):
                what = 'type'
            elif v == noid(fl(el, 'is_owner')):
                what = 'owner'
            elif v == noid(('cast', 'u64', 'i64', fl(('obj', ('base', fl(fl(el, 'parent'), 'Some.0'))), 'rid'))):
                what = 'parent'
            else:
                what = None
            ctx.ob(what is not None, 'save:metadata', 'the metadata %s of a node is %s' % (p[1][1], show(v)[:200]), '', b)
            ctx.ob(what not in got, 'save:metadata', 'the %s of a node is written twice' % what, '', b)
            got[what] = p[1][1]
        ctx.ob(isroot in (frozenset({'None'}), frozenset({'Some'})), 'save:parent', 'it is not asked whether a node has a parent', '', b)
        want = {'type', 'owner'} | ({'parent'} if isroot == frozenset({'Some'}) else set())
        if not ctx.ob(set(got) == want and len(set(got.values())) == len(got), 'save:metadata', 'the metadata of a node are %s' % got, '', b):
            return
        # fields
        fm = None
        for e in flat(b):
            if e.kind == 'call' and e.name == 'Registered::save_from_owned' and C(e.args[0]) == node:
                fm = C(e.ret)
        if not ctx.ob(fm is not None and inner is not None, 'save:fields', 'the fields of a node are not asked for and written', '', b):
            return
        iw = walk_of(inner)
        iseq = C(iw[2]) if iw else None
        if not ctx.ob(iw is not None and completed(b, iw[0]) and fm == bare_seq(iseq), 'save:fields', 'not every field of the node is looked at', '', b):
            return
        kinds = set()
        for c, nx in zip(inner.extra, I.body_phi[inner.name]):
            back = [C(v) for k, v in nx.items() if C(k) == table][0]
            F = {}
            for e in c:
                if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2:
                    F[noid(C(e.args[0]))] = e.args[1]
            gh = [(k, v) for k, v in F.items() if is_app(k, 'Exportable::is_ghost_export', 1)]
            ghost = gh[0][1] if gh else None
            ks = [x for x in subterms(noid(gh[0][0])) if isinstance(x, tuple) and x[:1] == ('mapkey',)] if gh else []
            if not ctx.ob(ghost is not None, 'save:ghost', 'it is not asked whether a field is left out', '', c):
                continue
            kinds.add(ghost)
            if ghost:
                ctx.ob(back == table, 'save:ghost', 'a field that has no value is written: ' + show(back)[:200], '', c)
                continue
            one = one_entry(back, table)
            if ctx.ob(one is not None, 'save:field', 'a field does not lead to exactly one entry: ' + show(back)[:200], '', c):
                k, v = one
                val = noid(item_of(v)) if v[:1] == ('adt',) else None
                good = k[:1] == ('mapkey',) and k[1] == fm and val == ('app', 'Exportable::to_value', (noid(fl(fm, ('k', k))),), None)
                good = good and all(noid(k) == x for x in ks)
                ctx.ob(good, 'save:field', 'a field is written as %s = %s' % (show(k)[:100], show(v)[:200]), '', c)
        ctx.ob(kinds == {True, False}, 'save:fields', 'fields with or without a value are not both handled', '', b)
        s['type'], s['owner'] = got['type'], got['owner']
        if 'parent' in got:
            self.parent_key = got['parent']
        return s


def bare_seq(t):
    while isinstance(t, tuple) and t[:1] in (('filter',), ('map',), ('seq',), ('map_',)):
        t = t[1]
    return t


def unc(I, d, W):
    """the phi a canonical phi stands for"""
    for k in I.phis:
        if canon(W.nz(k)) == d:
            return k
    return None


def trace_facts_c(C, b):
    r = {}
    for e in b:
        if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2:
            r[C(e.args[0])] = e.args[1]
        elif e.kind == 'assume' and e.name == 'variant':
            vs = e.args[1] if isinstance(e.args[1], (tuple, frozenset, list, set)) else (e.args[1],)
            k = C(e.args[0])
            r[k] = frozenset(vs) & r.get(k, frozenset(vs)) if isinstance(r.get(k, frozenset()), frozenset) else frozenset(vs)
    return r


KEY, ITEM, TABLE, META, SCENE, TRAV = ('KEY',), ('ITEM',), ('TABLE',), ('META',), ('SCENE',), ('TRAV',)


def canon_len(t):
    """1 + n - 1 = n"""
    if isinstance(t, tuple):
        t = tuple(canon_len(x) for x in t)
        if t[:2] == ('bin', 'Sub') and t[3] == ('int', 1) and t[2][:2] == ('bin', 'Add') and ('int', 1) in t[2][2:]:
            return t[2][2] if t[2][3] == ('int', 1) else t[2][3]
    return t


def empty_map(t):
    return t in (('map', ()), ('emptymap',)) or isinstance(t, tuple) and t[:1] == ('app',) and not t[2] and t[1].split('::')[-1] in ('new', 'default') and 'Map' in t[1]


class Reader:
    """every path of load_from_str, in terms of the document: the KEY and ITEM of the entry at hand, its TABLE, the
    table META of its metadata, the SCENE built so far, and the TRAVersal cache of places by number"""
    def __init__(self, ctx, w):
        self.W = W = World(None)
        fn = ctx.inherent('NodeScene', 'load_from_str')
        self.outs, self.I = outs, I = ctx.run(fn, opaque={'node_registry::deserialize'})
        self.s = s = dict(w.s, parent=getattr(w, 'parent_key', None)) if w is not None else {'metadata': None}
        self.text = ('sym', fn.locals[1][1] or 'a1')
        self.doc = fl(('app', 'str::parse', (self.text, ('ty', 'toml_edit::DocumentMut')), None), 'Ok.0')
        self.memo = {}
        self.phi_names = {}
        self.find(ctx)

    def find(self, ctx):
        """the loop over the document and what it carries along"""
        self.loop, self.tags = None, set()
        for o in self.outs:
            for l in loops(o.trace):
                w = walk_of(l)
                if w and self.base(w[2]) == self.doc:
                    self.loop, self.tag = l.name, w[0]
                    self.tags.add(w[0])
        if not ctx.ob(self.loop is not None, 'load:walk', 'loading does not walk over the entries of the document'):
            return
        for k, (init, backs) in self.I.phis.items():
            if k[1] != self.loop:
                continue
            i = noid(canon(self.W.nz(init)))
            if i[:1] == ('adt',) and i[2] == 'None':
                self.phi_names[k] = SCENE
            elif i == ('map', ()) or is_app(i, 'HashMap::new') or i[:1] == ('emptymap',) or 'map' in repr(i)[:40].lower():
                self.phi_names[k] = TRAV
        self.raw_phi = {v: k for k, v in self.phi_names.items()}
        ctx.ob(set(self.phi_names.values()) >= {SCENE}, 'load:state', 'loading does not carry along the scene built so far')

    def base(self, t):
        t = canon(self.W.nz(t))
        while isinstance(t, tuple) and t[:1] in (('map',), ('seq',)):
            t = t[1]
        return noid(t)

    def name(self, t):
        """terms in the words of the document"""
        return self.rename(noid(canon(self.W.nz(t))))

    def rename(self, t):
        if not isinstance(t, tuple):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._rename(t)
        return r

    def _rename(self, t):
        if t in self.phi_names:
            return self.phi_names[t]
        if t[:1] == ('ref',) and len(t) == 2 and isinstance(t[1], tuple) and t[1][0][:1] == ('cell',):
            for k, n in self.phi_names.items():
                if k[2] == ('c',) + t[1][0][1:]:
                    for f in t[1][1]:
                        n = ('fld', n, self.rename(f) if isinstance(f, tuple) else f)
                    return n
        t = tuple(self.rename(x) for x in t)
        k = t[:1]
        if k == ('mapkey',) and t[1] == self.doc and (len(t) < 3 or t[2] in self.tags):
            return KEY
        if k == ('fld',) and t[1] == self.doc and t[2] == ('k', KEY):
            return ITEM
        if k == ('app',) and len(t[2]) == 1 and t[1].split('::')[0] in ('Item', 'Value') and t[1].split('::')[-1].startswith('as_'):
            return ('as', t[1].split('::')[-1][3:], t[2][0])
        if k == ('fld',) and t[2] == 'Some.0' and t[1][:2] == ('as', 'value'):
            return fl(t[1][2], 'Value.0')
        if k == ('app',) and t[1] in ('disp', 'from_str') and t[2][0][:1] == ('fld',) and t[2][0][1][:2] == ('as', 'str'):
            return t[2][0]
        if k == ('fld',) and t[1] == ('as', 'table', ITEM) and t[2] == 'Some.0':
            return TABLE
        if k == ('fld',) and t[2] == 'Some.0' and t[1] == ('as', 'inline_table', ('fld', TABLE, ('k', ('str', self.s['metadata'])))):
            return META
        return t

    def facts(self, b):
        r = {}
        for e in b:
            if e.kind == 'assume' and e.name == 'bool' and len(e.args) == 2:
                r[self.name(e.args[0])] = e.args[1]
            elif e.kind == 'assume' and e.name == 'variant':
                vs = e.args[1] if isinstance(e.args[1], (tuple, frozenset, list, set)) else (e.args[1],)
                k, vs = self.fact(e.args[0], frozenset(vs))
                r[k] = vs & r[k] if isinstance(r.get(k), frozenset) else vs
        return r

    def fact(self, k, v):
        k = self.name(k)
        if k[:2] == ('as', 'value') and isinstance(v, frozenset):
            return k[2], frozenset({'Value'} if v == frozenset({'Some'}) else {'None', 'Table', 'ArrayOfTables'})
        return k, v

    def meta(self, what):
        return ('fld', META, ('k', ('str', self.s[what])))

    def refused(self, F):
        """what about the document the facts of a path contradict: the promise of the writer that is broken"""
        s = self.s
        no = lambda k, ok: isinstance(F.get(k), frozenset) and not (F[k] & {ok})
        if no(('app', 'str::parse', (self.text, ('ty', 'toml_edit::DocumentMut')), None), 'Ok'):
            return 'the text is no document'
        if no(('as', 'table', ITEM), 'Some'):
            return 'an entry is no table'
        if F.get(('haskey', TABLE, ('str', s['metadata']))) is False or no(('as', 'inline_table', ('fld', TABLE, ('k', ('str', s['metadata'])))), 'Some'):
            return 'an entry has no metadata'
        for what, typ in (('type', 'str'), ('owner', 'bool')):
            if F.get(('haskey', META, ('str', s[what]))) is False or no(('as', typ, self.meta(what)), 'Some'):
                return 'the metadata lack the ' + what
        sp = ('app', 'str::rsplit_once', (KEY, ('str', s['sep'])), None)
        if no(sp, 'Some') or no(self.split(F), 'Some'):
            return 'the key has no separator'
        if no(('app', 'str::parse', (('fld', fl(self.split(F), 'Some.0'), '1'), ('ty', 'u64')), None), 'Ok'):
            return 'the key has no number'
        if any(is_app(k, 'node_registry::deserialize') and isinstance(v, frozenset) and 'Ok' not in v for k, v in F.items()):
            return 'the node can not be made'
        if 'Some' in F.get(SCENE, ()):
            par = self.meta('parent')
            if F.get(('haskey', META, ('str', s['parent']))) is False or no(('as', 'integer', par), 'Some'):
                return 'a node below the root has no parent'
            if F.get(('haskey', TRAV, self.parent_id())) is False and self.is_zero(F) is False:
                return 'a parent is not in front of its child'
        for k, v in F.items():
            if k[:1] == ('fld',) and k[1] == TABLE and isinstance(k[2], tuple) and k[2][0] == 'k' and isinstance(v, frozenset) and 'Value' not in v:
                if self.not_meta(F, k[2][1]):
                    return 'a field is no value'
        if F.get(SCENE) == frozenset({'None'}) and not any(is_app(k, 'node_registry::deserialize') for k in F):
            return 'there is no node'
        return None

    def not_meta(self, F, k):
        return equal(F, k, ('str', self.s['metadata'])) is False

    def split(self, F):
        for k in F:
            for x in subterms(k):
                if is_app(x, 'str::rsplit_once', 2) and x[2][0] == KEY and self.sep(x[2][1]) == self.s['sep']:
                    return x
        return ('app', 'str::rsplit_once', (KEY, ('str', self.s['sep'])), None)

    def sep(self, t):
        if t[:1] == ('str',):
            return t[1]
        if t[:1] in (('char',), ('int',)):
            return t[1] if isinstance(t[1], str) else chr(t[1])

    def parent_id(self):
        return ('cast', 'i64', 'u64', fl(('as', 'integer', self.meta('parent')), 'Some.0'))

    def is_zero(self, F):
        return equal(F, self.parent_id(), ('int', 0))

    # ------------------------------------------------------------ one entry that is accepted
    def discover(self):
        """the names as the reader uses them"""
        keys = {}
        for o in self.outs:
            for k in facts(self.W, o):
                for x in subterms(self.name(k)):
                    if isinstance(x, tuple) and x[:1] == ('as',) and x[2][:1] == ('fld',) and isinstance(x[2][2], tuple) and x[2][2][0] == 'k' and x[2][2][1][:1] == ('str',):
                        keys.setdefault(x[1], set()).add((x[2][1] == TABLE, x[2][2][1][1]))
                    if is_app(x, 'str::rsplit_once', 2):
                        self.s['sep'] = self.sep(x[2][1])
        md = {k for t, k in keys.get('inline_table', ()) if t}
        if len(md) != 1:
            return False
        self.s['metadata'] = md.pop()
        self.memo = {}
        for what, typ in (('type', 'str'), ('owner', 'bool'), ('parent', 'integer')):
            ks = {k for t, k in keys.get(typ, ()) if not t}
            if len(ks) != 1:
                return False
            self.s[what] = ks.pop()
        return True

    def safe_places(self, ctx, b):
        """every place that is kept on this path leads to a node of the scene"""
        N = self.name
        pushes = [e for e in flat(b) if e.kind == 'write' and e.name == 'vec.push' and N(e.args[0])[:1] == ('fld',) and N(e.args[0])[2] == 'children']
        F = self.facts(b)
        for e in flat(b):
            if e.kind == 'write' and e.name.startswith(('vec.', 'map.')) and e not in pushes and 'children' in repr(e.args[0]):
                ctx.ob(False, 'place:removes', 'loading changes a list of children other than by adding', where(e), b)
            if e.kind == 'write' and e.name == 'map.insert' and N(e.args[0]) == TRAV:
                v = canon_len(N(e.args[2]))
                ok = False
                for p in pushes:
                    kids = N(p.args[0])
                    if strip_payload(kids[1]) == SCENE:
                        ok = ok or self.len_is(v, kids, None)
                    else:
                        for c in {x for x in subterms(v) if isinstance(x, tuple) and x[:1] == ('fld',) and x[1] == TRAV and x[2][0] == 'k'}:
                            ok = ok or self.len_is(v, kids, c) and self.cursor(ctx, b, kids[1], c, F)
                ctx.ob(ok, 'place:kept', 'a place that is kept need not lead to a node: ' + show(v)[:300], where(e), b)

    def bodies(self, ctx):
        for o in self.outs:
            for l in loops(o.trace):
                if l.name == self.loop:
                    yield from ((o, b, nx) for b, nx in zip(l.extra, self.I.body_phi[l.name]))
                    return

    def entry(self, ctx, b, nx):
        """checks one accepted entry; gives the case it is"""
        N, s = self.name, self.s
        F = self.facts(b)
        de = [e for e in b if e.kind == 'call' and e.name == 'node_registry::deserialize']
        if not ctx.ob(len(de) == 1, 'load:node', 'an entry does not lead to exactly one node', '', b):
            return
        de = de[0]
        raw_node = fl(canon(self.W.nz(de.ret)), 'Ok.0')
        node = N(fl(de.ret, 'Ok.0'))
        ctx.ob(N(de.args[0]) == fl(('as', 'str', self.meta('type')), 'Some.0'), 'load:type', 'the type of the node is taken from ' + show(N(de.args[0]))[:200], where(de), b)
        self.fields(ctx, b, de)
        wr = {}
        for e in flat(b):
            if e.kind == 'write' and not e.name.startswith(('vec.', 'map.')) and N(e.args[0]) == ('base', node):
                ctx.ob(e.name not in wr, 'load:twice', 'the %s of the node is set twice' % e.name, where(e), b)
                wr[e.name] = N(e.args[1])
        sp = self.split(F)
        ctx.ob(self.sep(sp[2][1]) == s['sep'] and sp in [N(k) for k in F], 'load:key', 'the key is not split at the last separator', '', b)
        rid = fl(('app', 'str::parse', (fl(fl(sp, 'Some.0'), '1'), ('ty', 'u64')), None), 'Ok.0')
        ctx.ob(wr.get('name') == fl(fl(sp, 'Some.0'), '0'), 'load:name', 'the name of the node becomes %s' % (show(wr['name'])[:200] if 'name' in wr else 'nothing'), '', b)
        ctx.ob(wr.get('rid') == rid, 'load:rid', 'the number of the node becomes %s' % (show(wr['rid'])[:200] if 'rid' in wr else 'nothing'), '', b)
        ctx.ob(set(wr) <= {'name', 'rid'}, 'load:writes', 'loading changes %s of the node' % sorted(set(wr) - {'name', 'rid'}), '', b)
        owner = fl(('as', 'bool', self.meta('owner')), 'Some.0')
        is_owner = lambda v: v == owner or F.get(owner) is (v == TRUE) and v in (TRUE, FALSE)

        def scene(v):
            d = adt_of(v)
            return d is not None and d.get('this') == node and d.get('children') == ('vec', ()) and d.get('from_disk') == TRUE and is_owner(d.get('is_owner', ()))
        after = {self.phi_names[k]: N(v) for k, v in nx.items() if k in self.phi_names}
        pushes = [e for e in flat(b) if e.kind == 'write' and e.name == 'vec.push' and N(e.args[0])[:1] == ('fld',) and N(e.args[0])[2] == 'children']
        inserts = [e for e in flat(b) if e.kind == 'write' and e.name == 'map.insert' and N(e.args[0]) == TRAV]
        other = [e for e in flat(b) if e.kind == 'write' and e.name.startswith(('vec.', 'map.')) and e not in pushes and e not in inserts and e.name != 'vec.push' and 'children' in repr(e.args[0])]
        ctx.ob(not other, 'load:removes', 'loading changes a list of children other than by adding', where(other[0]) if other else '', b)
        st = F.get(SCENE)
        if not ctx.ob(st is not None and len(st) == 1, 'load:case', 'it is not asked whether the node is the first', '', b):
            return
        if st == frozenset({'None'}):
            v = after.get(SCENE, ())
            ok = v[:1] == ('adt',) and v[2] == 'Some' and scene(v[3][0][1]) and not pushes and after.get(TRAV) in (TRAV, None)
            ctx.ob(ok, 'load:root', 'the first node does not become the root as it was saved: ' + show(v)[:300], '', b)
            return 'root'
        if not ctx.ob(len(pushes) == 1 and scene(N(pushes[0].args[1])), 'load:child', 'an entry does not become one child with the node, the ownership and no children: %s' % [show(N(e.args[1]))[:300] for e in pushes], '', b):
            return
        ctx.ob(len(inserts) == 1 and N(inserts[0].args[1]) == rid, 'load:cache', 'the place of the node is not kept under its number', '', b)
        if len(inserts) != 1:
            return
        place_ = canon_len(N(inserts[0].args[2]))
        to = N(pushes[0].args[0])[1]
        z = self.is_zero(F)
        if not ctx.ob(z is not None, 'load:parent', 'it is not asked whether the parent is the root', '', b):
            return
        if z:
            ctx.ob(strip_payload(to) == SCENE, 'load:parent', 'a child of the root is put below ' + show(to)[:200], where(pushes[0]), b)
            good = place_ == ('vec', (('len', N(pushes[0].args[0])),)) or self.len_is(place_, N(pushes[0].args[0]), None)
            ctx.ob(good, 'load:place', 'the place kept for a child of the root is ' + show(place_)[:300], where(inserts[0]), b)
            return 'child'
        cached = ('fld', TRAV, ('k', self.parent_id()))
        ctx.ob(F.get(('haskey', TRAV, self.parent_id())) is True, 'load:parent', 'the place of the parent is not looked up', '', b)
        ctx.ob(self.cursor(ctx, b, to, cached, F), 'load:parent', 'a child is put below %s instead of the node its parent was put at' % show(to)[:200], where(pushes[0]), b)
        ctx.ob(self.len_is(place_, N(pushes[0].args[0]), cached), 'load:place', 'the place kept for a node is ' + show(place_)[:300], where(inserts[0]), b)
        return 'deeper'

    def len_is(self, v, kids, prefix):
        """is a place = the place of the parent (prefix) followed by the index of the child added last?"""
        # the number of children after the new one was added, less one, = the number before
        if v[:1] == ('push',):
            pre, last = v[1], v[2]
        elif v[:1] == ('vec',) and v[1]:
            pre, last = ('vec', v[1][:-1]), v[1][-1]
        else:
            return False
        if last != ('len', kids):
            return False
        if prefix is None:
            return pre == ('vec', ())
        return pre == prefix or pre[:1] == ('seqmap',) and pre[3] == prefix and pre[4] is True and pre[2] == ('fld', prefix, ('i', pre[1]))

    def cursor(self, ctx, b, to, cached, F):
        """is `to` what walking down from the SCENE along the cached place leads to?"""
        t = to
        some = False
        if t[:1] == ('fld',) and t[2] == 'Some.0':
            t, some = t[1], True
        if t[:1] != ('phi',):
            return False
        l = [x for x in loops(b) if x.name == t[1]]
        if len(l) != 1:
            return False
        w = walk_of(l[0])
        if w is None or not w[1] or not completed(b, w[0]) or self.strip_walk(w[2]) != cached:
            return False
        raw = [k for k in self.I.phis if self.name(k) == t]
        if not raw:
            return False
        init = self.name(self.I.phis[raw[0]][0])
        seg = ('fld', cached, ('i', ('ix', w[0])))
        nodes = lambda x: ('fld', ('fld', x, 'children'), ('i', seg))
        for c, nx in zip(l[0].extra, self.I.body_phi[l[0].name]):
            v = self.name(nx[raw[0]])
            G = self.facts(c)
            if v[:1] == ('adt',) and v[2] == 'Some':
                v = v[3][0][1]
                st = G.get(t)
                if st == frozenset({'None'}):
                    ok = init[:1] == ('adt',) and init[2] == 'None' and v == nodes(('fld', SCENE, 'Some.0'))
                else:
                    ok = st == frozenset({'Some'}) and v == nodes(('fld', t, 'Some.0'))
            else:
                ok = v == nodes(t) and strip_payload(init) == SCENE
            if not ok:
                return False
        return True

    def strip_walk(self, t):
        t = self.name(t)
        while isinstance(t, tuple) and t[:1] == ('seq',):
            t = t[1]
        return t

    def fields(self, ctx, b, de):
        """all fields but the metadata, unchanged"""
        v = self.W.nz(de.args[1])
        if self.name(v)[:1] == ('phi',):
            # filled in a loop
            n = self.name(v)
            raw = [k for k in self.I.phis if self.name(k) == n]
            ls = [l for l in loops(b) if l.name == n[1]]
            w = walk_of(ls[0]) if len(ls) == 1 else None
            ok = bool(raw) and w is not None and completed(b, w[0]) and self.base_of(w[2]) == TABLE and empty_map(self.name(self.I.phis[raw[0]][0]))
            if not ctx.ob(ok, 'load:fields', 'the fields handed on are not collected from the whole entry: ' + show(n)[:300], where(de), b):
                return
            tag, steps = w[0], []
            for c, nx in zip(ls[0].extra, self.I.body_phi[n[1]]):
                m, es = entries(self.name(nx[raw[0]]))
                ctx.ob(m == n, 'load:fields', 'fields are dropped again: ' + show(m)[:200], where(de), c)
                steps.append((c, [('tup', (k[1], x)) for k, x in es]))
        else:
            m = members(self.I, self.W, b, v)
            ok = m is not None and completed(b, m[0][0]) and self.base_of(m[1]) == TABLE
            if not ctx.ob(ok, 'load:fields', 'the fields handed on are not collected from the whole entry: ' + show(self.name(v))[:300], where(de), b):
                return
            tag, steps = m[0][0], [(c, [subst(self.name(x), v[1][1], m[0][0]) for x in vs]) for c, vs in m[2]]
        for c, vs in steps:
            G = self.facts(c)
            keys = {x for x in subterms((vs, tuple(G))) if isinstance(x, tuple) and x[:2] == ('mapkey', TABLE)}
            key = ('mapkey', TABLE, tag) if len(keys) != 1 else keys.pop()
            md = equal(G, key, ('str', self.s['metadata']))
            if not ctx.ob(md is not None, 'load:field', 'it is not asked whether a field is the metadata', '', c):
                continue
            want = [] if md else [('tup', (key, fl(fl(TABLE, ('k', key)), 'Value.0')))]
            ctx.ob(vs == want, 'load:field', 'a field is handed on as %s' % [show(x)[:200] for x in vs], '', c)

    def base_of(self, t):
        t = self.name(t)
        while isinstance(t, tuple) and t[:1] in (('seq',), ('map',), ('filter',), ('map_',)):
            t = t[1]
        return t


def strip_payload(t):
    while isinstance(t, tuple) and t[:1] == ('fld',) and t[2] == 'Some.0':
        t = t[1]
    return t


def adt_of(v):
    """fields of a NodeScene value"""
    over = {}
    while isinstance(v, tuple) and v[:1] == ('upd',):
        for p, x in reversed(v[2]):
            over.setdefault(p if isinstance(p, str) else p[0] if len(p) == 1 else None, x)
        v = v[1]
    if isinstance(v, tuple) and v[:1] == ('adt',) and v[1].endswith('NodeScene'):
        d = dict(v[3])
        d.update(over)
        return d
