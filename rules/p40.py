"""What the library says: the texts of error values, the message of every failing unwrap, the entries posted when nodes come and go, and the errors of loading are read off as terms (literals and values in order) on all paths, and compared with what the text has to be about: every detail an error carries, the very error or message that made an unwrap fail, the nodes concerned, the entry of the document at fault."""
from world import *
from rule import *
from engine import contains
from p13 import pieces, merged
import p26
import scn

RULE = 'the text of an error value names each detail it carries, and differs between the errors of a type; a failing unwrap posts the message given and the error found; the entries about nodes coming and going name child, parent and id; an error of loading passes on what failed below it, or names the entry and the item at fault'
WITNESS = True
TP = 'TPError'


def lits(ps):
    return ' '.join(x for x in ps if isinstance(x, str))


def vals(ps):
    return [bare(x) for x in ps if not isinstance(x, str)]


def bare(t):
    t = plain(t)
    while isinstance(t, tuple) and t[:1] == ('app',) and t[1] in ('disp', 'debug') and len(t[2]) == 1:
        t = plain(t[2][0])
    return t


def stripped(t):
    """a text without conversions between string types"""
    t = plain(t)
    while isinstance(t, tuple) and t[:1] == ('app',) and t[1].split('::')[-1] in ('from', 'into', 'to_string', 'to_owned') and len(t[2]) == 1:
        t = plain(t[2][0])
    return t


def text(t):
    r = []
    for p in pieces(stripped(t)):
        p = stripped(p) if isinstance(p, tuple) else p
        if isinstance(p, tuple) and p[:1] == ('app',) and p[1] == 'disp' and len(p[2]) == 1:
            p = plain(p[2][0])
        r += pieces(p) if isinstance(p, tuple) and p[:1] in (('cat',), ('str',)) else [p]
    return merged(r)


def unep(t):
    """a place whenever it is read"""
    if isinstance(t, tuple):
        if t[:1] == ('obj',) and len(t) == 3:
            return ('obj', unep(t[1]))
        if t[:1] == ('NB',) and len(t) == 3:
            return ('NB', unep(t[1]))
        return tuple(unep(x) for x in t)
    return t


def words(field):
    return [w for w in field.lower().split('_') if not w.isdigit()]


# ---------------------------------------------------------------- error values
def error_texts(ctx, ty, how, fixed=False):
    """variant -> text of an error type, one path each"""
    W = World(None)
    fn = ctx.trait_method(how, 'fmt', r'\b%s$' % ty)
    outs, I = ctx.run(fn)
    said = {}
    for o in outs:
        if not ctx.ob(o.kind == 'ret', '%s:%s:aborts' % (ty, how), 'telling an error can abort', '', o.trace):
            continue
        F = facts(W, o)
        me = [(k, v) for k, v in F.items() if isinstance(v, frozenset) and plain(k) in (('sym', 'self'), ('obj', ('sym', 'self'), 0))]
        if not ctx.ob(len(me) == 1 and len(me[0][1]) == 1, '%s:%s:decided' % (ty, how), 'the text of %s does not depend on which error it is' % ty, '', o.trace):
            continue
        v = next(iter(me[0][1]))
        ws = [e for e in flat(o.trace) if e.kind == 'write']
        ps = merged(sum((text(W.nz(e.args[1])) for e in ws if e.name == 'string.append'), []))
        ctx.ob(v not in said or said[v] == ps, '%s:%s:%s:one' % (ty, how, v), 'the text of one error varies', '', o.trace)
        said[v] = ps
    return said, fn


def details(P, ty):
    """variant -> names of what it carries"""
    a = next(v for k, v in P.adts.items() if k.split('::')[-1] == ty and v.get('local'))
    return {v['n']: [f[0] for f in v['f']] for v in a['v']}


def check_errors(ctx):
    shown = {}
    for ty, least in (('TPError', 3), ('NodeError', 3)):
        said, fn = error_texts(ctx, ty, 'Display')
        shown[ty] = said
        ctx.floor(len(said), least, 'errors of ' + ty)
        have = details(ctx.P, ty)
        ctx.ob(set(said) == set(have), ty + ':all', 'the errors %s of %s have no text' % (sorted(set(have) - set(said)), ty), fn.path)
        # how it is shown to a programmer
        W, dbg, alike = World(None), ctx.trait_method('Debug', 'fmt', r'\b%s$' % ty), {}
        for o in ctx.run(dbg)[0]:
            me = [v for k, v in facts(W, o).items() if isinstance(v, frozenset) and plain(k) in (('sym', 'self'), ('obj', ('sym', 'self'), 0))]
            if not ctx.ob(len(me) == 1 and len(me[0]) == 1, '%s:Debug:decided' % ty, 'how %s is shown does not depend on which error it is' % ty, dbg.path, o.trace):
                continue
            v = next(iter(me[0]))
            out = [W.nz(o.value)] + [tuple(W.nz(a) for a in e.args[1:]) for e in flat(o.trace) if e.kind == 'write']
            ctx.ob(repr(out) not in alike, '%s:Debug:%s:distinct' % (ty, v), 'the errors %s and %s are shown alike' % (v, alike.get(repr(out))), dbg.path, o.trace)
            alike[repr(out)] = v
            ctx.ob(all(contains_name(tuple(out), v + '.' + f) for f in have.get(v, [])), '%s:Debug:%s:details' % (ty, v), 'not all details of %s are shown' % v, dbg.path, o.trace)
        seen = {}
        for v, ps in sorted(said.items()):
            k = '%s:%s' % (ty, v)
            ctx.ob(len(lits(ps).strip()) > 3, k + ':text', 'the error %s has no text' % v, fn.path)
            skel = tuple(p if isinstance(p, str) else None for p in ps)
            ctx.ob(skel not in seen, k + ':distinct', 'the errors %s and %s read alike' % (v, seen.get(skel)), fn.path)
            seen[skel] = v
            want = have.get(v, [])
            got = [p[2].split('.')[-1] for p in vals(ps) if p[:1] == ('fld',)]
            ctx.ob(sorted(got) == sorted(want), k + ':details', 'the text of %s tells %s of its details %s' % (v, got, want), fn.path)
            if len(want) > 1:
                for i, p in enumerate(ps):
                    if not isinstance(p, str):
                        name = bare(p)[2].split('.')[-1] if bare(p)[:1] == ('fld',) else '?'
                        before = ps[i - 1].lower() if i and isinstance(ps[i - 1], str) else ''
                        ctx.ob(all(w in before for w in words(name)), k + ':' + name, 'the %s of %s is told as %r' % (name, v, before), fn.path)
    return shown


# ---------------------------------------------------------------- failing unwraps
def failing(ctx, ty, meth, must, name=None):
    """every path that ends the program posts one panic whose text has all that it must"""
    W = World(None)
    fn = ctx.inherent(ty, meth)
    n = 0
    for o in ctx.run(fn)[0]:
        if o.kind != 'panic':
            continue
        F = facts(W, o)
        k = '%s::%s' % (ty, meth)
        posts = [e for e in calls(o.trace, 'NodeBase::post', 'NodeTreeBase::post')]
        for e in posts:
            l = W.nz(e.args[-1])
            if l[:1] != ('adt',) or l[2] not in ('Panic',):
                continue
            n += 1
            ps = text(dict(l[3])['0'])
            for what, ok in must(F, ps, fn):
                ctx.ob(ok, '%s:%s' % (k, what), 'when %s fails, the message does not tell the %s: %s' % (k, what, [p if isinstance(p, str) else show(p)[:60] for p in ps]), where(e), o.trace)
    ctx.floor(n, 1, 'messages of %s::%s' % (ty, meth))


def has_var(ps, ty, v, shown):
    want = shown[ty].get(v)
    return ('adt', v) in [(p[0], p[2]) for p in vals(ps) if p[:1] == ('adt',)] or bool(want) and lits(want).strip() in lits(ps)


def check_unwraps(ctx, shown):
    def given(a):
        return lambda F, ps, fn: [('message given', ('sym', fn.locals[2][1] or 'a2') in vals(ps))] + ([(a, payload(ps, a))] if a else [])

    def own(word, a=None):
        return lambda F, ps, fn: [('operation', word in lits(ps))] + ([(a, payload(ps, a))] if a else [])

    def payload(ps, a):
        return any(v[:1] == ('fld',) and v[2] == ('Err.0' if a == 'error' else 'Ok.0') for v in vals(ps))
    failing(ctx, 'TreeOption', 'expect', given(None))
    failing(ctx, 'TreeOption', 'unwrap', own('unwrap'))
    failing(ctx, 'TreeResult', 'expect', given('error'))
    failing(ctx, 'TreeResult', 'unwrap', own('unwrap', 'error'))
    failing(ctx, 'TreeResult', 'expect_err', given('value'))
    failing(ctx, 'TreeResult', 'unwrap_err', own('unwrap_err', 'value'))

    def reason(null):
        def f(F, ps, fn):
            reg = [v for t, v in F.items() if t[:1] == ('haskey',) and field_of(plain(t[2]), 'node')]
            v = 'WrongType' if True in reg else null
            return [('reason (%s)' % v, has_var(ps, TP, v, shown))]
        return f
    for m in ('get', 'get_mut'):
        failing(ctx, 'Tp', m, reason('IsNull'))
        failing(ctx, 'TpDyn', m, reason('IsNull'))
    failing(ctx, 'Tp', 'to_dyn', reason('AttemptedCastToDynOnNull'))


# ---------------------------------------------------------------- nodes coming and going
def before(ps, i):
    return ps[i - 1].lower() if i and isinstance(ps[i - 1], str) else ''


def name_of(t, who=None):
    t = plain(t)
    return t[:1] == ('fld',) and t[2] == 'name' and (who is None or unep(t[1]) in who)


SELF_ = (('obj', ('sym', 'self')), ('sym', 'self'), ('NB', ('SELF',)), ('B', ('SELF',)))


def tells(ctx, k, o, e, ps, child, parent, rid, how):
    """the text has the child's name, then the parent's after a word that says so, then the id after a word that says so"""
    def at(want, start=0):
        for i in range(start, len(ps) - len(want) + 1):
            if ps[i:i + len(want)] == want:
                return i
    ci = next((i for i, p in enumerate(ps) if not isinstance(p, str) and child(p)), None)
    ctx.ob(ci is not None, k + ':child', 'the entry about a node that is %s does not name it' % how, where(e), o.trace)
    if parent:
        pi = [i for i, p in enumerate(ps) if not isinstance(p, str) and parent(p)]
        ctx.ob(any(any(w in before(ps, i) for w in ('child of', 'parent', 'from')) for i in pi), k + ':parent', 'the entry about a node that is %s does not name its parent' % how, where(e), o.trace)
        ctx.ob(ci is None or not any(w in before(ps, ci) for w in ('child of', 'parent', 'from')), k + ':roles', 'the entry about a node that is %s takes it for the parent' % how, where(e), o.trace)
    if rid:
        ctx.ob(any(rid(bare(p)) and 'id' in before(ps, i) for i, p in enumerate(ps) if not isinstance(p, str)), k + ':id', 'the entry about a node that is %s does not tell its id' % how, where(e), o.trace)


def posts_of(W, o):
    r = []
    for e in flat(o.trace):
        if e.kind == 'call' and e.name in ('NodeBase::post', 'NodeTreeBase::post', 'Logger::post', 'Logger::post_manual'):
            l = [W.nz(a) for a in e.args]
            l = [a for a in l if isinstance(a, tuple) and a[:1] == ('adt',) and a[1].endswith('::Log')]
            if l:
                r.append((e, l[0][2], text(dict(l[0][3])['0'])))
    return r


def check_entries(ctx):
    W = World(None)
    fn = ctx.inherent('NodeBase', 'add_child_from_ptr')
    ptr = ('sym', fn.locals[2][1] or 'a2')
    n = 0
    for o in ctx.run(fn)[0]:
        if o.kind != 'ret':
            continue
        n += 1
        ps = posts_of(W, o)
        if not ctx.ob(len(ps) == 1 and ps[0][1] == 'Debug', 'add:entry', 'adding a child is not logged once, as debug information', '', o.trace):
            continue
        e, lv, tx = ps[0]
        # the name the child was given last
        ws = [x for x in flat(o.trace) if x.kind == 'write' and x.name.split('.')[-1] == 'name' and contains(W.nz(x.args[0]), ptr) or x.kind == 'write' and x.name.endswith('name')]
        given = text(W.nz(ws[-1].args[1])) if ws else []
        first = given[0] if given else None
        rid = W.nz(o.value)
        # a name made of pieces is found by the first of them
        tells(ctx, 'add', o, e, tx, lambda p: (first is not None and plain(p) == first) or not given and name_of(p) and contains(p, ptr), lambda p: name_of(p, SELF_), lambda p: p == rid, 'added')
    ctx.floor(n, 2, 'paths that add a child')
    fn = ctx.inherent('NodeBase', 'remove_child')
    name = ('sym', fn.locals[2][1] or 'a2')
    kept = gone = 0
    for o in ctx.run(fn)[0]:
        if o.kind != 'ret':
            continue
        v = W.nz(o.value)
        for e, lv, tx in posts_of(W, o):
            if v == FALSE:
                kept += 1
                ctx.ob(lv == 'Warn', 'remove-none:level', 'removing a child that is not there is not logged as a warning', where(e), o.trace)
                tells(ctx, 'remove-none', o, e, tx, lambda p: plain(p) == name, lambda p: name_of(p, SELF_), None, 'not there to be removed')
            else:
                gone += 1
                ctx.ob(lv == 'Debug', 'remove:level', 'removing a child is not logged as debug information', where(e), o.trace)
                tells(ctx, 'remove', o, e, tx, lambda p: plain(p) == name or name_of(p) and not name_of(p, SELF_), lambda p: name_of(p, SELF_), None, 'removed')
        ctx.ob(v != FALSE or posts_of(W, o), 'remove-none:entry', 'removing a child that is not there is not logged', '', o.trace)
    ctx.floor(kept, 1, 'entries about a child that is not there')
    ctx.floor(gone, 1, 'entries about a removed child')
    fn = ctx.inherent('NodeTreeBase', 'initialize')
    n = 0
    for o in ctx.run(fn, opaque={'NodeBase::add_child_from_ptr', 'NodeTreeBase::make_ready'})[0]:
        for e, lv, tx in posts_of(W, o):
            n += 1
            ctx.ob(lv == 'Debug', 'root:level', 'adding the root is not logged as debug information', where(e), o.trace)
            tells(ctx, 'root', o, e, tx + [], lambda p: name_of(p), None, None, 'the root')
            lit = lits(tx)
            ctx.ob(any(bare(p) == ('int', 0) and 'id' in before(tx, i) for i, p in enumerate(tx) if not isinstance(p, str)) or 'ID of "0"' in lit, 'root:id', 'the entry about the root does not tell its id', where(e), o.trace)
    ctx.floor(n, 1, 'entries about the root')


# ---------------------------------------------------------------- errors of loading
def error_of(v):
    return dict(v[3])['0'] if v[:1] == ('adt',) and v[2] == 'Err' else None


def causes(F, o):
    """what made a path fail: ('below', the failed step) or ('item', what is missing or of another kind)"""
    last = None
    for k, v in F.items():
        if not isinstance(k, tuple):
            continue
        if v == frozenset({'Err'}):
            last = ('below', k)
        elif k[:1] == ('haskey',) and v is False:
            last = ('item', k[2])
        elif k[:1] == ('as',) and v == frozenset({'None'}):
            x = k[2]
            last = ('item', x[2][1] if x[:1] == ('fld',) and isinstance(x[2], tuple) and x[2][:1] == ('k',) else x)
        elif isinstance(v, frozenset) and 'None' in v and len(v) == 1:
            last = ('item', k)
        elif isinstance(v, frozenset) and 'Value' not in v and 'Table' in v:
            last = ('item', 'field')
        elif isinstance(v, frozenset):
            last = last
    return last


def check_load(ctx):
    r = scn.Reader(ctx, None)
    if r.loop is None or not ctx.ob(r.discover(), 'load:names', 'the names of the metadata can not be made out'):
        return
    said, n = {}, 0
    for o in r.outs:
        if o.kind != 'ret' or o.value[:1] != ('adt',) or o.value[2] != 'Err':
            continue
        n += 1
        F = dict(r.fact(k, v) for k, v in facts(r.W, o).items())
        ps = text(r.name(r.W.nz(error_of(o.value))))
        c = causes(F, o)
        shape = [p if isinstance(p, str) else show(p)[:60] for p in ps]
        ctx.ob(bool(ps), 'load:empty', 'an error of loading says nothing', '', o.trace)
        if c is None:
            c = ('item', '?')
        if c[0] == 'below':
            ctx.ob(('fld', c[1], 'Err.0') in vals(ps), 'load:below:%s' % short(c[1]), 'an error of loading does not pass on why %s failed: %s' % (short(c[1]), shape), '', o.trace)
            continue
        what = c[1]
        meta = isinstance(what, tuple) and what[:1] == ('str',)
        if meta and what[1] == r_parent(r):
            meta = False
        if meta or what == ('ITEM',):
            ctx.ob(('KEY',) in vals(ps), 'load:key:%s' % (what[1] if meta else 'entry'), 'an error of loading does not tell which entry is wrong: %s' % shape, '', o.trace)
        if meta:
            ctx.ob(what[1].split('_')[-1].lower() in lits(ps).lower(), 'load:item:' + what[1], 'an error of loading does not tell that %s is wrong: %s' % (what[1], shape), '', o.trace)
        skel = tuple(p if isinstance(p, str) else None for p in ps)
        said.setdefault(skel, set()).add(repr(what) if not isinstance(what, tuple) or what[:1] != ('haskey',) else repr(what[1:]))
    for skel, ws in said.items():
        ctx.ob(len(ws) == 1, 'load:distinct:%s' % ''.join(x or '*' for x in skel)[:60], 'different mistakes in a scene give the same error: %s' % sorted(ws), '')
    ctx.floor(n, 6, 'errors of load_from_str')
    for m, opq in (('load', {'NodeScene::load_from_str'}), ('save', {'NodeScene::save_to_str'})):
        W = World(None)
        fn = ctx.inherent('NodeScene', m)
        n, said = 0, {}
        for o in ctx.run(fn, opaque=opq)[0]:
            if o.kind != 'ret' or o.value[:1] != ('adt',) or o.value[2] != 'Err':
                continue
            n += 1
            F = facts(W, o)
            ps = text(W.nz(error_of(o.value)))
            below = [k for k, v in F.items() if v == frozenset({'Err'})]
            shape = [p if isinstance(p, str) else show(p)[:60] for p in ps]
            if below:
                ctx.ob(any(('fld', k, 'Err.0') in vals(ps) for k in below[-1:]), m + ':below:' + short(below[-1]), '%s does not pass on why %s failed: %s' % (m, short(below[-1]), shape), '', o.trace)
            else:
                ctx.ob(len(lits(ps)) > 3, m + ':empty', 'an error of %s says nothing' % m, '', o.trace)
        ctx.floor(n, 1, 'errors of ' + m)


def short(k):
    k = plain(k)
    return k[1] if k[:1] == ('app',) else show(k)[:60]


def r_parent(r):
    return 'parent'


def check_fields(ctx):
    """the loaders that class! writes"""
    n = 0
    for cl in p26.CLASSES:
        args, sigs, fields, hooks_, other = p26.CLASSES[cl]
        f = ctx.trait_method('Registered', 'load_from_owned', r'\b%s$' % cl, crate='witness')
        W = World(None)
        missing, unread = {}, {}
        for o in ctx.run(f, opaque={'NodeBase::new'}, typed=p26.Types().calls())[0]:
            if o.kind != 'ret' or o.value[:1] != ('adt',) or o.value[2] != 'Err':
                continue
            F = facts(W, o)
            ps = text(W.nz(error_of(o.value)))
            gone = [k[2][1] for k, v in F.items() if k[0] == 'haskey' and k[2][:1] == ('str',) and v is False]
            bad = [p26.entry_of(k[2][1]) for k, v in F.items() if k[0] == 'app' and k[1] == 'load' and v == frozenset({'None'})]
            at = (gone + bad)
            if len(at) != 1 or at[0] is None:
                continue
            n += 1
            field = at[0]
            ctx.ob(field.removeprefix('r#') in lits(ps), 'field:%s.%s:%s' % (cl, field, 'missing' if gone else 'type'), 'the error for field %s of %s does not name it: %s' % (field, cl, ps), f.path, o.trace)
            (missing if gone else unread)[field] = tuple(p if isinstance(p, str) else None for p in ps)
        for x in missing:
            if x in unread:
                ctx.ob(missing[x] != unread[x], 'field:%s.%s:distinct' % (cl, x), 'a missing and an unreadable field %s of %s give the same error' % (x, cl), f.path)
    ctx.floor(n, 10, 'errors about fields')


def check(ctx):
    shown = check_errors(ctx)
    check_unwraps(ctx, shown)
    check_entries(ctx)
    check_load(ctx)
    check_fields(ctx)
