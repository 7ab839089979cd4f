"""The writer and the reader of scene files are analysed on all paths and their grammars compared. From save_to_str the entry of a node is read off (its key, its metadata, its fields, the numbering of the nodes before); load_from_str is shown to take exactly these apart again: the key at the last separator, the same metadata under the same names, every other field unchanged, each node put below the node with the number of its parent, behind the children that are there; and to refuse an entry only where it is not what the writer writes. The file operations are shown to write and read the whole text."""
from world import *
from rule import *
from scn import *

RULE = 'grammar of the writer == grammar of the reader; numbers unique by construction; order kept; refusals contradict the grammar; file == text'


def numbering(ctx):
    """update_internal gives the nodes below different numbers, above the one it is given"""
    W = World(None)
    fn = ctx.inherent('NodeScene', 'update_internal')
    outs, I = ctx.run(fn)
    ctr = ('sym', fn.locals[2][1] or 'a2')
    C = lambda t: canon(W.nz(t))
    kids = fl(('sym', 'self'), 'children')
    n = 0
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'number:aborts', 'numbering can abort', '', o.trace):
            continue
        ls = [l for l in loops(o.trace) if walk_of(l) and strip_seq(C(walk_of(l)[2])) == kids]
        if not ctx.ob(len(ls) == 1 and walk_of(ls[0])[1] and completed(o.trace, walk_of(ls[0])[0]), 'number:walk', 'not all children are numbered, in order', '', o.trace):
            continue
        l = ls[0]
        ret = C(o.value)
        ctx.ob(ret[:1] == ('phi',) and ret[1] == l.name, 'number:result', 'the last number that was given is not handed back: ' + show(ret)[:200], '', o.trace)
        ph = [k for k in I.phis if C(k) == ret]
        if not ph:
            continue
        ctx.ob(C(I.phis[ph[0]][0]) == ctr, 'number:start', 'numbering does not start at the number given', '', o.trace)
        child = ('fld', kids, ('i', ('ix', walk_of(l)[0])))
        for b, nx in zip(l.extra, I.body_phi[l.name]):
            n += 1
            ids = [e for e in flat(b) if e.kind == 'write']
            rec = [e for e in flat(b) if e.kind == 'rec']
            ok = len(ids) == 1 and ids[0].name == 'rid' and C(ids[0].args[0]) == ('base', fl(child, 'this')) and succ(C(ids[0].args[1]), ret)
            ctx.ob(ok, 'number:child', 'a child does not get the next number', where(ids[0]) if ids else '', b)
            ok = len(rec) == 1 and C(rec[0].args[0]) == child and succ(C(rec[0].args[1]), ret)
            ctx.ob(ok, 'number:below', 'the nodes below a child are not numbered on from its number', where(rec[0]) if rec else '', b)
            ctx.ob(bool(rec) and nx[ph[0]] == rec[0].ret, 'number:on', 'the numbers of the next child do not follow those below this one', '', b)
    ctx.floor(n, 1, 'steps of update_internal')


def succ(t, x):
    return t[:2] == ('bin', 'Add') and {t[2], t[3]} == {x, ('int', 1)}


def strip_seq(t):
    while isinstance(t, tuple) and t[:1] == ('seq',):
        t = t[1]
    return t


def has_fact(F, k, ok):
    v = F.get(k)
    return isinstance(v, frozenset) and v == frozenset({ok})


def files(ctx):
    W = World(None)
    C = lambda t: noid(canon(W.nz(t)))
    err = lambda v: v[:1] == ('adt',) and v[2] == 'Err'
    # save
    fn = ctx.inherent('NodeScene', 'save')
    name = ('sym', fn.locals[3][1] or 'a3')
    path = ('sym', fn.locals[2][1] or 'a2')
    outs, I = ctx.run(fn, opaque={'NodeScene::save_to_str'})
    n = 0
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'file:aborts', 'saving to a file can abort', '', o.trace):
            continue
        v = C(o.value)
        cs = {}
        for e in flat(o.trace):
            if e.kind == 'call':
                cs.setdefault(e.name, []).append(e)
        F = {C(k): x for k, x in facts(W, o).items()}
        bad = [k for k, x in F.items() if isinstance(x, frozenset) and 'Err' in x and 'Ok' not in x]
        if bad:
            ctx.ob(err(v), 'file:hides', 'saving succeeds although %s failed' % show(bad[0])[:100], '', o.trace)
            continue
        if not ctx.ob(v[:1] == ('adt',) and v[2] == 'Ok', 'file:refuses', 'saving gives ' + show(v)[:200], '', o.trace):
            continue
        n += 1
        st, cr, wr = cs.get('NodeScene::save_to_str', []), cs.get('File::create', []), cs.get('Write::write_all', []) + cs.get('fs::write', [])
        if not ctx.ob(len(st) == 1 and len(wr) == 1 and len(cr) == (0 if wr[0].name == 'fs::write' else 1), 'file:writes', 'saving does not create one file and write one text to it', '', o.trace):
            continue
        for e in st + cr + wr:
            ctx.ob(has_fact(F, C(e.ret), 'Ok'), 'file:ignored', 'it is not asked whether %s succeeded' % e.name, where(e), o.trace)
        ctx.ob(C(st[0].args[0]) == ('sym', 'self'), 'file:text', 'another scene is saved', where(st[0]), o.trace)
        text = fl(C(st[0].ret), 'Ok.0')
        said = C(wr[0].args[1])
        while is_app(said, 'String::as_bytes', 1) or is_app(said, 'str::as_bytes', 1):
            said = said[2][0]
        ctx.ob(said == text, 'file:text', 'what is written is ' + show(said)[:200], where(wr[0]), o.trace)
        at = (cr or wr)[0].args[0]
        ctx.ob(joined(W, C, at, path, name), 'file:name', 'the file is ' + show(C(at))[:300], where((cr or wr)[0]), o.trace)
    ctx.floor(n, 1, 'ways to save')
    # load
    fn = ctx.inherent('NodeScene', 'load')
    path = ('sym', fn.locals[1][1] or 'a1')
    outs, I = ctx.run(fn, opaque={'NodeScene::load_from_str'})
    n = 0
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'file:aborts', 'loading from a file can abort', '', o.trace):
            continue
        F = {C(k): x for k, x in facts(W, o).items()}
        v = C(o.value)
        ext = ('app', 'Path::extension', (path,), None)
        txt = ('app', 'OsStr::to_str', (fl(ext, 'Some.0'),), None)
        e1, e2 = F.get(ext), F.get(txt)
        scn = None
        for k, x in F.items():
            if k[:2] == ('bin', 'Eq') and {k[2], k[3]} == {fl(txt, 'Some.0'), ('str', 'scn')} or k[:2] == ('bin', 'Eq') and {k[2], k[3]} == {fl(ext, 'Some.0'), ('str', 'scn')}:
                scn = x
        wrong = e1 == frozenset({'None'}) or e2 == frozenset({'None'}) or scn is False
        bad = [k for k, x in F.items() if isinstance(x, frozenset) and 'Err' in x and 'Ok' not in x and not is_app(k, 'NodeScene::load_from_str')]
        if wrong or bad:
            ctx.ob(err(v), 'file:accepts', 'loading goes on although %s' % ('the extension is another' if wrong else show(bad[0])[:100] + ' failed'), '', o.trace)
            continue
        if not ctx.ob(scn is True, 'file:extension', 'the extension of the file is not asked for', '', o.trace):
            continue
        n += 1
        ls = calls(o.trace, 'NodeScene::load_from_str')
        rd = calls(o.trace, 'Read::read_to_end', 'Read::read_to_string', 'fs::read_to_string', 'fs::read')
        op = calls(o.trace, 'File::open')
        if not ctx.ob(len(ls) == 1 and len(rd) == 1 and (rd[0].name.startswith('fs::') or len(op) == 1), 'file:reads', 'loading does not open one file and read one text', '', o.trace):
            continue
        for e in rd + op:
            ctx.ob(has_fact(F, C(e.ret), 'Ok'), 'file:ignored', 'it is not asked whether %s succeeded' % e.name, where(e), o.trace)
        opened = C(op[0].args[0]) if op else C(rd[0].args[0])
        ctx.ob(opened == path, 'file:opens', 'the file that is read is ' + show(opened)[:200], where((op or rd)[0]), o.trace)
        t = W.nz(ls[0].args[0])
        whole = whole_text(W, C, t, rd[0])
        ctx.ob(whole, 'file:whole', 'what is loaded is not the whole file: ' + show(C(t))[:300], where(ls[0]), o.trace)
        ctx.ob(C(o.value) == C(ls[0].ret) or v[:1] == ('adt',) and v[3][0][1] == fl(C(ls[0].ret), v[2] + '.0'), 'file:result', 'what is loaded is not handed back: ' + show(v)[:200], '', o.trace)
    ctx.floor(n, 1, 'ways to load')


def joined(W, C, at, path, name):
    """path/name.scn"""
    want = ('cat', (name, ('str', '.scn')))
    t = C(at)
    while is_app(t, 'Path::to_owned', 1) or is_app(t, 'Path::to_path_buf', 1):
        t = t[2][0]
    if is_app(t, 'Path::join', 2):
        return t[2][0] == path and asp(t[2][1]) == want
    if t[:1] == ('mut',):
        call, old = t[1], t[3]
        return call[:2] == ('app', 'PathBuf::push') and t[2] == 0 and (old == path or strip_obj(old) == path) and asp(call[2][1]) == want
    return False


def strip_obj(t):
    while isinstance(t, tuple) and t[:1] in (('obj',), ('deref',), ('&',)):
        t = t[1]
    return t


def asp(t):
    while isinstance(t, tuple) and t[:1] == ('app',) and len(t[2]) == 1 and t[1].split('::')[-1] in ('new', 'as_ref', 'from', 'as_path'):
        t = t[2][0]
    return t


def whole_text(W, C, t, rd):
    t = C(t)
    if rd.name == 'fs::read_to_string':
        return t == fl(C(rd.ret), 'Ok.0')
    if t[:1] == ('fld',) and t[2] == 'Ok.0' and is_app(t[1], 'String::from_utf8', 1) or t[:1] == ('fld',) and t[2] == 'Ok.0' and is_app(t[1], 'str::from_utf8', 1):
        t = t[1][2][0]
        if rd.name == 'fs::read':
            return t == fl(C(rd.ret), 'Ok.0')
    return t[:1] == ('mut',) and t[1][:2] == ('app', rd.name) and t[2] == 1 and t[3] in (('vec', ()), ('str', ''), ('cat', ()))


def agreement(ctx, w):
    r = Reader(ctx, w)
    if r.loop is None:
        return
    cases = set()
    n = 0
    for o, b, nx in r.bodies(ctx):
        n += 1
        cases.add(r.entry(ctx, b, nx))
    ctx.floor(n, 3, 'ways to load an entry')
    ctx.ob(cases >= {'root', 'child', 'deeper'}, 'load:cases', 'only %s are loaded' % sorted(map(str, cases)))
    for o in r.outs:
        if o.kind != 'ret':
            continue            # P19
        F = dict(r.fact(k, v) for k, v in facts(r.W, o).items())
        v = r.name(o.value)
        if not ctx.ob(v[:1] == ('adt',) and v[2] in ('Ok', 'Err'), 'load:result', 'loading gives ' + show(v)[:200], '', o.trace):
            continue
        if v[2] == 'Err':
            ctx.ob(r.refused(F) is not None, 'load:refuses', 'loading refuses a document although every entry is as it is written: ' + show(v)[:200], '', o.trace)
        else:
            done = any(completed(o.trace, r.tag) for _ in (1,))
            ctx.ob(done and strip_payload(v[3][0][1]) == SCENE, 'load:scene', 'what is loaded is not the scene that was built from all entries: ' + show(v)[:200], '', o.trace)
            ctx.ob(not [k for k, x in F.items() if is_app(k, 'node_registry::deserialize')], 'load:scene', 'loading ends before the last entry', '', o.trace)


def check(ctx):
    w = Writer(ctx)
    numbering(ctx)
    files(ctx)
    if w.ok:
        agreement(ctx, w)
