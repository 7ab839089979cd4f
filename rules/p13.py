"""Logger: for each verbosity, level and kind of caller, every path of posting is shown to keep and print the message iff the verbosity lets the level through, as one entry holding time, caller, level and message in this order behind all earlier ones; the caller is named as its identity says; the result says whether it was a panic, and only a panic adds the crash report. Scans show that entries are never changed or removed."""
from world import *
from rule import *
import scan

RULE = 'kept and printed <=> LEVELS[verbosity] contains the level; entry == time, caller, level, message; the log text is only appended to'
LEVELS = {'All': ('Debug', 'Info', 'Warn', 'Panic'), 'NoDebug': ('Info', 'Warn', 'Panic'), 'OnlyIssues': ('Warn', 'Panic'), 'OnlyPanics': ('Panic',)}
LABEL = {'Debug': 'DEBUG', 'Info': 'INFO', 'Warn': 'WARN', 'Panic': 'PANIC'}


def pieces(t):
    """a text as a list of literals and values"""
    t = plain(t)
    if t[:1] == ('cat',):
        r = []
        for x in t[1]:
            r += pieces(x)
        return r
    if t[:1] == ('disp',):
        return pieces(t[1])
    if t[:1] == ('str',) and len(t) == 2:
        return [t[1]] if t[1] else []
    if isinstance(t, str):
        return [t]
    return [t]


def merged(ps):
    r = []
    for p in ps:
        if isinstance(p, str) and r and isinstance(r[-1], str):
            r[-1] += p
        else:
            r.append(p)
    return r


def in_order(ps, wanted):
    """do the wanted values (str: somewhere in a literal; else: the value) occur in this order, and no other message text"""
    i = 0
    ps = merged(ps)
    pos = 0
    for w in wanted:
        while i < len(ps):
            p = ps[i]
            if isinstance(w, str):
                if isinstance(p, str) and p.find(w, pos) >= 0:
                    pos = p.find(w, pos) + len(w)
                    break
            elif p == w:
                i += 1
                pos = 0
                break
            i += 1
            pos = 0
        else:
            return False
    return True


def allowed(F, t, all_):
    v = F.get(t)
    return [x for x in all_ if v is None or x in v]


def check(ctx):
    P = ctx.P
    W = World(None)
    fn = ctx.inherent('Logger', 'post_manual')
    verb, sysm, log = ('fld', ('obj', ('sym', 'self'), 0), 'verbosity_lv'), ('sym', fn.locals[2][1] or 'a2'), ('sym', fn.locals[3][1] or 'a3')
    outs, I = ctx.run(fn, base=OPAQUE - {'Logger::post_manual'})
    cells = set()
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'entry:aborts', 'writing an entry can abort', '', o.trace):
            continue
        F = facts(W, o)
        ev = list(flat(o.trace))
        app = [e for e in ev if e.kind == 'write' and plainref(W.nz(e.args[0])) == ('fld', ('sym', 'self'), 'log')]
        other = [e for e in ev if e.kind == 'write' and e not in app]
        prints = [e for e in ev if e.kind == 'call' and e.name in ('io::_print', 'stdio::_print', 'io::_eprint')]
        ctx.ob(not other, 'entry:changes', 'writing an entry changes something besides the log', where(other[0]) if other else '', o.trace)
        ctx.ob(all(e.name == 'string.append' for e in app), 'entry:appends', 'the log is not only appended to', where(app[0]) if app else '', o.trace)
        for vb in allowed(F, verb, LEVELS):
            for lv in allowed(F, log, LABEL):
                for sy in allowed(F, sysm, ('Named', 'NodePath')):
                    cells.add((vb, lv, sy))
                    k = 'entry:%s/%s' % (vb, lv)
                    let = lv in LEVELS[vb]
                    ctx.ob(bool(app) == let, k + ':kept', 'a %s message is %slogged at verbosity %s' % (lv, '' if app else 'not ', vb), where(app[0]) if app else '', o.trace)
                    ctx.ob(bool(prints) == let, k + ':printed', 'a %s message is %sprinted at verbosity %s' % (lv, '' if prints else 'not ', vb), '', o.trace)
                    if not let or not app:
                        continue
                    who = ('fld', sysm, sy + '.0')
                    msg = ('fld', log, lv + '.0')
                    txt = merged(sum((pieces(W.nz(e.args[1])) for e in app), []))
                    time = [x for x in txt if not isinstance(x, str) and contains_name(x, 'SystemTime::now')]
                    ctx.ob(time and in_order(txt, [time[0], who, LABEL[lv], msg]), k + ':text', 'the entry of a %s message is not time, caller, level, message: %s' % (lv, [show(x) if not isinstance(x, str) else x for x in txt]), where(app[0]), o.trace)
                    lits = ''.join(x for x in txt if isinstance(x, str))
                    ctx.ob(txt and isinstance(txt[-1], str) and txt[-1].endswith('\n') and lits.count('\n') == 1, k + ':line', 'an entry is not one line', where(app[0]), o.trace)
                    ctx.ob(not any(LABEL[x] in lits for x in LABEL if x != lv), k + ':label', 'an entry carries another level', where(app[0]), o.trace)
                    ptxt = []
                    for e in prints:
                        ptxt += pieces(W.nz(e.args[0]))
                    ctx.ob(in_order(ptxt, [who, LABEL[lv], msg]), k + ':print', 'what is printed is not the entry', where(prints[0]) if prints else '', o.trace)
    ctx.ob(len(cells) == 4 * 4 * 2, 'entry:cells', 'not every verbosity, level and caller is decided: %d of 32' % len(cells))
    # ------------------------------------------------ posting for a node
    fn = ctx.inherent('Logger', 'post')
    call, log = ('sym', fn.locals[2][1] or 'a2'), ('sym', fn.locals[3][1] or 'a3')
    outs, I = ctx.run(fn, base=(OPAQUE - {'Logger::post'}) | {'NodeBase::get_absolute_path'})
    cells = set()
    for o in outs:
        F = facts(W, o)
        known = [v for k, v in F.items() if k[:1] == ('haskey',) and plain(k[2]) == call and field_of(k[1], 'identity')]
        if known and known[-1] is False:
            continue          # not registered: unspecified
        if o.kind != 'ret':
            # an identity is only there for a node that is
            nd = [v for k, v in F.items() if k[:1] == ('haskey',) and plain(k[2]) == call and not field_of(k[1], 'identity')]
            ctx.ob(nd and nd[-1] is False, 'post:aborts', 'posting for a registered node can abort', '', o.trace)
            continue
        ev = list(flat(o.trace))
        pm = calls(o.trace, 'Logger::post_manual')
        ids = [(k, v) for k, v in F.items() if isinstance(v, frozenset) and k[:1] == ('fld',) and k[2] == ('k', call) and field_of(k[1], 'identity')]
        app = [e for e in ev if e.kind == 'write']
        for vb in allowed(F, verb, LEVELS):
            for lv in allowed(F, log, LABEL):
                cells.add((vb, lv))
                let = lv in LEVELS[vb]
                k = 'post:%s/%s' % (vb, lv)
                ctx.ob(len(pm) == (1 if let else 0) or not let and len(pm) <= 1, k + ':entry', 'posting a %s at verbosity %s writes %d entries' % (lv, vb, len(pm)), '', o.trace)
                v = W.nz(o.value)
                ctx.ob(v == ('bool', let and lv == 'Panic'), k + ':result', 'posting a %s at verbosity %s says %s' % (lv, vb, show(v)), '', o.trace)
                if lv != 'Panic':
                    ctx.ob(not app, k + ':adds', 'posting a %s adds more than its entry' % lv, where(app[0]) if app else '', o.trace)
                elif ctx.ob(app and all(e.name == 'string.append' and plainref(W.nz(e.args[0])) == ('fld', ('sym', 'self'), 'log') for e in app), k + ':report', 'a panic adds no crash report to the log', '', o.trace):
                    txt = sum((pieces(W.nz(e.args[1])) for e in app), [])
                    tree = [e.ret for e in calls(o.trace, 'functions::draw_tree') if plain(e.args[1]) == call]
                    ctx.ob(any(t in txt for t in tree) and any(contains_name(x, 'crash_header') for x in txt) and any(contains_name(x, 'crash_footer') for x in txt), k + ':report-text', 'the crash report lacks the header, the footer or the caller\'s place in the tree', where(app[0]), o.trace)
                    ctx.ob(pm and ev.index(pm[0]) < ev.index(app[0]), k + ':report-order', 'the crash report stands before the panic', where(app[0]), o.trace)
        for e in pm:
            ctx.ob(plain(W.nz(e.args[2])) == log, 'post:same', 'another message is logged', where(e), o.trace)
            s = W.nz(e.args[1])
            if ctx.ob(ids and len(ids[0][1]) == 1 and s[:1] == ('adt',), 'post:identity', 'the caller is named without looking at its identity', where(e), o.trace):
                idk, iv = ids[0]
                if 'UniqueName' in iv:
                    ctx.ob(s[2] == 'Named' and untimed(plain(s[3][0][1])) == untimed(('fld', idk, 'UniqueName.0')), 'post:named', 'a singleton is not named by its name: ' + show(s), where(e), o.trace)
                else:
                    ps = calls(o.trace, 'NodeBase::get_absolute_path')
                    base = [plainref(x.args[0]) for x in ps]
                    ctx.ob(s[2] == 'NodePath' and any(contains(s, x.ret) for x in ps) and all(contains_call(x.args[0], call) for x in ps), 'post:path', 'a node is not named by its path: ' + show(s), where(e), o.trace)
    ctx.ob(len(cells) == 16, 'post:cells', 'not every verbosity and level is decided: %d of 16' % len(cells))
    # ------------------------------------------------ what may touch the log text, and reading it
    ws = scan.field_writers(P, 'Logger', 'log')
    ok = {f.key for f in P.fns.values() if f.local and f.path.split('::')[-1] in ('post', 'post_manual', 'new') and 'logger::Logger' in f.path}
    for k in ws:
        rs = scan.roots_of(P, k, stop=ok) if k not in ok else {k}
        for r in rs:
            ctx.ob(r in ok, 'writer:' + P.fns[r].path, '%s changes the log text' % P.fns[r].path, ws[k][0])
    ctx.floor(len(ws), 1, 'writers of the log text')
    vs = scan.field_writers(P, 'Logger', 'verbosity_lv')
    for k in vs:
        ctx.ob(False, 'verbosity:' + P.fns[k].path, '%s changes the verbosity' % P.fns[k].path, vs[k][0])
    for o in ctx.run(ctx.inherent('Logger', 'to_str'))[0]:
        ctx.ob(o.kind == 'ret' and plainref(W.nz(o.value)) == ('fld', ('sym', 'self'), 'log'), 'read', 'reading the log gives something else: ' + show(o.value), '', o.trace)
    for o in ctx.run(ctx.inherent('NodeTreeBase', 'get_log'))[0]:
        ctx.ob(o.kind == 'ret' and plainref(W.nz(o.value)) == ('fld', ('fld', ('sym', 'self'), 'logger'), 'log'), 'get_log', 'reading the tree\'s log gives something else: ' + show(o.value), '', o.trace)
    # a new logger has the verbosity it was made with, and starts with nothing but its greeting
    fn = ctx.inherent('Logger', 'new')
    for o in ctx.run(fn)[0]:
        v = o.value
        while isinstance(v, tuple) and v[:1] in (('mut',), ('upd',)):
            v = v[3] if v[0] == 'mut' else v[1]
        ctx.ob(o.kind == 'ret' and v[:1] == ('adt',) and plain(dict(v[3])['verbosity_lv']) == ('sym', fn.locals[1][1] or 'a1'), 'new', 'a new logger has another verbosity: ' + show(o.value), '', o.trace)


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


def contains_call(t, rid):
    return contains(t, ('k', rid)) or contains(t, ('B', rid)) or contains(t, rid)


def untimed(t):
    if isinstance(t, tuple):
        if t[:1] == ('obj',) and len(t) == 3:
            return ('obj', untimed(t[1]))
        return tuple(untimed(x) for x in t)
    return t


def plainref(t):
    """a place or reference as fields of symbols, without times"""
    t = place(t) if isinstance(t, tuple) and t[:1] == ('ref',) else t
    if isinstance(t, tuple):
        if t[:1] in (('&',), ('deref',)) and len(t) == 2:
            return plainref(t[1])
        if t[:1] == ('obj',):
            return plainref(t[1])
        if t[:1] == ('app',) and len(t[2]) == 1 and t[1].endswith(('::deref', '::as_str', '::as_ref')):
            return plainref(t[2][0])
        if t[:1] == ('fld',):
            return ('fld', plainref(t[1]), t[2])
    return t
