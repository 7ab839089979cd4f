"""The witness crate uses every documented form of class! and connect!; the code that the macros make for it is evaluated path
by path. The table below says, for each class, which signals and fields it declares, of which kind and with which start value,
which hooks it defines and which traits it extends. The constructor must build exactly this value; the hooks given are exactly
the Node methods that are overridden, each with its own body; saving inserts a copy of every declared signal and field under
its own name and nothing else; loading gives each ghost its void value and every other field what its own entry reads as, and
fails exactly where an entry is missing or cannot be read; the loader of a class is registered before main under its type
name; the node accessors lead to the node itself and to its own base; connect! hands the named signal a callback that calls the
named method of the target with the signal's value."""
import re
from world import *
from rule import *

RULE = 'generated constructor, hooks, saver, loader, registration, accessors and callbacks == declaration, for each class of the witness crate'
WITNESS = True
GEN = {'make', 'mark', 'text'}
HOOKS_ALL = {'loaded', 'ready', 'process', 'terminal', 'process_mode'}


def make(n):
    return ('app', 'make', (('int', n),))


def text(n):
    return ('app', 'text', (('int', n),))


def arg(n):
    return ('sym', n)


SIG = ('signal',)
F, U, E, D = 'Field', 'UniqueField', 'ExportableField', 'DefaultField'
DEF = ('default',)
NOARG = ()
# name -> (arguments of new, signals, fields, hooks with their mark, other functions)
CLASSES = {
    'Plain': ([], {}, {}, {}, {}),
    'Open': ([], {}, {}, {}, {}),
    'Kinds': (['first', 'second'], {'none': '()', 'one': 'u8', 'two': '(u8, std::string::String)'}, {
        'reg_init': (F, 'u32', make(1)), 'reg': (F, 'u32', arg('first')), 'reg_pub': (F, 'String', text(2)),
        'exp_init': (E, 'u32', make(3)), 'exp': (E, 'String', arg('second')),
        'expd': (E, 'u32', ('int', 0)), 'expd_init': (E, 'u32', make(4)),
        'uni_init': (U, 'u32', make(5)), 'uni': (U, 'String', text(6)),
        'def': (D, 'u32', ('int', 0)), 'def_pub': (D, 'bool', ('bool', False))},
        {'loaded': 11, 'ready': 12, 'process': 13, 'terminal': 14, 'process_mode': 15}, {'plain': make(16), 'open': ('app', 'make', (('sym', 'by'),))}),
    'Mixed': ([], {'changed': '(u32, u32, std::string::String)'}, {
        'counts': (D, 'Vec<u32>', DEF), 'pair': (E, '(u32, String)', ('tup', (make(22), text(23)))), 'list': (E, 'Vec<String>', DEF),
        'handle': (U, 'Option<Box<u32>>', ('None',)), 'map': (F, 'HashMap<String, u32>', ('emptymap',))}, {'ready': 21}, {'before': make(20)}),
    'Names': ([], {'map': 'u8'}, {
        '_hidden': (E, 'u32', make(60)), 'Upper': (E, 'u32', make(61)), 'owned_state': (F, 'u32', make(62)), 'type': (E, 'u32', ('int', 0)), 'node': (D, 'u32', ('int', 0)),
        'longer_name_with_2_digits': (U, 'u32', make(63))}, {}, {'new_one': make(64), 'move': make(65)}),
    'NoArgs': ([], {}, {'value': (F, 'u32', make(30))}, {'process': 31}, {}),
    'Broad_Of2': (['a3', 'later', 'word'], {
        's0': '()', 's1': 'u8', 's2': '(u8, u16)', 's3': '(u8, u16, u32)', 's4': '(u8, u16, u32, u64)', 's5': '(u8, u16)', 's6': '()',
        's7': '(u8, u16, u32, u64, std::string::String, bool)'}, {
        'a0': (F, 'u32', make(200)), 'a1': (D, 'u32', ('int', 0)), 'a2': (U, 'u32', make(202)), 'a3': (F, 'u32', arg('a3')), 'a4': (F, 'u32', make(204)),
        'a5': (U, 'String', arg('word')), 'a6': (F, 'String', text(206)), 'a7': (D, 'bool', ('bool', False)), 'a8': (F, 'u32', arg('later')),
        'a9': (E, 'u32', make(209)), 'b0': (E, 'u32', make(210)), 'b1': (E, 'String', DEF), 'b2': (E, 'u32', make(241)),
        'b3': (F, 'u32', make(213)), 'b4': (U, 'u32', arg('a3')), 'b5': (F, 'u32', make(215))},
        {'loaded': 226, 'ready': 222, 'process': 223, 'terminal': 224, 'process_mode': 225},
        {'f0': make(230), 'f1': make(231), 'f2': ('bin', 'Add', make(232), ('int', 221)), 'f3': make(233)}),
    'Extended': ([], {}, {}, {}, {}),
    'Listener': ([], {}, {}, {}, {}),
    'Speaker': ([], {'said': 'u8', 'also': 'u8', 'both': '(u8, std::string::String)'}, {}, {}, {}),
}
MARKS = {'Kinds': [10], 'Broad_Of2': [240]}
EXTENDS = {'Extended': ['First', 'Second']}
CONNECTS = {'always': ('said', 'Signal::connect', 'Listener::heard'), 'once': ('also', 'Signal::connect_once', 'Listener::other'),
            'pair': ('both', 'Signal::connect', 'Listener::heard_two')}
RAW = {}
MORE = {'Listener': {'heard', 'heard_two', 'other'}, 'Speaker': {'always', 'once', 'pair'}}
GHOSTS = {'Field', 'UniqueField', 'DefaultField', 'Signal'}


def short(ty):
    """a type without the paths in front of names"""
    return re.sub(r'\b(\w+::)+', '', ty)


def bare(t):
    """without the numbers that tell calls apart"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'app' and len(t) == 4:
        return ('app', t[1], bare(t[2]))
    return tuple(bare(x) for x in t)


def struct(v, name):
    """fields of a value of the struct"""
    if v[0] == 'adt' and v[1].split('::')[-1] == name:
        return dict(v[3])
    return None


def wrapper(v):
    """(kind, content) of a field value; content None if void"""
    if v[0] != 'adt':
        return (None, v)
    k = v[1].split('::')[-1]
    return (k, bare(v[3][0][1])) if v[3] else (k, None)


def is_start(v, want):
    if want == ('None',):
        return v is not None and v[0] == 'adt' and v[2] == 'None'
    if want == DEF:
        return v == ('str', '') or v is not None and (v[0] in ('emptyvec', 'emptymap', 'vec') and len(v) <= 2 and not any(v[1:]) or v[:2] == ('app', 'default'))
    return v == want


def fns(ctx, pre):
    return {f.j.get('nm', f.path.split('::')[-1]): f for f in ctx.P.fns.values() if f.crate == 'witness' and f.path.startswith(pre)}


def closures(ctx, fn):
    return [f for f in ctx.P.fns.values() if f.crate == 'witness' and f.path.startswith(fn.path + '::{closure')]


class Types:
    """answers for the static functions of Exportable and Voidable, per type; a ghost stays a question only for exported fields"""

    def calls(self):
        def ghost(c, ts):
            w = short(ts[0]).split('<')[0]
            return TRUE if w in GHOSTS else ('app', 'ghost', (('ty', short(ts[0])),), None)

        def load(c, ts):
            return ('app', 'load', (('ty', short(ts[0])), c.args[0]), None)

        def void(c, ts):
            return ('app', 'void', (('ty', short(ts[0])),), None)

        def name(c, ts):
            return ('app', 'type_name', (('ty', ts[0]),), None)
        return {'Exportable::is_ghost_export_type': ghost, 'Exportable::from_value': load, 'Voidable::void': void, 'any::type_name': name}


TRUE = ('bool', True)


def stripbox(I, o, t, d=0):
    """replace boxes by what is in them"""
    if not isinstance(t, tuple) or d > 12:
        return t
    if t[:1] == ('ref',) and t[1][0][0] == 'cell':
        return ('box', stripbox(I, o, I.load(o.state, t[1]), d + 1))
    return tuple(stripbox(I, o, x, d) for x in t)


def pairs(t):
    """entries of a chain of insertions into an empty map, the last one of a key counting; None if it is no such chain"""
    out = {}
    seen = []
    while t[0] == 'minsert':
        seen.append((t[2], t[3]))
        t = t[1]
    if t != ('emptymap',):
        return None
    for k, v in reversed(seen):
        out[k] = v
    return out


def check_new(ctx, cl, fs):
    args, sigs, fields, hooks_, other = CLASSES[cl]
    f = fs.get('new')
    if not ctx.ob(f is not None, 'new:%s' % cl, 'class %s has no constructor' % cl):
        return
    names = [l[1] for l in f.locals[1:f.argc + 1]]
    ctx.ob(names == args, 'new-args:%s' % cl, 'the constructor of %s takes %s instead of the arguments of its _init %s' % (cl, names, args), f.path)
    outs, I = ctx.run(f, opaque=GEN | {'NodeBase::new', 'Signal::new'})
    ctx.ob(len(outs) == 1 and outs[0].kind == 'ret', 'new-total:%s' % cl, 'the constructor of %s can fail' % cl, f.path)
    for o in outs:
        if o.kind != 'ret':
            continue
        s = struct(o.value, cl)
        if not ctx.ob(s is not None, 'new-value:%s' % cl, 'the constructor of %s does not return a %s' % (cl, cl), f.path, o.trace):
            continue
        ctx.ob(set(s) == {'base'} | set(sigs) | set(fields), 'members:%s' % cl, '%s has members %s' % (cl, sorted(s)), f.path)
        ctx.ob(bare(s.get('base', ())) == ('app', 'NodeBase::new', (('str', cl),)), 'new-base:%s' % cl, 'the base of a new %s is not a fresh one named after the class: %r' % (cl, s.get('base')), f.path)
        ids = []
        for n in sigs:
            v = s.get(n, ('?',))
            ctx.ob(bare(v) == ('app', 'Signal::new', ()), 'new-signal:%s.%s' % (cl, n), 'signal %s of a new %s is not a fresh one' % (n, cl), f.path)
            ids.append(v)
        ctx.ob(len(set(ids)) == len(ids), 'new-signals-apart:%s' % cl, 'two signals of a new %s are the same one' % cl, f.path)
        for n, (kind, ty, start) in fields.items():
            if n not in s:
                continue
            k, c = wrapper(s[n])
            ctx.ob(k == kind, 'kind:%s.%s' % (cl, n), 'field %s of %s is declared as %s but is a %s' % (n, cl, kind, k), f.path)
            ctx.ob(is_start(c, start), 'start:%s.%s' % (cl, n), 'field %s of a new %s starts as %r instead of %r' % (n, cl, c, start), f.path, o.trace)
        marks = [e.args[0][1] for e in o.trace if e.kind == 'call' and e.name == 'mark']
        ctx.ob(marks == MARKS.get(cl, []), 'init-body:%s' % cl, 'the body of _init of %s is not run exactly once' % cl, f.path, o.trace)
        n = sum(1 for e in o.trace if e.kind == 'call' and e.name in ('make', 'text'))
        want = repr([x[2] for x in fields.values()])
        ctx.ob(n == want.count("'make'") + want.count("'text'"), 'init-once:%s' % cl, 'an initial value of %s is computed more or less than once' % cl, f.path, o.trace)


def check_hooks(ctx, cl):
    args, sigs, fields, hooks_, other = CLASSES[cl]
    over = fns(ctx, '<classes::%s as node_tree::prelude::Node>::' % cl)
    over = {n: f for n, f in over.items() if '{closure' not in f.path}
    ctx.ob(set(over) == set(hooks_), 'hooks:%s' % cl, '%s defines the hooks %s, the generated code overrides %s' % (cl, sorted(hooks_), sorted(over)))
    for h, m in hooks_.items():
        if h not in over:
            continue
        outs, I = ctx.run(over[h], opaque=GEN)
        for o in outs:
            marks = [e.args for e in o.trace if e.kind == 'call' and e.name == 'mark']
            ctx.ob(o.kind == 'ret' and marks == [(('int', m),)], 'hook-body:%s.%s' % (cl, h), 'hook %s of %s does not run its own body' % (h, cl), over[h].path, o.trace)
            if h == 'process_mode':
                ctx.ob(o.kind == 'ret' and o.value[0] == 'adt' and o.value[2] == 'Inverse', 'hook-value:%s' % cl, 'process_mode of %s does not return what its body returns' % cl, over[h].path)
    inh = fns(ctx, 'classes::%s::' % cl)
    ctx.ob({x for x in inh if x[0] != '{'} - {'new', 'LIMIT', 'OPEN', 'SIZE', 'C0', 'C1', 'C2'} == set(other) | MORE.get(cl, set()), 'fns:%s' % cl, '%s has the functions %s' % (cl, sorted(inh)))
    for n, v in other.items():
        if ctx.ob(n in inh, 'fn:%s.%s' % (cl, n), 'function %s of %s is missing' % (n, cl)):
            outs, I = ctx.run(inh[n], opaque=GEN)
            ctx.ob(len(outs) == 1 and outs[0].kind == 'ret' and bare(outs[0].value) == v, 'fn-body:%s.%s' % (cl, n), 'function %s of %s does not do what its body says' % (n, cl), inh[n].path)


def check_save(ctx, cl):
    args, sigs, fields, hooks_, other = CLASSES[cl]
    f = ctx.trait_method('Registered', 'save_from_owned', r'\b%s$' % cl, crate='witness')
    kinds = {n: 'Signal' for n in sigs}
    kinds.update({n: x[0] for n, x in fields.items()})
    outs, I = ctx.run(f, opaque={k + '::clone' for k in GHOSTS | {E}})
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'save-total:%s' % cl, 'saving a %s can panic' % cl, f.path, o.trace):
            continue
        m = pairs(stripbox(I, o, o.value))
        if not ctx.ob(m is not None, 'save-map:%s' % cl, 'what is saved of a %s is not a map of its fields: %r' % (cl, o.value), f.path):
            continue
        raw = {k[1][2:]: k[1] for k in m if k[0] == 'str' and k[1].startswith('r#')}   # how a raw name is written is up to the code
        m = {('str', k[1].removeprefix('r#')) if k[0] == 'str' else k: v for k, v in m.items()}
        RAW[cl] = raw
        ctx.ob(set(m) == {('str', n) for n in kinds}, 'save-names:%s' % cl, 'what is saved of a %s is %s instead of %s' % (cl, sorted(str(k[1]) for k in m), sorted(kinds)), f.path)
        for n, k in kinds.items():
            v = bare(m.get(('str', n), ()))
            want = ('app', k + '::clone', (('&', ('fld', ('obj', ('sym', 'self'), 0), n)),))
            ctx.ob(v == ('box', want), 'save-value:%s.%s' % (cl, n), 'what is saved under %s of a %s is not a copy of this field: %r' % (n, cl, v), f.path)


def check_load(ctx, cl):
    args, sigs, fields, hooks_, other = CLASSES[cl]
    f = ctx.trait_method('Registered', 'load_from_owned', r'\b%s$' % cl, crate='witness')
    outs, I = ctx.run(f, opaque={'NodeBase::new'}, typed=Types().calls())
    types = {n: 'Signal<%s>' % short(t) for n, t in sigs.items()}
    types.update({n: '%s<%s>' % (x[0], x[1]) for n, x in fields.items()})
    ok = err = 0
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'load-total:%s' % cl, 'loading a %s can panic' % cl, f.path, o.trace):
            continue
        W = World(None)
        Fs = facts(W, o)
        key = {n: RAW.get(cl, {}).get(n, n) for n in types}     # a field is read from where saving puts it
        ghost = {n: True if t.split('<')[0] in GHOSTS else Fs.get(('app', 'ghost', (('ty', t),), None)) for n, t in types.items()}
        have = {n: next((v for k, v in Fs.items() if k[0] == 'haskey' and k[2] == ('str', key[n])), None) for n in types}

        def read(n):
            for k, v in Fs.items():
                if k[0] == 'app' and k[1] == 'load' and entry_of(k[2][1]) == key[n]:
                    return (k, v)
            return (None, None)
        good = o.value[0] == 'adt' and o.value[2] == 'Ok'
        if not good:
            err += 1
            bad = [n for n in types if ghost[n] is False and (have[n] is False or read(n)[1] == frozenset({'None'}))]
            ctx.ob(bool(bad), 'load-err:%s' % cl, 'loading a %s fails although no entry is missing or unreadable' % cl, f.path, o.trace)
            continue
        ok += 1
        s = struct(o.value[3][0][1], cl)
        if not ctx.ob(s is not None, 'load-value:%s' % cl, 'loading a %s does not yield a %s' % (cl, cl), f.path):
            continue
        ctx.ob(bare(s.get('base', ())) == ('app', 'NodeBase::new', (('str', cl),)), 'load-base:%s' % cl, 'the base of a loaded %s is not a fresh one: %r' % (cl, s.get('base')), f.path)
        for n, t in types.items():
            v = s.get(n, ('?',))
            if ghost[n] is True:
                ctx.ob(v == ('app', 'void', (('ty', t),), None), 'load-void:%s.%s' % (cl, n), 'field %s of a loaded %s is a ghost but gets %r' % (n, cl, v), f.path, o.trace)
            else:
                ctx.ob(ghost[n] is False and have[n] is True, 'load-entry:%s.%s' % (cl, n), 'field %s of a loaded %s is not taken from its entry' % (n, cl), f.path, o.trace)
                k, r = read(n)
                ctx.ob(k is not None and r == frozenset({'Some'}) and k[2][0] == ('ty', t) and W.nz(v) == ('fld', k, 'Some.0'),
                       'load-field:%s.%s' % (cl, n), 'field %s of a loaded %s is not what its entry reads as: %r' % (n, cl, v), f.path, o.trace)
    ctx.ob(ok > 0, 'load-ok:%s' % cl, 'a %s can never be loaded' % cl, f.path)
    return ok + err


def entry_of(t):
    """the name under which t was found in the map given, other entries of which may have been taken out before"""
    if t[0] != 'fld' or t[2][:1] != ('k',):
        return None
    n, m = t[2][1], t[1]
    while m[0] in ('mremove', 'obj', 'copied'):
        if m[0] == 'mremove' and m[2] == n:
            return None
        m = m[1]
    return n[1] if m[0] == 'sym' and n[0] == 'str' else None


def check_register(ctx, cl):
    low = cl.lower()
    load = [f for f in ctx.P.fns.values() if f.crate == 'witness' and f.path.startswith('classes::__static_init_%s' % low)]
    starts = [f for f in load if 'ctor' in f.path.split('::')[-1] and len(f.path.split('::')) == 3]
    ctx.ob(len(starts) >= 1, 'ctor:%s' % cl, 'nothing registers class %s before main' % cl)
    for f in starts:
        outs, I = ctx.run(f, opaque={'node_registry::register_deserializer'}, typed=Types().calls())
        for o in outs:
            regs = [e for e in o.trace if e.kind == 'call' and e.name == 'node_registry::register_deserializer']
            if not ctx.ob(o.kind == 'ret' and len(regs) == 1, 'registers:%s' % cl, 'the start-up function of %s does not register exactly one loader' % cl, f.path, o.trace):
                continue
            a = [stripbox(I, o, x) for x in regs[0].args]
            ctx.ob(any(x == ('app', 'type_name', (('ty', t),), None) for x in (unbox(a[0]),) for t in ('classes::' + cl, 'witness::classes::' + cl)), 'registered-name:%s' % cl,
                   'the loader of %s is registered under %r instead of its type name' % (cl, a[0]), f.path)
            c = unbox(a[1])
            if not ctx.ob(c[0] == 'clo', 'registered-loader:%s' % cl, 'what %s registers is not a function of its own: %r' % (cl, c), f.path):
                continue
            g = ctx.P.fns.get(c[1])
            outs2, I2 = ctx.run(g, opaque={'%s::load_from_owned' % cl})
            seen = set()
            for o2 in outs2:
                ld = [e for e in o2.trace if e.kind == 'call' and e.name == '%s::load_from_owned' % cl]
                if not ctx.ob(o2.kind == 'ret' and len(ld) == 1 and ld[0].args[-1:] == (('sym', g.locals[g.argc][1]),), 'loader:%s' % cl, 'the loader of %s does not load a %s from what it is given' % (cl, cl), g.path, o2.trace):
                    continue
                r = World(None).nz(ld[0].ret)
                v = stripbox(I2, o2, o2.value)
                W = World(None)
                k = next((x for y, x in facts(W, o2).items() if y == r), None)
                seen |= k or set()
                want = {'Ok': ('box', ('fld', r, 'Ok.0')), 'Err': ('fld', r, 'Err.0')}
                for side in k or ():
                    ctx.ob(v[0] == 'adt' and v[2] == side and W.nz(strip_from(v[3][0][1])) == want[side], 'loader-result:%s.%s' % (cl, side), 'the loader of %s does not hand on the result of loading: %r' % (cl, v), g.path, o2.trace)
            ctx.ob(seen == {'Ok', 'Err'}, 'loader-sides:%s' % cl, 'the loader of %s never %s' % (cl, 'fails' if 'Err' not in seen else 'succeeds'), g.path)


def strip_from(t):
    while t[0] == 'app' and t[1] in ('From::from', 'Into::into'):
        t = t[2][0]
    return t


def unbox(t):
    while t[0] == 'box' or t[0] == 'app' and t[1] in ('From::from', 'Into::into'):
        t = t[1] if t[0] == 'box' else t[2][0]
    return t


def check_node(ctx, cl):
    me = ('sym', 'self')
    for n in ('base', 'base_mut', 'as_dyn', 'as_dyn_mut', 'as_dyn_raw', 'as_dyn_raw_mut', 'to_dyn_box', 'as_any_ref', 'as_any_mut', 'clone_as_instance', 'name_as_type'):
        f = ctx.trait_method('NodeAbstract', n, r'\b%s$' % cl, crate='witness')
        outs, I = ctx.run(f, opaque={'%s::clone' % cl}, typed=Types().calls())
        for o in outs:
            v = bare(stripbox(I, o, o.value)) if o.kind == 'ret' else None
            want = {'base': [('ref', (('obj', me), ('base',)))], 'base_mut': [('ref', (('obj', me), ('base',)))],
                    'to_dyn_box': [('box', me)], 'clone_as_instance': [('box', ('app', '%s::clone' % cl, (me,)))],
                    'name_as_type': [('app', 'type_name', (('ty', p + cl),)) for p in ('classes::', 'witness::classes::')]}.get(n, [me, ('ref', (('obj', me), ()))])
            ctx.ob(v in want and not any(e.kind == 'write' for e in o.trace), 'accessor:%s.%s' % (cl, n), '%s of %s does not lead to %s: %r' % (n, cl, {'base': 'its base', 'base_mut': 'its base', 'clone_as_instance': 'a copy of it', 'name_as_type': 'its type name'}.get(n, 'the node itself'), v), f.path, o.trace)
    for tr, n in (('Deref', 'deref'), ('DerefMut', 'deref_mut')):
        f = ctx.trait_method(tr, n, r'\b%s$' % cl, crate='witness')
        outs, I = ctx.run(f)
        ctx.ob(len(outs) == 1 and outs[0].kind == 'ret' and outs[0].value == ('ref', (('obj', me), ('base',))), 'deref:%s.%s' % (cl, n), '%s of %s does not lead to its own base' % (n, cl), f.path)


def check_tree(ctx):
    """the accessors of derive(Tree), for a tree that has its base"""
    me = ('sym', 'self')
    base = ('ref', (('obj', me), ('base', 'Some.0')))
    for tr, n in [('NodeTree', x) for x in ('base', 'base_mut', 'as_dyn', 'as_dyn_mut', 'as_dyn_raw', 'as_dyn_raw_mut', 'as_any', 'as_any_mut', 'set_base')] + [('Deref', 'deref'), ('DerefMut', 'deref_mut')]:
        f = ctx.trait_method(tr, n, r'\bWood$', crate='witness')
        outs, I = ctx.run(f)
        seen = 0
        for o in outs:
            ws = [e for e in o.trace if e.kind == 'write']
            if n == 'set_base':
                ctx.ob(o.kind == 'ret' and len(ws) == 1 and ws[0].args[0] in (me, ('ref', (('obj', me), ()))) and ws[0].name.split('.')[-1] == 'base' and some_of(ws[0].args[1]) == ('sym', f.locals[2][1]),
                       'tree-set-base', 'set_base of a tree does not put the base given into its base field', f.path, o.trace)
                seen += 1
                continue
            ctx.ob(not ws, 'tree-accessor-writes:%s' % n, '%s of a tree changes it' % n, f.path, o.trace)
            if n in ('base', 'base_mut', 'deref', 'deref_mut'):
                if o.kind != 'ret':
                    continue                      # the tree has no base yet
                seen += 1
                ctx.ob(o.value == base, 'tree-accessor:%s' % n, '%s of a tree does not lead to its base: %r' % (n, o.value), f.path, o.trace)
            else:
                seen += 1
                ctx.ob(o.kind == 'ret' and o.value in (me, ('ref', (('obj', me), ()))), 'tree-accessor:%s' % n, '%s of a tree does not lead to the tree itself: %r' % (n, o.value), f.path, o.trace)
        ctx.ob(seen > 0, 'tree-accessor-returns:%s' % n, '%s of a tree never returns' % n, f.path)


def some_of(v):
    return v[3][0][1] if v[0] == 'adt' and v[2] == 'Some' else None


def check_clone(ctx, cl):
    args, sigs, fields, hooks_, other = CLASSES[cl]
    f = ctx.trait_method('Clone', 'clone', r'\b%s$' % cl, crate='witness')
    outs, I = ctx.run(f, opaque={k + '::clone' for k in GHOSTS | {E, 'NodeBase'}})
    kinds = {n: 'Signal' for n in sigs}
    kinds.update({n: x[0] for n, x in fields.items()})
    kinds['base'] = 'NodeBase'
    for o in outs:
        s = struct(o.value, cl) if o.kind == 'ret' else None
        if ctx.ob(s is not None, 'clone:%s' % cl, 'a copy of a %s is not a %s' % (cl, cl), f.path, o.trace):
            for n, k in kinds.items():
                ctx.ob(bare(s.get(n, ())) == ('app', k + '::clone', (('&', ('fld', ('obj', ('sym', 'self'), 0), n)),)), 'clone-field:%s.%s' % (cl, n), 'field %s of a copy of a %s is not a copy of this field' % (n, cl), f.path)


def check_extends(ctx):
    """casting entries: one per trait, whose functions downcast to the class and return the trait"""
    found = {}
    for f in ctx.P.fns.values():
        if f.crate != 'witness' or not f.path.endswith('{closure#0}') or '__static_init' in f.path:
            continue
        ret = ctx.P.ty(f.crate, f.locals[0][0])['s']
        tr = re.search(r'dyn (?:[\w:]*::)?(\w+)', ret)
        outs, I = ctx.run(f)
        for o in outs:
            for e in o.trace:
                if e.kind == 'assume' and e.args[0][:2] == ('app', 'is_type') and tr:
                    found.setdefault(e.args[0][2][1][1].split('::')[-1], set()).add(tr.group(1))
    for cl, trs in EXTENDS.items():
        ctx.ob(set(trs) <= found.get(cl, set()), 'extends:%s' % cl, '%s extends %s but can only be cast to %s' % (cl, trs, sorted(found.get(cl, set()))))
    ctx.ob(set(found) == set(EXTENDS), 'extends-only', 'casts are generated for %s' % sorted(found))
    return len(found)


def check_connect(ctx):
    own = fns(ctx, 'classes::Speaker::')
    for n, (sig, how, cb) in CONNECTS.items():
        f = own[n]
        outs, I = ctx.run(f, opaque={'Signal::connect', 'Signal::connect_once'})
        for o in outs:
            ev = [e for e in o.trace if e.kind == 'call' and e.name in ('Signal::connect', 'Signal::connect_once')]
            if not ctx.ob(o.kind == 'ret' and len(ev) == 1 and ev[0].name == how and ev[0].args[0] == ('ref', (('obj', ('sym', 'self')), (sig,))), 'connect:%s' % n,
                          'connect! does not connect signal %s %s' % (sig, 'until disconnected' if how.endswith('connect') else 'once'), f.path, o.trace):
                continue
            clo = ev[0].args[1]
            if not ctx.ob(clo[0] == 'clo' and clo[2] == (('sym', 'to'),), 'connect-target:%s' % n, 'the callback of connect! does not hold the target pointer: %r' % (clo,), f.path):
                continue
            g = ctx.P.fns[clo[1]]
            arg_ = g.locals[g.argc][1]
            outs2, I2 = ctx.run(g, opaque={'Tp::deref', 'TreePointer::deref', 'Tp::deref_mut', 'TreePointer::deref_mut', cb} | {x[2] for x in CONNECTS.values()})
            for o2 in outs2:
                cs = [e for e in o2.trace if e.kind == 'call']
                called = [e for e in cs if e.name.startswith('Listener::')]
                good = o2.kind == 'ret' and len(called) == 1 and called[0].name == cb
                if ctx.ob(good, 'callback:%s' % n, 'the callback of connect! does not call %s once' % cb, g.path, o2.trace):
                    d = [e for e in cs if e.name.split('::')[-1] in ('deref', 'deref_mut')]
                    ctx.ob(len(d) >= 1 and called[0].args[0] == d[-1].ret and d[-1].args[0] in (('ref', (('obj', ('sym', 'a1')), ('0',))),), 'callback-target:%s' % n, 'the callback is not called on the node the pointer leads to', g.path, o2.trace)
                    ctx.ob(called[0].args[1] in (('sym', arg_), ('ref', (('obj', ('sym', arg_)), ()))), 'callback-value:%s' % n, 'the callback is not given the value of the signal: %r' % (called[0].args[1],), g.path, o2.trace)


def check_defaults(ctx):
    """hooks that a class does not define, voids of the wrappers, a fresh base"""
    for h in sorted(HOOKS_ALL):
        f = [x for x in ctx.P.fns.values() if x.local and x.crate == 'node_tree' and x.path == 'traits::node::Node::%s' % h]
        if not ctx.ob(len(f) == 1, 'default-hook:%s' % h, 'Node has no default for %s' % h):
            continue
        outs, I = ctx.run(f[0])
        for o in outs:
            want = o.value == ('unit',) if h != 'process_mode' else o.value[0] == 'adt' and o.value[2] == 'Inherit'
            ctx.ob(o.kind == 'ret' and want and not o.trace, 'default-hook:%s' % h, 'the default of %s does something' % h, f[0].path, o.trace)
    for k in sorted(GHOSTS | {E}):
        f = ctx.trait_method('Voidable', 'void', r'\b%s(<.*>)?$' % k)
        outs, I = ctx.run(f, opaque={'Signal::new'})
        for o in outs:
            v = o.value
            if k == 'Signal':
                good = bare(v) == ('app', 'Signal::new', ())
            else:
                kk, c = wrapper(v)
                good = kk == k and (c is None if k in (F, U) else c is not None and c[:2] == ('app', 'default'))
            ctx.ob(o.kind == 'ret' and good, 'void:%s' % k, 'the void value of a %s is %r' % (k, v), f.path)
    f = ctx.inherent('NodeBase', 'new')
    outs, I = ctx.run(f)
    for o in outs:
        s = struct(o.value, 'NodeBase') if o.kind == 'ret' else None
        if ctx.ob(s is not None, 'base-new', 'a new base is no NodeBase', f.path):
            ctx.ob(s['name'] == ('sym', f.locals[1][1]) and s['children'] == ('vec', ()) and all(s[x][0] == 'adt' and s[x][2] == 'None' for x in ('parent', 'owner', 'tree')),
                   'base-fresh', 'a new base is not an unconnected one of the given name', f.path)
    f = ctx.inherent('Signal', 'new')
    outs, I = ctx.run(f)
    for o in outs:
        s = struct(o.value, 'Signal') if o.kind == 'ret' else None
        ctx.ob(s is not None and 'emptymap' in repr(stripbox(I, o, o.value)), 'signal-fresh', 'a new signal has listeners', f.path)


def check(ctx):
    n = 0
    for cl in CLASSES:
        inh = fns(ctx, 'classes::%s::' % cl)
        check_new(ctx, cl, inh)
        check_hooks(ctx, cl)
        check_save(ctx, cl)
        n += check_load(ctx, cl)
        check_register(ctx, cl)
        check_node(ctx, cl)
        check_clone(ctx, cl)
        ctx.sample('%s: %d signals, %d fields, %d hooks' % (cl, len(CLASSES[cl][1]), len(CLASSES[cl][2]), len(CLASSES[cl][3])))
    e = check_extends(ctx)
    check_connect(ctx)
    check_tree(ctx)
    check_defaults(ctx)
    ctx.floor(len(CLASSES), 8, 'classes')
    ctx.floor(n, 12, 'loading paths')
    ctx.floor(e, 1, 'extending classes')
