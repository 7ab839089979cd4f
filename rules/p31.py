"""The registry of loaders is one table of the process. Registering must enter the function it is given under the name it is
given, into the table that is there - only if there is none yet, a new one is put in place - and change nothing else. Loading by
name must fail if there is no table or no entry of this name, and otherwise call the function found under exactly this name,
once, with the fields it was given, and hand on what it returns."""
from world import *
from rule import *
from p26 import stripbox, unbox, bare

RULE = 'entry added == (name given -> function given); entry used == the one of the name given'
TABLE = 'registry'


def static_of(t):
    """whether t denotes the content of the process-wide cell"""
    while isinstance(t, tuple) and t and t[0] in ('obj', '&', 'deref', 'ref'):
        t = t[1] if t[0] != 'ref' else t[1][0][1]
    return isinstance(t, tuple) and t[:1] == ('const',) and 'Registry' in t[1]


def strip(t):
    """the function behind boxes and references"""
    while t[0] in ('box', '&', 'obj', 'copied') or t[0] == 'app' and t[1] in ('deref', 'Deref::deref', 'Ref::value', 'AsRef::as_ref', 'Borrow::borrow'):
        t = t[1] if t[0] != 'app' else t[2][0]
    return t


def lookups(W, o):
    return [k for k, v in facts(W, o).items() if k[0] == 'app' and k[1].startswith('DashMap::get') or k[0] == 'haskey']


def check(ctx):
    reg = ctx.P.one('node_registry::register_deserializer')
    outs, I = ctx.run(reg)
    name, fn = [('sym', l[1]) for l in reg.locals[1:3]]
    kinds = set()
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'register-total', 'registering a loader can fail', reg.path, o.trace):
            continue
        W = World(None)
        st = [v for k, v in facts(W, o).items() if static_of(k)]
        k = next(iter(st[0])) if len(st) == 1 and len(st[0]) == 1 else None
        kinds.add(k)
        ins = [e for e in o.trace if e.kind == 'write' and e.name.startswith('map.')]
        if not ctx.ob(len(ins) == 1 and ins[0].name == 'map.insert', 'register-once', 'registering does not make exactly one entry', reg.path, o.trace):
            continue
        e = ins[0]
        ctx.ob(unbox(e.args[1]) == name, 'register-name', 'the loader is entered under %s instead of the name given' % show(e.args[1]), where(e), o.trace)
        v = stripbox(I, o, e.args[2])
        ctx.ob(unbox(v) == fn, 'register-function', 'what is entered is not the function given: %s' % show(v), where(e), o.trace)
        place_ = e.args[0]
        sets = [x for x in o.trace if x.kind == 'write' and not x.name.startswith('map.')]
        base = place_[1][0] if place_[0] == 'ref' else None
        old = place_[0] == 'ref' and base[0] == 'obj' and static_of(base[1][1] if base[1][0] == 'fld' else base[1]) and place_[1][1][-1:] == (TABLE,)
        if k == 'Some':
            ctx.ob(not sets and old, 'register-into', 'the loader is not entered into the table that is there: it, or what was registered before, is lost', where(e), o.trace)
        else:
            put = len(sets) == 1 and static_of(sets[0].args[0])
            new = put and contains_cell(I, o, sets[0].args[1], base)
            ctx.ob(k == 'None' and put and (old or new), 'register-new', 'the table that the loader is entered into is not the one put in place', where(e), o.trace)
    ctx.ob(kinds == {'Some', 'None'}, 'register-cases', 'registering does not tell an existing table from none', reg.path)

    de = ctx.P.one('node_registry::deserialize')
    outs, I = ctx.run(de)
    name, state = [('sym', l[1]) for l in de.locals[1:3]]
    ok = miss = 0
    for o in outs:
        if not ctx.ob(o.kind == 'ret', 'load-total', 'loading by name can panic', de.path, o.trace):
            continue
        W = World(None)
        F = facts(W, o)
        st = [v for k, v in F.items() if static_of(k)]
        found = [(k, v) for k, v in F.items() if k[0] == 'app' and k[1].startswith('DashMap::get')]
        us = [e for e in o.trace if e.kind == 'call' and e.name == 'usercall']
        if us:
            ok += 1
            good = len(us) == 1 and len(found) == 1 and found[0][1] == frozenset({'Some'}) and unref(found[0][0][2][1]) == name and TABLE in repr(found[0][0][2][0]) and static_in(found[0][0][2][0])
            ctx.ob(good, 'load-entry', 'the function called is not the one registered under the name given', where(us[0]), o.trace)
            if found:
                f = strip(W.nz(us[0].ret[2][0]))
                ctx.ob(f == ('fld', found[0][0], 'Some.0'), 'load-function', 'what is called is not the registered function: %s' % show(f), where(us[0]), o.trace)
            ctx.ob(tuple(us[0].ret[2][1:]) == (state,), 'load-fields', 'the loader is not given the fields', where(us[0]), o.trace)
            ctx.ob(o.value == us[0].ret, 'load-result', 'what the loader returns is not handed on', where(us[0]), o.trace)
        else:
            miss += 1
            none = any(v == frozenset({'None'}) for v in st) or any(v == frozenset({'None'}) and unref(k[2][1]) == name for k, v in found)
            ctx.ob(none and o.value[0] == 'adt' and o.value[2] == 'Err', 'load-miss', 'a registered name is refused, or an unregistered one accepted', de.path, o.trace)
        ctx.ob(not any(e.kind == 'write' for e in o.trace), 'load-pure', 'loading changes the registry', de.path, o.trace)
    ctx.floor(ok, 1, 'paths that load')
    ctx.floor(miss, 2, 'paths that refuse')


def unref(t):
    while t[0] in ('&', 'obj', 'deref'):
        t = t[1]
    return t


def static_in(t):
    return isinstance(t, tuple) and (static_of(t) if t[:1] == ('const',) else any(static_in(x) for x in t))


def contains_cell(I, o, v, base):
    """whether the value put in place is Some of the table behind base"""
    if base is None:
        return False
    if v == ('ref', (base, ())):
        return True
    if v[0] == 'adt':
        return any(contains_cell(I, o, x, base) for _, x in v[3])
    return False

