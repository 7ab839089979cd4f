"""Syntactic queries over the MIR of every local function."""
from engine import *


def proj_fields(P, f, place):
    """[(adt path, field name)] of the field projections of a place, outermost first"""
    l, proj, _ = place
    cur = P.ty(f.crate, f.locals[l][0])
    out = []
    for e in proj:
        if e[0] == '*':
            cur = pointee(P, f.crate, cur)
        elif e[0] == 'f':
            out.append((cur.get('d') if cur and cur.get('k') == 'adt' else None, e[2]))
            cur = P.ty(f.crate, e[3])
        elif e[0] == 'v':
            pass
        else:
            cur = None
            if e[0] in ('i', 'ci'):
                out.append((None, '[]'))
    return out


def pointee(P, crate, t):
    if not t:
        return None
    if t.get('k') in ('ref', 'ptr'):
        return P.ty(crate, t['t'])
    if t.get('k') == 'adt' and t.get('a'):
        return P.ty(crate, t['a'][0])
    return None


def is_field(fs, adt, field):
    return any(d and (d == adt or d.endswith('::' + adt)) and n == field for d, n in fs)


def field_writers(P, adt, field, crate='node_tree'):
    """{function key: [span]} of direct writes to, and mutable borrows of, a field (constructors excluded)"""
    out = {}
    for f in P.fns.values():
        if not f.local or f.crate != crate:
            continue
        for b in f.blocks:
            for s in b['s']:
                if s[0] != '=':
                    continue
                if is_field(proj_fields(P, f, s[1]), adt, field):
                    out.setdefault(f.key, []).append(s[3])
                r = s[2]
                if r[0] == 'ref' and r[1] and is_field(proj_fields(P, f, r[2]), adt, field):
                    out.setdefault(f.key, []).append(s[3])
            t = b['t']
            if t[0] == 'call' and is_field(proj_fields(P, f, t[3]), adt, field):
                out.setdefault(f.key, []).append(b['sp'])
    return out


def builders(P, adt, crate='node_tree'):
    """functions that build a value of the struct"""
    out = {}
    for f in P.fns.values():
        if not f.local or f.crate != crate:
            continue
        for b in f.blocks:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and (s[2][1][1] == adt or s[2][1][1].endswith('::' + adt)):
                    out.setdefault(f.key, []).append(s[3])
    return out


def graph(P):
    """callers: {callee key: set of caller keys}; closures count as called by their parent"""
    up = {}
    for f in P.fns.values():
        if not f.local:
            continue
        for cj, _ in P.callees(f):
            if cj.get('rk'):
                up.setdefault(cj['rk'], set()).add(f.key)
        if f.j.get('parent'):
            up.setdefault(f.key, set()).add(f.j['parent'])
    return up


def roots_of(P, key, stop=()):
    """public entry points (or uncalled functions) from which `key` is reached without passing through `stop`"""
    up = getattr(P, '_up', None)
    if up is None:
        up = P._up = graph(P)
    roots, todo, seen = set(), [key], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in stop:
            continue
        ps = up.get(x, set()) - {x}
        if not ps or P.fns[x].j.get('pub'):
            roots.add(x)
        todo += ps
    return roots


def call_sites(P, name, crate='node_tree'):
    """[(fn, span)] of calls whose normalised path is `name`"""
    return [(f, sp, cj) for f in P.fns.values() if f.local and f.crate == crate for cj, sp in P.callees(f) if norm(cj['p']) == name]
