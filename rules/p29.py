"""Threads: for every type of the library and every class and tree of the witness crate the compiler itself is asked whether it implements Send and Sync (its parameters being types that do): those that point into a tree implement neither, and no type of the library but the registry of loaders is given one by an unsafe impl."""
from rule import *

RULE = 'the compiler\'s answer for Send and Sync is no for each type that holds pointers into a tree; unsafe impls of Send and Sync in the library == those of the registry'
WITNESS = True

HOLDERS = ('NodeBase', 'NodeTreeBase', 'NodeScene', 'Tp', 'TpDyn', 'Signal', 'TreeResult', 'TreeOption', 'TreeSimple')


def check(ctx):
    P = ctx.P
    n = 0
    for im in P.impls:
        if im['trait'] in ('std::marker::Send', 'std::marker::Sync'):
            t = P.ty(im['crate'], im['self_ty'])
            if im['crate'] == 'node_tree':
                n += 1
            ctx.ob(im['crate'] == 'node_tree' and t.get('d', '').endswith('node_registry::Registry'), 'impl:%s:%s' % (im['trait'].split('::')[-1], t['s']), 'an unsafe impl lets %s leave its thread' % t['s'], im.get('sp', ''))
    ctx.floor(n, 1, 'impls of Send and Sync')
    adts = {d: a for d, a in P.adts.items() if a and a.get('local')}
    by = {d.split('::')[-1]: d for d in adts if d.startswith(('structs::', 'trees::'))}
    for h in HOLDERS:
        if ctx.ob(h in by, 'type:' + h, 'the type %s is gone (an anchor of the rule disappeared)' % h):
            verdict(ctx, h, adts[by[h]])
    reg = [d for d in adts if d.endswith('node_registry::Registry')]
    for d in reg:
        text = ' '.join(f[1] for v in adts[d]['v'] for f in v['f'])
        outside = text.split('(dyn ')[0]
        ctx.ob('*mut ' not in outside and '*const ' not in outside and not any(h + '<' in outside or h + ' ' in outside for h in HOLDERS), 'registry:pointers', 'the registry, which is shared between threads, holds pointers into a tree')
    # ---- what the macros make
    W = ctx.W
    m = 0
    for d, a in sorted((W or P).adts.items()):
        if not a or not a.get('local') or d in adts and d.startswith(('structs::', 'trees::', 'services::')):
            continue
        base = [f for v in a['v'] for f in v['f'] if f[0] == 'base' and f[1].split('::')[-1].startswith(('NodeBase', 'NodeTreeBase', 'Option<'))]
        if base:
            m += 1
            verdict(ctx, d, a)
    ctx.floor(m, 8, 'classes and trees of the witness crate')


def verdict(ctx, name, a):
    for tr in ('send', 'sync'):
        ctx.ob(a.get(tr) is False, '%s:%s' % (tr, name), 'the compiler lets %s %s' % (name, 'be sent to another thread' if tr == 'send' else 'be shared with other threads'))
    ctx.sample('%s: Send %s, Sync %s' % (name, a.get('send'), a.get('sync')))
