"""For every implementation of Exportable outside of glam, the term that to_value returns is put in the place of the
value from_value is given, and the paths of from_value are evaluated with it: those that are not excluded must return
exactly the value that was written. The components of a container are covered by the same property of their type. All
paths of from_value are then taken for a value of any kind: none may panic or fail, and a path that accepts must have
established the kind, the length and the acceptance of all parts."""
from codec import *
RULE = 'symbolic composition of the writer and reader of each value type'
ASSUMES = ['std: FromStr of the IP address types and of PathBuf is the inverse of Display and to_str', 'casts between integers of at most 64 bits and from f32 to f64 and back keep the value',
           'no mutex is poisoned']


def check(ctx):
    n = r = 0
    ghosts = []
    for ty, fw, fr, fg in impls(ctx):
        if ty.startswith('glam::'):
            continue
        g = ghost(ctx, fg)
        if g is True:
            ghosts.append(Codec(ty).short)
            continue
        if ty.split('<')[0].endswith('ExportableField'):
            ctx.ob(isapp(g, 'Exportable::is_ghost_export_type', 0) or isapp(g, 'Exportable::is_ghost_export', 1) and canon(g[2][0]) in (fld(SELF, '0'), fld(canon(SELF), '0')), 'ghost:ExportableField',
                   'an exported field is a ghost exactly if what is in it is one', fg.path if fg else ty)
        else:
            ctx.ob(g is False, 'ghost:%s' % Codec(ty).short, '%s reports itself a ghost: its values would not be saved' % ty, fg.path if fg else ty)
        k, kinds = judge(ctx, ty, fw, fr)
        n += 1
        r += k
        ctx.sample('%s: written as %s, %d reading paths follow' % (Codec(ty).short, '/'.join(sorted(kinds)), k))
    ctx.ob(set(x.split('<')[0] for x in ghosts) <= {'()', 'Field', 'UniqueField', 'DefaultField', 'Signal'}, 'ghosts', 'a type that has a value to save is a ghost: %s' % ', '.join(ghosts))
    ctx.floor(n, 44, 'exportable types')
    ctx.floor(r, 44, 'round trips')
