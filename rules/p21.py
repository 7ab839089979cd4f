"""For every glam type (vectors, masks, matrices, quaternions, affine transforms) the same composition of to_value and
from_value as for P20, with the constructors of glam as the inverse of its named parts."""
from codec import *
RULE = 'symbolic composition of the writer and reader of each glam value type'
ASSUMES = ['glam: to_array, new, the short constructors, from_cols and from_mat_translation keep the order of the named parts', 'casts between integers of at most 64 bits and from f32 to f64 and back keep the value']


def check(ctx):
    n = r = 0
    for ty, fw, fr, fg in impls(ctx):
        if not ty.startswith('glam::'):
            continue
        g = ghost(ctx, fg)
        ctx.ob(g is False, 'ghost:%s' % Codec(ty).short, '%s reports itself a ghost: its values would not be saved' % ty, fg.path if fg else ty)
        k, kinds = judge(ctx, ty, fw, fr)
        n += 1
        r += k
        ctx.sample('%s: written as %s, %d reading paths follow' % (Codec(ty).short, '/'.join(sorted(kinds)), k))
    ctx.floor(n, 46, 'glam types')
    ctx.floor(r, 46, 'round trips')
