"""C03: broadcast, new axes, transposition, casts and constants."""
import numpy as np
import numpy.ma as ma

from .. import gen
from ..common import index, kinds_of_keys, check_content, check_meta
from ..ref import Bad, Skip, check_nd, check_ma
from ..env import biggus

CASES = {'quick': 16000, 'thorough': 300000}
RULE = ('random compositions (1-4 deep) of broadcasting, new axes, '
        'transposition, casting and constants over masked and unmasked '
        'data, indexed 0-3 times, plus pairs of arrays broadcast against '
        'each other; non-trivial: a distinct combination of views, '
        'dimensions and kinds of keys with at least one element')
MUST_OBSERVE = {'indexed': 1000, 'evaluations': 2000, 'broadcast': 300,
                'newaxis': 300, 'transpose': 300, 'astype': 200,
                'constant': 200, 'pairs': 100}
ASSUMPTIONS = ['NumPy broadcasting, transposition and casting is the '
               'reference', 'sequences of keys for virtual (broadcast or '
               'new) dimensions may be refused with NotImplementedError']
DTYPES = gen.NUMERIC + gen.OTHER + gen.CPLX
CASTS = {'b': ['i4', 'f8', 'u1', 'c16'],
         'i': ['i1', 'i8', 'f8', 'f4', 'u2', '>i4', 'bool', 'c16'],
         'u': ['i1', 'i8', 'f8', 'f4', 'u2', '>i4', 'bool', 'c8'],
         'f': ['f4', 'f8', 'f2', '>f8', 'c16', 'bool'],
         'c': ['c8', 'c16']}


def view(rng, v):
    ops = ['transpose', 'newaxis', 'broadcast']
    if v.nd.dtype.kind in CASTS:
        ops.append('astype')
    if v.nd.ndim >= 5:
        ops = ['transpose', 'astype'] if 'astype' in ops else ['transpose']
    op = rng.choice(ops)
    if op == 'transpose':
        if rng.random() < .3 and v.nd.ndim:
            axes = list(range(v.nd.ndim))
            rng.shuffle(axes)
            neg = [a - v.nd.ndim if rng.random() < .5 else a for a in axes]
            return gen.V(v.arr.transpose(neg), v.nd.transpose(axes),
                         v.mk.transpose(axes), 'T%s(%s)' % (neg, v.desc),
                         v.kinds | {'transpose'}, v.sources)
        return gen.transposed(rng, v)
    if op == 'newaxis':
        return gen.newaxes(rng, v)
    if op == 'broadcast':
        if v.nd.size > 400:
            return v
        return gen.broadcast(rng, v, maxlen=3)
    return gen.astyped(rng, v, rng.choice(CASTS[v.nd.dtype.kind]))


def pair(rng, ctx, v):
    """BroadcastArray.broadcast_arrays is np.broadcast_arrays."""
    shp = [n if rng.random() < .6 else 1 for n in v.nd.shape]
    shp = tuple(shp[rng.randint(0, len(shp)):])
    if rng.random() < .3:
        shp = (2,) * rng.randint(1, 2) + shp
    w = gen.leaf(rng, shp, 'f4', 0.3)
    if rng.random() < .3:
        w = gen.broadcast(rng, w)
    ctx.desc = 'broadcast_arrays(%s, %s)' % (v.desc, w.desc)
    try:
        full = np.broadcast(v.nd, w.nd).shape
    except ValueError:
        raise Skip()
    if int(np.prod(full)) > 4000:
        raise Skip()
    if rng.random() < .5:
        v, w = w, v
    out = biggus.BroadcastArray.broadcast_arrays(v.arr, w.arr)
    for arr, x in zip(out, (v, w)):
        y = gen.V(arr, np.broadcast_to(x.nd, full),
                  ma.array(np.broadcast_to(ma.getdata(x.mk), full),
                           mask=np.broadcast_to(ma.getmaskarray(x.mk),
                                                full)),
                  ctx.desc, x.kinds | {'broadcast'}, x.sources)
        check_content(rng, ctx, y, engine=0.1)
        if rng.random() < .5:
            y = index(rng, ctx, y, seq=.15, newaxis=0)
            ctx.desc = y.desc
            check_content(rng, ctx, y, engine=0)
    ctx.count('pairs')


def case(rng, ctx):
    dtype = rng.choice(DTYPES)
    shp = gen.shape(rng, 0, 3, maxlen=4, maxsize=60, one=0.35)
    if rng.random() < .2:
        v = gen.constant(rng, shp, dtype)
    else:
        v = gen.leaf(rng, shp, dtype, 0.35)
    sig = [len(shp)]
    ops = rng.randint(0 if 'constant' in v.kinds else 1, 4)
    for i in range(ops):
        before = v.desc
        v = view(rng, v)
        sig.append(v.desc[:v.desc.index(before)] if before in v.desc
                   else '?')
        ctx.desc = v.desc
        if rng.random() < .25 and v.nd.size:
            k = gen.keys(rng, v.nd.shape, seq=.15, empty=0, newaxis=0.02)
            ctx.desc = v.desc + gen.kdesc(k)
            v = index(rng, ctx, v, k)
            sig.append(kinds_of_keys(k))
    for kind in v.kinds:
        ctx.count(kind)
    if rng.random() < .12:
        return pair(rng, ctx, v)
    ctx.desc = v.desc
    if rng.random() < .4:
        check_content(rng, ctx, v, engine=0.2)
    for i in range(rng.randint(0, 3)):
        k = gen.keys(rng, v.nd.shape, seq=.2, newaxis=0.06, empty=0.05)
        ctx.desc = v.desc + gen.kdesc(k)
        v = index(rng, ctx, v, k)
        sig.append(kinds_of_keys(k))
    ctx.desc = v.desc
    check_content(rng, ctx, v, engine=0.15)
    if v.nd.size:
        ctx.nontrivial(*sig)
