"""C04: masks and fill-values survive every container."""
import numpy as np
import numpy.ma as ma

from .. import gen, expr
from ..common import index, check_content, check_fill
from ..ref import Bad, Skip, check_nd, check_ma, same_values
from ..env import biggus

CASES = {'quick': 16000, 'thorough': 300000}
RULE = ('random compositions (0-3 deep) of containers, views and '
        'value-masks over sources with random masks and fill-values, '
        'indexed 0-2 times; stacks and mosaics of parts with equal, '
        'different and NaN fill-values; value-masks of computed arrays; '
        'non-trivial: a distinct composition with both masked and unmasked '
        'elements')
MUST_OBSERVE = {'masked_elements': 3000, 'unmasked_elements': 3000,
                'value_masks': 300, 'fill_values': 300,
                'filled_elements': 500, 'computed': 200, 'viewed': 500,
                'viewed_parts': 200}
ASSUMPTIONS = ['sequences of keys for virtual dimensions may be refused']
DTYPES = gen.NUMERIC + gen.CPLX + ['bool', 'M8[D]']


def consistent(ctx, v):
    nd = v.arr.ndarray()
    mk = v.arr.masked_array()
    check_fill(v.arr, [('masked_array()', mk)])
    mask = ma.getmaskarray(mk)
    want = ma.getmaskarray(v.mk)
    if nd.shape != mk.shape:
        raise Bad('ndarray() has shape %s, masked_array() %s'
                  % (nd.shape, mk.shape))
    if not np.array_equal(mask, want):
        raise Bad('mask is %s, expected %s' % (mask.tolist(),
                                               want.tolist()))
    if not same_values(nd[~mask], ma.getdata(mk)[~mask]):
        raise Bad('ndarray() and masked_array() differ: %s, %s' % (nd, mk))
    ctx.count('masked_elements', int(mask.sum()))
    ctx.count('unmasked_elements', int((~mask).sum()))


def case(rng, ctx):
    r = rng.random()
    if r < .2:
        return fills(rng, ctx)
    if r < .3:
        return computed(rng, ctx)
    dtype = rng.choice(DTYPES)
    v = gen.structural(rng, rng.randint(0, 3), dtype, masked=0.85)
    ctx.desc = v.desc
    for _ in range(rng.randint(0, 2)):
        if rng.random() < .5 and v.nd.dtype.kind in 'biuf':
            v = gen.maskval(rng, v)
            ctx.count('value_masks')
        else:
            k = gen.keys(rng, v.nd.shape, seq=.2, empty=.02, newaxis=.03)
            ctx.desc = v.desc + gen.kdesc(k)
            v = index(rng, ctx, v, k)
        ctx.desc = v.desc
    consistent(ctx, v)
    check_content(rng, ctx, v, engine=0.25)
    mask = ma.getmaskarray(v.mk)
    # (The fill-values of the sources are in v.nd.)
    ctx.count('filled_elements', int(mask.sum()))
    if mask.any() and not mask.all():
        ctx.nontrivial(v.kinds, v.nd.ndim, v.nd.dtype.kind,
                       v.desc.count('('), v.desc.count('['))


def viewed(v, how):
    for step in how:
        if step == 'T':
            arr, f = v.arr.transpose(), lambda a: a.transpose()
        elif step == 'new':
            arr, f = v.arr[None], lambda a: a[None]
        elif step == 'bcast':
            v = gen.bcast(v, {}, (2,))
            continue
        else:
            arr, f = v.arr[...], lambda a: a
        v = gen.V(arr, f(v.nd), f(v.mk), '%s(%s)' % (step, v.desc))
    return v


def default_fill(dtype):
    return ma.empty(0, dtype=dtype).fill_value


def fills(rng, ctx):
    """The fill-value of a stack or mosaic."""
    dtype = np.dtype(rng.choice(['i2', 'i4', 'f4', 'f8', '>f4', 'u2']))
    shp = gen.shape(rng, 1, 3, maxlen=3)
    choices = [0, 7, 99]
    if dtype.kind == 'f':
        choices.append(np.nan)
    one = rng.choice(choices)
    parts = []
    values = []
    for i in range(rng.randint(1, 4)):
        a = ma.asanyarray(gen.data(rng, shp, dtype))
        a.mask = np.array([rng.random() < .4 for _ in range(a.size)],
                          bool).reshape(shp)
        fv = one if rng.random() < .8 else rng.choice(choices)
        a.fill_value = fv
        values.append(fv)
        how = rng.choice(['plain', 'numpy', 'ortho'])
        if how == 'plain':
            arr = biggus.NumpyArrayAdapter(a)
        else:
            from ..src import Source
            source = Source(a, style=how)
            source.plain = rng.random() < .5
            arr = (biggus.NumpyArrayAdapter if how == 'numpy' else
                   biggus.OrthoArrayAdapter)(source)
        part = gen.V(arr, a.filled(), a, '%s fill=%r' % (how, fv))
        if how == 'plain':
            part.raw = a
        parts.append(part)
    values0 = list(values)
    views = []
    if rng.random() < .3:
        # The same views of each of the parts.
        views = [rng.choice(['T', 'new', 'bcast', 'all'])
                 for _ in range(rng.randint(1, 2))]
        parts = [viewed(part, views) for part in parts]
        shp = parts[0].nd.shape
        ctx.count('viewed_parts')
    if rng.random() < .5:
        v = gen.stack(rng, parts, (len(parts),))
        if rng.random() < .5:
            # Some items are only set later.
            for i in range(len(parts)):
                j = rng.randrange(len(parts))
                if rng.random() < .5:
                    v.arr[(i,)] = parts[j].arr
                    v.nd[i] = parts[j].nd
                    v.mk[i] = parts[j].mk
                    values[i] = values0[j]
            ctx.count('replaced_items')
    else:
        v = gen.mosaic(rng, parts, rng.randrange(len(shp)))
    ctx.desc = '%s fills=%s dtype=%s' % (v.desc, values, dtype)
    common = all(x == values[0] or (x != x and values[0] != values[0])
                 for x in values)
    want = values[0] if common else default_fill(dtype)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        # Views, casts and selections keep it.
        step = rng.choice(['T', 'new', 'bcast', 'cast', 'mask', 'key'])
        if step == 'cast' and dtype.kind == 'f':
            dtype = np.dtype(rng.choice(['f4', 'f8', '>f8']))
            want = np.asarray(want).astype(dtype)[()]
            v = gen.astyped(rng, v, dtype)
        elif step == 'mask' and v.nd.size:
            value = v.nd.flat[rng.randrange(v.nd.size)]
            if not np.isfinite(value):
                break
            want = value
            v = gen.V(biggus.masked_equal(v.arr, want), v.nd,
                      ma.masked_equal(v.mk, want),
                      'masked_equal[%r](%s)' % (want, v.desc))
        elif step == 'key':
            if not common:
                # Those of the parts which are left might agree.
                break
            k = gen.keys(rng, v.nd.shape, seq=0, empty=0, newaxis=.1)
            v = gen.index(rng, v, k)
        else:
            v = viewed(v, [step])
        ctx.count('viewed')
    ctx.desc = '%s fills=%s dtype=%s views=%s' % (v.desc, values, dtype,
                                                 views)
    check_fill(v.arr, [('masked_array()', v.arr.masked_array()),
                       ('masked_arrays([.])',
                        biggus.masked_arrays([v.arr])[0])])
    for what, got in [('fill_value', v.arr.fill_value),
                      ('masked_array().fill_value',
                       v.arr.masked_array().fill_value)]:
        got = np.asarray(got).astype(dtype)
        if not same_values(got, np.asarray(want).astype(dtype), 1e-6):
            raise Bad('%s is %s, expected %s' % (what, got, want))
    consistent(ctx, v)
    check_content(rng, ctx, v, engine=0.3)
    ctx.count('fill_values')
    ctx.count('filled_elements', int(ma.getmaskarray(v.mk).sum()))
    ctx.nontrivial('fills', len(values), common, dtype.kind, len(shp))


def computed(rng, ctx):
    """Value-masks of computed arrays, and computing with value-masks."""
    shp = gen.shape(rng, 1, 3, maxlen=4, maxsize=60)
    a = np.array([rng.randint(-3, 3) for _ in range(int(np.prod(shp)))],
                 dtype=rng.choice(['i4', 'f8'])).reshape(shp)
    if rng.random() < .5:
        a = ma.array(a, mask=[[rng.random() < .3] for _ in range(a.size)],
                     fill_value=2)
        a = ma.array(ma.getdata(a), mask=ma.getmaskarray(a).reshape(shp),
                     fill_value=2)
    v = gen.V(biggus.NumpyArrayAdapter(a), gen.filled(a), ma.asanyarray(a),
              'small%s%s' % (shp, a.dtype))
    w = gen.leaf(rng, shp, 'i4', .5, offset=0)
    steps = rng.randint(1, 3)
    for _ in range(steps):
        op = rng.choice(['mask', 'mask', 'neg', 'add', 'agg'])
        if op == 'mask':
            v = gen.maskval(rng, v)
            ctx.count('value_masks')
        elif op == 'neg':
            v = expr.unary(v, 'negative')
        elif op == 'add' and v.nd.shape == w.nd.shape:
            v = expr.binary(v, w, 'add')
        elif op == 'agg' and v.nd.ndim:
            v = expr.aggregate(v, rng.choice(['sum', 'max', 'min',
                                              'count']),
                               rng.randrange(v.nd.ndim))
        ctx.desc = v.desc
    got = v.arr.masked_array()
    check_ma('masked_array()', got, v.mk, dtype=False)
    got = biggus.masked_arrays([v.arr])[0]
    check_ma('masked_arrays([.])', got, v.mk, dtype=False)
    check_nd('ndarray()', v.arr.ndarray(), v.nd, dtype=False)
    mask = ma.getmaskarray(v.mk)
    ctx.count('computed')
    ctx.count('masked_elements', int(mask.sum()))
    ctx.count('unmasked_elements', int((~mask).sum()))
    if mask.any() and not mask.all():
        ctx.nontrivial('computed', v.desc.split('small')[0], len(shp))
