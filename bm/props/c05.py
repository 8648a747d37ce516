"""C05: what an array advertises is exactly what evaluation delivers."""
from fractions import Fraction

import numpy as np
import numpy.ma as ma

from .. import gen, expr
from ..common import index, check_fill, CHUNKS
from ..ref import Bad, Skip, show
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 10500, 'thorough': 200000}
RULE = ('random virtual arrays of every kind (containers, views, elementwise '
        'operations over 24 dtypes and scalars, aggregations, expression '
        'graphs, selections), compared with their evaluated results; very '
        'large arrays for nbytes/size; non-trivial: a distinct combination '
        'of kind of array, dtypes and dimensions')
MUST_OBSERVE = {'results': 5000, 'elementwise': 300, 'aggregations': 300,
                'structures': 300, 'graphs': 300, 'huge': 50,
                'zero_dimensional': 100, 'fill_values': 3000}
ASSUMPTIONS = []
UN = ('negative absolute rint sign conj exp log10 sqrt square reciprocal sin '
      'arctan floor ceil trunc logical_not isreal isinf isnan signbit '
      'invert deg2rad').split()
BI = ('add sub multiply floor_divide true_divide divide power arctan2 hypot '
      'bitwise_and left_shift greater less_equal not_equal logical_and '
      'maximum fmin copysign ldexp fmod nextafter').split()


def advertised(arr):
    return (tuple(arr.shape), arr.dtype, arr.ndim, arr.nbytes)


def judge(ctx, arr, masked=True, engine=True, chunk=DEFAULT_CHUNK):
    shape, dtype, ndim, nbytes = advertised(arr)
    if not isinstance(arr.shape, tuple):
        raise Bad('shape is %r' % (arr.shape,))
    if not all(isinstance(n, (int, np.integer)) for n in shape):
        raise Bad('shape is %r' % (shape,))
    if ndim != len(shape):
        raise Bad('ndim is %r for shape %r' % (ndim, shape))
    n = 1
    for s in shape:
        n *= int(s)
    if nbytes != n * dtype.itemsize:
        raise Bad('nbytes is %r for shape %r of %s' % (nbytes, shape, dtype))
    results = [('ndarray()', arr.ndarray(), False)]
    if masked:
        results.append(('masked_array()', arr.masked_array(), True))
    if engine:
        with chunk_size(chunk):
            results.append(('ndarrays([.])', biggus.ndarrays([arr])[0],
                            False))
            if masked:
                results.append(('masked_arrays([.])',
                                biggus.masked_arrays([arr])[0], True))
    for what, r, m in results:
        if not isinstance(r, np.ndarray) or ma.isMaskedArray(r) != m:
            raise Bad('%s gave %s' % (what, show(r)))
        if r is ma.masked:
            raise Bad('%s gave the shared masked constant' % what)
        if r.shape != shape:
            raise Bad('%s has shape %s, advertised %s'
                      % (what, r.shape, shape))
        if r.dtype != dtype:
            raise Bad('%s has dtype %s, advertised %s'
                      % (what, r.dtype, dtype))
        if r.nbytes != nbytes:
            raise Bad('%s has %s bytes, advertised %s'
                      % (what, r.nbytes, nbytes))
    check_fill(arr, [(what, r) for what, r, m in results if m])
    ctx.count('fill_values', int(masked))
    if advertised(arr) != (shape, dtype, ndim, nbytes):
        raise Bad('advertised %s before and %s after evaluation'
                  % ((shape, dtype, ndim, nbytes), advertised(arr)))
    if shape:
        a = np.asarray(arr)
        if a.shape != shape or a.dtype != dtype:
            raise Bad('np.asarray() gave %s' % show(a))
    ctx.count('results', len(results))
    ctx.count('zero_dimensional', not shape)


def case(rng, ctx):
    r = rng.random()
    chunk = rng.choice(CHUNKS)
    if r < .25:
        dtype = rng.choice(gen.NUMERIC + gen.OTHER + gen.CPLX)
        v = gen.structural(rng, rng.randint(0, 3), dtype, masked=.4)
        if rng.random() < .3 and v.nd.dtype.kind in 'biuf':
            v = gen.astyped(rng, v, rng.choice(['f4', 'f8', 'c8', '>f8']))
        ctx.desc = v.desc
        if rng.random() < .7:
            k = gen.keys(rng, v.nd.shape, seq=.2, newaxis=.05)
            ctx.desc = v.desc + gen.kdesc(k)
            v = index(rng, ctx, v, k)
        if tuple(v.arr.shape) != v.nd.shape:
            raise Bad('advertised shape %s, expected %s'
                      % (v.arr.shape, v.nd.shape))
        if v.arr.dtype != v.nd.dtype:
            raise Bad('advertised dtype %s, expected %s'
                      % (v.arr.dtype, v.nd.dtype))
        big = v.nd.size > 200
        judge(ctx, v.arr, chunk=DEFAULT_CHUNK if big else chunk)
        ctx.count('structures')
        ctx.nontrivial('structure', v.kinds, v.nd.ndim, v.nd.dtype.kind)
    elif r < .55:
        elementwise(rng, ctx, chunk)
    elif r < .75:
        aggregation(rng, ctx, chunk)
    elif r < .95:
        pool = expr.Pool(rng, masked=.4, maxlen=4)
        v = expr.graph(rng, pool, rng.randint(1, 4), index=.2, views=.2)
        ctx.desc = v.desc
        k = Ellipsis
        if rng.random() < .4:
            k = gen.keys(rng, v.nd.shape, newaxis=.05, empty=0)
            ctx.desc += gen.kdesc(k)
        from ..ref import ortho
        want = ortho(v.nd, k)
        try:
            arr = v.arr[k]
        except NotImplementedError:
            raise Skip()
        if tuple(arr.shape) != want.shape or arr.dtype != want.dtype:
            raise Bad('advertised %s %s, expected %s %s' % (
                arr.shape, arr.dtype, want.shape, want.dtype))
        judge(ctx, arr, chunk=chunk)
        ctx.count('graphs')
        ctx.nontrivial('graph', v.kinds, v.desc.count('('), v.nd.ndim)
    else:
        huge(rng, ctx)


def operand(rng, shp, dtype):
    return gen.leaf(rng, shp, dtype, .4, offset=1)


def elementwise(rng, ctx, chunk):
    dt = rng.choice(gen.NUMERIC + ['bool'] + gen.CPLX)
    shp = gen.shape(rng, 0, 3, maxlen=4, maxsize=40)
    v = operand(rng, shp, dt)
    kind = rng.random()
    if kind < .35:
        op = rng.choice(UN)
        ctx.desc = '%s(%s)' % (op, v.desc)
        try:
            getattr(np, op)(np.ones(1, dt))
        except TypeError:
            raise Skip()
        arr = getattr(biggus, op)(v.arr)
        want = getattr(np, op)(np.ones(1, dt)).dtype
        sig = (op, dt, len(shp))
    else:
        op = rng.choice(BI)
        np_op = getattr(np, 'subtract' if op == 'sub' else op)
        ones = np.ones(1, dt)
        if kind < .6:
            s = rng.choice([1, 2, 5, 0.5, 2.0])
            if rng.random() < .4:
                s = rng.choice([np.float64, np.float32, np.int16, np.int64,
                                np.complex64, bool])(s)
            ctx.desc = '%s(%s, %s %r)' % (op, v.desc, type(s).__name__, s)
            try:
                # Only Python's int and float leave the type alone.
                want = np_op(ones, s if type(s) in (int, float)
                             else np.array([s])).dtype
            except TypeError:
                raise Skip()
            arr = getattr(biggus, op)(v.arr, s)
            sig = (op, dt, type(s).__name__, len(shp))
        else:
            dt2 = rng.choice(gen.NUMERIC + ['bool'] + gen.CPLX)
            shp2 = tuple(n if rng.random() < .7 else 1 for n in shp)
            shp2 = shp2[rng.randint(0, len(shp2)):]
            w = operand(rng, shp2, dt2)
            ctx.desc = '%s(%s, %s)' % (op, v.desc, w.desc)
            try:
                want = np_op(ones, np.ones(1, dt2)).dtype
            except TypeError:
                raise Skip()
            arr = getattr(biggus, op)(v.arr, w.arr)
            sig = (op, dt, dt2, len(shp), len(shp2))
    if arr.dtype != want:
        raise Bad('advertised dtype %s, expected %s' % (arr.dtype, want))
    if tuple(arr.shape) != shp:
        raise Bad('advertised shape %s, expected %s' % (arr.shape, shp))
    if op == 'power' and want.kind in 'iu':
        # (Negative powers of integers are refused by NumPy.)
        raise Skip()
    # Some operations have no masked version, or can't shift by a masked
    # value.
    masked = op not in NO_MASKED and 'shift' not in op
    judge(ctx, arr, masked=masked, chunk=chunk)
    ctx.count('elementwise')
    ctx.nontrivial(*sig)


NO_MASKED = set('rint sign square reciprocal trunc isreal isinf isnan '
                'signbit invert deg2rad copysign ldexp fmod nextafter fmin '
                'true_divide'.split())
NO_MASKED -= set(['true_divide'])
for _op in UN + BI:
    _np = getattr(np, 'subtract' if _op == 'sub' else _op)
    if not hasattr(ma, _np.__name__):
        NO_MASKED.add(_op)


def aggregation(rng, ctx, chunk):
    dt = np.dtype(rng.choice(gen.INT + ['f4', 'f8', '>f4', 'c8', 'c16',
                                        'bool']))
    v = operand(rng, gen.shape(rng, 1, 3, maxlen=5, maxsize=60), dt)
    name = rng.choice(expr.AGG)
    if dt.kind == 'b' and name == 'sum':
        raise Skip()
    axis = rng.randrange(-v.nd.ndim, v.nd.ndim)
    ctx.desc = '%s(%s, axis=%d)' % (name, v.desc, axis)
    arr = getattr(biggus, name)(v.arr, axis=axis)
    want = expr.agg_dtype(name, dt)
    shp = list(v.nd.shape)
    del shp[axis]
    if arr.dtype != want:
        raise Bad('advertised dtype %s, expected %s' % (arr.dtype, want))
    if tuple(arr.shape) != tuple(shp):
        raise Bad('advertised shape %s, expected %s' % (arr.shape, shp))
    judge(ctx, arr, chunk=chunk)
    ctx.count('aggregations')
    ctx.nontrivial(name, dt.str, v.nd.ndim, axis)


def huge(rng, ctx):
    """Arrays which could never be evaluated still know their size."""
    dt = np.dtype(rng.choice(['i1', 'f4', 'f8', 'c16', 'S3']))
    shp = tuple(rng.choice([1, 10, 1000, 52000, 10 ** 6, 2 ** 31, 3])
                for _ in range(rng.randint(1, 6)))
    value = b'abc' if dt.kind == 'S' else 1
    arr = biggus.ConstantArray(shp, value, dtype=dt)
    if dt.kind == 'f' and rng.random() < .5:
        arr = arr + arr
    n = dt.itemsize
    for s in shp:
        n *= s
    ctx.desc = 'huge %s %s' % (shp, dt)
    if arr.nbytes != n:
        raise Bad('nbytes is %r, expected %r' % (arr.nbytes, n))
    text = biggus.size(arr)
    number, unit = text.split()
    scale = {'B': 1, 'KiB': 2 ** 10, 'MiB': 2 ** 20, 'GiB': 2 ** 30,
             'TiB': 2 ** 40}[unit]
    # (What is printed is the nearest float.)
    if abs(Fraction(number) - Fraction(n, scale)) > \
            Fraction('0.00501') + Fraction(n, scale) / 2 ** 50:
        raise Bad('size() is %r for %d bytes' % (text, n))
    if unit == 'B' and number != str(n):
        raise Bad('size() is %r for %d bytes' % (text, n))
    if not 1 <= n / float(scale) < 1024 and unit not in ('TiB', 'B'):
        raise Bad('size() is %r for %d bytes' % (text, n))
    if not isinstance(repr(arr), str) or not isinstance(str(arr), str):
        raise Bad('repr() is %r' % (repr(arr),))
    # A corner of it evaluates.
    part = arr[tuple(slice(s - 1, None) for s in shp)]
    if part.ndarray().shape != (1,) * len(shp):
        raise Bad('the last element has shape %s' % (part.shape,))
    ctx.count('huge')
    ctx.nontrivial('huge', unit, len(shp))
