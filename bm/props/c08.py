"""C08: aggregations of plain data equal NumPy."""
import numpy as np
import numpy.ma as ma

from .. import agg, expr, gen
from ..common import CHUNKS
from ..ref import Bad, Skip
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 9000, 'thorough': 300000}
RULE = ('count, sum, mean, min, max, std and var along every axis (given '
        'as positive, negative or 1-element sequence) of random data (16 '
        'dtypes including their extremes, NaN and infinities) in adapters, '
        'stacks, mosaics, views and broadcasts, evaluated whole and split '
        'into chunks of 1 to 50 elements, plain and as masked; non-trivial: '
        'a distinct operation, dtype, shape length, axis, options and kinds '
        'of container')
MUST_OBSERVE = {'evaluations': 10000, 'split': 2000, 'special_values': 50,
                'split_axis': 500}
ASSUMPTIONS = ['std and var: the data contain no infinities (NaN is '
               'included)',
               'sums are in the dtype of the data, as documented by the '
               'advertised dtype',
               'a different order of summation may differ by a few '
               'roundings per element']


def case(rng, ctx):
    if rng.random() < .12:
        filled(rng, ctx)
        return
    c = agg.make(rng, False, special=.25)
    ctx.desc = c.desc
    data = c.v.nd
    if data.dtype.kind == 'c' and (c.name in ('min', 'max') or
                                   c.ddof >= c.n):
        raise Skip()
    if c.name in ('std', 'var') and data.dtype.kind == 'f' and \
            np.isinf(data).any():
        raise Skip()
    arr = c.build()
    want = expr.agg_nd(c.name, data, c.axis, c.ddof)
    tol = agg.tolerance(c.name, data, c.axis, c.ddof)
    if tuple(arr.shape) != want.shape or arr.dtype != want.dtype:
        raise Bad('advertised %s %s, expected %s %s' % (
            arr.shape, arr.dtype, want.shape, want.dtype))
    agg.check_plain('ndarray()', arr.ndarray(), want, tol)
    ctx.count('evaluations')
    finite = data.dtype.kind in 'iu' or bool(np.isfinite(data).all())
    ctx.count('special_values', int(not finite))
    for chunk in rng.sample(CHUNKS, 2):
        with chunk_size(chunk):
            agg.check_plain('ndarray() chunk=%d' % chunk, arr.ndarray(),
                            want, tol)
            if rng.random() < .4 and finite and c.ddof < c.n:
                r = arr.masked_array()
                if ma.getmaskarray(r).any():
                    raise Bad('masked_array() chunk=%d: masked %s'
                              % (chunk, r))
                agg.check_masked('masked_array() chunk=%d' % chunk, r,
                                 ma.array(want), tol)
                ctx.count('evaluations')
        ctx.count('evaluations')
        ctx.count('split', int(data.size > chunk))
        inner = int(np.prod(data.shape[c.axis:]))
        ctx.count('split_axis', int(inner > chunk and c.n > 1))
    ctx.nontrivial(*c.sig)


def filled(rng, ctx):
    """Plain evaluation sees the fill-value in place of masked data."""
    c = agg.make(rng, True)
    data = c.v.mk
    ctx.desc = 'plain ' + c.desc
    if data.dtype.kind == 'c' or data.dtype.itemsize < 4 or \
            c.name in ('std', 'var') and data.dtype.kind == 'f':
        # (The default fill-value would overflow.)
        raise Skip()
    arr = c.build()
    want = expr.agg_nd(c.name, c.v.nd, c.axis, c.ddof)
    tol = agg.tolerance(c.name, c.v.nd, c.axis, c.ddof)
    chunk = rng.choice(CHUNKS)
    with chunk_size(chunk):
        agg.check_plain('ndarray() chunk=%d' % chunk, arr.ndarray(), want,
                        tol)
    ctx.count('evaluations')
    ctx.count('filled')
    ctx.nontrivial('filled', *c.sig)
