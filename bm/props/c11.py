"""C11: how the data are split never changes a result."""
import numpy as np
import numpy.ma as ma

from .. import agg, expr, gen
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 1300, 'thorough': 40000}
RULE = ('random expression graphs (shared subexpressions, views, '
        'selections, aggregations, broadcasting) and single aggregations, '
        'each evaluated with 6 different chunk sizes; non-trivial: a '
        'distinct structure whose evaluations really were split '
        'differently, as seen by the sources')
MUST_OBSERVE = {'evaluations': 3500, 'distinct_splits': 1000, 'graphs': 400,
                'masked': 300, 'aggregations': 200}
ASSUMPTIONS = ['floating-point sums may differ by the rounding of a '
               'different order of addition']
SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 20, 24, 30, 31, 50, 64,
         100]


def single(rng, ctx):
    """One aggregation, with each of its options and special data."""
    masked = rng.random() < .6
    c = agg.make(rng, .8 if masked else 0, special=.1)
    ctx.desc = c.desc
    ctx.count('aggregations')
    sources = c.v.sources
    arr = c.build()
    data = c.v.mk if masked else c.v.nd
    tol = agg.tolerance(c.name, ma.getdata(data), c.axis, c.ddof,
                        ~ma.getmaskarray(data) if masked else None)
    tol = 2 * np.asarray(tol)

    def evaluate(size):
        for s in sources:
            s.reset()
        with chunk_size(size):
            with np.errstate(all='ignore'):
                if masked:
                    r, = biggus.masked_arrays([arr])
                else:
                    r, = biggus.ndarrays([arr])
        return r, tuple(s.reads for s in sources)

    base, split = evaluate(DEFAULT_CHUNK)
    splits = {split}
    check = agg.check_masked if masked else agg.check_plain
    for size in rng.sample(SIZES, 6):
        r, split = evaluate(size)
        splits.add(split)
        check('chunk=%d' % size, r, base, tol)
        ctx.count('evaluations')
    ctx.count('masked', int(masked))
    ctx.count('distinct_splits', len(splits) - 1)
    if len(splits) > 1:
        ctx.nontrivial(c.sig, masked, len(splits))


def case(rng, ctx):
    if rng.random() < .35:
        single(rng, ctx)
        return
    masked = rng.random() < .5
    exact = rng.random() < .3
    pool = expr.Pool(rng, masked=gen.share(rng, masked), maxlen=6,
                     dtypes=['i4', 'i8', 'i2'] if exact else None)
    aggs = ['sum', 'min', 'max', 'count'] if exact else expr.AGG
    v = expr.graph(rng, pool, rng.randint(1, 5), index=.15, views=.15,
                   aggs=aggs)
    ctx.desc = v.desc
    ctx.count('graphs')

    def evaluate(size):
        for s in pool.all_sources:
            s.reset()
        with chunk_size(size):
            if masked:
                r, = biggus.masked_arrays([v.arr])
            else:
                r, = biggus.ndarrays([v.arr])
        return r, tuple(s.reads for s in pool.all_sources)

    base, split = evaluate(DEFAULT_CHUNK)
    expr.check('chunk=default', base, v, masked)
    splits = {split}
    for size in rng.sample(SIZES, 6):
        r, split = evaluate(size)
        splits.add(split)
        expr.compare('chunk=%d' % size, r, base, expr.mag_of(v), masked)
        ctx.count('evaluations')
    ctx.count('masked', int(masked))
    ctx.count('distinct_splits', len(splits) - 1)
    if len(splits) > 1:
        ctx.nontrivial(v.kinds, v.desc.count('('), v.nd.ndim, masked, exact,
                       len(splits))
