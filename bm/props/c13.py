"""C13: nothing is read before an evaluation asks for it."""


import numpy as np
import numpy.ma as ma

from .. import elem, expr, gen
from ..ref import Bad, Skip
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 9000, 'thorough': 200000}
RULE = ('random containers, elementwise operations, aggregations and '
        'expression graphs over recording sources, put through up to 12 '
        'random non-evaluating requests (metadata, repr, size, selections, '
        'transposition, casts, masking, broadcasting, further operations, '
        'deep copies, preparing engines); every read is recorded; '
        'non-trivial: a distinct structure with a distinct set of requests, '
        'which does read once evaluated')
MUST_OBSERVE = {'requests': 20000, 'controls': 1000, 'kinds_of_request': 12}
ASSUMPTIONS = ['the data source has dtype and shape attributes, as required '
               'by the adapters']


def sizes(rng, arr, sources):
    arr.nbytes
    biggus.size(arr)
    return arr


def texts(rng, arr, sources):
    str(arr)
    repr(arr)
    '%s %r' % (arr, [arr])
    return arr


def shapes(rng, arr, sources):
    arr.shape, arr.ndim, arr.dtype, arr.fill_value
    return arr


def select(rng, arr, sources):
    try:
        return arr[gen.keys(rng, arr.shape, empty=0)]
    except NotImplementedError:
        return arr


def flip(rng, arr, sources):
    axes = list(range(arr.ndim))
    rng.shuffle(axes)
    return arr.transpose(axes)


def cast(rng, arr, sources):
    return arr.astype(rng.choice(['f4', 'f8', 'i4']))


def mask(rng, arr, sources):
    return biggus.masked_equal(arr, 3)


def wide(rng, arr, sources):
    return biggus.BroadcastArray.broadcast_arrays(
        arr, biggus.zeros((2,) + (1,) * arr.ndim))[0]


def plus(rng, arr, sources):
    return rng.choice([lambda: arr + arr, lambda: arr * 2,
                       lambda: 1 - arr, lambda: biggus.exp(arr),
                       lambda: arr / 2.0, lambda: arr - np.float32(2)])()


def statistic(rng, arr, sources):
    if not arr.ndim or 0 in arr.shape:
        return arr
    f = rng.choice(['sum', 'mean', 'min', 'max', 'std', 'var', 'count'])
    return getattr(biggus, f)(arr, axis=rng.randrange(arr.ndim))


def stacked(rng, arr, sources):
    items = np.empty(2, dtype='O')
    items[:] = [arr, arr] if not arr.ndim else [arr, arr]
    return biggus.ArrayStack(items)


def tiled(rng, arr, sources):
    if not arr.ndim:
        return arr
    return biggus.LinearMosaic([arr, arr], rng.randrange(arr.ndim))


def ensured(rng, arr, sources):
    return biggus.ensure_array(arr)


def refused(rng, arr, sources):
    for f in (lambda: arr[arr.shape + (0,)], lambda: arr[(0,) * 9],
              lambda: arr['x'], lambda: arr + 'x',
              lambda: biggus.mean(arr, axis=7)):
        try:
            f()
        except Exception:
            pass
    return arr


def truth(rng, arr, sources):
    arr is None, isinstance(arr, biggus.Array), hasattr(arr, 'shape')
    return arr


def walked(rng, arr, sources):
    """Iterating over the first dimension gives virtual arrays."""
    if arr.ndim and 0 < arr.shape[0] < 10:
        parts = [arr[i] for i in range(arr.shape[0])]
        return rng.choice(parts)
    return arr


REQUESTS = [sizes, texts, shapes, select, flip, cast, mask, wide, plus,
            statistic, stacked, tiled, ensured, refused, truth, walked]


def case(rng, ctx):
    r = rng.random()
    masked = rng.choice([0, .4])
    if r < .5:
        v = gen.structural(rng, rng.randint(0, 3), rng.choice(
            ['f8', 'i4', 'f4', 'u1']), masked=masked)
        arr, sources, desc = v.arr, list(v.sources), v.desc
    elif r < .6:
        op = elem.make(rng, masked)
        try:
            arr = op.build()
        except Exception:
            raise Skip()
        sources = [s for p in op.parts for s in p.sources]
        desc = op.desc
    else:
        pool = expr.Pool(rng, masked=masked, maxlen=4)
        v = expr.graph(rng, pool, rng.randint(1, 4), index=.2, views=.2)
        arr, sources, desc = v.arr, pool.all_sources, v.desc
    ctx.desc = desc
    done = []

    def look(what):
        for s in sources:
            if s.reads:
                raise Bad('%s read %d elements of %s' % (what, s.total,
                                                         s.shape))
    look('building it')
    for _ in range(rng.randint(1, 12)):
        f = rng.choice(REQUESTS)
        try:
            arr2 = f(rng, arr, sources)
        except (TypeError, NotImplementedError, AttributeError):
            # (Not every operation suits every dtype.)
            look('a refused %s()' % f.__name__)
            continue
        look('%s()' % f.__name__)
        done.append(f.__name__)
        ctx.count('requests')
        if f.__name__ not in ctx.counters_kinds:
            ctx.counters_kinds.add(f.__name__)
            ctx.count('kinds_of_request')
        n = 1
        for s in arr2.shape:
            n *= int(s)
        if n < 2000:
            arr = arr2
    # A control: evaluation does read.
    if rng.random() < .3 and sources:
        try:
            r = v.arr.ndarray() if r < .5 or r >= .6 else arr.ndarray()
        except Exception:
            raise Skip()
        if r.size and sum(s.reads for s in sources):
            ctx.count('controls')
            ctx.nontrivial(desc.split('(')[0], sorted(set(done)))
    elif sources:
        ctx.nontrivial(desc.split('(')[0], sorted(set(done)))
