"""C17: evaluating together gives what evaluating one by one gives."""
import numpy as np
import numpy.ma as ma

from .. import expr, gen
from ..common import CHUNKS
from ..ref import Bad, Skip, show
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 2200, 'thorough': 60000}
RULE = ('batches of 1 to 7 results (shared sources and subexpressions, the '
        'same array several times, subexpressions of other results, '
        'unrelated arrays, containers, different axes of the same array) '
        'evaluated with random chunk sizes and compared with NumPy and with '
        'single evaluations; non-trivial: a distinct batch which shares '
        'something')
MUST_OBSERVE = {'batches': 900, 'results': 5000, 'duplicates': 300,
                'subexpressions': 300, 'axes': 300, 'masked': 400,
                'split': 500}
ASSUMPTIONS = ['results are compared within rounding']


def lockstep(rng, masked):
    """
    A pool of long sources and a batch in which computations have some of
    them in common, so that one of them may hold back (or outlive) others.
    """
    pool = expr.Pool(rng, n=rng.randint(2, 4), masked=gen.share(rng, masked),
                     ndims=(1, 1, 2), maxlen=rng.choice([12, 25, 40]),
                     structured=.1, dtypes=['f8'])
    shp = max((l.nd.shape for l in pool.leaves), key=lambda s: np.prod(s))
    same = [pool.leaf(shp, 'f8', .7 if masked else 0, pool.style, 0, i)
            for i in range(rng.randint(2, 3))]
    pool.leaves += same
    batch = []
    for _ in range(rng.randint(2, 4)):
        v = rng.choice(same)
        if rng.random() < .7:
            v = expr.binary(v, rng.choice(same),
                            rng.choice(['add', 'multiply']))
        if rng.random() < .3:
            v = expr.unary(v, 'negative')
        if rng.random() < .4:
            v = expr.aggregate(v, rng.choice(['sum', 'min', 'count']),
                               rng.randrange(v.nd.ndim))
            if v.nd.ndim and rng.random() < .3:
                v = expr.scalar(rng, v, 'add')
        batch.append(v)
    n = int(np.prod(shp))
    return pool, batch, rng.choice([1, 2, 3, max(1, n // 12), max(1, n // 7)])


def members(rng, pool, ctx):
    """A batch of related arrays."""
    out = []
    n = rng.randint(1, 6)
    base = expr.graph(rng, pool, rng.randint(1, 4), views=.1, index=.1)
    out.append(base)
    for _ in range(n - 1):
        how = rng.random()
        v = rng.choice(out)
        if how < .2:
            ctx.count('duplicates')
            out.append(v)
        elif how < .4:
            ctx.count('subexpressions')
            out.append(rng.choice([lambda: expr.unary(v, 'negative'),
                                   lambda: expr.scalar(rng, v, 'add'),
                                   lambda: expr.binary(v, v, 'maximum')])())
        elif how < .7:
            leaves = [l for l in pool.leaves if 0 not in l.nd.shape]
            leaf = rng.choice(leaves + out)
            if not leaf.nd.ndim:
                out.append(leaf)
                continue
            if rng.random() < .4:
                leaf = expr.unary(leaf, 'absolute')
            if rng.random() < .5:
                ctx.count('axes')
                for axis in rng.sample(range(leaf.nd.ndim),
                                       rng.randint(1, leaf.nd.ndim)):
                    out.append(expr.aggregate(leaf, rng.choice(expr.AGG),
                                              axis))
            else:
                axis = rng.randrange(leaf.nd.ndim)
                for name in rng.sample(expr.AGG, rng.randint(1, 4)):
                    out.append(expr.aggregate(leaf, name, axis))
        elif how < .85:
            out.append(expr.graph(rng, pool, rng.randint(0, 3)))
        else:
            out.append(rng.choice(pool.leaves))
    if rng.random() < .3:
        # One which needs the others in another order.
        l = rng.choice(pool.leaves)
        if l.nd.ndim > 1:
            axes = list(range(l.nd.ndim))
            rng.shuffle(axes)
            out.append(gen.V(l.arr.transpose(axes), l.nd.transpose(axes),
                             l.mk.transpose(axes), 'T%s(%s)' % (
                                 axes, l.desc), l.kinds, l.sources))
    rng.shuffle(out)
    return out[:7]


def case(rng, ctx):
    masked = rng.random() < .45
    pool = expr.Pool(rng, masked=gen.share(rng, masked), maxlen=5)
    batch = members(rng, pool, ctx)
    chunk = rng.choice(CHUNKS + [6, 10, 25])
    ctx.desc = 'chunk=%d %s[%s]' % (chunk, 'masked ' if masked else '',
                                    '; '.join(v.desc for v in batch))
    evaluate = biggus.masked_arrays if masked else biggus.ndarrays
    arrays = [v.arr for v in batch]
    form = rng.choice([list, tuple, iter])
    for s in pool.all_sources:
        s.reset()
    with chunk_size(chunk):
        results = evaluate(form(arrays))
        if len(results) != len(batch):
            raise Bad('%d results for %d arrays' % (len(results),
                                                    len(batch)))
        ctx.count('split', int(any(s.reads > 1 for s in pool.all_sources)))
        for i, (r, v) in enumerate(zip(results, batch)):
            expr.check('result %d of %d' % (i, len(batch)), r, v, masked)
            ctx.count('results')
        i = rng.randrange(len(batch))
        alone, = evaluate([arrays[i]])
        expr.compare('result %d alone' % i, alone, results[i],
                     expr.mag_of(batch[i]), masked)
    # Equal, but not the same memory.
    for i in range(len(results)):
        for j in range(i):
            if np.may_share_memory(ma.getdata(results[i]),
                                   ma.getdata(results[j])) and \
                    results[i].size:
                raise Bad('results %d and %d share memory' % (j, i))
    ctx.count('batches')
    ctx.count('masked', int(masked))
    if len(batch) > 1:
        ctx.nontrivial(len(batch), tuple(sorted(
            (tuple(sorted(v.kinds)), v.nd.ndim) for v in batch)),
            min(chunk, 13), masked)
