"""C21: evaluation changes neither the data nor other results."""
import numpy as np
import numpy.ma as ma

from .. import elem, expr, gen
from ..common import CHUNKS
from ..ref import Bad, Skip, show
from ..env import biggus, chunk_size, DEFAULT_CHUNK
from .c17 import members

CASES = {'quick': 2400, 'thorough': 60000}
RULE = ('sources which hand out views of their data, evaluated in batches '
        'which share chunks between several consumers, twice; the bytes and '
        'masks of every source are compared before and after, computed and '
        'batch results are overwritten between evaluations, and both must '
        'be the same; non-trivial: a distinct batch, chunk size and masking '
        'in which a chunk has several consumers')
MUST_OBSERVE = {'evaluations': 4000, 'overwritten': 5000, 'sources': 2000,
                'masked': 250, 'operations': 300, 'plain_operands': 25,
                'containers': 100}
ASSUMPTIONS = ['only results of computations, casts, stacks and mosaics '
               'are independent of their sources (an adapter may hand out a '
               'view of the data)']


def snapshot(a):
    return (ma.getdata(a).tobytes(), ma.getmaskarray(a).tobytes(),
            a.dtype, a.shape, repr(getattr(a, 'fill_value', None)),
            ma.getmask(a) is ma.nomask, getattr(a, '_hardmask', None))


def overwrite(ctx, r):
    if r.size and r.dtype.kind in 'fiubc':
        if ma.isMaskedArray(r):
            ma.getdata(r)[...] = 1
            r[...] = ma.masked
        else:
            r[...] = 1
        ctx.count('overwritten')


def unchanged(sources, snaps, what):
    for (name, a), snap in zip(sources, snaps):
        if snapshot(a) != snap:
            raise Bad('%s changed the data of %s: %s' % (what, name,
                                                        show(a)))


def case(rng, ctx):
    masked = rng.random() < .5
    r = rng.random()
    if r < .35:
        operation(rng, ctx, masked)
        return
    if r < .5:
        container(rng, ctx, masked)
        return
    pool = expr.Pool(rng, masked=gen.share(rng, masked), maxlen=5)
    batch = members(rng, pool, ctx)
    chunk = rng.choice(CHUNKS + [6, 9, 30])
    ctx.desc = 'chunk=%d %s[%s]' % (chunk, 'masked ' if masked else '',
                                    '; '.join(v.desc for v in batch))
    arrays = [v.arr for v in batch]
    sources = [(s.name, s._data) for s in pool.all_sources]
    snaps = [snapshot(a) for _, a in sources]
    evaluate = biggus.masked_arrays if masked else biggus.ndarrays
    with chunk_size(chunk):
        first = evaluate(arrays)
        unchanged(sources, snaps, 'evaluation')
        kept = [r.copy() for r in first]
        for i, r in enumerate(first):
            overwrite(ctx, r)
            unchanged(sources, snaps, 'writing to result %d' % i)
            for j in range(i + 1, len(first)):
                if first[j].tobytes() != kept[j].tobytes():
                    raise Bad('writing to result %d changed result %d'
                              % (i, j))
        again = evaluate(arrays)
        for i, (r, k, v) in enumerate(zip(again, kept, batch)):
            expr.check('evaluated again: result %d' % i, r, v, masked)
            if ma.getdata(r).tobytes() != ma.getdata(k).tobytes() and \
                    not masked:
                raise Bad('result %d: %s the second time, %s the first'
                          % (i, show(r), show(k)))
        # Computations evaluated one by one.
        for v in batch:
            if hasattr(v.arr, 'streams_handler'):
                r = (v.arr.masked_array if masked else v.arr.ndarray)()
                expr.check('alone', r, v, masked)
                overwrite(ctx, r)
                unchanged(sources, snaps, 'writing to a single result')
                ctx.count('evaluations')
    unchanged(sources, snaps, 'evaluation')
    ctx.count('evaluations', 2)
    ctx.count('sources', len(sources))
    ctx.count('masked', int(masked))
    ctx.nontrivial(tuple(sorted(batch[0].kinds)), len(batch),
                   min(chunk, 13), masked)


def container(rng, ctx, masked):
    """Casts, stacks, mosaics and value-masks, which make a copy."""
    dtype = rng.choice(['f8', 'i4', 'f4', 'u1', '>f8'])
    v = gen.structural(rng, rng.randint(0, 2), dtype,
                       masked=.7 if masked else 0, avoid=('constant',))
    how = rng.choice(['astype', 'astype', 'same', 'same', 'stack', 'mosaic',
                      'mosaic', 'maskval'])
    if how == 'astype':
        v = gen.astyped(rng, v, rng.choice(['f8', 'f4', 'i4', 'c16']))
    elif how == 'same':
        v = gen.astyped(rng, v, v.arr.dtype)
    elif how == 'stack':
        n = rng.randint(1, 2)
        v = gen.stack(rng, [v] * n, (n,))
    elif how == 'mosaic' and v.nd.ndim:
        v = gen.mosaic(rng, [v] * rng.randint(1, 2),
                       rng.randrange(v.nd.ndim))
    elif how == 'maskval' and masked:
        v = gen.maskval(rng, v)
    else:
        raise Skip()
    ctx.desc = '%s%s' % ('masked ' if masked else '', v.desc)
    sources = [(s.name, s._data) for s in v.sources]
    sources += [('an adapted array', a) for a in adapted(v.arr)]
    snaps = [snapshot(a) for _, a in sources]
    arr = v.arr
    if rng.random() < .3:
        k = gen.keys(rng, arr.shape, seq=0, newaxis=0)
        ctx.desc += gen.kdesc(k)
        arr = arr[k]
        if how != 'same' and how != 'astype' and how != 'maskval':
            # A single item of a stack or mosaic is not a copy.
            return
    r = arr.masked_array() if masked else arr.ndarray()
    unchanged(sources, snaps, 'evaluation')
    kept = r.copy()
    overwrite(ctx, r)
    unchanged(sources, snaps, 'writing to the result')
    again = arr.masked_array() if masked else arr.ndarray()
    if (ma.getdata(again).tobytes() != ma.getdata(kept).tobytes() or
            not np.array_equal(ma.getmaskarray(again),
                               ma.getmaskarray(kept))):
        raise Bad('%s the second time, %s the first' % (show(again),
                                                       show(kept)))
    ctx.count('containers')
    ctx.count('evaluations', 2)
    ctx.count('sources', len(sources))
    ctx.nontrivial('container', how, v.kinds, dtype, masked)


def adapted(arr, depth=0):
    """The NumPy arrays which are wrapped somewhere within an array."""
    if isinstance(arr, np.ndarray) and arr.dtype != object:
        return [arr]
    if depth > 6:
        return []
    if isinstance(arr, np.ndarray):
        inner = list(arr.flat)
    elif isinstance(arr, biggus.Array):
        inner = list(vars(arr).values())
    else:
        return []
    return [a for x in inner for a in adapted(x, depth + 1)]


def operation(rng, ctx, masked):
    """Every elementwise operation, over bare arrays as well."""
    op = elem.make(rng, .8 if masked else 0)
    ctx.desc = op.desc
    if 'shift' in op.name:
        raise Skip()
    sources = []
    for p in op.parts:
        if isinstance(p.arr, np.ndarray):
            sources.append(('a bare array', p.arr))
            ctx.count('plain_operands')
        for s in p.sources:
            sources.append((s.name, s._data))
    for p in op.parts:
        concrete = getattr(p.arr, 'concrete', None)
        if isinstance(concrete, np.ndarray):
            sources.append(('an adapted array', concrete))
    snaps = [snapshot(a) for _, a in sources]
    try:
        arr = op.build()
        r1 = arr.masked_array() if masked else arr.ndarray()
    except Exception:
        unchanged(sources, snaps, 'a refused evaluation')
        raise Skip()
    unchanged(sources, snaps, 'evaluation')
    kept = r1.copy()
    overwrite(ctx, r1)
    unchanged(sources, snaps, 'writing to the result')
    with chunk_size(rng.choice(CHUNKS)):
        r2 = arr.masked_array() if masked else arr.ndarray()
    if not np.array_equal(ma.getmaskarray(r2), ma.getmaskarray(kept)):
        raise Bad('%s the second time, %s the first' % (show(r2),
                                                       show(kept)))
    keep = ~ma.getmaskarray(kept)
    from ..ref import same_values, _tol
    if not same_values(ma.getdata(r2)[keep], ma.getdata(kept)[keep],
                       _tol(kept.dtype)):
        raise Bad('%s the second time, %s the first' % (show(r2),
                                                       show(kept)))
    ctx.count('operations')
    ctx.count('evaluations', 2)
    ctx.count('sources', len(sources))
    ctx.nontrivial(op.sig)
