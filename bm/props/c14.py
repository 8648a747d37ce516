"""C14: only the needed elements are read, and shared ones just once."""
import numpy as np
import numpy.ma as ma

from .. import expr, gen
from ..common import CHUNKS, kinds_of_keys
from ..ref import Bad, Skip, expand, ortho
from ..src import Source
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 7000, 'thorough': 200000}
RULE = ('selections from containers, and from elementwise operations and '
        'aggregations over shared sources, evaluated in batches and in '
        'chunks of various sizes, while the sources record how often each '
        'element is read; non-trivial: a distinct kind of structure, keys '
        'and batch whose selection leaves something out or is shared')
MUST_OBSERVE = {'containers': 1500, 'computations': 800, 'batches': 800,
                'single': 150,
                'left_out': 1000, 'shared': 800, 'split': 500,
                'sequences': 300}
ASSUMPTIONS = ['selections are only exact for sources with orthogonal '
               'indexing (several sequence keys on sources with NumPy '
               'indexing are applied one after another)',
               'results which need the chunks of a source in different '
               'sequences may each read it']


def case(rng, ctx):
    r = rng.random()
    if r < .45:
        container(rng, ctx)
    elif r < .7:
        computation(rng, ctx)
    else:
        batch(rng, ctx)


def one_sequence(rng, shape):
    # NumPy indexing is exact as long as there is just one sequence.
    k = list(expand(gen.keys(rng, shape, seq=0, newaxis=0, empty=0),
                    len(shape)))
    axes = [i for i, n in enumerate(shape) if n]
    if axes:
        axis = rng.choice(axes)
        n = shape[axis]
        ix = [rng.randint(-n, n - 1) if rng.random() < .3 else
              rng.randrange(n) for _ in range(rng.choice([1, 2, 3, 4]))]
        k[axis] = rng.choice([tuple(ix), tuple(ix), np.array(ix),
                              np.isin(np.arange(n), np.array(ix) % n)])
    return tuple(k)


def container(rng, ctx):
    seq = rng.choice([0, .3, 'one'])
    with gen.unique_values(('ortho', 'numpy') if seq == 'one' else
                           ('ortho',)):
        v = gen.structural(rng, rng.randint(0, 3), 'i8',
                           masked=rng.choice([0, .5]),
                           avoid=('constant', 'maskval', 'index') +
                           (('newaxis',) if seq == 'one' else ()))
        if rng.random() < .3:
            v = gen.maskval(rng, v)
    ctx.desc = v.desc
    ids = ma.getdata(v.mk)
    arr = v.arr
    used = []
    dup = False
    for _ in range(1 if seq == 'one' else rng.choice([1, 1, 2])):
        if seq == 'one':
            # A second step composes slices into sequences.
            k = one_sequence(rng, arr.shape)
        else:
            k = gen.keys(rng, arr.shape, seq=seq, newaxis=0.05, empty=0)
        ctx.desc += gen.kdesc(k)
        try:
            arr = arr[k]
        except NotImplementedError:
            raise Skip()
        ids = ortho(ids, k)
        used.append(kinds_of_keys(k))
    dup = seq != 0
    if not ids.size:
        raise Skip()
    needed = set(ids.ravel().tolist())
    masked = rng.random() < .5
    (arr.masked_array if masked else arr.ndarray)()
    out = 0
    for s in v.sources:
        own = ma.getdata(s._data).ravel()
        read = own[s.counts > 0].tolist()
        extra = set(read) - needed
        if extra:
            raise Bad('%s of the elements read from %s are not needed'
                      % (len(extra), s.shape))
        if not dup and s.counts.size and s.counts.max() > 1:
            raise Bad('an element of %s was read %d times'
                      % (s.shape, s.counts.max()))
        missing = (needed & set(own.tolist())) - set(read)
        if missing:
            raise Bad('%d elements of %s were never read' % (len(missing),
                                                           s.shape))
        out += own.size - len(read)
    ctx.count('containers')
    ctx.count('left_out', int(out > 0))
    ctx.count('sequences', int(seq == 'one'))
    if out:
        ctx.nontrivial('container', v.kinds, used, seq)


def pipeline(rng, leaves, ctx):
    """Elementwise over the leaves, then aggregations over axes."""
    arr = leaves[0]
    name = []
    for leaf in leaves[1:]:
        arr = rng.choice([biggus.add, biggus.multiply, biggus.maximum])(
            arr, leaf)
        name.append('op')
    if rng.random() < .5:
        arr = rng.choice([biggus.negative, biggus.absolute])(arr)
        name.append('un')
    axes = []
    while arr.ndim > 1 and rng.random() < .6:
        axis = rng.randrange(arr.ndim)
        agg = rng.choice(['sum', 'mean', 'min', 'std', 'count'])
        arr = getattr(biggus, agg)(arr, axis=axis)
        axes.append(axis)
        name.append('%s%d' % (agg, axis))
        if rng.random() < .3:
            arr = arr * 2
    return arr, axes, name


def computation(rng, ctx):
    """Selecting from a computation only reads what it depends on."""
    shp = tuple(rng.randint(2, 6) for _ in range(rng.randint(1, 3)))
    sources = [Source(np.arange(int(np.prod(shp)), dtype='f8').reshape(shp),
                      style='ortho', name='s%d' % i)
               for i in range(rng.randint(1, 3))]
    leaves = [biggus.OrthoArrayAdapter(s) for s in sources]
    arr, axes, name = pipeline(rng, leaves, ctx)
    ids = sources[0]._ids
    shape = tuple(arr.shape)
    k = gen.keys(rng, shape, newaxis=0, seq=0, empty=0)
    ks = list(k if isinstance(k, tuple) else (k,))
    full = expand(tuple(ks), len(shape))
    for axis in reversed(axes):
        full.insert(axis, slice(None))
    needed = np.zeros(ids.size, bool)
    needed[ortho(ids, tuple(full)).ravel()] = True
    ctx.desc = '%s over %d sources %s%s' % ('.'.join(name), len(sources),
                                            shp, gen.kdesc(k))
    chunk = rng.choice(CHUNKS)
    if not name:
        raise Skip()
    with chunk_size(chunk):
        part = arr[k]
        if rng.random() < .5:
            biggus.ndarrays([part])
        else:
            biggus.masked_arrays([part])
    for s in sources:
        extra = (s.counts > 0) & ~needed
        if extra.any():
            raise Bad('chunk=%d: %d elements of %s were read without need'
                      % (chunk, extra.sum(), s.name))
        if (needed & (s.counts == 0)).any():
            raise Bad('chunk=%d: needed elements of %s were not read'
                      % (chunk, s.name))
        if len(axes) <= 1 and s.counts.max() > 1:
            raise Bad('chunk=%d: an element of %s was read %d times'
                      % (chunk, s.name, s.counts.max()))
    ctx.count('computations')
    ctx.count('left_out', int(not needed.all()))
    ctx.count('split', int(needed.sum() > chunk))
    if not needed.all():
        ctx.nontrivial('computation', tuple(name), kinds_of_keys(k),
                       min(chunk, 8))


def batch(rng, ctx):
    """Results which share sources, and the sequence of their chunks."""
    nd = rng.randint(1, 3)
    shp = tuple(rng.randint(2, 6) for _ in range(nd))
    size = int(np.prod(shp))
    masked = rng.random() < .5
    sources = []
    for i in range(rng.randint(1, 3)):
        a = np.arange(size, dtype='f8').reshape(shp)
        if masked and rng.random() < .7:
            a = ma.array(a, mask=a % 3 == 0)
        sources.append(Source(a, style=rng.choice(['ortho', 'numpy']),
                              name='s%d' % i))
    cls = {'ortho': biggus.OrthoArrayAdapter,
           'numpy': biggus.NumpyArrayAdapter}
    pool = [cls[s.style](s) for s in sources]
    one_chunk = rng.random() < .5
    axis = rng.randrange(nd)
    results = []
    names = []
    for _ in range(rng.randint(1, 3)):
        how = rng.random()
        if how < .4:
            pool.append(rng.choice([biggus.add, biggus.multiply])(
                rng.choice(pool), rng.choice(pool)))
        elif how < .5:
            pool.append(biggus.negative(rng.choice(pool)))
    single = rng.random() < .25
    if single and rng.random() < .7:
        # Operands which share data.
        pool.append(rng.choice([biggus.add, biggus.multiply])(
            biggus.negative(pool[0]),
            rng.choice([pool[0], biggus.absolute(pool[0])])))
        if rng.random() < .5:
            pool.append(biggus.negative(pool[-1]))
        pool = pool[-1:]
    for _ in range(1 if single else rng.randint(2, 6)):
        arr = rng.choice(pool)
        how = rng.random() if not single else rng.choice([.5, .9, .9])
        if how < .8 or not one_chunk and not single:
            ax = rng.randrange(nd) if one_chunk else axis
            agg = rng.choice(['sum', 'mean', 'min', 'max', 'std', 'var',
                              'count'])
            arr = getattr(biggus, agg)(arr, axis=ax)
            names.append('%s%d' % (agg, ax))
        else:
            names.append('=')
        results.append(arr)
    if one_chunk:
        chunk = rng.choice([size, size + 3, DEFAULT_CHUNK])
    else:
        chunk = rng.choice([c for c in CHUNKS])
    ctx.desc = 'batch of %s over %s %d sources chunk=%d' % (
        names, shp, len(sources), chunk)
    with chunk_size(chunk):
        if single and rng.random() < .8:
            # (Each array evaluates its operands together.)
            ctx.count('single')
            (arr.masked_array if masked else arr.ndarray)()
        else:
            (biggus.masked_arrays if masked else biggus.ndarrays)(results)
    n = 0
    for s in sources:
        if s.counts.max() > 1:
            raise Bad('an element of %s was read %d times in one batch'
                      % (s.name, s.counts.max()))
        if s.reads and s.counts.min() == 0:
            raise Bad('some elements of %s were never read' % s.name)
        n += int(s.reads > 0)
    if not n:
        raise Bad('nothing was read')
    ctx.count('batches')
    ctx.count('shared', int(len(results) > n))
    ctx.count('split', int(size > chunk))
    if len(results) > n:
        ctx.nontrivial('batch', tuple(sorted(names)), nd, len(sources),
                       min(chunk, 13), masked)
