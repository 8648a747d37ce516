"""C15: evaluation only ever holds a bounded number of small chunks."""
import gc
import threading
import time

import numpy as np
import numpy.ma as ma

from .. import expr, gen
from ..ref import Bad, Skip
from ..src import Source
from ..env import biggus, chunk_size, DEFAULT_CHUNK
from .c16 import Target

CASES = {'quick': 1800, 'thorough': 60000}
RULE = ('random expression graphs evaluated by engine, in batches and by '
        'save() with chunk sizes of 1 to 40 elements, while the sources and '
        'the target record the biggest single read and write; sums of '
        'pipelines of which one is held up, while the others record how far '
        'they run ahead; aggregations of hundreds of chunks, while the '
        'elements of all NumPy arrays in memory are counted; non-trivial: a '
        'distinct structure which needed several chunks')
MUST_OBSERVE = {'evaluations': 1000, 'reads': 20000, 'at_the_limit': 500,
                'held_up': 100, 'retained': 20, 'writes': 400}
ASSUMPTIONS = ['sources have orthogonal indexing',
               'the read-ahead of a pipeline may grow with its number of '
               'steps (16 chunks each)']


def case(rng, ctx):
    if rng.random() < .025:
        retained(rng, ctx)
        return
    if rng.random() < .1:
        held_up(rng, ctx)
        return
    masked = rng.random() < .4
    pool = expr.Pool(rng, masked=gen.share(rng, masked), maxlen=6,
                     style=('ortho',))
    v = expr.graph(rng, pool, rng.randint(1, 4),
                   index=rng.choice([0, .15]), views=rng.choice([0, .15]))
    limit = rng.choice([1, 2, 3, 5, 8, 12, 20, 40])
    how = rng.choice(['engine', 'engine', 'batch', 'save', 'direct'])
    ctx.desc = '%s chunk=%d %s' % (v.desc, limit, how)
    if how == 'direct' and not v.kinds & set(['aggregate', 'binary',
                                             'unary', 'scalar']):
        how = 'engine'
    if how == 'direct' and not hasattr(v.arr, 'streams_handler'):
        # (A container evaluates what it contains as a whole.)
        how = 'engine'
    with chunk_size(limit):
        if how == 'save':
            target = Target(v.nd.shape, v.nd.dtype, masked)
            biggus.save([v.arr], [target], masked=masked)
            if target.biggest > limit:
                raise Bad('%d elements were written at once'
                          % target.biggest)
            ctx.count('writes', target.writes)
        elif how == 'direct':
            (v.arr.masked_array if masked else v.arr.ndarray)()
        else:
            arrays = [v.arr]
            if how == 'batch':
                arrays.append(expr.graph(rng, pool, 2).arr)
            (biggus.masked_arrays if masked else biggus.ndarrays)(arrays)
    reads = 0
    split = False
    for s in pool.all_sources:
        if s.biggest > limit:
            raise Bad('%d elements of %s %s were read at once'
                      % (s.biggest, s.name, s.shape))
        reads += s.reads
        ctx.count('at_the_limit', int(s.biggest == limit))
        split = split or s.reads > 1
    ctx.count('reads', reads)
    ctx.count('evaluations')
    if split:
        ctx.nontrivial(v.kinds, v.desc.count('('), v.nd.ndim, limit, how)


def held():
    """The number of elements of the NumPy arrays which exist."""
    gc.collect()
    return sum(o.size for o in gc.get_objects()
               if isinstance(o, np.ndarray) and o.base is None)


def retained(rng, ctx):
    """What has been consumed doesn't stay in memory."""
    n = rng.randint(300, 360)
    width = rng.randint(60, 100)
    m = rng.randint(1, 2)
    masked = rng.random() < .5
    lock = threading.Lock()
    seen = {}

    def on_read(s, i):
        # (With the other reads of this source to come.)
        if s.number == 0 and i in (n // 3, n - 2):
            with lock:
                seen[i] = held()
    parts = []
    steps = []
    for i in range(m):
        a = np.ones((n, width)) * i
        if masked:
            a = ma.masked_equal(a, rng.randint(0, 2))
        s = Source(a, style='ortho', name='s%d' % i, on_read=on_read,
                   copy=True)
        s.number = i
        arr, k = pipeline(rng, biggus.OrthoArrayAdapter(s))
        parts.append(arr)
        steps.append(k)
    total = parts[0]
    for p in parts[1:]:
        total = total + p
    names = [rng.choice(['sum', 'mean', 'std', 'var', 'min', 'max', 'count'])
             for _ in range(rng.choice([1, 1, 2]))]
    axis = rng.choice([0, 0, 0, 1])
    results = [getattr(biggus, name)(total, axis=axis) for name in names]
    ctx.desc = '%s over axis %d of %d pipelines of %s steps' % (
        '+'.join(names), axis, m, steps)
    with chunk_size(width):
        (biggus.masked_arrays if masked else biggus.ndarrays)(results)
    first, last = seen[n // 3], seen[n - 2]
    ahead = (12 if masked else 6) * (sum(steps) + 2 * m + len(names))
    if last - first > ahead * width:
        raise Bad('the elements in memory went from %d to %d while %d chunks '
                  'of %d were read' % (first, last, n - 2 - n // 3, width))
    ctx.count('retained')
    ctx.count('evaluations')
    ctx.nontrivial('retained', m, tuple(steps), tuple(names), axis, masked)


def pipeline(rng, arr):
    steps = rng.randint(0, 3)
    for _ in range(steps):
        arr = rng.choice([biggus.negative, biggus.absolute,
                          lambda a: a * 2, lambda a: a + 1])(arr)
    return arr, steps


def held_up(rng, ctx):
    """A pipeline must not run ahead of the others it is combined with."""
    n = rng.randint(80, 160)
    width = rng.randint(1, 4)
    m = rng.randint(2, 3)
    progress = [0] * m
    worst = [0] * m
    lock = threading.Lock()
    slow = rng.randrange(m)
    stops = sorted(rng.sample(range(n // 2), rng.randint(1, 2)))

    def on_read(s, i):
        with lock:
            progress[s.number] = i + 1
            if s.number != slow:
                ahead = progress[s.number] - progress[slow]
                worst[s.number] = max(worst[s.number], ahead)
        if s.number == slow and i in stops:
            # Hold this one up until the others have stopped.
            last = None
            same = 0
            for _ in range(400):
                time.sleep(0.002)
                with lock:
                    now = list(progress)
                same = same + 1 if now == last else 0
                last = now
                if same > 12:
                    break
    parts = []
    steps = []
    for i in range(m):
        s = Source(np.ones((n, width)) * i, style='ortho', name='s%d' % i,
                   on_read=on_read)
        s.number = i
        arr, k = pipeline(rng, biggus.OrthoArrayAdapter(s))
        parts.append(arr)
        steps.append(k)
    total = parts[0]
    for p in parts[1:]:
        total = total + p
    total, k = pipeline(rng, total)
    result = rng.choice([lambda: biggus.sum(total, axis=0), lambda: total,
                         lambda: biggus.mean(total, axis=1)])()
    ctx.desc = '%d pipelines of %s steps, %d chunks, %d held up at %s' % (
        m, steps, n, slow, stops)
    masked = rng.random() < .3
    with chunk_size(width):
        (biggus.masked_arrays if masked else biggus.ndarrays)([result])
    for i in range(m):
        if progress[i] < n:
            raise Bad('only %d of %d chunks of source %d were read'
                      % (progress[i], n, i))
        if i != slow and worst[i] > 16 * (steps[i] + m + 1):
            raise Bad('source %d ran %d of %d chunks ahead'
                      % (i, worst[i], n))
    ctx.count('held_up')
    ctx.count('evaluations')
    ctx.nontrivial('held up', m, tuple(steps), slow, masked)
