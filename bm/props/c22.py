"""C22: the engines are interchangeable."""
import numpy as np
import numpy.ma as ma

from .. import agg, elem, expr, gen
from ..common import CHUNKS
from ..ref import Bad, Skip, check_ma, check_nd, show
from ..env import biggus, chunk_size, DEFAULT_CHUNK
from .c17 import members

CASES = {'quick': 4000, 'thorough': 40000}
RULE = ('batches of expression graphs, aggregations and containers '
        'evaluated by the Dask engine (called directly, installed as '
        'biggus.engine, with a synchronous and a threaded scheduler, '
        'and with one which runs the tasks in any order) and by '
        'the threaded engine, in one or several chunks, and a recording '
        'engine which must see every evaluation; non-trivial: a distinct '
        'batch, chunk size and way of evaluating')
MUST_OBSERVE = {'evaluations': 1200, 'installed': 200, 'split': 400,
                'masked': 300, 'seen_by_engine': 100, 'containers': 100,
                'shuffled': 300, 'filled': 120}
ASSUMPTIONS = ['dask is installed', 'arrays have no empty dimensions']


class Recorder(biggus._init.Engine):
    def __init__(self, inner):
        self.inner = inner
        self.calls = []

    def ndarrays(self, *arrays):
        self.calls.append(('ndarrays', len(arrays)))
        return self.inner.ndarrays(*arrays)

    def masked_arrays(self, *arrays):
        self.calls.append(('masked_arrays', len(arrays)))
        return self.inner.masked_arrays(*arrays)


class installed(object):
    def __init__(self, engine):
        self.engine = engine

    def __enter__(self):
        self.old = biggus.engine
        biggus.engine = self.engine

    def __exit__(self, *exc):
        biggus.engine = self.old


def shuffled(rng):
    """A Dask scheduler which runs tasks in any order they allow."""
    from dask.core import get_dependencies, _execute_task

    def get(graph, ids, **kwargs):
        done = {}
        needs = {}
        todo = list(ids)
        while todo:
            key = todo.pop()
            if key not in needs:
                needs[key] = get_dependencies(graph, key)
                todo.extend(needs[key])
        last = rng.random() < .5
        while needs:
            ready = sorted(key for key in needs
                           if all(arg in done for arg in needs[key]))
            if not ready:
                raise Bad('tasks depend on each other')
            key = rng.choice(ready)
            if last:
                key = ready[-1]
            done[key] = _execute_task(graph[key], done)
            del needs[key]
        return [done[key] for key in ids]
    return get


def dask(rng, ctx):
    """An engine, and the calls of the scheduler it was given."""
    from biggus.experimental.dask_engine import DaskEngine
    if rng.random() < .25:
        ctx.count('shuffled')
        get = shuffled(rng)
    elif rng.random() < .75:
        import dask.local
        get = dask.local.get_sync
    else:
        return DaskEngine(), None
    calls = []

    def scheduler(graph, ids, **kwargs):
        calls.append(len(ids))
        return get(graph, ids, **kwargs)
    return DaskEngine(scheduler), calls


def case(rng, ctx):
    masked = rng.random() < .45
    share = gen.share(rng, masked)
    if rng.random() < .15:
        seen(rng, ctx, masked)
        return
    if rng.random() < .2:
        v = gen.structural(rng, rng.randint(0, 3), rng.choice(['f8', 'i4']),
                           masked=share)
        batch = [v]
        sources = v.sources
        ctx.count('containers')
    else:
        pool = expr.Pool(rng, masked=share, maxlen=4)
        batch = members(rng, pool, ctx)[:rng.randint(1, 4)]
        sources = pool.all_sources
    if any(0 in v.nd.shape for v in batch):
        raise Skip()
    biggest = max([1] + [int(np.prod(s.shape)) for s in sources])
    chunk = rng.choice([DEFAULT_CHUNK] * 2 + [c for c in CHUNKS + [6, 10]
                                              if biggest <= 16 * c])
    arrays = [v.arr for v in batch]
    how = rng.choice(['direct', 'direct', 'installed'])
    ctx.desc = '%s chunk=%d %s[%s]' % (how, chunk,
                                       'masked ' if masked else '',
                                       '; '.join(v.desc for v in batch))
    engine, calls = dask(rng, ctx)
    with chunk_size(chunk):
        if how == 'direct':
            results = (engine.masked_arrays if masked else
                       engine.ndarrays)(*arrays)
        else:
            with installed(engine):
                if rng.random() < .5:
                    results = (biggus.masked_arrays if masked else
                               biggus.ndarrays)(arrays)
                else:
                    results = [(a.masked_array if masked else a.ndarray)()
                               for a in arrays]
            ctx.count('installed')
    if how == 'direct' and calls == []:
        raise Bad('the scheduler the engine was given was not used')
    results = list(results)
    if len(results) != len(batch):
        raise Bad('%d results for %d arrays' % (len(results), len(batch)))
    for i, (r, v) in enumerate(zip(results, batch)):
        expr.check('result %d' % i, r, v, masked)
    ctx.count('evaluations')
    ctx.count('split', int(biggest > chunk))
    ctx.count('masked', int(masked))
    ctx.count('filled', int(not masked and any(ma.is_masked(v.mk)
                                               for v in batch)))
    ctx.nontrivial(tuple(sorted(batch[0].kinds)), len(batch),
                   min(chunk, 13), masked, how)


def seen(rng, ctx, masked):
    """Computations are evaluated by whichever engine is installed."""
    pool = expr.Pool(rng, masked=.7 if masked else 0, maxlen=4)
    v = expr.graph(rng, pool, rng.randint(1, 3))
    ctx.desc = 'recorded %s' % v.desc
    recorder = Recorder(biggus.engine)
    what = 'masked_arrays' if masked else 'ndarrays'
    with installed(recorder):
        r, = getattr(biggus, what)([v.arr])
        expr.check('recorded', r, v, masked)
        if recorder.calls[:1] != [(what, 1)]:
            raise Bad('the engine which is installed saw %s'
                      % recorder.calls)
        n = len(recorder.calls)
        if hasattr(v.arr, 'streams_handler'):
            r = (v.arr.masked_array if masked else v.arr.ndarray)()
            expr.check('recorded', r, v, masked)
            if len(recorder.calls) == n:
                raise Bad('the engine which is installed was not used')
            ctx.count('seen_by_engine')
    if biggus.engine is recorder:
        raise Bad('not restored')
