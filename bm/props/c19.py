"""C19: a failed read always surfaces, and never as a wrong result."""
import numpy as np
import numpy.ma as ma

from .. import expr, gen, sched
from ..common import CHUNKS
from ..ref import Bad, Skip, show
from ..src import SourceError
from ..env import biggus, chunk_size, DEFAULT_CHUNK
from .c17 import lockstep, members

CASES = {'quick': 1300, 'thorough': 30000}
LEVEL = 'fault_enumeration'
RULE = ('for random batches of expression graphs and containers, every '
        'read of every source (at most 14 per case, sampled beyond that) '
        'fails in turn, with one of 10 types of exception, sometimes in two '
        'sources at once and under a perturbed schedule; non-trivial: a '
        'distinct structure, failing read and type of exception')
MUST_OBSERVE = {'faults': 2500, 'recovered': 500, 'types': 8,
                'late_faults': 500, 'batches': 120, 'containers': 100,
                'lockstep': 60}
ASSUMPTIONS = ['a fault is an exception raised by the data source']


class Custom(BaseException):
    pass


TYPES = [SourceError, AttributeError, KeyError, IndexError, TypeError,
         ValueError, StopIteration, MemoryError, IOError, RuntimeError,
         NotImplementedError, Custom, AssertionError, ZeroDivisionError]


class Fault(object):
    def __init__(self, source, at, error):
        self.source = source
        self.at = at
        self.error = error
        self.fired = False
        self.jitter = None

    def __call__(self, s, n):
        if self.jitter is not None:
            self.jitter.source_delay(s, n)
        if s is self.source and n >= self.at:
            self.fired = True
            raise self.error('injected into read %d of %s' % (n, s.name))


def subject(rng, ctx):
    masked = rng.random() < .4
    if rng.random() < .25:
        ctx.count('containers')
        v = gen.structural(rng, rng.randint(0, 3), 'f8',
                           masked=gen.share(rng, masked))
        return masked, [v], list(v.sources), rng.choice(CHUNKS + [6, 9])
    if rng.random() < .15:
        ctx.count('lockstep')
        pool, batch, chunk = lockstep(rng, masked)
        return masked, batch, pool.all_sources, chunk
    chunk = rng.choice(CHUNKS + [6, 9])
    pool = expr.Pool(rng, masked=gen.share(rng, masked), maxlen=4)
    if rng.random() < .4:
        ctx.count('batches')
        batch = members(rng, pool, ctx)[:4]
    else:
        batch = [expr.graph(rng, pool, rng.randint(1, 4), index=.1,
                            views=.1)]
    return masked, batch, pool.all_sources, chunk


def case(rng, ctx):
    masked, batch, sources, chunk = subject(rng, ctx)
    if not sources:
        raise Skip()
    arrays = [v.arr for v in batch]
    direct = len(arrays) == 1 and rng.random() < .4
    name = '%s chunk=%d %s[%s]' % ('direct' if direct else 'together',
                                   chunk, 'masked ' if masked else '',
                                   '; '.join(v.desc for v in batch))
    ctx.desc = name

    def evaluate():
        for s in sources:
            s.reset()
        if direct:
            return [arrays[0].masked_array() if masked else
                    arrays[0].ndarray()]
        return (biggus.masked_arrays if masked else biggus.ndarrays)(arrays)

    def judge(what, results):
        for r, v in zip(results, batch):
            expr.check(what, r, v, masked)

    with chunk_size(chunk):
        judge('without a fault', evaluate())
        points = [(s, i) for s in sources for i in range(s.reads)]
        if not points:
            raise Skip()
        if len(points) > 14:
            last = [(s, s.reads - 1) for s in sources if s.reads]
            points = rng.sample(points, 10) + rng.sample(
                last, min(4, len(last)))
        for s, i in points:
            error = rng.choice(TYPES)
            inject(rng, ctx, name, sources, s, i, error, evaluate, batch,
                   masked, chunk, direct)
        judge('after the faults', evaluate())
        ctx.count('recovered')


def inject(rng, ctx, name, sources, s, i, error, evaluate, batch, masked,
           chunk, direct):
    ctx.desc = '%s: %s at read %d of %s' % (name, error.__name__, i,
                                            s.shape)
    fault = Fault(s, i, error)
    faults = [fault]
    for other in sources:
        other.on_read = fault
    if rng.random() < .15 and len(sources) > 1:
        other = rng.choice(sources)
        if other is not s:
            fault2 = Fault(other, rng.randint(0, 2), rng.choice(TYPES))
            other.on_read = fault2
            faults.append(fault2)
    perturbed = rng.random() < .15
    raised = None
    results = None
    try:
        if perturbed:
            with sched.Jitter(rng.random(), rng.choice(sched.STYLES)) as j:
                fault.jitter = j
                results = evaluate()
        else:
            results = evaluate()
    except (Exception, Custom) as e:
        raised = e
    finally:
        for other in sources:
            other.on_read = None
    fired = any(f.fired for f in faults)
    if raised is None and fired:
        raise Bad('the failure went unnoticed: %s'
                  % '; '.join(show(r) for r in results))
    if raised is not None and not fired:
        raise raised
    if raised is None:
        for r, v in zip(results, batch):
            expr.check('the fault was not reached', r, v, masked)
        return
    ctx.count('faults')
    ctx.count('late_faults', int(i > 0))
    ctx.count('perturbed', int(perturbed))
    if error.__name__ not in ctx.counters_kinds:
        ctx.counters_kinds.add(error.__name__)
        ctx.count('types')
    ctx.nontrivial(tuple(sorted(batch[0].kinds)), len(batch), i,
                   error.__name__, masked, min(chunk, 13), direct)
