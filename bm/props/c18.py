"""C18: no schedule of the threads changes a result."""
import threading

import numpy as np
import numpy.ma as ma

from .. import expr, gen, sched, watch
from ..ref import Bad, Skip, show
from ..env import biggus, chunk_size, DEFAULT_CHUNK
from .c17 import members

CASES = {'quick': 450, 'thorough': 15000}
RULE = ('batches of expression graphs evaluated under 5 perturbed schedules '
        '(random sleeps and yields around every queue operation and read, '
        'biased threads, frequent thread switches, pauses between any two '
        'lines of biggus), and by 2 to 4 threads at once, plain and masked, '
        'which share arrays; results are compared bit for bit; '
        'non-trivial: an evaluation whose order of queue operations and '
        'reads had not been seen before')
MUST_OBSERVE = {'evaluations': 900, 'schedules': 800, 'events': 20000,
                'concurrent': 120, 'mixed': 60,
                'preempted': 3000}
ASSUMPTIONS = ['the chunk size does not change during an evaluation']


def same(a, b, masked):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if masked:
        m = ma.getmaskarray(a)
        if not np.array_equal(m, ma.getmaskarray(b)):
            return False
        a = ma.getdata(a)[~m]
        b = ma.getdata(b)[~m]
    return a.tobytes() == b.tobytes()


def case(rng, ctx):
    masked = rng.random() < .4
    pool = expr.Pool(rng, masked=gen.share(rng, masked), maxlen=4)
    batch = members(rng, pool, ctx)[:4]
    # (Keep the number of chunks down, for the sake of time.)
    biggest = max([1] + [s.shape and int(np.prod(s.shape)) or 1
                         for s in pool.all_sources])
    chunk = max(1, biggest // rng.choice([1, 2, 4, 8, 20]))
    ctx.desc = 'chunk=%d %s[%s]' % (chunk, 'masked ' if masked else '',
                                    '; '.join(v.desc for v in batch))
    evaluate = biggus.masked_arrays if masked else biggus.ndarrays
    arrays = [v.arr for v in batch]
    with chunk_size(chunk):
        base = evaluate(arrays)
        for r, v in zip(base, batch):
            expr.check('undisturbed', r, v, masked)
        for style in rng.sample(sched.STYLES, 3) + ['yield', 'sleep'][
                :rng.randint(0, 2)]:
            with sched.Jitter(rng.random(), style) as jitter:
                for s in pool.all_sources:
                    s.on_read = jitter.source_delay
                results = jitter.run(evaluate, arrays)
                for s in pool.all_sources:
                    s.on_read = None
            note(ctx, jitter)
            for i, (r, b) in enumerate(zip(results, base)):
                if not same(r, b, masked):
                    raise Bad('result %d with the schedule %s: %s instead '
                              'of %s' % (i, style, show(r), show(b)))
        if rng.random() < .7:
            bases = {masked: base}
            if rng.random() < .6:
                # Plain and masked evaluations at the same time.
                try:
                    bases[not masked] = (biggus.ndarrays if masked else
                                         biggus.masked_arrays)(arrays)
                except Exception:
                    pass
            concurrent(rng, ctx, pool, batch, bases)


def note(ctx, jitter):
    ctx.count('evaluations')
    ctx.count('events', len(jitter.events))
    ctx.count('preempted', jitter.preempted)
    sig = jitter.signature()
    if sig not in SEEN:
        SEEN.add(sig)
        ctx.count('schedules')
        ctx.nontrivial(sig)


SEEN = set()


def concurrent(rng, ctx, pool, batch, bases):
    """Several threads evaluate the same arrays at once."""
    plans = []
    kinds = sorted(bases)
    for i in range(rng.randint(2, 4)):
        plans.append((kinds[i % len(kinds)],
                      [rng.randrange(len(batch))
                       for _ in range(rng.randint(1, 3))]))
    problems = []
    style = rng.choice(['yield', 'rare', 'lines', 'lines'])
    jitter = sched.Jitter(rng.random(), style)
    ready = threading.Barrier(len(plans))

    def run(masked, plan):
        try:
            arrays = [batch[i].arr for i in plan]
            ready.wait()
            rs = jitter.run(biggus.masked_arrays if masked else
                            biggus.ndarrays, arrays)
            for i, r in zip(plan, rs):
                if ma.isMaskedArray(r) != masked:
                    problems.append('%s of a %s evaluation' % (
                        type(r), 'masked' if masked else 'plain'))
                elif not same(r, bases[masked][i], masked):
                    problems.append('%s instead of %s' % (
                        show(r), show(bases[masked][i])))
        except Exception as e:
            problems.append('%s: %s' % (type(e).__name__, e))

    with jitter:
        for s in pool.all_sources:
            s.on_read = jitter.source_delay
        threads = [threading.Thread(target=run, args=p) for p in plans]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for s in pool.all_sources:
            s.on_read = None
    note(ctx, jitter)
    ctx.count('concurrent')
    ctx.count('mixed', int(len(kinds) > 1))
    if problems:
        raise Bad('%d threads at once (%s): %s' % (len(plans), style,
                                                   problems[0]))
