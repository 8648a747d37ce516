"""C20: whatever happens, no evaluation thread is left behind."""
import os
import select
import subprocess
import sys
import threading

import numpy as np
import numpy.ma as ma

from .. import elem, expr, gen, sched, watch
from ..common import CHUNKS
from ..ref import Bad, Skip
from ..env import biggus, chunk_size, DEFAULT_CHUNK
from .c17 import lockstep, members
from .c19 import Custom, Fault, TYPES
from .c16 import Target

CASES = {'quick': 4000, 'thorough': 50000}
LEVEL = 'fault_enumeration'
RULE = ('evaluations of random batches which succeed, whose sources fail '
        'at a random read (several at once, under perturbed schedules), '
        'which are refused because an operation has no masked equivalent, '
        'or whose data can not be combined; afterwards every thread which '
        'was started must end or be seen to be waiting on a queue which '
        'nobody can ever serve; processes which end while a read of one of '
        'their evaluations never returns; non-trivial: a distinct structure, outcome '
        'and failing read')
MUST_OBSERVE = {'threads': 10000, 'succeeded': 300, 'failed': 500,
                'refused': 60, 'settled': 1500, 'lockstep': 250,
                'ended': 1}
ASSUMPTIONS = ['a thread is only left behind on structural evidence (waiting '
               'without timeout on an empty or full queue, and everything '
               'else likewise), never because of a deadline']


class Starts(object):
    """Counts the threads which get started."""

    def __enter__(self):
        self.n = 0
        self.real = threading.Thread.start
        real = self.real

        def start(thread):
            self.n += 1
            return real(thread)
        threading.Thread.start = start
        return self

    def __exit__(self, *exc):
        threading.Thread.start = self.real


# A read never returns (as of a file system which went away), so that the
# evaluation gets interrupted, or abandoned in a thread which doesn't keep the
# process from ending.
STUCK = '''
import os, signal, sys, threading
import numpy as np
import biggus
from biggus import _init
_init.MAX_CHUNK_SIZE = %(chunk)d
reached = threading.Event()


class Source(object):
    shape = (4, 3)
    ndim = 2
    dtype = np.dtype('f8')
    reads = 0

    def __getitem__(self, keys):
        self.reads += 1
        if self.reads > %(at)d:
            reached.set()
            threading.Event().wait()
        return np.ones(self.shape)[keys]


a = biggus.OrthoArrayAdapter(Source())
other = biggus.NumpyArrayAdapter(np.ones((4, 3)))
arrays = [%(arrays)s]


def interrupt():
    reached.wait()
    os.kill(os.getpid(), signal.SIGINT)


if %(interrupted)r:
    thread = threading.Thread(target=interrupt)
    thread.daemon = True
    thread.start()
    try:
        biggus.ndarrays(arrays)
    except KeyboardInterrupt:
        pass
    else:
        raise Exception('not interrupted')
else:
    thread = threading.Thread(target=biggus.ndarrays, args=(arrays,))
    thread.daemon = True
    thread.start()
    reached.wait()
sys.stdout.write('leaving')
sys.stdout.flush()
'''
EXPRESSIONS = ['a', 'biggus.mean(a, axis=0)', 'a + other', 'other - a',
               'biggus.sum(a * 2, axis=1)', 'biggus.std(other + a, axis=0)']


def ends(rng, ctx):
    arrays = ', '.join(rng.choice(EXPRESSIONS)
                       for _ in range(rng.randint(1, 3)))
    program = STUCK % {'chunk': rng.choice([3, 4]), 'arrays': arrays,
                       'at': rng.choice([0, 0, 1, 2]),
                       'interrupted': rng.random() < .7}
    ctx.desc = 'a read never returns: [%s]' % arrays
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=os.path.dirname(os.path.dirname(biggus.__file__)))
    watch.external[0] += 1
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', program],
                         env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL)
    try:
        if not select.select([p.stdout], [], [], 300)[0]:
            # Something else is going on.
            raise Skip()
        out = p.stdout.read(7)
        if out != b'leaving':
            raise Bad('the process ended early, saying %r' % out)
        try:
            p.wait(90)
        except subprocess.TimeoutExpired:
            raise Bad('the process goes on, because of an evaluation whose '
                      'read never returns')
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        p.stdout.close()
        watch.external[0] -= 1
    ctx.count('ended')
    ctx.nontrivial('ended', arrays)


def case(rng, ctx):
    if rng.random() < .0015:
        ends(rng, ctx)
        return
    masked = rng.random() < .4
    if rng.random() < .15:
        pool, batch, chunk = lockstep(rng, masked)
        ctx.count('lockstep')
    else:
        pool = expr.Pool(rng, masked=gen.share(rng, masked), maxlen=4)
        batch = members(rng, pool, ctx)[:5]
        chunk = rng.choice(CHUNKS + [6, 9])
    arrays = [v.arr for v in batch]
    how = rng.choice(['success', 'fault', 'fault', 'fault', 'refused',
                      'save'])
    evaluate = biggus.masked_arrays if masked else biggus.ndarrays
    name = 'chunk=%d %s%s[%s]' % (chunk, how, ' masked' if masked else '',
                                  '; '.join(v.desc for v in batch))
    ctx.desc = name
    before = set(threading.enumerate())
    outcome = 'succeeded'
    at = None
    with Starts() as starts, chunk_size(chunk):
        if how == 'success':
            evaluate(arrays)
        elif how == 'save':
            v = batch[0]
            biggus.save([v.arr], [Target(v.nd.shape, v.nd.dtype, masked)],
                        masked=masked)
        elif how == 'refused':
            v = rng.choice(batch)
            bad = rng.choice([biggus.square, biggus.rint, biggus.trunc,
                              biggus.sign])(v.arr)
            if rng.random() < .5:
                bad = bad + 1
            arrays.insert(rng.randint(0, len(arrays)), bad)
            try:
                biggus.masked_arrays(arrays)
                raise Bad('%s was evaluated as masked' % v.desc)
            except TypeError:
                outcome = 'refused'
        else:
            faults = []
            sources = pool.all_sources
            if not sources:
                raise Skip()
            for s in rng.sample(sources, rng.randint(1, min(
                    3, len(sources)))):
                fault = Fault(s, rng.choice([0, 0, 1, 2, 3, 5, 8]),
                              rng.choice(TYPES))
                faults.append(fault)
                s.on_read = fault
            at = faults[0].at
            try:
                if rng.random() < .2:
                    with sched.Jitter(rng.random(),
                                      rng.choice(sched.STYLES)) as j:
                        faults[0].jitter = j
                        evaluate(arrays)
                        faults[0].jitter = None
                else:
                    evaluate(arrays)
            except (Exception, Custom):
                if not any(f.fired for f in faults):
                    raise
                outcome = 'failed'
    left = watch.settle(before | watched())
    if left:
        raise Bad('threads are left behind: %s' % left)
    ctx.count('settled')
    ctx.count('threads', starts.n)
    ctx.count(outcome)
    ctx.nontrivial(outcome, tuple(sorted(batch[0].kinds)), len(batch), at,
                   min(chunk, 13), masked)


def watched():
    return set(t for t in threading.enumerate()
               if getattr(t, 'bm_ignore', False) or t.name == 'watchdog')
