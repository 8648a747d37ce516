"""C16: saving writes every element exactly once, with its value."""
import numpy as np
import numpy.ma as ma

from .. import agg, expr, gen
from ..common import CHUNKS
from ..ref import Bad, Skip, check_ma, check_nd, show
from ..src import SourceError
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 7000, 'thorough': 120000}
RULE = ('random containers, selections and expression graphs (0 to 4 '
        'dimensions, empty ones included), plain and masked, saved into a '
        'recording target and into NumPy arrays with chunk sizes of 1 to '
        '100 elements, with reads or writes which fail (once) at a random '
        'point with any of 17 exceptions; non-trivial: a distinct structure, chunk size and number of '
        'dimensions which took several writes')
MUST_OBSERVE = {'saves': 3000, 'writes': 8000, 'masked': 800,
                'failed_reads': 60, 'failed_writes': 200,
                'numpy_targets': 300, 'empty': 20, 'zero_dimensional': 50}
ASSUMPTIONS = ['one source and one target, as documented']


class WriteError(Exception):
    pass


class MyBase(BaseException):
    pass


EXCEPTIONS = [WriteError, WriteError, IOError, OSError, RuntimeError,
              ValueError, TypeError, IndexError, KeyError, AttributeError,
              MemoryError, NotImplementedError, StopIteration, EOFError,
              AssertionError, PermissionError, TimeoutError, MyBase]


class Target(object):
    """Records what is written where."""

    def __init__(self, shape, dtype, masked, fail_at=None,
                 exception=WriteError, partial=False):
        self.counts = np.zeros(shape, int)
        self.data = np.zeros(shape, dtype)
        self.mask = np.zeros(shape, bool)
        self.masked = masked
        self.writes = 0
        self.biggest = 0
        self.attempts = 0
        self.fail_at = fail_at
        self.exception = exception
        self.partial = partial
        self.problem = None

    def __setitem__(self, keys, value):
        # (A failure is not repeated if the piece is written again.)
        self.attempts += 1
        failing = self.fail_at == self.attempts - 1
        if failing and not self.partial:
            raise self.exception('write %d' % self.attempts)
        self.writes += 1
        region = self.counts[keys]
        if not isinstance(value, np.ndarray) or \
                ma.isMaskedArray(value) != self.masked:
            self.problem = 'writing %s' % show(value)
            return
        if value.shape != np.shape(region):
            self.problem = 'writing shape %s to %r (%s)' % (
                value.shape, keys, np.shape(region))
            return
        if value.dtype != self.data.dtype:
            self.problem = 'writing dtype %s' % value.dtype
        self.biggest = max(self.biggest, value.size)
        self.counts[keys] += 1
        self.data[keys] = ma.getdata(value)
        self.mask[keys] = ma.getmaskarray(value)
        if failing:
            raise self.exception('write %d' % self.attempts)

    def check(self, want, mag, partly=False):
        if self.problem:
            raise Bad(self.problem)
        if self.counts.size and self.counts.max() > 1:
            raise Bad('an element was written %d times' % self.counts.max())
        done = self.counts > 0
        if not partly and not done.all():
            raise Bad('%d of %d elements were never written'
                      % ((~done).sum(), done.size))
        if self.masked:
            result = ma.array(self.data[done], mask=self.mask[done])
            want = ma.array(ma.getdata(want)[done],
                            mask=ma.getmaskarray(want)[done])
        else:
            result = self.data[done]
            want = want[done]
        if want.dtype.kind in 'SUMmb':
            (check_ma if self.masked else check_nd)('saved', result, want)
        else:
            expr.compare('saved', result, want, mag, self.masked)


def subject(rng):
    masked = rng.random() < .45
    if rng.random() < .5:
        v = gen.structural(rng, rng.randint(0, 3), rng.choice(
            ['f8', 'i4', 'f4', 'u1', 'bool', 'S3', 'i2', 'M8[D]', '>f8']),
            masked=.7 if masked else .1, shp=gen.shape(
                rng, 0, 4, maxlen=5, maxsize=80, zero=.02))
        if rng.random() < .5:
            try:
                v = gen.index(rng, v, gen.keys(rng, v.nd.shape, newaxis=.05,
                                               empty=.05))
            except NotImplementedError:
                pass
        if v.nd.size > 600:
            raise Skip()
        return masked, v, v.sources
    pool = expr.Pool(rng, masked=gen.share(rng, masked), maxlen=5)
    v = expr.graph(rng, pool, rng.randint(1, 4), index=.15, views=.2)
    return masked, v, pool.all_sources


def case(rng, ctx):
    masked, v, sources = subject(rng)
    mag = expr.mag_of(v) if v.nd.dtype.kind in 'fiub' else 1
    chunk = rng.choice(CHUNKS + [1, 2, 3, 4, 6, 20, 100])
    if v.nd.size > 120 * chunk:
        chunk = DEFAULT_CHUNK
    ctx.desc = '%s%s chunk=%d' % ('masked ' if masked else '', v.desc,
                                  chunk)
    want = v.mk if masked else v.nd
    how = rng.random()
    if how < .15 and v.nd.dtype.kind in 'fiub':
        # Real arrays.
        t = (ma.zeros if masked else np.zeros)(v.nd.shape, v.nd.dtype)
        with chunk_size(chunk):
            biggus.save([v.arr], [t], masked=masked)
        expr.compare('saved', t, want, mag, masked)
        ctx.count('numpy_targets')
        ctx.count('saves')
        return
    fail_at = None
    source = None
    if how < .3:
        fail_at = rng.randint(0, max(1, v.nd.size // chunk))
    elif how < .4 and sources:
        source = rng.choice(list(sources))
        source.fail_at = rng.randint(0, 6)
    exception = rng.choice(EXCEPTIONS)
    if source is not None:
        source.fail_with = exception
    target = Target(v.nd.shape, v.nd.dtype, masked, fail_at, exception,
                    rng.random() < .3)
    raised = None
    with chunk_size(chunk):
        try:
            biggus.save([v.arr], [target], masked=masked)
        except BaseException as e:
            if fail_at is not None and target.attempts > fail_at:
                if type(e) is not exception:
                    raise Bad('%s instead of %s' % (type(e).__name__,
                                                    exception.__name__))
                ctx.count('failed_writes')
                if target.attempts != fail_at + 1:
                    raise Bad('%d writes after the failure'
                              % (target.attempts - fail_at - 1))
            elif source is not None and source.reads > source.fail_at:
                ctx.count('failed_reads')
            else:
                raise
            raised = e
    if raised is None:
        if source is not None and source.reads > source.fail_at:
            raise Bad('a failed read went unnoticed')
        if fail_at is not None and target.attempts > fail_at:
            raise Bad('a failed write went unnoticed')
    if source is not None:
        source.fail_at = source.fail_with = None
    target.check(want, mag, partly=raised is not None)
    if target.biggest > chunk:
        raise Bad('%d elements were written at once' % target.biggest)
    ctx.count('saves')
    ctx.count('writes', target.writes)
    ctx.count('masked', int(masked))
    ctx.count('empty', int(v.nd.size == 0))
    ctx.count('zero_dimensional', int(v.nd.ndim == 0))
    if target.writes > 1:
        ctx.nontrivial(v.kinds, v.desc.count('('), v.nd.ndim, min(chunk, 50),
                       masked, raised is None)
