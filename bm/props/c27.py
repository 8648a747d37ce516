"""C27: what an array costs does not depend on its extent."""
import copy
import pickle
import resource
import signal
import traceback

import numpy as np
import numpy.ma as ma

from ..expr import agg_dtype
from ..ref import Bad, check_ma, check_nd, is_int
from ..env import biggus, chunk_size, DEFAULT_CHUNK
from .c16 import Target

CASES = {'quick': 6000, 'thorough': 400000}
RULE = ('expressions of up to 8 steps over sources of up to 2**50 elements in '
        'a dimension, which compute their elements when they are read, cut '
        'down to a few elements and evaluated; every step is timed (in CPU '
        'time) and the memory is limited; non-trivial: a distinct sequence '
        'of steps with a distinct number of huge dimensions')
MUST_OBSERVE = {'steps': 20000, 'evaluations': 5000, 'huge_mosaics': 600,
                'huge_slices': 3500, 'aggregations': 700, 'copies': 700,
                'described': 5000, 'saves': 500, 'huge_broadcasts': 300}
ASSUMPTIONS = ['sources which index like NumPy are selected from with one '
               'sequence at most (whole dimensions are read otherwise)',
               'no dimension is as long as 2**62 elements',
               'a step which takes 10 s of CPU time or 1 GiB of memory for a huge array (and '
               'microseconds for a small one) depends on the extent']
HUGE = [10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 2 ** 33, 10 ** 12,
        2 ** 40 + 3, 10 ** 15, 2 ** 50]
# Seconds of CPU time.
LIMIT = 10
TICK = .25
MEMORY = 1 << 30


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * resource.getpagesize()


class Slow(BaseException):
    pass


class limited(object):
    """Whatever is done costs next to nothing."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        signal.signal(signal.SIGPROF, self.stop)
        self.ticks = 0
        self.rss = rss()
        signal.setitimer(signal.ITIMER_PROF, TICK, TICK)

    def stop(self, *args):
        self.ticks += 1
        if rss() > self.rss + MEMORY:
            raise MemoryError()
        if self.ticks * TICK > LIMIT:
            raise Slow()

    def __exit__(self, kind, exc, tb):
        signal.setitimer(signal.ITIMER_PROF, 0)
        if kind is None:
            return
        if issubclass(kind, Slow):
            where = ' < '.join('%s:%d' % (f.name, f.lineno) for f in
                               traceback.extract_tb(tb)[:-6:-1])
            raise Bad('%s takes more than %d s [%s]' %
                      (self.what, LIMIT, where))
        if issubclass(kind, MemoryError):
            raise Bad('%s takes more than %d bytes of memory' %
                      (self.what, MEMORY))


def positions(key, n):
    """The positions a key selects, without making a list of a huge one."""
    if is_int(key):
        return int(key) + (n if key < 0 else 0)
    if isinstance(key, slice):
        return range(*key.indices(n))
    return [int(k) + (n if k < 0 else 0) for k in key]


def element(coords, salt):
    total = np.int64(salt)
    for i, c in enumerate(coords):
        total = total + (c % 10007) * (2 * i + 3) + (c >> 20) % 101
    return total


class Computed(object):
    """A data source of any extent; it can not be read as a whole."""

    def __init__(self, shape, dtype, masked, salt, ortho):
        self.ortho = ortho
        self.shape = tuple(shape)
        self.dtype = np.dtype(dtype)
        self.ndim = len(self.shape)
        self.masked = masked
        self.salt = salt
        if masked:
            self.fill_value = np.array(-77, dtype)

    def at(self, coords):
        total = element(coords, self.salt)
        return total % 211 - 50, (total % 5 == 0) & self.masked

    def __getitem__(self, keys):
        if not isinstance(keys, tuple):
            keys = (keys,)
        if any(key is Ellipsis for key in keys):
            i = [key is Ellipsis for key in keys].index(True)
            keys = (keys[:i] + (slice(None),) * (self.ndim - len(keys) + 1) +
                    keys[i + 1:])
        keys += (slice(None),) * (self.ndim - len(keys))
        axes = []
        size = 1
        for key, n in zip(keys, self.shape):
            pos = positions(key, n)
            if not isinstance(pos, int):
                size *= len(pos)
                if size > 10 ** 6:
                    raise Bad('%s is read with keys %s' %
                              (self.shape, keys))
            axes.append(pos)
        # All the dimensions at first, of which integers pick the only one.
        coords = []
        shp = [1 if isinstance(a, int) else len(a) for a in axes]
        for i, a in enumerate(axes):
            one = [1] * self.ndim
            one[i] = shp[i]
            coords.append(np.array([a] if isinstance(a, int) else list(a),
                                   np.int64).reshape(one))
        values, mask = self.at(coords)
        values = np.array(np.broadcast_to(values, shp)).astype(self.dtype)
        if self.masked:
            mask = np.array(np.broadcast_to(mask, shp))
            values = ma.MaskedArray(values, mask, fill_value=self.fill_value)
        if self.ortho:
            return values[tuple(0 if isinstance(a, int) else slice(None)
                                for a in axes)]
        return values[tuple(
            0 if isinstance(a, int) else slice(None) if isinstance(a, range)
            else np.arange(len(a)) for a in axes)]


def builtin_sum(items):
    n = 0
    for item in items:
        n += bool(item)
    return n


class M(object):
    """An array, and what each of its elements is."""

    def __init__(self, arr, shape, dtype, at, steps, kinds=()):
        self.arr = arr
        self.shape = tuple(shape)
        self.dtype = np.dtype(dtype)
        self.at = at
        self.steps = steps
        self.kinds = frozenset(kinds)

    @property
    def ndim(self):
        return len(self.shape)


def extent(rng, p=.6):
    return rng.choice(HUGE) if rng.random() < p else rng.randint(1, 4)


def leaf(rng, ctx, masked, shape=None):
    if shape is None:
        shape = [extent(rng) for _ in range(rng.randint(1, 3))]
        if max(shape) < 10:
            shape[rng.randrange(len(shape))] = rng.choice(HUGE)
    dtype = rng.choice(['f8', 'f8', 'i4', 'f4', 'i8'])
    r = rng.random()
    if r < .1 and not masked:
        value = rng.randint(-5, 5)
        arr = biggus.ConstantArray(tuple(shape), value, dtype)

        def at(coords):
            return (np.int64(value) + sum_of(coords) * 0, False)
        return M(arr, shape, dtype, at, 'constant')
    ortho = rng.random() < .5
    src = Computed(shape, dtype, masked, rng.randint(0, 1000), ortho)
    adapter = (biggus.OrthoArrayAdapter if ortho else
               biggus.NumpyArrayAdapter)
    # (With several sequences, whole dimensions of sources which index like
    # NumPy are read.)
    return M(adapter(src), shape, dtype, src.at, 'source',
             () if ortho else ('one sequence',))


def sum_of(coords):
    total = np.int64(0)
    for c in coords:
        total = total + c * 0
    return total


def near(rng, n):
    """A position which is near a notable place."""
    if n <= 6:
        return rng.randrange(n)
    places = [0, n - 1, n // 2, rng.randrange(n)] + [
        x for x in (2 ** 31, 2 ** 32, 2 ** 20) if x < n]
    return min(n - 1, max(0, rng.choice(places) + rng.randint(-3, 3)))


def sequences(m):
    """How many sequences there may be among the keys."""
    if m.kinds & {'newaxis', 'broadcast', 'no sequence'}:
        return 0
    return 1 if 'one sequence' in m.kinds else 9


def all_keys(make, rng, ctx, m):
    n_seqs = sequences(m)
    keys = []
    for n in m.shape:
        keys.append(make(rng, ctx, n, not n_seqs) if n else slice(None))
        n_seqs -= isinstance(keys[-1], (tuple, np.ndarray))
    return keys


def any_key(rng, ctx, n, viewed):
    """A key for an axis, which may leave it huge."""
    r = rng.random()
    if r < .12:
        k = near(rng, n)
        return k - n if rng.random() < .4 else k
    if r < .3 and not viewed:
        k = [near(rng, n) for _ in range(rng.randint(1, 3))]
        k = [i - n if rng.random() < .3 else i for i in k]
        return rng.choice([tuple, np.array])(k)
    if r < .45:
        return slice(None)
    if n > 10:
        ctx.count('huge_slices')
    a, b = sorted([near(rng, n), near(rng, n)])
    b += 1
    step = rng.choice([None, 1, 2, 3, 1000, 10 ** 6 + 1, n // 3 or 1])
    if rng.random() < .3:
        step = -(step or 1)
        start, stop = b - 1, (a - 1 if a else None)
        if rng.random() < .3:
            start = None
    else:
        start, stop = a, b
        if rng.random() < .3:
            stop = None
        elif rng.random() < .3 and b < n:
            stop = b - n
        if rng.random() < .3:
            start = None
    return slice(start, stop, step)


def small_key(rng, ctx, n, viewed):
    """A key which leaves a few elements at most."""
    r = rng.random()
    if n <= 4 and r < .4:
        return slice(None)
    p = near(rng, n)
    if r < .55:
        return p - n if rng.random() < .4 else p
    if r < .7 and not viewed:
        return tuple(near(rng, n) for _ in range(rng.randint(1, 3)))
    if rng.random() < .5:
        step = rng.choice([1, 2, 10 ** 6, n // 3 or 1])
        return slice(p, min(n, p + 3 * step), step)
    step = rng.choice([1, 2, 10 ** 6, n // 3 or 1])
    stop = p - 3 * step
    return slice(p, stop if stop >= 0 else None, -step)


def select(m, keys):
    """Select with a full set of keys."""
    axes = [positions(k, n) for k, n in zip(keys, m.shape)]
    shape = [length(a) for a in axes if not isinstance(a, int)]

    def at(coords):
        coords = list(coords)
        inner = []
        for a in axes:
            if isinstance(a, int):
                inner.append(np.int64(a))
            elif isinstance(a, range):
                inner.append(np.int64(a.start) +
                             coords.pop(0) * np.int64(a.step))
            else:
                inner.append(np.array(a, np.int64)[coords.pop(0)])
        return m.at(inner)
    k = tuple(keys)
    kinds = m.kinds
    if 'one sequence' in kinds and any(isinstance(x, (tuple, np.ndarray))
                                       for x in keys):
        kinds = kinds | {'no sequence'}
    return M(m.arr[k if len(k) != 1 or isinstance(k[0], tuple) else k[0]], shape, m.dtype, at,
             m.steps + '[%s]' % ', '.join(map(show_key, keys)), kinds)


def length(positions):
    if isinstance(positions, range):
        # (len() is limited.)
        if positions.step > 0:
            return max(0, -((positions.start - positions.stop) //
                            positions.step))
        return max(0, -((positions.stop - positions.start) //
                        -positions.step))
    return len(positions)


def show_key(k):
    if isinstance(k, slice):
        return ':'.join('' if x is None else str(x)
                        for x in (k.start, k.stop, k.step))
    return str(k)


def step(rng, ctx, m, masked):
    r = rng.random()
    arr = m.arr
    if r < .25 and m.ndim:
        return select(m, all_keys(any_key, rng, ctx, m))
    if r < .32 and m.ndim > 1:
        axes = list(range(m.ndim))
        rng.shuffle(axes)
        ctx.count('transposed')
        shape = [m.shape[a] for a in axes]

        def at(coords):
            inner = [None] * len(axes)
            for a, c in zip(axes, coords):
                inner[a] = c
            return m.at(inner)
        return M(arr.transpose(axes), shape, m.dtype, at,
                 m.steps + '.T%s' % axes, m.kinds)
    if r < .4 and m.ndim < 4:
        n = rng.randint(0, m.ndim)
        keys = (slice(None),) * n + (None,)

        def at(coords):
            coords = list(coords)
            one = coords.pop(n)
            values, mask = m.at(coords)
            return values + one * 0, mask
        shape = m.shape[:n] + (1,) + m.shape[n:]
        return M(arr[keys], shape, m.dtype, at, m.steps + '.new%d' % n,
                 m.kinds | {'newaxis'})
    # (Further axes of a broadcast array are those of the array within it.)
    if r < .47 and 1 in m.shape and 'broadcast' not in m.kinds:
        n = rng.choice([i for i, s in enumerate(m.shape) if s == 1])
        size = extent(rng)
        if size > 10:
            ctx.count('huge_broadcasts')

        def at(coords):
            coords = list(coords)
            values, mask = m.at(coords[:n] + [coords[n] * 0] +
                                coords[n + 1:])
            return values + coords[n] * 0, mask
        return M(biggus.BroadcastArray(arr, {n: size}),
                 m.shape[:n] + (size,) + m.shape[n + 1:], m.dtype, at,
                 m.steps + '.bcast{%d: %d}' % (n, size),
                 m.kinds | {'broadcast'})
    if r < .51 and m.ndim < 4:
        size = extent(rng)
        if size > 10:
            ctx.count('huge_broadcasts')

        def at(coords):
            values, mask = m.at(coords[1:])
            return values + coords[0] * 0, mask
        return M(biggus.BroadcastArray(arr, {}, (size,)),
                 (size,) + m.shape, m.dtype, at,
                 m.steps + '.lead(%d)' % size, m.kinds | {'broadcast'})
    if r < .57:
        dtype = rng.choice(['f8', 'f4', 'i4'])
        return M(arr.astype(dtype), m.shape, dtype, m.at,
                 m.steps + '.' + dtype, m.kinds)
    if r < .63:
        return M(biggus.negative(arr), m.shape, m.dtype,
                 lambda coords: negated(m.at(coords)), '-' + m.steps,
                 m.kinds)
    if r < .68:
        k = rng.randint(-3, 3)
        dtype = np.dtype('f8')
        if m.dtype.kind == 'i':
            arr = arr.astype('f8')
        else:
            dtype = m.dtype
        k = float(k)
        return M(arr + k, m.shape, dtype,
                 lambda coords: added(m.at(coords), (np.int64(k), False)),
                 '(%s + %s)' % (m.steps, k), m.kinds)
    if r < .78 and m.ndim < 4:
        other = leaf(rng, ctx, masked, m.shape)
        other = cast(other, m.dtype)
        pair = [m, other]
        rng.shuffle(pair)
        if rng.random() < .3:
            pair.append(m)

        def at(coords):
            return pick(coords[0], [p.at(coords[1:]) for p in pair])
        return M(biggus.ArrayStack(gen_stack([p.arr for p in pair])),
                 (len(pair),) + m.shape, m.dtype, at,
                 'stack(%s)' % ', '.join(p.steps for p in pair),
                 m.kinds | other.kinds)
    if r < .9 and m.ndim:
        axis = rng.randrange(m.ndim)
        n = extent(rng, .5)
        other = leaf(rng, ctx, masked,
                     m.shape[:axis] + (n,) + m.shape[axis + 1:])
        other = cast(other, m.dtype)
        parts = [m, other]
        rng.shuffle(parts)
        if rng.random() < .3:
            parts.append(m)
        offsets = [0]
        for p in parts:
            offsets.append(offsets[-1] + p.shape[axis])
        if offsets[-1] >= 2 ** 60:
            return m
        if offsets[-1] > 100:
            ctx.count('huge_mosaics')

        def at(coords):
            c = coords[axis]
            which = 0
            results = []
            for i, p in enumerate(parts):
                which = which + (c >= offsets[i + 1])
                inner = list(coords)
                # (Elsewhere, any element will do.)
                inner[axis] = np.clip(c - offsets[i], 0,
                                      p.shape[axis] - 1)
                results.append(p.at(inner))
            return pick(which, results)
        kinds = m.kinds | other.kinds
        return M(biggus.LinearMosaic([p.arr for p in parts], axis),
                 m.shape[:axis] + (offsets[-1],) + m.shape[axis + 1:],
                 m.dtype, at, 'mosaic%d(%s)' % (
                     axis, ', '.join(p.steps for p in parts)), kinds)
    small = [i for i, n in enumerate(m.shape) if n <= 4]
    if small:
        return aggregate(rng, ctx, m, rng.choice(small), masked)
    return m


def gen_stack(parts):
    items = np.empty(len(parts), dtype=object)
    for i, p in enumerate(parts):
        items[i] = p
    return items


def cast(m, dtype):
    if m.dtype == dtype:
        return m
    return M(m.arr.astype(dtype), m.shape, dtype, m.at, m.steps, m.kinds)


def negated(pair):
    return -pair[0], pair[1]


def added(a, b):
    return a[0] + b[0], a[1] | b[1]


def pick(which, results):
    values = 0
    mask = np.False_
    for i, (v, k) in enumerate(results):
        values = np.where(which == i, v, values)
        mask = np.where(which == i, k, mask)
    return values, mask


def aggregate(rng, ctx, m, axis, masked):
    n = m.shape[axis]
    name = rng.choice(['sum', 'min', 'max', 'count'] if masked else
                      ['sum', 'min', 'max'])
    ctx.count('aggregations')

    def at(coords):
        coords = list(coords)
        results = []
        for i in range(n):
            results.append(m.at(coords[:axis] + [np.int64(i)] +
                                coords[axis:]))
        total = 0
        none = True
        for v, k in results:
            if name == 'sum':
                total = total + np.where(k, 0, v)
            elif name == 'count':
                total = total + np.where(k, 0, 1) + 0 * v
            none = none & k
        if name in ('min', 'max'):
            fn = np.minimum if name == 'min' else np.maximum
            total = np.where(results[0][1], NOTHING[name], results[0][0])
            for v, k in results:
                total = fn(total, np.where(k, NOTHING[name], v))
        if name == 'count':
            none = False
        return total, none
    dtype = agg_dtype(name, m.dtype)
    return M(getattr(biggus, name)(m.arr, axis=axis),
             m.shape[:axis] + m.shape[axis + 1:], dtype, at,
             '%s(%s, %d)' % (name, m.steps, axis), m.kinds | {'computed'})


NOTHING = {'min': 10 ** 9, 'max': -10 ** 9}


def describe(ctx, m):
    arr = m.arr
    if tuple(arr.shape) != m.shape:
        raise Bad('the shape is %s, expected %s' % (arr.shape, m.shape))
    if arr.dtype != m.dtype:
        raise Bad('the type is %s, expected %s' % (arr.dtype, m.dtype))
    if arr.ndim != m.ndim:
        raise Bad('there are %d dimensions' % arr.ndim)
    n = m.dtype.itemsize
    for s in m.shape:
        n *= s
    if arr.nbytes != n:
        raise Bad('nbytes is %r, expected %r' % (arr.nbytes, n))
    if m.shape and m.shape[0]:
        item = next(iter(arr))
        if tuple(item.shape) != m.shape[1:]:
            raise Bad('an item has shape %s' % (item.shape,))
    str(arr), repr(arr), biggus.size(arr), arr.fill_value
    ctx.count('described')


def case(rng, ctx):
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if soft == resource.RLIM_INFINITY:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, hard))
    masked = rng.random() < .5
    with limited('making a source'):
        m = leaf(rng, ctx, masked)
    kinds = []
    for _ in range(rng.randint(1, 7)):
        before = m.steps
        ctx.desc = 'a step after ' + before
        with limited('a step'):
            m = step(rng, ctx, m, masked)
        if m.steps == before:
            continue
        kinds.append(m.steps[:4] if not m.steps.startswith(before[:4])
                     else m.steps[len(before):len(before) + 4])
        ctx.desc = m.steps
        ctx.count('steps')
        with limited('describing the array'):
            describe(ctx, m)
        if not all(m.shape):
            break
    huge = builtin_sum(n > 100 for n in m.shape)
    if rng.random() < .2:
        ctx.count('copies')
        how = rng.choice([copy.copy, copy.deepcopy,
                          lambda a: pickle.loads(pickle.dumps(a, 2))])
        with limited('a copy'):
            m.arr = how(m.arr)
            describe(ctx, m)
    with limited('a selection'):
        if m.ndim:
            m = select(m, all_keys(small_key, rng, ctx, m))
        ctx.desc = m.steps
        describe(ctx, m)
    evaluate(rng, ctx, m, masked)
    ctx.nontrivial(kinds, huge, masked)


def expected(m):
    coords = np.ogrid[tuple(slice(0, n) for n in m.shape)] if m.ndim else []
    coords = [np.asarray(c, np.int64) for c in coords]
    values, mask = m.at(coords)
    return (np.array(np.broadcast_to(values, m.shape)).astype(m.dtype),
            np.array(np.broadcast_to(mask, m.shape)))


def evaluate(rng, ctx, m, masked):
    values, mask = expected(m)
    want = ma.MaskedArray(values, mask)
    how = rng.choice(['own', 'engine', 'save'])
    chunk = rng.choice([1, 3, 10, DEFAULT_CHUNK])
    ctx.desc = '%s %s chunk=%s masked=%s' % (m.steps, how, chunk, masked)
    with limited('an evaluation'), chunk_size(chunk):
        ctx.count('evaluations')
        if how == 'save' and all(m.shape):
            target = Target(m.shape, m.dtype, masked)
            biggus.save([m.arr], [target], masked=masked)
            ctx.count('saves')
            if target.problem or (target.counts != 1).any():
                raise Bad(target.problem or 'written %s times' %
                          target.counts)
            got = target.data
            if masked:
                got = ma.MaskedArray(got, target.mask)
        elif masked:
            got = (m.arr.masked_array() if how == 'own' else
                   biggus.masked_arrays([m.arr])[0])
        else:
            got = (m.arr.ndarray() if how == 'own' else
                   biggus.ndarrays([m.arr])[0])
    if masked:
        check_ma('result', got, want)
    else:
        check_nd('result', got, values)
