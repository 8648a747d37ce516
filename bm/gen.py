"""Generators: data, keys, and virtual arrays paired with their model.

Every generated virtual array is a `V`: the biggus array `arr` next to
what NumPy says `ndarray()` (`nd`) and `masked_array()` (`mk`) must be.
"""
import numpy as np
import numpy.ma as ma

from .env import biggus
from .ref import ortho, is_int, Skip
from .src import Source


class V(object):
    #: The NumPy array of which `arr` just is an adapter, if any.
    raw = None

    def __init__(self, arr, nd, mk, desc, kinds=(), parts=()):
        self.arr = arr
        self.nd = nd
        self.mk = mk
        self.desc = desc
        self.kinds = frozenset(kinds)
        self.sources = tuple(parts)


INT = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', '>i4', '>i2']
FLOAT = ['f4', 'f8', 'f2', '>f4', '>f8']
CPLX = ['c8', 'c16']
OTHER = ['bool', 'S3', 'U2', 'M8[D]', 'm8[s]']
NUMERIC = INT + FLOAT


def pick(rng, *options):
    """Weighted choice: (weight, value) pairs."""
    total = sum(w for w, _ in options)
    x = rng.random() * total
    for w, v in options:
        x -= w
        if x < 0:
            return v
    return options[-1][1]


def shape(rng, lo=1, hi=4, maxlen=6, maxsize=400, zero=0.0, one=0.15):
    ndim = rng.randint(lo, hi)
    out = []
    size = 1
    for _ in range(ndim):
        n = 1 if rng.random() < one else rng.randint(2, maxlen)
        if rng.random() < zero:
            n = 0
        if size * n > maxsize:
            n = 1
        size *= max(n, 1)
        out.append(n)
    rng.shuffle(out)
    return tuple(out)


def data(rng, shp, dtype, masked=0.0, offset=None):
    """Data whose elements identify their position as far as possible."""
    dtype = np.dtype(dtype)
    n = int(np.prod(shp)) if shp else 1
    base = rng.randint(0, 40) if offset is None else offset
    if unique_values.active is not None:
        base = unique_values.active.next
        unique_values.active.next += n
        a = np.arange(base, base + n).astype(dtype).reshape(shp)
        if rng.random() < masked:
            a = ma.array(a, mask=[rng.random() < .3 for _ in range(n)])
            a = a.reshape(shp)
        return a
    raw = np.arange(base, base + n)
    if dtype.kind == 'b':
        raw = np.array([rng.random() < 0.5 for _ in range(n)])
    elif dtype.kind == 'i' and dtype.itemsize == 1:
        raw = (raw * 37) % 256 - 128
    elif dtype.kind == 'u' and dtype.itemsize == 1:
        raw = (raw * 37) % 256
    elif dtype.kind == 'i':
        raw = raw * rng.choice([1, -1, 3])
    elif dtype.kind == 'f':
        raw = raw * rng.choice([1, -1, 0.5, 0.25]) + rng.choice([0, .5])
    elif dtype.kind == 'c':
        raw = raw + 1j * (raw[::-1] * 0.5)
    elif dtype.kind in 'SU':
        alpha = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
        raw = np.array([alpha[i % 52] + alpha[(i // 52) % 52] for i in raw])
    if dtype.kind in 'Mm':
        raw = raw.astype('i8')
    a = np.asarray(raw).astype(dtype).reshape(shp)
    if rng.random() < masked:
        p = rng.choice([0.1, 0.4, 0.4, 0.8, 1.0, 0.0])
        mask = np.array([rng.random() < p for _ in range(n)],
                        dtype=bool).reshape(shp)
        if p == 0.0 and rng.random() < 0.5:
            a = ma.array(a)
        else:
            a = ma.array(a, mask=mask)
        if rng.random() < 0.3 and dtype.kind in 'if':
            a.fill_value = rng.choice([0, 1, 99, -7])
        if rng.random() < 0.1 and dtype.kind == 'f':
            a.fill_value = np.nan
    return a


def share(rng, masked):
    """The share of masked sources, for masked or for plain results."""
    # Plain results are made of filled ones, where the data are masked.
    return .7 if masked else rng.choice([0, 0, .5])


def filled(a):
    return a.filled() if ma.isMaskedArray(a) else np.asarray(a)


class unique_values(object):
    """
    Every element made by `data` within this is different, and every
    source has one of the given kinds of indexing.
    """
    active = None

    def __init__(self, kinds=('ortho',)):
        self.kinds = list(kinds)

    def __enter__(self):
        unique_values.active = self
        self.next = 0
        return self

    def __exit__(self, *exc):
        unique_values.active = None


# ------------------------------------------------------------------ keys

def slice_key(rng, n, empty=0.05):
    k = rng.random()
    if k < 0.2:
        return slice(None)
    if n and rng.random() >= empty:
        # Non-empty slice.
        for _ in range(20):
            s = slice(rng.choice([None, rng.randint(-n - 2, n + 1)]),
                      rng.choice([None, rng.randint(-n - 2, n + 2)]),
                      rng.choice([None, 1, 2, 3, -1, -2, -3, 5]))
            if len(range(*s.indices(n))):
                if rng.random() < .06:
                    # (NumPy's integers are as good.)
                    s = slice(*[
                        i if i is None else np.int64(i) if i < 0 else
                        rng.choice([np.int32, np.uint8, np.uint64])(i)
                        for i in (s.start, s.stop, s.step)])
                return s
        return slice(None)
    j = rng.randint(0, n)
    return slice(j, j)


def axis_key(rng, n, seq=0.4, intp=0.25, empty=0.05, arrays=True):
    r = rng.random()
    if n and r < intp:
        k = rng.randint(-n, n - 1)
        make = rng.choice([int, int, int, np.int64, np.int32, np.int64] +
                          [np.uint8, np.uint64][k < 0:2 - 2 * (k < 0)])
        return make(k)
    if n and r < intp + seq:
        m = rng.randint(1, n + 2)
        style = rng.random()
        if style < 0.25:
            ks = sorted(rng.randint(0, n - 1) for _ in range(m))
        elif style < 0.5:
            ks = [rng.randint(-n, n - 1) for _ in range(m)]
        else:
            ks = [rng.randint(0, n - 1) for _ in range(m)]
        kind = rng.random()
        if not arrays or kind < 0.5:
            if rng.random() < .1:
                types = [int, np.int64, np.int16, np.int8]
                if min(ks) >= 0:
                    types += [np.uint8, np.uint64]
                ks = [rng.choice(types)(i) for i in ks]
            return tuple(ks)
        if kind < 0.75:
            dtype = 'i8'
            if rng.random() < .4:
                dtype = rng.choice(['i1', 'i4', 'u1', 'u2', 'u8', 'O']
                                   if min(ks) >= 0 else ['i1', 'i2', 'i4'])
            return np.array(ks, dtype=dtype)
        b = np.array([rng.random() < 0.5 for _ in range(n)])
        if not b.any() and rng.random() >= empty:
            b[rng.randint(0, n - 1)] = True
        return b
    return slice_key(rng, n, empty)


def keys(rng, shp, seq=0.4, intp=0.25, empty=0.05, newaxis=0.1,
         arrays=True):
    """A key expression valid for an array of the given shape."""
    ndim = len(shp)
    ks = [axis_key(rng, n, seq, intp, empty, arrays) for n in shp]
    # Leave some axes unmentioned.
    r = rng.random()
    if r < 0.25:
        ks = ks[:rng.randint(0, ndim)]
        if rng.random() < 0.3:
            ks.append(Ellipsis)
    elif r < 0.5 and ndim:
        i = rng.randint(0, ndim)
        j = rng.randint(i, ndim)
        ks[i:j] = [Ellipsis]
    while rng.random() < newaxis:
        ks.insert(rng.randint(0, len(ks)), None)
    if len(ks) == 1 and not isinstance(ks[0], tuple) and \
            rng.random() < 0.5:
        return ks[0]
    return tuple(ks)


def kdesc(k):
    def one(x):
        if isinstance(x, slice):
            return ':'.join('' if v is None else str(v) for v in
                            (x.start, x.stop, x.step))
        if isinstance(x, np.ndarray):
            return 'np%s' % x.tolist()
        if x is Ellipsis:
            return '...'
        if x is None:
            return 'newaxis'
        return repr(x)
    if isinstance(k, tuple):
        return '[%s]' % ', '.join(map(one, k))
    return '[%s]' % one(k)


# ----------------------------------------------------------- structures

class UserArray(biggus.Array):
    """A kind of array which biggus doesn't know."""

    def __init__(self, inner):
        self.inner = inner

    @property
    def dtype(self):
        return self.inner.dtype

    @property
    def shape(self):
        return self.inner.shape

    @property
    def fill_value(self):
        return self.inner.fill_value

    def _getitem_full_keys(self, keys):
        return UserArray(self.inner[keys])

    def ndarray(self):
        return self.inner.ndarray()

    def masked_array(self):
        return self.inner.masked_array()


class UserContainer(biggus.ArrayContainer):
    """A container of the user's, which does as its contents do."""

    def __getitem__(self, keys):
        return type(self)(super(UserContainer, self).__getitem__(keys))


def leaf(rng, shp, dtype, masked=0.0, kinds=('numpy', 'ortho', 'plain'),
         offset=None):
    """An adapter over concrete data of the given shape."""
    return wrap(rng, data(rng, shp, dtype, masked, offset), kinds)


def wrap(rng, a, kinds=('numpy', 'ortho', 'plain')):
    """An adapter over the given data."""
    shp, dtype = a.shape, a.dtype
    kind = rng.choice(list(kinds))
    if unique_values.active is not None:
        kind = rng.choice(unique_values.active.kinds)
    parts = ()
    if kind == 'plain':
        arr = biggus.NumpyArrayAdapter(a)
    else:
        s = Source(a, style=kind)
        s.plain = rng.random() < .3
        parts = (s,)
        cls = (biggus.NumpyArrayAdapter if kind == 'numpy'
               else biggus.OrthoArrayAdapter)
        arr = cls(s)
    own = ''
    if rng.random() < .07:
        arr, own = rng.choice([(UserArray(arr), 'user '),
                               (UserContainer(arr), 'container ')])
    v = V(arr, filled(a), ma.asanyarray(a), '%s%s<%s%s%s>' % (
        own, kind, shp, np.dtype(dtype), ' ma' if ma.isMaskedArray(a) else ''),
        (kind,), parts)
    if kind == 'plain' and not own:
        v.raw = a
    return v


def unwrapped(rng, v):
    """The array of `v`, or the NumPy array behind it."""
    if v.raw is not None and rng is not None and rng.random() < .4:
        return v.raw
    return v.arr


def spelled(rng, values, iterator=True):
    """The same values in another type, maybe one which can be changed."""
    how = rng.choice(['tuple', 'tuple', 'list', 'array', 'iter'])
    if how == 'list':
        return list(values)
    if how == 'array':
        return np.array(values, dtype=int)
    if how == 'iter' and iterator:
        return iter(values)
    return tuple(values)


def spoil(*args):
    """Overwrite arguments, as a caller may once a call has returned."""
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype != object:
            a[...] = 0
        elif isinstance(a, np.ndarray):
            a[...] = None
        elif isinstance(a, list):
            del a[:]
        elif isinstance(a, dict):
            for k in list(a):
                a[k] = 17
            a[0] = 19
        elif isinstance(a, tuple):
            spoil(*a)


def index(rng, v, k=None, **kw):
    if k is None:
        k = keys(rng, v.arr.shape, **kw)
    one_shot = isinstance(k, tuple) and rng.random() < .06
    if one_shot:
        arr = v.arr[tuple(iter(x) if isinstance(x, tuple) else x for x in k)]
    elif rng.random() < .1:
        given = tuple(np.array(x) if isinstance(x, np.ndarray) else
                      list(x) if isinstance(x, list) else x
                      for x in (k if isinstance(k, tuple) else (k,)))
        arr = v.arr[given]
        spoil(given)
    else:
        arr = v.arr[k]
    kinds = v.kinds
    if any(x is None for x in (k if isinstance(k, tuple) else (k,))):
        kinds = kinds | {'newaxis'}
    return V(arr, ortho(v.nd, k), ortho(v.mk, k), v.desc + kdesc(k),
             kinds, v.sources)


def stack(rng, items, stack_shape):
    arrs = np.empty(len(items), dtype='O')
    for i, v in enumerate(items):
        arrs[i] = v.arr
    order = rng.choice(['direct', 'C', 'F', 'c', 'f'])
    n = len(items)
    pos = np.arange(n).reshape(stack_shape,
                               order='F' if order in 'fF' else 'C')
    if order == 'direct':
        given = arrs.reshape(stack_shape)
        arr = biggus.ArrayStack(given)
    else:
        given = [v.arr for v in items] if rng.random() < .5 else arrs
        arr = biggus.ArrayStack.multidim_array_stack(
            given, rng.choice([tuple, list])(stack_shape), order=order)
    if rng.random() < .1:
        spoil(given)
    item_shape = items[0].nd.shape
    nd = np.empty(tuple(stack_shape) + item_shape, dtype=items[0].nd.dtype)
    md = np.empty(nd.shape, dtype=nd.dtype)
    mm = np.zeros(nd.shape, dtype=bool)
    for ix in np.ndindex(*stack_shape):
        v = items[pos[ix]]
        nd[ix] = v.nd
        md[ix] = ma.getdata(v.mk)
        mm[ix] = ma.getmaskarray(v.mk)
    return V(arr, nd, ma.array(md, mask=mm), 'stack%s%s(%s)' % (
        order, tuple(stack_shape), items[0].desc),
        frozenset(['stack']).union(*[v.kinds for v in items]),
        [s for v in items for s in v.sources])


def mosaic(rng, tiles, axis):
    lst = [v.arr for v in tiles]
    if len(lst) > 1 or rng.random() < .7:
        given = lst
        if rng.random() < .2:
            given = np.empty(len(lst), dtype='O')
            for i, a in enumerate(lst):
                given[i] = a
        arr = biggus.LinearMosaic(given, axis)
        if rng.random() < .1:
            spoil(given)
    else:
        arr = biggus.LinearMosaic(lst[0], axis)
    # (concatenate would lose the byte order.)
    dt = tiles[0].nd.dtype
    nd = np.concatenate([v.nd for v in tiles], axis=axis).astype(dt)
    md = np.concatenate([ma.getdata(v.mk) for v in tiles],
                        axis=axis).astype(dt)
    mm = np.concatenate([ma.getmaskarray(v.mk) for v in tiles], axis=axis)
    return V(arr, nd, ma.array(md, mask=mm), 'mosaic%d(%s)' % (
        axis, ', '.join(v.desc for v in tiles)),
        frozenset(['mosaic']).union(*[v.kinds for v in tiles]),
        [s for v in tiles for s in v.sources])


def transposed(rng, v):
    n = v.nd.ndim
    if rng.random() < 0.3:
        axes = None
        arr = v.arr.transpose()
    else:
        axes = list(range(n))
        rng.shuffle(axes)
        # (Negative axes count from the end.)
        arg = spelled(rng, [i - n if rng.random() < .2 else i for i in axes],
                      iterator=False)
        arr = v.arr.transpose(arg)
        spoil(arg)
    return V(arr, v.nd.transpose(axes), v.mk.transpose(axes),
             'T%s(%s)' % (axes, v.desc), v.kinds | {'transpose'}, v.sources)


def newaxes(rng, v):
    k = [slice(None)] * v.nd.ndim
    for _ in range(rng.randint(1, 2)):
        k.insert(rng.randint(0, len(k)), None)
    k = tuple(k)
    return V(v.arr[k], v.nd[k], v.mk[k], v.desc + kdesc(k),
             v.kinds | {'newaxis'}, v.sources)


def broadcast(rng, v, lead=0.5, maxlen=4):
    if isinstance(v.arr, biggus.BroadcastArray):
        # The arguments would refer to the innermost array.
        return v
    ones = [i for i, n in enumerate(v.arr.shape) if n == 1]
    d = {i: rng.randint(1, maxlen) for i in ones if rng.random() < .7}
    leading = ()
    if rng.random() < lead or not d:
        leading = tuple(rng.randint(1, 3)
                        for _ in range(rng.randint(1, 2)))
    return bcast(v, d, leading, rng)


def bcast(v, d, leading, rng=None):
    given = dict(d)
    lead = tuple(leading) if rng is None else spelled(rng, leading)
    arr = biggus.BroadcastArray(unwrapped(rng, v), given, lead)
    spoil(given, lead)
    inner = [d.get(i, n) for i, n in enumerate(v.nd.shape)]
    full = tuple(leading) + tuple(inner)
    nd = np.array(np.broadcast_to(v.nd, full))
    md = np.array(np.broadcast_to(ma.getdata(v.mk), full))
    mm = np.array(np.broadcast_to(ma.getmaskarray(v.mk), full))
    return V(arr, nd, ma.array(md, mask=mm), 'bcast%s%s(%s)' % (
        d, leading, v.desc), v.kinds | {'broadcast'}, v.sources)


def astyped(rng, v, dtype):
    return V(v.arr.astype(dtype), v.nd.astype(dtype), v.mk.astype(dtype),
             'astype[%s](%s)' % (dtype, v.desc), v.kinds | {'astype'},
             v.sources)


def maskval(rng, v):
    if v.nd.size:
        value = v.nd.flat[rng.randrange(v.nd.size)]
        if v.nd.dtype.kind in 'iufb':
            value = value.item()
    else:
        value = 0
    return V(biggus.masked_equal(unwrapped(rng, v), value), v.nd,
             ma.masked_equal(v.mk, value),
             'masked_equal[%r](%s)' % (value, v.desc),
             v.kinds | {'maskval'}, v.sources)


def constant(rng, shp, dtype):
    value = data(rng, (1,), dtype)[0]
    how = rng.random()
    dt = np.dtype(dtype)
    given = spelled(rng, shp)
    if how < 0.2 and dt.kind in 'fiu':
        arr = biggus.zeros(given, dtype=dt)
        nd = np.zeros(shp, dt)
    elif how < 0.4 and dt.kind in 'fiu':
        arr = biggus.ones(given, dtype=dt)
        nd = np.ones(shp, dt)
    else:
        arr = biggus.ConstantArray(given, value, dtype=dt)
        nd = np.empty(shp, dt)
        nd.fill(value)
    spoil(given)
    return V(arr, nd, ma.array(nd), 'const<%s%s %r>' % (shp, dt, value),
             ('constant',), ())


def structural(rng, depth, dtype, masked=0.0, lo=0, hi=3, shp=None,
               avoid=()):
    """A random composition of the non-computing array types."""
    v = None
    if depth <= 0:
        if shp is None:
            shp = shape(rng, lo, hi)
        if rng.random() < 0.15 and 'constant' not in avoid:
            return constant(rng, shp, dtype)
        return leaf(rng, shp, dtype, masked)
    ops = ['stack', 'mosaic', 'transpose', 'newaxis', 'broadcast',
           'maskval', 'index']
    ops = [o for o in ops if o not in avoid]
    op = rng.choice(ops)
    if op in ('stack', 'mosaic'):
        v = structural(rng, depth - 1, dtype, masked, lo, hi, shp,
                       avoid)
        if op == 'stack':
            ss = rng.choice([(1,), (2,), (3,), (2, 2), (2, 3), (3, 1)])
            if rng.random() < .1 and v.nd.ndim < 4:
                ss = rng.choice([(2, 2, 2), (2, 3, 2), (3, 1, 2),
                                 (1, 2, 2), (2, 1, 2, 2)])
            n = int(np.prod(ss))
            items = [v] + [leaf(rng, v.nd.shape, dtype, masked,
                                offset=1000 * i) if rng.random() < .7
                           else reshape_like(rng, v, v.nd.shape, dtype,
                                             masked)
                           for i in range(1, n)]
            if v.nd.size * n > 3000:
                return v
            rng.shuffle(items)
            v = stack(rng, items, ss)
        else:
            if v.nd.ndim == 0:
                return v
            axis = rng.randrange(v.nd.ndim)
            tiles = [v]
            for i in range(rng.randint(0, 3)):
                s = list(v.nd.shape)
                s[axis] = rng.randint(1, 4)
                tiles.append(leaf(rng, tuple(s), dtype, masked,
                                  offset=1000 * i))
            rng.shuffle(tiles)
            v = mosaic(rng, tiles, axis)
        return v
    v = structural(rng, depth - 1, dtype, masked, lo, hi, shp, avoid)
    if v.nd.size > 3000:
        return v
    if op == 'transpose':
        return transposed(rng, v)
    if op == 'newaxis':
        return newaxes(rng, v)
    if op == 'broadcast':
        if 'broadcast' in v.kinds:
            return v
        return broadcast(rng, v)
    if op == 'maskval':
        if v.nd.dtype.kind not in 'biuf':
            return v
        return maskval(rng, v)
    if op == 'index':
        seq = 0 if v.kinds & {'newaxis', 'broadcast'} else .2
        return index(rng, v, seq=seq, empty=0, newaxis=.05)
    return v


def reshape_like(rng, v, shp, dtype, masked):
    return leaf(rng, shp, dtype, masked)
