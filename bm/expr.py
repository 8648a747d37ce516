"""Random expression graphs, each paired with its NumPy meaning."""
import numpy as np
import numpy.ma as ma

from . import gen
from .env import biggus
from .gen import V
from .ref import Bad, same_values, show
from .src import Source

UNARY = ['negative', 'absolute']
BINARY = ['add', 'subtract', 'multiply', 'maximum', 'minimum']
AGG = ['sum', 'mean', 'min', 'max', 'std', 'var', 'count']


def apply(f, *arrays):
    """
    Apply a NumPy function the way whole arrays are combined: operands are
    never 0-dimensional, so their values don't take part in choosing the
    dtype of the result.
    """
    shape = np.broadcast(*[np.asarray(a) for a in arrays]).shape \
        if len(arrays) > 1 else arrays[0].shape
    full = shape or (1,)
    args = []
    for a in arrays:
        if ma.isMaskedArray(a):
            args.append(ma.array(np.broadcast_to(ma.getdata(a), full),
                                 mask=np.broadcast_to(ma.getmaskarray(a),
                                                      full)))
        else:
            args.append(np.broadcast_to(a, full))
    r = f(*args)
    if any(ma.isMaskedArray(a) for a in arrays):
        r = ma.array(ma.getdata(r), mask=ma.getmaskarray(r))
    return r.reshape(shape)


def agg_dtype(name, dtype):
    if name == 'count':
        return np.dtype('i')
    if name in ('sum', 'min', 'max'):
        return dtype
    return (np.zeros(1, dtype) / 1.).dtype


def agg_nd(name, a, axis, ddof=0):
    dtype = agg_dtype(name, a.dtype)
    if name == 'count':
        r = np.sum(np.ones(a.shape, 'i8'), axis=axis)
    elif name == 'sum':
        r = np.sum(a, axis=axis, dtype=a.dtype)
    elif name in ('min', 'max'):
        r = getattr(np, name)(a, axis=axis)
    else:
        wide = a.astype('c16' if a.dtype.kind == 'c' else 'f8')
        kw = {} if name == 'mean' else {'ddof': ddof}
        r = getattr(np, name)(wide, axis=axis, **kw)
    return np.asarray(r).astype(dtype)


def agg_ma(name, a, axis, ddof=0, mdtol=1):
    """Reference built from the data and mask, not from numpy.ma."""
    dtype = agg_dtype(name, a.dtype)
    mask = ma.getmaskarray(a)
    data = np.array(ma.getdata(a))
    n = (~mask).sum(axis=axis)
    out_mask = n == 0
    if name == 'count':
        return ma.array(np.asarray(n).astype(dtype),
                        mask=np.zeros(np.shape(n), bool))
    if name == 'sum':
        data[mask] = 0
        r = data.sum(axis=axis, dtype=a.dtype)
    elif name in ('min', 'max'):
        # The masked elements take the first valid value instead.
        first = np.expand_dims((~mask).argmax(axis=axis), axis)
        fill = np.take_along_axis(data, first, axis)
        data = np.where(mask, fill, data)
        r = getattr(np, name)(data, axis=axis)
    else:
        data = data.astype('c16' if a.dtype.kind == 'c' else 'f8')
        data[mask] = 0
        total = data.sum(axis=axis)
        mean = total / np.where(n == 0, 1, n)
        if name == 'mean':
            r = mean
            if mdtol < 1:
                size = mask.shape[axis]
                out_mask = out_mask | ((size - n) / float(size) > mdtol)
        else:
            dev = data - np.expand_dims(mean, axis)
            dev = np.abs(dev) ** 2
            dev[mask] = 0
            d = n - ddof
            out_mask = out_mask | (d <= 0)
            r = dev.sum(axis=axis) / np.where(d <= 0, 1, d)
            if name == 'std':
                r = np.sqrt(r)
    return ma.array(np.asarray(r).astype(dtype), mask=out_mask)


def magnitude(*arrays):
    m = 1.0
    for a in arrays:
        d = a.compressed() if ma.isMaskedArray(a) else np.asarray(a)
        d = d[np.isfinite(d)] if d.dtype.kind in 'fc' else d
        if d.size:
            m = max(m, float(np.max(np.abs(d.astype('f8')))))
    return m


def grown(v, *children):
    """Note the largest value which has been involved so far."""
    v.mag = max([magnitude(v.nd, v.mk)] + [mag_of(c) for c in children])
    return v


def mag_of(v):
    if not hasattr(v, 'mag'):
        v.mag = magnitude(v.nd, v.mk)
    return v.mag


class Pool(object):
    """The leaves which the parts of a graph share."""

    def __init__(self, rng, n=None, masked=0.0, dtypes=None, maxsize=200,
                 maxlen=5, style=('numpy', 'ortho'), structured=0.3,
                 sources=None, ndims=(1, 2, 2, 3)):
        self.rng = rng
        self.side = [rng.randint(1, maxlen) for _ in range(3)]
        if rng.random() < .5:
            self.side = [self.side[0]] * 3
        self.leaves = []
        self.style = style
        self.all_sources = []
        dtypes = dtypes or ['f8', 'f8', 'f8', 'i4', 'i2', 'f4', 'i8', '>i4']
        for i in range(n or rng.randint(1, 3)):
            nd = rng.choice(ndims)
            shp = tuple(self.side[:nd])
            self.leaves.append(self.leaf(shp, rng.choice(dtypes), masked,
                                         style, structured, i))

    def source(self, shp, dtype, masked, style, i):
        rng = self.rng
        state = np.random.RandomState(rng.randrange(10 ** 6))
        if np.dtype(dtype).kind == 'f':
            a = (state.rand(*shp) * 8 + 0.5).astype(dtype)
        elif np.dtype(dtype).kind == 'u':
            a = state.randint(1, 9, size=shp).astype(dtype)
        else:
            a = state.randint(-9, 9, size=shp).astype(dtype)
        if rng.random() < masked:
            p = rng.choice([0.1, 0.3, 0.6, 1.0])
            a = ma.array(a, mask=state.rand(*shp) < p, fill_value=3)
        s = Source(a, style=rng.choice(style), name='s%d' % i)
        cls = (biggus.NumpyArrayAdapter if s.style == 'numpy'
               else biggus.OrthoArrayAdapter)
        self.all_sources.append(s)
        return V(cls(s), gen.filled(a), ma.asanyarray(a),
                 'L%d%s%s%s' % (len(self.all_sources), shp,
                                np.dtype(dtype),
                                'm' if ma.isMaskedArray(a) else ''),
                 (), (s,))

    def leaf(self, shp, dtype, masked, style, structured, i):
        rng = self.rng
        if rng.random() < structured:
            how = rng.choice(['stack', 'mosaic', 'transpose', 'slice',
                              'const'])
            if how == 'stack' and len(shp) > 1:
                items = [self.source(shp[1:], dtype, masked, style, i)
                         for _ in range(shp[0])]
                return gen.stack(rng, items, shp[:1])
            if how == 'mosaic':
                axis = rng.randrange(len(shp))
                n = shp[axis]
                if n > 1:
                    cut = rng.randint(1, n - 1)
                    tiles = []
                    for m in (cut, n - cut):
                        s = list(shp)
                        s[axis] = m
                        tiles.append(self.source(tuple(s), dtype, masked,
                                                 style, i))
                    return gen.mosaic(rng, tiles, axis)
            if how == 'transpose':
                axes = list(range(len(shp)))
                rng.shuffle(axes)
                orig = [0] * len(shp)
                for j, ax in enumerate(axes):
                    orig[ax] = shp[j]
                v = self.source(tuple(orig), dtype, masked, style, i)
                return V(v.arr.transpose(axes), v.nd.transpose(axes),
                         v.mk.transpose(axes), 'T%s(%s)' % (axes, v.desc),
                         (), v.sources)
            if how == 'slice':
                big = tuple(n + rng.randint(0, 3) for n in shp)
                v = self.source(big, dtype, masked, style, i)
                k = []
                for n, b in zip(shp, big):
                    o = rng.randint(0, b - n)
                    k.append(slice(o, o + n) if rng.random() < .7 else
                             slice(o + n - 1, o - 1 if o else None, -1))
                return gen.index(rng, v, tuple(k))
            if how == 'const':
                return gen.constant(rng, shp, 'f8' if dtype == '>i4'
                                    else dtype)
        return self.source(shp, dtype, masked, style, i)


def unary(v, name):
    f = getattr(np, name)
    return grown(V(getattr(biggus, name)(v.arr), apply(f, v.nd),
                   apply(getattr(ma, name), v.mk),
                   '%s(%s)' % (name, v.desc),
                   v.kinds | {'unary'}, v.sources), v)


def binary(a, b, name):
    f = getattr(np, name)
    return grown(V(getattr(biggus, name)(a.arr, b.arr),
                   apply(f, a.nd, b.nd),
                   apply(getattr(ma, name), a.mk, b.mk),
                   '%s(%s, %s)' % (name, a.desc, b.desc),
                   a.kinds | b.kinds | {'binary'},
                   a.sources + b.sources), a, b)


def aggregate(v, name, axis, **kw):
    arr = getattr(biggus, name)(v.arr, axis=axis, **kw)
    nd_kw = dict((k, x) for k, x in kw.items() if k == 'ddof')
    r = grown(V(arr, agg_nd(name, v.nd, axis, **nd_kw),
                agg_ma(name, v.mk, axis, **kw),
                '%s(%s, %d%s)' % (name, v.desc, axis,
                                  ''.join(', %s=%r' % x
                                          for x in kw.items())),
                v.kinds | {'aggregate'}, v.sources), v)
    if name == 'var':
        r.mag = max(r.mag, mag_of(v) ** 2)
    elif name in ('sum', 'mean', 'std'):
        r.mag = max(r.mag, mag_of(v) * v.nd.shape[axis])
    return r


def scalar(rng, v, name):
    s = rng.choice([2, 3, 0.5, -1.5])
    f = getattr(np, name)
    nd = v.nd if v.nd.shape else v.nd.reshape(1)
    mk = v.mk if v.nd.shape else v.mk.reshape(1)
    return grown(V(getattr(biggus, name)(v.arr, s),
                   np.asarray(f(nd, s)).reshape(v.nd.shape),
                   ma.asanyarray(getattr(ma, name)(mk, s)).reshape(
                       v.nd.shape),
                   '%s(%s, %r)' % (name, v.desc, s), v.kinds | {'scalar'},
                   v.sources), v)


def build(rng, pool, depth, ndim, index=0.0, views=0.0, aggs=AGG,
          binary_ops=BINARY):
    """A random expression with `ndim` dimensions."""
    r = rng.random()
    leaves = [l for l in pool.leaves if l.nd.ndim == ndim]
    if depth <= 0 or r < .12:
        if leaves:
            return rng.choice(leaves)
        higher = [l for l in pool.leaves if l.nd.ndim > ndim]
        if higher:
            v = rng.choice(higher)
            while v.nd.ndim > ndim:
                v = aggregate(v, rng.choice(aggs),
                              rng.randrange(v.nd.ndim))
            return v
        v = rng.choice(pool.leaves)
        shp = tuple(pool.side[:ndim])
        leaf = pool.leaf(shp, 'f8', 0, pool.style, 0, 9)
        pool.leaves.append(leaf)
        return leaf
    kw = dict(index=index, views=views, aggs=aggs, binary_ops=binary_ops)
    if rng.random() < index:
        v = build(rng, pool, depth - 1, ndim, **kw)
        # Only keep slices which leave something.
        k = tuple(gen.slice_key(rng, n, empty=0) for n in v.nd.shape)
        return grown(gen.index(rng, v, k), v)
    if rng.random() < views and ndim:
        v = build(rng, pool, depth - 1, ndim, **kw)
        axes = list(range(ndim))
        rng.shuffle(axes)
        return grown(V(v.arr.transpose(axes), v.nd.transpose(axes),
                       v.mk.transpose(axes), 'T%s(%s)' % (axes, v.desc),
                       v.kinds | {'transpose'}, v.sources), v)
    if r < .25:
        return unary(build(rng, pool, depth - 1, ndim, **kw),
                     rng.choice(UNARY))
    if r < .35:
        return scalar(rng, build(rng, pool, depth - 1, ndim, **kw),
                      rng.choice(['add', 'multiply']))
    if r < .65:
        a = build(rng, pool, depth - 1, ndim, **kw)
        for _ in range(4):
            b = build(rng, pool, depth - 1,
                      ndim if rng.random() < .8 else rng.randint(0, ndim),
                      **kw)
            try:
                np.broadcast(a.nd, b.nd)
            except ValueError:
                continue
            if rng.random() < .5 and a.nd.ndim == b.nd.ndim:
                a, b = b, a
            return binary(a, b, rng.choice(binary_ops))
        return binary(a, a, rng.choice(binary_ops))
    if ndim >= 3:
        return build(rng, pool, depth - 1, ndim, **kw)
    v = build(rng, pool, depth - 1, ndim + 1, **kw)
    axis = rng.randrange(v.nd.ndim)
    if not v.nd.shape[axis]:
        return v
    name = rng.choice(aggs)
    extra = {}
    if name == 'mean' and rng.random() < .2:
        extra['mdtol'] = rng.choice([0, 0.25, 0.5, 0.9])
    return aggregate(v, name, axis, **extra)


def graph(rng, pool, depth, ndim=None, **kw):
    if ndim is None:
        ndim = rng.randint(0, 2)
    return build(rng, pool, depth, ndim, **kw)


def check(what, result, v, masked):
    compare(what, result, v.mk if masked else v.nd, mag_of(v), masked)


def compare(what, result, expected, mag, masked):
    """Like check_nd/check_ma, but within rounding of the magnitude."""
    if masked:
        if not ma.isMaskedArray(result):
            raise Bad('%s: %s is not a MaskedArray' % (what, show(result)))
        if not np.array_equal(ma.getmaskarray(result),
                              ma.getmaskarray(expected)):
            raise Bad('%s: mask differs: got %s expected %s' % (
                what, show(result), show(expected)))
        keep = ~ma.getmaskarray(expected)
        r = ma.getdata(result)
        e = ma.getdata(expected)
    else:
        if not isinstance(result, np.ndarray) or ma.isMaskedArray(result):
            raise Bad('%s: %s is not an ndarray' % (what, show(result)))
        r, e = result, expected
        keep = np.ones(e.shape, bool)
    if r.shape != e.shape:
        raise Bad('%s: shape %s, expected %s' % (what, r.shape, e.shape))
    if r.dtype != e.dtype:
        raise Bad('%s: dtype %s, expected %s' % (what, r.dtype, e.dtype))
    r = r[keep]
    e = e[keep]
    if e.dtype.kind in 'iub':
        ok = np.array_equal(r, e)
    else:
        rel = 2e-3 if e.dtype.itemsize == 4 else 1e-6
        r = r.astype('f8')
        e = e.astype('f8')
        same = (r == e) | (np.isnan(r) & np.isnan(e))
        close = np.abs(r - e) <= rel * mag
        ok = bool(np.all(same | close))
    if not ok:
        raise Bad('%s: values %s, expected %s' % (what, show(result),
                                                  show(expected)))
