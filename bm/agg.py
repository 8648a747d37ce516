"""Random aggregations with their meaning, and how close they must be."""
import numpy as np
import numpy.ma as ma

from . import elem, expr, gen
from .env import biggus
from .ref import Bad, Skip, show

DTYPES = ['f8', 'f8', 'f4', 'i4', 'i8', 'i2', 'u1', 'i1', 'u2', 'u4', '>i4',
          '>f8', '>f4', 'c8', 'c16', 'u8']


def values(rng, shp, dtype, special=0.0):
    """Data in which every element matters."""
    dtype = np.dtype(dtype)
    state = np.random.RandomState(rng.randrange(2 ** 31))
    n = int(np.prod(shp)) if shp else 1
    kind = rng.random()
    if dtype.kind in 'iu':
        info = np.iinfo(dtype)
        if kind < .3:
            lo, hi = info.min, info.max
        elif kind < .4:
            lo, hi = info.max - 5, info.max
        else:
            lo, hi = (-50 if dtype.kind == 'i' else 0), 100
        a = np.array([rng.randint(int(lo), int(hi)) for _ in range(n)],
                     dtype=dtype.newbyteorder('='))
    elif dtype.kind == 'f':
        scale = rng.choice([1, 1, 10, 1e-3, 1e6])
        offset = rng.choice([0, 0, 1, -5]) * scale
        a = state.randn(n) * scale + offset
        if kind < .3:
            a = np.round(a / scale) * scale
        if rng.random() < special:
            for _ in range(rng.randint(1, 2)):
                a[rng.randrange(n)] = rng.choice(
                    [np.nan, np.inf, -np.inf, -0.0])
    else:
        a = state.randn(n) + 1j * state.randn(n)
    return a.astype(dtype).reshape(shp)


def masked_values(rng, shp, dtype):
    a = values(rng, shp, dtype)
    n = a.size
    p = rng.choice([0.0, 0.1, 0.3, 0.6, 0.9, 1.0])
    mask = np.array([rng.random() < p for _ in range(n)],
                    dtype=bool).reshape(shp)
    if rng.random() < .3 and len(shp) > 1:
        # Whole stripes.
        axis = rng.randrange(len(shp))
        k = [slice(None)] * len(shp)
        k[axis] = rng.randrange(shp[axis])
        mask[tuple(k)] = rng.random() < .7
    if rng.random() < .5 and n:
        # What's behind the mask doesn't matter.
        junk = {'i': [99], 'u': [99], 'f': [1e30, 77, 0, np.nan, np.inf],
                'c': [1e30, 5j]}[a.dtype.kind]
        a[mask] = rng.choice(junk)
    r = ma.array(a, mask=mask)
    if not mask.any() and rng.random() < .5:
        r = ma.array(a)
    return r


class Case(object):
    pass


def leaf(rng, shp, dtype, masked, special):
    if masked and rng.random() < .85:
        a = masked_values(rng, shp, dtype)
    else:
        a = values(rng, shp, dtype, special)
    how = rng.random()
    if how < .5:
        return gen.wrap(rng, a)
    if how < .6 and len(shp) > 1:
        items = [gen.wrap(rng, a[i]) for i in range(shp[0])]
        return gen.stack(rng, items, (shp[0],))
    if how < .75:
        axis = rng.randrange(len(shp))
        n = shp[axis]
        if n > 1:
            cut = rng.randint(1, n - 1)
            k = [slice(None)] * len(shp)
            k[axis] = slice(0, cut)
            first = gen.wrap(rng, a[tuple(k)])
            k[axis] = slice(cut, None)
            return gen.mosaic(rng, [first, gen.wrap(rng, a[tuple(k)])], axis)
        return gen.wrap(rng, a)
    if how < .85:
        axes = list(range(len(shp)))
        rng.shuffle(axes)
        inverse = [axes.index(i) for i in range(len(axes))]
        v = gen.wrap(rng, a.transpose(inverse))
        return gen.V(v.arr.transpose(axes), v.nd.transpose(axes),
                     v.mk.transpose(axes), 'T%s(%s)' % (axes, v.desc),
                     v.kinds | {'transpose'}, v.sources)
    if how < .92:
        big = gen.wrap(rng, np.repeat(a, 2, axis=0)
                       if not ma.isMaskedArray(a) else
                       ma.array(np.repeat(ma.getdata(a), 2, axis=0),
                                mask=np.repeat(ma.getmaskarray(a), 2,
                                               axis=0)))
        return gen.index(rng, big, (slice(None, None, 2),))
    axis = rng.randrange(len(shp))
    if shp[axis] == 1:
        n = rng.randint(1, 5)
        return gen.bcast(gen.wrap(rng, a), {axis: n}, ())
    return gen.wrap(rng, a)


def make(rng, masked=False, special=0.0, names=None, maxsize=150):
    dtype = rng.choice(DTYPES)
    shp = gen.shape(rng, 1, 4 if rng.random() < .2 else 3, maxlen=7,
                    maxsize=maxsize)
    v = leaf(rng, shp, dtype, masked, special)
    name = rng.choice(names or expr.AGG)
    nd = v.nd.ndim
    axis = rng.randrange(nd)
    n = v.nd.shape[axis]
    kw = {}
    if name in ('std', 'var') and rng.random() < .5:
        kw['ddof'] = rng.choice([0, 1, 1, 2, 3, max(0, n - 1)])
    if name == 'mean' and rng.random() < .6:
        kw['mdtol'] = rng.choice([0, 1, 0.5, 0.25, 0.9, 0.99,
                                  rng.randint(0, n) / float(n),
                                  rng.randint(0, n) / float(n)])
    c = Case()
    c.v = v
    c.name = name
    c.axis = axis
    c.given_axis = rng.choice([axis, axis, axis - nd, (axis,), [axis],
                               np.int64(axis), 'iter', np.array([axis])])
    c.kw = kw
    c.ddof = kw.get('ddof', 0)
    c.n = n
    c.desc = '%s(%s, axis=%r%s)' % (name, v.desc, c.given_axis, ''.join(
        ', %s=%r' % x for x in kw.items()))

    def build():
        given = c.given_axis
        if isinstance(given, str):
            given = iter([axis])
        elif isinstance(given, (list, np.ndarray)):
            given = given[:] if isinstance(given, list) else given.copy()
        result = getattr(biggus, name)(v.arr, axis=given, **kw)
        gen.spoil(given)
        return result
    c.build = build
    c.sig = (name, v.nd.dtype.str, nd, axis, n, tuple(sorted(kw.items())),
             tuple(sorted(v.kinds)))
    return c


def tolerance(name, data, axis, ddof, valid=None):
    """
    How far apart two correct ways of computing the result may be: a few
    roundings per element.
    """
    n = data.shape[axis]
    dtype = expr.agg_dtype(name, data.dtype)
    if name in ('min', 'max', 'count') or dtype.kind in 'iu':
        return 0.0
    eps = np.finfo(dtype).eps
    size = np.abs(data.astype('c16' if data.dtype.kind == 'c' else 'f8'))
    if valid is not None:
        size = np.where(valid, size, 0)
    size = np.where(np.isfinite(size), size, 0)
    total = size.sum(axis=axis)
    big = size.max(axis=axis) if n else total
    if name == 'sum':
        return 2 * n * eps * total + 1e-300
    if name == 'mean':
        return 4 * n * eps * big + 1e-300
    count = n if valid is None else valid.sum(axis=axis)
    d = np.maximum(count - ddof, 1)
    var = 16 * n * eps * big * big * (count / d) + 1e-300
    if name == 'var':
        return var
    return np.sqrt(var)


def close(what, r, e, tol, keep=None):
    """r and e differ by no more than `tol` where `keep`."""
    r = np.asarray(ma.getdata(r))
    e = np.asarray(ma.getdata(e))
    if r.shape != e.shape:
        raise Bad('%s: shape %s, expected %s' % (what, r.shape, e.shape))
    if r.dtype != e.dtype:
        raise Bad('%s: dtype %s, expected %s' % (what, r.dtype, e.dtype))
    tol = np.broadcast_to(tol, e.shape)
    if keep is not None:
        r, e, tol = r[keep], e[keep], tol[keep]
    if e.dtype.kind in 'iub':
        ok = np.array_equal(r, e)
    else:
        parts = [(r.real, e.real), (r.imag, e.imag)] \
            if e.dtype.kind == 'c' else [(r, e)]
        ok = True
        for x, y in parts:
            x = x.astype('f8')
            y = y.astype('f8')
            same = (x == y) | (np.isnan(x) & np.isnan(y))
            with np.errstate(all='ignore'):
                ok = ok and bool(np.all(same | (np.abs(x - y) <= tol)))
    if not ok:
        raise Bad('%s: values %s, expected %s (within %s)'
                  % (what, show(r), show(e), show(tol)))


def check_masked(what, r, e, tol):
    if not ma.isMaskedArray(r) or r is ma.masked:
        raise Bad('%s: %s is not a MaskedArray' % (what, show(r)))
    em = ma.getmaskarray(e)
    if r.shape != e.shape:
        raise Bad('%s: shape %s, expected %s' % (what, r.shape, e.shape))
    if not np.array_equal(ma.getmaskarray(r), em):
        raise Bad('%s: mask differs: got %s, expected %s'
                  % (what, show(r), show(e)))
    close(what, r, e, tol, ~em)


def check_plain(what, r, e, tol):
    if not isinstance(r, np.ndarray) or ma.isMaskedArray(r):
        raise Bad('%s: %s is not an ndarray' % (what, show(r)))
    close(what, r, e, tol)
