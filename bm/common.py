"""Shared pieces of the property modules."""
import numpy as np
import numpy.ma as ma

from . import gen
from .env import biggus, chunk_size, DEFAULT_CHUNK
from .ref import (Bad, Skip, check_nd, check_ma, is_int, show,  # noqa
                  same_values)

CHUNKS = [1, 2, 3, 4, 5, 7, 12, 50, DEFAULT_CHUNK]


def has_seq(k):
    ks = k if isinstance(k, tuple) else (k,)
    return any(isinstance(x, (tuple, list, np.ndarray)) for x in ks)


def is_viewed(v):
    """Whether sequence keys may be refused with NotImplementedError."""
    return bool(v.kinds & {'broadcast', 'newaxis'})


def index(rng, ctx, v, k=None, **kw):
    """Index a `V`; sequence keys may be refused for virtual dimensions."""
    if k is None:
        k = gen.keys(rng, v.nd.shape, **kw)
    try:
        r = gen.index(rng, v, k)
    except NotImplementedError:
        if has_seq(k) and is_viewed(v):
            ctx.count('refused_sequence_keys')
            raise Skip()
        raise
    newaxis = any(x is None for x in (k if isinstance(k, tuple) else (k,)))
    if newaxis:
        r.kinds = r.kinds | {'newaxis'}
    ctx.count('indexed')
    return r


def kinds_of_keys(k):
    def one(x):
        if x is None:
            return 'new'
        if x is Ellipsis:
            return 'ell'
        if is_int(x):
            return 'int-' if x < 0 else 'int'
        if isinstance(x, slice):
            return 'sl%s%s' % ('-' if (x.step or 1) < 0 else '',
                               '' if x == slice(None) else 'p')
        if isinstance(x, np.ndarray):
            return 'b' if x.dtype == bool else 'a'
        return 't%d' % min(len(x), 2)
    return tuple(map(one, k if isinstance(k, tuple) else (k,)))


def check_meta(v_arr, expected):
    if tuple(v_arr.shape) != tuple(expected.shape):
        raise Bad('shape %s, expected %s' % (v_arr.shape, expected.shape))
    if v_arr.dtype != expected.dtype:
        raise Bad('dtype %s, expected %s' % (v_arr.dtype, expected.dtype))


def check_fill(arr, results):
    """The advertised fill-value is that of the (what, result) pairs."""
    # (The default ones of NumPy are not even representable in some types.)
    want = np.asarray(arr.fill_value).astype(arr.dtype)
    for what, r in results:
        got = np.asarray(r.fill_value).astype(arr.dtype)
        # (NumPy rounds the default one to the type of the data once it is
        # looked at.)
        if not same_values(got, want, 2e-3 if arr.dtype.kind in 'fc'
                           else None):
            raise Bad('%s has the fill-value %r, advertised %r'
                      % (what, r.fill_value, arr.fill_value))


def check_content(rng, ctx, v, engine=0.4, twice=0.1):
    """Every way of evaluating `v` gives what NumPy gives."""
    check_meta(v.arr, v.nd)
    check_nd('ndarray()', v.arr.ndarray(), v.nd)
    check_ma('masked_array()', v.arr.masked_array(), v.mk)
    ctx.count('evaluations', 2)
    ctx.count('elements', v.nd.size)
    ctx.count('masked_elements', int(ma.getmaskarray(v.mk).sum()))
    if rng.random() < engine:
        size = rng.choice(CHUNKS)
        if v.nd.size / float(size) > 150:
            size = DEFAULT_CHUNK
        with chunk_size(size):
            check_nd('ndarrays([.]) chunk=%d' % size,
                     biggus.ndarrays([v.arr])[0], v.nd)
            check_ma('masked_arrays([.]) chunk=%d' % size,
                     biggus.masked_arrays([v.arr])[0], v.mk)
        ctx.count('evaluations', 2)
    if rng.random() < twice:
        check_nd('second ndarray()', v.arr.ndarray(), v.nd)
        a = np.asarray(v.arr)
        check_nd('np.asarray()', a, v.nd)
