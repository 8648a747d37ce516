"""C12: statistics are computed accurately, in bounded precision loss."""
from fractions import Fraction

import numpy as np
import numpy.ma as ma

from .. import gen
from ..ref import Bad, Skip, show
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 3500, 'thorough': 100000}
RULE = ('mean, std and var of data whose offset is up to 1e7 times their '
        'spread, of integers near the extremes of their dtype and of long '
        'series, plain and masked, whole and in chunks, against exact '
        'rational arithmetic; non-trivial: a distinct operation, dtype, '
        'size of offset, chunk size and masking')
MUST_OBSERVE = {'evaluations': 4000, 'hard': 1000, 'small_int': 300, 'half': 300,
                'masked': 500}
ASSUMPTIONS = ['the error of a standard deviation may grow with n times the '
               'square root (not the square) of the condition of the data: '
               '8*n*eps*kappa, where kappa**2 = 1 + mean**2/var',
               'results are in the advertised dtype']


def exact(values, name, ddof):
    vs = [Fraction(x) for x in values]
    n = len(vs)
    m = sum(vs) / n
    if name == 'mean':
        return float(m), None
    q = sum((x - m) ** 2 for x in vs)
    var = q / n
    kappa = float(1 + (m * m) / var) ** .5 if var else None
    r = float(q / (n - ddof))
    if name == 'std':
        r = r ** .5
    return r, kappa


def case(rng, ctx):
    masked = rng.random() < .5
    name = rng.choice(['mean', 'std', 'var'])
    long = rng.random() < .1
    n = rng.randint(300, 1500) if long else rng.randint(2, 40)
    m = 1 if long else rng.randint(1, 4)
    kind = rng.choice(['int', 'f8', 'f8', 'f4', 'big', 'f2'])
    state = np.random.RandomState(rng.randrange(2 ** 31))
    offset = 0
    if kind == 'int':
        dt = np.dtype(rng.choice(['i1', 'u1', 'i2', 'u2', '>i2']))
        info = np.iinfo(dt)
        lo = rng.choice([info.min, info.max - 10, info.max - 100,
                         info.max // 2])
        data = state.randint(int(lo), int(info.max) + 1,
                             size=(n, m)).astype(dt)
    elif kind == 'big':
        dt = np.dtype(rng.choice(['i4', 'u4', 'i8', '>i4']))
        offset = rng.choice([10 ** 6, 2 ** 30, 2 ** 31 - 2000])
        data = (state.randint(0, 1000, size=(n, m)) + offset).astype(dt)
    elif kind == 'f2':
        dt = np.dtype(rng.choice(['f2', '>f2']))
        offset = rng.choice([0, 1, 100, -100])
        data = (state.randn(n, m) * rng.choice([1, 10, 30]) +
                offset).clip(-240, 240).astype(dt)
    else:
        dt = np.dtype(kind)
        offset = rng.choice([0, 1, 1e2, 1e4, 1e6, 1e7] if kind == 'f8' else
                            [0, 1, 1e2, 1e3]) * rng.choice([1, -1])
        data = (state.randn(n, m) + offset).astype(dt)
    mask = np.zeros(data.shape, bool)
    if masked:
        mask = state.rand(n, m) < rng.choice([0, .1, .4, .8])
        a = ma.array(data, mask=mask)
    else:
        a = data
    axis = rng.randint(0, 1)
    if axis:
        a = a.T
        data, mask = data.T, mask.T
    ddof = rng.choice([0, 0, 1]) if name != 'mean' else 0
    kw = {'ddof': ddof} if name != 'mean' else {}
    v = gen.wrap(rng, a)
    chunk = rng.choice([1, 2, 3, 5, 7, 16, 100, DEFAULT_CHUNK]) \
        if not long else rng.choice([20, 100, DEFAULT_CHUNK])
    ctx.desc = '%s(%s offset=%g, axis=%d, %s) chunk=%d' % (
        name, v.desc, offset, axis, kw, chunk)
    arr = getattr(biggus, name)(v.arr, axis=axis, **kw)
    eps = np.finfo(arr.dtype).eps
    rounding = 0
    if kind == 'f2':
        # Half precision is for the result, but not good enough to get there.
        rounding, eps = 4 * eps, np.finfo('f4').eps
    with chunk_size(chunk):
        r = arr.masked_array() if masked else arr.ndarray()
    rows = data.T if axis == 0 else data
    masks = mask.T if axis == 0 else mask
    rm = ma.getmaskarray(r)
    for i, (row, hide) in enumerate(zip(rows, masks)):
        values = [x.item() for x in row[~hide]]
        if len(values) <= ddof or not values:
            if not rm[i]:
                raise Bad('element %d of %s should be masked' % (i, show(r)))
            continue
        if rm[i]:
            raise Bad('element %d of %s should not be masked'
                      % (i, show(r)))
        want, kappa = exact(values, name, ddof)
        got = float(ma.getdata(r)[i])
        k = len(values)
        biggest = max(abs(float(x)) for x in values)
        if name == 'mean':
            tol = 2 * k * eps * biggest
        elif kappa is None:
            # All the same value.
            tol = (8 * k * eps * biggest) ** (2 if name == 'var' else 1)
        else:
            tol = 8 * (k + 4) * eps * kappa * want
            tol += 64 * eps * eps * biggest ** (
                2 if name == 'var' else 1) * k * k
        tol += rounding * abs(want)
        if kind == 'f2':
            # Subnormal results.
            tol += 1e-6
        if not abs(got - want) <= tol:
            raise Bad('element %d is %r, but exactly %r (difference %g, '
                      'allowed %g)' % (i, got, want, abs(got - want), tol))
        ctx.count('hard', int(bool(kappa and kappa > 100)))
        ctx.count('evaluations')
    ctx.count('small_int', int(kind == 'int'))
    ctx.count('half', int(kind == 'f2'))
    ctx.count('masked', int(masked and mask.any()))
    ctx.nontrivial(name, dt.str, int(np.log10(abs(offset) + 1)), chunk,
                   bool(mask.any()), ddof, axis)
