"""C01: indexing a wrapped data source is orthogonal, and composes."""
import numpy as np
import numpy.ma as ma

from .. import gen
from ..common import index, kinds_of_keys, check_content
from ..ref import Bad, ortho
from ..src import Source
from ..env import biggus

CASES = {'quick': 24000, 'thorough': 500000}
RULE = ('random data (0-4 dimensions, 24 dtypes, masked or not) behind a '
        'NumPy-style source, an orthogonal source or a plain ndarray, '
        'indexed 1-4 times in a row with random keys; non-trivial: a '
        'distinct combination of source kind, dimensions and kinds of keys '
        'which selects at least one element')
MUST_OBSERVE = {'indexed': 1000, 'evaluations': 2000, 'masked_elements': 100}
ASSUMPTIONS = ['NumPy indexing one axis at a time is the reference for '
               'orthogonal indexing']


def case(rng, ctx):
    dtype = rng.choice(gen.NUMERIC + gen.OTHER + gen.CPLX)
    shp = gen.shape(rng, 0, 4)
    a = gen.data(rng, shp, dtype, masked=0.35)
    kind = rng.choice(['numpy', 'ortho', 'plain'])
    source = a
    if kind != 'plain':
        source = Source(a, style=kind)
        source.plain = rng.random() < .3
    cls = (biggus.OrthoArrayAdapter if kind == 'ortho'
           else biggus.NumpyArrayAdapter)
    desc = '%s<%s%s%s>' % (kind, shp, np.dtype(dtype),
                           ' ma' if ma.isMaskedArray(a) else '')
    nd, mk = gen.filled(a), ma.asanyarray(a)
    sig = [kind, len(shp), ma.isMaskedArray(a)]
    if rng.random() < 0.2 and shp:
        # Keys given to the constructor.
        ks = tuple(gen.axis_key(rng, n, empty=0.02)
                   for n in shp[:rng.randint(1, len(shp))])
        v = gen.V(cls(source, ks), ortho(nd, ks), ortho(mk, ks),
                  desc + 'keys=' + gen.kdesc(ks), (kind,))
        sig.append(kinds_of_keys(ks))
        ctx.count('indexed')
    else:
        v = gen.V(cls(source), nd, mk, desc, (kind,))
    ctx.desc = v.desc
    for i in range(rng.randint(1, 4)):
        parent = v
        k = gen.keys(rng, v.nd.shape, newaxis=0.03 if i else 0.06,
                     empty=0.05)
        ctx.desc = v.desc + gen.kdesc(k)
        v = index(rng, ctx, v, k)
        sig.append(kinds_of_keys(k))
        if rng.random() < 0.1:
            check_content(rng, ctx, parent, engine=0)
    ctx.desc = v.desc
    check_content(rng, ctx, v, engine=0.15)
    if 'newaxis' not in v.kinds and ma.isMaskedArray(a):
        # The fill-value of the source belongs to all of its parts.
        for what, got in [('fill_value', v.arr.fill_value),
                          ('masked_array().fill_value',
                           v.arr.masked_array().fill_value)]:
            want = a.fill_value
            if not same_fill(got, want, a.dtype):
                raise Bad('%s is %r, expected %r' % (what, got, want))
    if v.nd.size:
        ctx.nontrivial(*sig)


def same_fill(x, y, dtype):
    # (NumPy keeps fill-values which are too big for the dtype.)
    x = np.asarray(x).astype(dtype)
    y = np.asarray(y).astype(dtype)
    if x.dtype.kind in 'SU' or y.dtype.kind in 'SU':
        return x.tolist() == y.tolist()
    if x.dtype.kind in 'mM':
        return str(x) == str(y)
    return bool(x == y) or bool(x != x and y != y)
