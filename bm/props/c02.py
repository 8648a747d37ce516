"""C02: stacks and mosaics place every element of their parts."""
import numpy as np
import numpy.ma as ma

from .. import gen
from ..common import index, kinds_of_keys, check_content
from ..ref import Skip, check_nd, check_ma
from ..env import biggus

CASES = {'quick': 13000, 'thorough': 300000}
RULE = ('random nests of ArrayStacks (1-5 dimensional, C and Fortran order) '
        'and LinearMosaics (any axis, uneven and empty tiles) over masked '
        'and unmasked data, indexed 0-3 times; a history of item '
        'replacements for some stacks; non-trivial: a distinct combination '
        'of nesting, dimensions and kinds of keys which selects at least '
        'one element')
MUST_OBSERVE = {'indexed': 1000, 'evaluations': 2000, 'stacks': 300,
                'mosaics': 300, 'replacements': 50}
ASSUMPTIONS = ['NumPy stacking/concatenation of the parts is the reference']
DTYPES = gen.NUMERIC + gen.OTHER + gen.CPLX


def part(rng, shp, dtype, depth, offset):
    if depth <= 0:
        if rng.random() < 0.1:
            return gen.constant(rng, shp, dtype)
        return gen.leaf(rng, shp, dtype, 0.35, offset=offset)
    return container(rng, shp, dtype, depth, offset)


def container(rng, shp, dtype, depth, offset=0):
    """A stack or a mosaic with exactly the given shape."""
    kinds = []
    if len(shp) >= 1 and all(n for n in shp):
        kinds = ['stack', 'mosaic']
        if len(shp) >= 2:
            kinds.append('stackn')
    if not kinds:
        return gen.leaf(rng, shp, dtype, 0.35, offset=offset)
    kind = rng.choice(kinds)
    if kind.startswith('stack'):
        n = rng.choice([2, 2, 3, 3, 4, 5]) if kind == 'stackn' else 1
        n = min(n, len(shp))
        items = [part(rng, shp[n:], dtype, depth - 1 if rng.random() < .6
                      else 0, offset + 700 * i)
                 for i in range(int(np.prod(shp[:n])))]
        return gen.stack(rng, items, shp[:n])
    axis = rng.randrange(len(shp))
    left = shp[axis]
    tiles = []
    while left:
        n = rng.randint(0 if rng.random() < .1 else 1, left)
        s = list(shp)
        s[axis] = n
        tiles.append(part(rng, tuple(s), dtype, depth - 1
                          if rng.random() < .6 else 0,
                          offset + 700 * len(tiles)))
        left -= n
    if rng.random() < .05:
        s = list(shp)
        s[axis] = 0
        tiles.insert(rng.randint(0, len(tiles)),
                     gen.leaf(rng, tuple(s), dtype))
    return gen.mosaic(rng, tiles, axis)


def case(rng, ctx):
    dtype = rng.choice(DTYPES)
    if rng.random() < .15:
        shp = gen.shape(rng, 3, 6, maxlen=4, maxsize=100)
    else:
        shp = gen.shape(rng, 1, 4, maxlen=5, maxsize=120)
    v = container(rng, shp, dtype, rng.choice([1, 1, 2, 3]))
    ctx.desc = v.desc
    ctx.count('stacks', 'stack' in v.kinds)
    ctx.count('mosaics', 'mosaic' in v.kinds)
    if v.nd.shape != shp:
        raise Skip()
    if rng.random() < .3:
        check_content(rng, ctx, v)
    sig = [v.desc.count('stack'), v.desc.count('mosaic'), len(shp)]
    for i in range(rng.randint(0, 3)):
        k = gen.keys(rng, v.nd.shape, newaxis=0.03, empty=0.05)
        ctx.desc = v.desc + gen.kdesc(k)
        v = index(rng, ctx, v, k)
        sig.append(kinds_of_keys(k))
    ctx.desc = v.desc
    check_content(rng, ctx, v, engine=0.15)
    if v.nd.size:
        ctx.nontrivial(*sig)
    if rng.random() < 0.1:
        replace_items(rng, ctx, dtype)


def expected_items(items, ss, shp):
    nd = np.empty(ss + shp, dtype=items[0].nd.dtype)
    md = np.empty_like(nd)
    mm = np.zeros(nd.shape, bool)
    for ix, v in zip(np.ndindex(*ss), items):
        nd[ix] = v.nd
        md[ix] = ma.getdata(v.mk)
        mm[ix] = ma.getmaskarray(v.mk)
    return nd, ma.array(md, mask=mm)


def replace_items(rng, ctx, dtype):
    """A stack's items can be replaced; existing selections don't change."""
    shp = gen.shape(rng, 0, 2, maxlen=3)
    ss = rng.choice([(2,), (3,), (2, 2), (2, 3)])
    n = int(np.prod(ss))
    items = [gen.leaf(rng, shp, dtype, 0.3, offset=500 * i)
             for i in range(n)]
    arrs = np.empty(n, dtype='O')
    for i, v in enumerate(items):
        arrs[i] = v.arr
    stack = biggus.ArrayStack(arrs.reshape(ss))
    # Another stack of the same items, and what was given, are independent.
    other = biggus.ArrayStack(arrs if rng.random() < .5 else arrs.reshape(ss))
    before = expected_items(items, other.shape[:other.ndim - len(shp)], shp)
    model = list(items)
    taken = []

    def expected(k):
        from ..ref import ortho
        nd, mk = expected_items(model, ss, shp)
        return np.array(ortho(nd, k)), ma.array(ortho(mk, k), copy=True)

    ctx.desc = 'item replacement %s of %s' % (ss, items[0].desc)
    for step in range(rng.randint(2, 5)):
        k = gen.keys(rng, ss + shp, newaxis=0)
        taken.append((stack[k], expected(k), gen.kdesc(k)))
        i = rng.randrange(n)
        new = gen.leaf(rng, shp, dtype, 0.3, offset=9000 + 500 * step)
        stack[tuple(int(j) for j in np.unravel_index(i, ss))] = new.arr
        model[i] = new
        ctx.count('replacements')
        if rng.random() < .3:
            # What becomes of the argument doesn't matter.
            arrs[rng.randrange(n)] = new.arr
    taken.append((stack[...], expected(Ellipsis), '...'))
    taken.append((other, before, 'another stack'))
    for arr, (nd, mk), what in taken:
        check_nd('selection %s' % what, arr.ndarray(), nd)
        check_ma('selection %s' % what, arr.masked_array(), mk)
