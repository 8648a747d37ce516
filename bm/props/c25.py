"""C25: copies are faithful and deep ones independent."""
import copy
import pickle

import numpy as np
import numpy.ma as ma

from .. import elem, expr, gen
from ..common import CHUNKS
from ..ref import Bad, Skip, check_ma, check_nd
from ..src import Source
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 3500, 'thorough': 100000}
RULE = ('random containers, elementwise operations, aggregations and '
        'expression graphs over recording sources are copied (shallowly, '
        'deeply, by pickling with each protocol, up to 3 times over, on '
        'their own, together or as part of another object), compared with '
        'the original in every respect, evaluated (in several chunks too), '
        'and evaluated again after the data of the original were '
        'overwritten or items of the stacks replaced; non-trivial: a '
        'distinct structure and sequence of copies')
MUST_OBSERVE = {'copies': 2500, 'evaluations': 4000, 'overwritten': 800,
                'replaced': 200, 'pickles': 1000, 'deep': 1500,
                'economy': 800, 'shared': 400,
                'shared replaced': 20}
ASSUMPTIONS = ['the data source itself can be copied or pickled (this '
               'NumPy has trouble with big-endian, bool and uint8 data, '
               'and with protocol 5, which are left out)',
               'a shallow copy shares the data source']

DEEP = {
    'deep': copy.deepcopy,
    'deep list': lambda a: copy.deepcopy([a, 1])[0],
    'deep dict': lambda a: copy.deepcopy({'x': {'y': a}})['x']['y'],
}
for _p in (2, 3, 4):
    DEEP['pickle%d' % _p] = (lambda a, _p=_p:
                             pickle.loads(pickle.dumps(a, _p)))


def subject(rng):
    masked = rng.random() < .5
    r = rng.random()
    if r < .5:
        dt = rng.choice(['f8', 'i4', 'i8', 'f4', 'S3', 'c8'])
        v = gen.structural(rng, rng.randint(0, 3), dt,
                           masked=gen.share(rng, masked))
        if rng.random() < .15:
            v = gen.astyped(rng, v, rng.choice(['f4', 'f8']
                                               if dt != 'S3' else ['S2']))
    elif r < .6:
        op = elem.make(rng, 0)
        try:
            arr = op.build()
            nd = op.nd()
        except Exception:
            raise Skip()
        if any(p.nd.dtype.str in ('|b1', '|u1') or
               p.nd.dtype.str[0] == '>' or not p.nd.size
               for p in op.parts):
            raise Skip()
        v = gen.V(arr, nd, ma.array(nd), op.desc, (op.name,),
                  [s for p in op.parts for s in p.sources])
        return False, v, False
    else:
        pool = expr.Pool(rng, masked=gen.share(rng, masked), maxlen=4)
        v = expr.graph(rng, pool, rng.randint(1, 3))
    return masked, v, True


def describe(arr):
    f = arr.fill_value
    if np.asarray(f).dtype.kind in 'fc':
        # (NumPy rounds the default one to the type of the data once it is
        # looked at.)
        f = '%.5g%+.5gj' % (np.real(f), np.imag(f))
    return (type(arr).__name__, tuple(arr.shape), arr.dtype.str, arr.ndim,
            arr.nbytes, str(arr), repr(arr), str(f))


def evaluate(rng, ctx, what, arr, v, masked, can_mask, tight):
    chunk = DEFAULT_CHUNK
    if rng.random() < .4 and v.nd.size <= 150:
        biggest = max([1] + [int(np.prod(s.shape)) for s in v.sources])
        sizes = [c for c in CHUNKS if biggest <= 30 * c]
        chunk = rng.choice(sizes)
    what = '%s chunk=%d' % (what, chunk)
    with chunk_size(chunk):
        if masked:
            r, = biggus.masked_arrays([arr])
        else:
            r, = biggus.ndarrays([arr])
    compare(what, r, v, masked, tight)
    ctx.count('evaluations')


def compare(what, r, v, masked, tight):
    if tight:
        (check_ma if masked else check_nd)(what, r,
                                           v.mk if masked else v.nd,
                                           tol=1e-5, dtype=False)
    else:
        expr.check(what, r, v, masked)


def case(rng, ctx):
    masked, v, can_mask = subject(rng)
    tight = not hasattr(v, 'mag')
    ctx.desc = 'copies of %s' % v.desc
    if any(s.dtype.byteorder == '>' for s in v.sources):
        raise Skip()
    del Source.restored[:]
    for s in v.sources:
        s.reset()
    arr = v.arr
    before = describe(arr)
    how = []
    c = arr
    deep = False
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        name = rng.choice(list(DEEP) + ['shallow'])
        c = copy.copy(c) if name == 'shallow' else DEEP[name](c)
        deep = deep or name != 'shallow'
        how.append(name)
        ctx.count('copies')
        ctx.count('pickles', int(name.startswith('pickle')))
        if describe(c) != before:
            raise Bad('%s: the copy is %s instead of %s'
                      % (how, describe(c), before))
    ctx.count('deep', int(deep))
    if describe(arr) != before:
        raise Bad('copying changed the original')
    if any(s.reads for s in list(v.sources) + Source.restored):
        raise Bad('%s read data' % how)

    def ev(what, a):
        evaluate(rng, ctx, '%s %s' % (how, what), a, v, masked, can_mask,
                 tight)

    order = ['copy', 'original', 'together', 'economy']
    rng.shuffle(order)
    for step in order[:rng.randint(2, 4)]:
        if step == 'copy':
            ev('copy', c)
            if deep and any(s.reads for s in v.sources):
                raise Bad('%s: evaluating the copy read the original\'s '
                          'source' % how)
            # The original's reads are of interest the next time too.
            for s in v.sources:
                s.reset()
        elif step == 'original':
            ev('original', arr)
            for s in v.sources:
                s.reset()
        elif step == 'together':
            rs = (biggus.masked_arrays if masked else biggus.ndarrays)(
                [arr, c, arr][:rng.randint(2, 3)])
            for r in rs:
                compare('%s together' % how, r, v, masked, tight)
            ctx.count('evaluations')
            for s in v.sources:
                s.reset()
        elif deep:
            economy(ctx, how, arr, c, v, masked)
    # The original's data can change.
    if rng.random() < .5 and deep:
        v.nd, v.mk = v.nd.copy(), v.mk.copy()
        for s in set(v.sources):
            if s._data.size:
                s._data[...] = s._data.dtype.type(1)
        ctx.count('overwritten')
        ev('copy of overwritten data', c)
    ctx.nontrivial(tuple(sorted(v.kinds)), tuple(how), masked)
    if rng.random() < .15:
        replaced(rng, ctx)
    if rng.random() < .25:
        shared(rng, ctx)


def economy(ctx, how, arr, c, v, masked):
    """A deep copy shares what the original shares."""
    f = biggus.masked_arrays if masked else biggus.ndarrays
    for s in list(v.sources) + Source.restored:
        s.reset()
    f([arr])
    original = sorted(s.total for s in set(v.sources) if s.total)
    for s in list(v.sources) + Source.restored:
        s.reset()
    f([c])
    copied = sorted(s.total for s in set(Source.restored) if s.total)
    if copied != original:
        raise Bad('%s: the copy reads %s elements of its sources, the '
                  'original %s' % (how, copied, original))
    ctx.count('economy')
    for s in v.sources:
        s.reset()


def replaced(rng, ctx):
    """Replacing items of a stack leaves its deep copies alone."""
    shp = gen.shape(rng, 0, 2, maxlen=3)
    ss = rng.choice([(2,), (3,), (2, 2), (2, 3), (3, 2), (2, 1, 3)])
    order = rng.choice('CF')
    n = int(np.prod(ss))
    items = [gen.leaf(rng, shp, 'f8', .3, offset=500 * i) for i in range(n)]
    arrs = np.empty(n, dtype='O')
    arrs[:] = [x.arr for x in items]
    v = items[0]
    v.arr = biggus.ArrayStack(np.array(arrs.reshape(ss), order=order))
    v.nd = np.array([x.nd for x in items]).reshape(ss + shp)
    v.mk = ma.array(np.array([ma.getdata(x.mk) for x in items]),
                    mask=np.array([ma.getmaskarray(x.mk) for x in items])
                    ).reshape(ss + shp)
    v.desc = 'stack%s %s of %s' % (order, ss, v.desc)
    name = rng.choice(list(DEEP))
    c = DEEP[name](v.arr)
    ctx.desc = '%s of %s, items replaced' % (name, v.desc)
    new = gen.leaf(rng, shp, 'f8', 0, offset=9000)
    k = tuple(rng.randrange(m) for m in ss)
    target, other = (v.arr, c) if rng.random() < .5 else (c, v.arr)
    target[k] = new.arr
    check_ma('the other one', other.masked_array(), v.mk)
    nd = np.array(v.nd)
    nd[k] = new.nd
    check_nd('the changed one', target.ndarray(), nd)
    ctx.count('replaced')


def shared(rng, ctx):
    """
    Arrays with items in common, some of them several times over, are
    copied together: the copies have copies of the same items in common.
    """
    with gen.unique_values(['numpy', 'ortho']):
        leaves = [gen.leaf(rng, (2, 3), 'f8', 0)
                  for _ in range(rng.randint(1, 3))]
    objs = list(leaves)
    stacks = []

    def some(n):
        same = [v for v in objs if v.nd.shape == objs[-1].nd.shape]
        return [rng.choice(same) for _ in range(n)]

    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(['stack', 'stack', 'stack', 'mosaic', 'binary',
                           'sum', 'transpose'])
        n = rng.randint(1, 4)
        if kind == 'stack':
            shp = rng.choice([(n,), (n, 2), (2, n)])
            v = gen.stack(rng, some(int(np.prod(shp))), shp)
            if v.desc.startswith('stackdirect'):
                v.stack_shape = shp
                stacks.append(v)
        elif kind == 'mosaic':
            v = gen.mosaic(rng, some(n + 1),
                           rng.randrange(objs[-1].nd.ndim))
        elif kind == 'binary':
            a, b = some(2)
            v = gen.V(biggus.add(a.arr, b.arr), a.nd + b.nd, None,
                      '(%s + %s)' % (a.desc, b.desc), (),
                      a.sources + b.sources)
        elif kind == 'sum':
            a, = some(1)
            if a.nd.ndim < 3:
                continue
            axis = rng.randrange(a.nd.ndim)
            v = gen.V(biggus.sum(a.arr, axis=axis), a.nd.sum(axis=axis),
                      None, 'sum%d(%s)' % (axis, a.desc), (), a.sources)
        else:
            v = gen.transposed(rng, some(1)[0])
        v.mk = ma.array(v.nd)
        if v.nd.size > 2000:
            continue
        objs.append(v)
    chosen = [rng.choice(objs) for _ in range(rng.randint(1, 4))]
    if rng.random() < .7:
        chosen.append(objs[-1])
    if rng.random() < .5:
        chosen += leaves
    rng.shuffle(chosen)
    name = rng.choice(['deepcopy', 'pickle2', 'pickle4'])
    ctx.desc = '%s of [%s]' % (name, ', '.join(v.desc for v in chosen))
    del Source.restored[:]
    for x in leaves:
        for s in x.sources:
            s.reset()
    group = [v.arr for v in chosen]
    if name == 'deepcopy':
        copies = copy.deepcopy(group)
    else:
        copies = pickle.loads(pickle.dumps(group, int(name[-1])))
    used = set(s for v in chosen for s in v.sources)
    if any(s.reads for s in list(used) + Source.restored):
        raise Bad('copying read data')
    if len(Source.restored) != len(used):
        raise Bad('the copies have %d sources, the originals %d'
                  % (len(Source.restored), len(used)))
    for v, c in zip(chosen, copies):
        if describe(c) != describe(v.arr):
            raise Bad('the copy is %s instead of %s'
                      % (describe(c), describe(v.arr)))
    original = biggus.ndarrays(group)
    copied = biggus.ndarrays(copies)
    for v, r, q in zip(chosen, original, copied):
        check_nd('original', r, v.nd)
        check_nd('copy', q, v.nd)
    totals = [sorted(s.total for s in ss) for ss in (used, Source.restored)]
    if totals[0] != totals[1]:
        raise Bad('the copies read %s elements of their sources together, '
                  'the originals %s' % (totals[1], totals[0]))
    ctx.count('shared')
    if rng.random() < .6 and any(s in chosen for s in stacks):
        # An item replaced in one copy is replaced for all which hold it.
        v = rng.choice([s for s in chosen if s in stacks])
        at = [i for i, w in enumerate(chosen) if w is v][0]
        k = tuple(rng.randrange(m) for m in v.stack_shape)
        item = v.nd[k]
        new = biggus.NumpyArrayAdapter(np.full(item.shape, -77.5))
        before = [q.copy() for q in biggus.ndarrays(copies)]
        v.arr[k] = new
        for q, b in zip(biggus.ndarrays(copies), before):
            check_nd('copy after replacing an item of the original', q, b)
        copies[at][k] = new
        for v, r, q in zip(chosen, biggus.ndarrays(group),
                           biggus.ndarrays(copies)):
            check_nd('copy with an item replaced like the original\'s', q,
                     r)
        ctx.count('shared replaced')
