"""C10: selecting from a computation == selecting from its result."""
import numpy as np
import numpy.ma as ma

from .. import agg, elem, expr, gen
from ..common import CHUNKS, kinds_of_keys
from ..ref import Bad, Skip, ortho, is_int
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 4500, 'thorough': 120000}
RULE = ('random expression graphs, single aggregations and single '
        'elementwise operations, indexed once to three times with every '
        'kind of key (integers, slices of any step, sequences, booleans, '
        'Ellipsis, new axes) and transposed, evaluated plain and masked in '
        'chunks of various sizes; non-trivial: a distinct combination of '
        'kinds of keys, operations and dimensions')
MUST_OBSERVE = {'evaluations': 6000, 'indexed': 3000, 'index_of_index': 500,
                'sequence_keys': 500, 'of_aggregation': 500,
                'of_elementwise': 500, 'of_graph': 500}
ASSUMPTIONS = ['sequence keys on the dimensions of broadcast or new axes '
               'may be refused with NotImplementedError']


def target(rng, ctx):
    r = rng.random()
    if r < .35:
        ctx.count('of_aggregation')
        c = agg.make(rng, rng.random() < .5, maxsize=100,
                     names=['sum', 'min', 'max', 'count', 'mean', 'std'])
        if c.v.nd.dtype.kind == 'c' or (
                c.v.nd.dtype.kind in 'iu' and c.v.nd.dtype.itemsize < 4
                and c.v.kinds & set(['masked'])):
            raise Skip()
        ctx.desc = c.desc
        mag = None
        mask = ma.getmaskarray(c.v.mk)
        nd = expr.agg_nd(c.name, c.v.nd, c.axis, c.ddof)
        mk = expr.agg_ma(c.name, c.v.mk, c.axis, **c.kw)
        tm = agg.tolerance(c.name, ma.getdata(c.v.mk), c.axis, c.ddof,
                           ~mask)
        tn = agg.tolerance(c.name, c.v.nd, c.axis, c.ddof)
        plain = not mask.any() and c.ddof < c.n
        return (c.build(), nd if plain else None, mk,
                np.broadcast_to(tn, nd.shape), np.broadcast_to(tm, nd.shape),
                ('agg', c.name, nd.ndim), bool(c.v.kinds & set(
                    ['broadcast', 'newaxis'])))
    if r < .6:
        ctx.count('of_elementwise')
        op = elem.make(rng, rng.random() < .5)
        ctx.desc = op.desc
        if 'shift' in op.name or op.name in ('power', '**'):
            raise Skip()
        try:
            nd = op.nd()
            arr = op.build()
        except Exception:
            raise Skip()
        mk = None
        if op.mk is not None:
            try:
                mk = op.mk()
            except Exception:
                raise Skip()
            mk = ma.array(ma.getdata(mk), mask=ma.getmaskarray(mk)).reshape(
                op.shape)
        from ..ref import _tol
        tn = np.zeros(nd.shape)
        if nd.dtype.kind in 'fc' and nd.size:
            with np.errstate(all='ignore'):
                tn = np.nan_to_num(np.abs(nd).astype('f8')) * \
                    _tol(nd.dtype) + 1e-300
        tm = tn
        if mk is not None and mk.dtype.kind in 'fc' and mk.size:
            with np.errstate(all='ignore'):
                tm = np.nan_to_num(np.abs(ma.getdata(mk)).astype('f8')) * \
                    _tol(mk.dtype) + 1e-300
        # Both operands are broadcast to the same shape.
        return (arr, nd.astype(arr.dtype), mk, tn, tm,
                ('elem', op.name, nd.ndim), True)
    ctx.count('of_graph')
    pool = expr.Pool(rng, masked=rng.choice([0, .5]), maxlen=4)
    v = expr.graph(rng, pool, rng.randint(2, 4), ndim=rng.randint(1, 2),
                   index=.15, views=.2)
    ctx.desc = v.desc
    rel = 2e-3 if any(s.dtype == np.dtype('f4') for s in pool.all_sources) \
        else 1e-6
    tol = np.full(v.nd.shape, rel * expr.mag_of(v))
    return (v.arr, v.nd, v.mk, tol, tol, ('graph', v.kinds, v.nd.ndim),
            True)


def case(rng, ctx):
    arr, nd, mk, tn, tm, sig, virtual = target(rng, ctx)
    times = rng.choice([1, 1, 2, 3])
    shape = tuple(arr.shape)
    used = []
    for i in range(times):
        if rng.random() < .15 and len(arr.shape) > 1:
            axes = list(range(len(arr.shape)))
            rng.shuffle(axes)
            ctx.desc += '.T%s' % axes
            arr = arr.transpose(axes)
            change = lambda a, axes=axes: a.transpose(axes)
            used.append('T')
        else:
            k = gen.keys(rng, arr.shape, newaxis=.08, empty=.02, seq=.3)
            ctx.desc += gen.kdesc(k)
            try:
                arr = arr[k]
            except NotImplementedError:
                if virtual or 'new' in str(used):
                    ctx.count('refused_sequence_keys')
                    raise Skip()
                raise
            change = lambda a, k=k: ortho(a, k)
            ks = kinds_of_keys(k)
            used.append(ks)
            ctx.count('indexed')
            ctx.count('sequence_keys', int(any(
                x[0] in 'abt' for x in ks)))
            if 'new' in ks:
                virtual = True
        nd, mk, tn, tm = [None if a is None else change(a)
                          for a in (nd, mk, tn, tm)]
    ctx.count('index_of_index', int(times > 1))
    ref = nd if nd is not None else mk
    if tuple(arr.shape) != ref.shape:
        raise Bad('shape %s, expected %s' % (arr.shape, ref.shape))
    for _ in range(2):
        chunk = rng.choice(CHUNKS)
        if ref.size > 60 * chunk:
            chunk = DEFAULT_CHUNK
        with chunk_size(chunk):
            if nd is not None:
                agg.check_plain('ndarray() chunk=%d' % chunk, arr.ndarray(),
                                nd, tn)
                ctx.count('evaluations')
            if mk is not None:
                agg.check_masked('masked_array() chunk=%d' % chunk,
                                 arr.masked_array(), mk, tm)
                ctx.count('evaluations')
    ctx.nontrivial(sig, used)
