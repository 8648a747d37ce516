"""C06: elementwise operations over plain data equal NumPy."""
import numpy as np

from .. import elem
from ..common import CHUNKS
from ..ref import Bad, Skip, check_nd, _tol
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 20000, 'thorough': 400000}
RULE = ('every elementwise function and operator over random operands '
        '(20 dtypes, 0-5 dimensions, broadcasting, Python and NumPy '
        'scalars, bare NumPy arrays, containers), evaluated directly and '
        'in chunks; besides, every operation for every dtype, pair of '
        'dtypes and scalar for which there might be a shortcut; '
        'non-trivial: a distinct combination of operation, '
        'dtypes and dimensions with at least one element')
MUST_OBSERVE = {'evaluations': 5000, 'operations': 3000,
                'also_refused_by_numpy': 50}
ASSUMPTIONS = ['operands are combined as arrays (never by the value of a '
               '0-dimensional operand), except for a Python int/float as '
               'the second operand, which follows NumPy',
               'transcendental functions may differ by a few units in the '
               'last place between differently sized blocks']


def case(rng, ctx):
    judge(rng, ctx, elem.make(rng, 0.0))


def judge(rng, ctx, op):
    ctx.desc = op.desc
    try:
        want = op.nd()
        error = None
        if not want.size:
            # NumPy refuses some operations because of values only.
            op.dtype()
    except Exception as e:
        error = e
    chunk = rng.choice(CHUNKS)
    try:
        arr = op.build()
    except Exception:
        if error is None:
            raise
        ctx.count('also_refused_by_numpy')
        return
    if error is not None:
        try:
            arr.ndarray()
        except Exception:
            ctx.count('also_refused_by_numpy')
            return
        raise Bad('NumPy refuses this: %s' % error)
    if tuple(arr.shape) != want.shape:
        raise Bad('shape %s, expected %s' % (arr.shape, want.shape))
    if arr.dtype != op.dtype():
        raise Bad('dtype %s, expected %s' % (arr.dtype, op.dtype()))
    tol = _tol(want.dtype)
    r = arr.ndarray()
    check_nd('ndarray()', r, want, dtype=False, tol=tol)
    if r.dtype != arr.dtype:
        raise Bad('dtype %s, advertised %s' % (r.dtype, arr.dtype))
    n = 1
    if rng.random() < .4:
        with chunk_size(chunk):
            r, = biggus.ndarrays([arr])
        check_nd('ndarrays([.]) chunk=%d' % chunk, r, want, dtype=False,
                 tol=tol)
        n = 2
    ctx.count('evaluations', n)
    ctx.count('operations')
    if want.size:
        ctx.nontrivial(*op.sig)


DIRECTED = elem.sweeps(judge, 0.0)
