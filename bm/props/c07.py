"""C07: elementwise operations over masked data equal numpy.ma."""
import numpy as np
import numpy.ma as ma

from .. import elem
from ..common import CHUNKS
from ..ref import Bad, Skip, check_ma, _tol
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 20000, 'thorough': 400000}
RULE = ('every elementwise function and operator with a masked equivalent, '
        'over random masked and unmasked operands, evaluated directly and '
        'in chunks; the others must refuse masked evaluation; besides, every '
        'operation for every dtype, pair of dtypes and scalar for which '
        'there might be a shortcut; non-trivial: '
        'a distinct combination of operation, dtypes and dimensions with a '
        'masked element')
MUST_OBSERVE = {'evaluations': 5000, 'operations': 2000, 'masked': 1000,
                'refused': 100, 'domain_masked': 50}
ASSUMPTIONS = ['operands are combined as arrays (never by the value of a '
               '0-dimensional operand)',
               'shifts by masked values are outside the domain']


def case(rng, ctx):
    judge(rng, ctx, elem.make(rng, 0.7))


def judge(rng, ctx, op):
    ctx.desc = op.desc
    if 'shift' in op.name:
        raise Skip()
    if op.name in ('**', 'power') and not op.shape:
        # (numpy.ma.power masks every 0-dimensional result whose mask is
        # an array.)
        raise Skip()
    try:
        arr = op.build()
    except Exception as e:
        try:
            op.dtype()
            op.nd()
        except Exception:
            raise Skip()
        raise
    if op.mk is None:
        try:
            got = arr.masked_array()
        except TypeError:
            ctx.count('refused')
            return
        raise Bad('%s has no meaning for masked arrays, but gave %s'
                  % (op.name, got))
    try:
        want = op.mk()
        op.nd()
    except Exception:
        # (e.g. negative powers of integers.)
        raise Skip()
    want = ma.array(ma.getdata(want), mask=ma.getmaskarray(want)
                    ).reshape(op.shape)
    chunk = rng.choice(CHUNKS)
    tol = _tol(want.dtype)
    r = arr.masked_array()
    check_ma('masked_array()', r, want, dtype=False, tol=tol)
    if r.dtype != arr.dtype:
        raise Bad('dtype %s, advertised %s' % (r.dtype, arr.dtype))
    n = 1
    if rng.random() < .4:
        with chunk_size(chunk):
            r, = biggus.masked_arrays([arr])
        check_ma('masked_arrays([.]) chunk=%d' % chunk, r, want,
                 dtype=False, tol=tol)
        n = 2
    ctx.count('evaluations', n)
    ctx.count('operations')
    mask = ma.getmaskarray(want)
    ctx.count('masked', int(mask.any()))
    before = False
    for p in op.parts:
        before = before | np.broadcast_to(ma.getmaskarray(p.mk),
                                          op.shape)
    ctx.count('domain_masked', int((mask & ~before).any()))
    if mask.any():
        ctx.nontrivial(*op.sig)


DIRECTED = elem.sweeps(judge, 0.7)
