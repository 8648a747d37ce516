"""C09: aggregations of masked data skip exactly the masked elements."""
import numpy as np
import numpy.ma as ma

from .. import agg, expr
from ..common import CHUNKS
from ..ref import Bad, Skip
from ..env import biggus, chunk_size, DEFAULT_CHUNK

CASES = {'quick': 8000, 'thorough': 300000}
RULE = ('count, sum, mean (with missing-data tolerance), min, max, std and '
        'var (with ddof) along every axis of random masked data (junk, NaN '
        'and infinities behind the mask, wholly masked stripes and chunks), '
        'evaluated whole and split into chunks; non-trivial: a distinct '
        'operation, dtype, axis, options and kinds of container with a '
        'masked element')
MUST_OBSERVE = {'evaluations': 10000, 'split': 2000, 'masked_results': 500,
                'partly_masked_results': 500, 'mdtol_masked': 100,
                'ddof_masked': 100}
ASSUMPTIONS = ['valid elements are finite',
               'an element with no more valid contributions than ddof is '
               'masked']


def case(rng, ctx):
    c = agg.make(rng, True)
    ctx.desc = c.desc
    data = c.v.mk
    if data.dtype.kind == 'c' and c.name in ('min', 'max'):
        raise Skip()
    mask = ma.getmaskarray(data)
    arr = c.build()
    want = expr.agg_ma(c.name, data, c.axis, **c.kw)
    tol = agg.tolerance(c.name, ma.getdata(data), c.axis, c.ddof, ~mask)
    agg.check_masked('masked_array()', arr.masked_array(), want, tol)
    ctx.count('evaluations')
    for chunk in rng.sample(CHUNKS, 2):
        with chunk_size(chunk):
            agg.check_masked('masked_array() chunk=%d' % chunk,
                             arr.masked_array(), want, tol)
            if rng.random() < .3:
                agg.check_masked('masked_arrays([.]) chunk=%d' % chunk,
                                 biggus.masked_arrays([arr])[0], want, tol)
        ctx.count('evaluations')
        ctx.count('split', int(data.size > chunk))
    wm = ma.getmaskarray(want)
    n = (~mask).sum(axis=c.axis)
    ctx.count('masked_results', int(wm.sum()))
    ctx.count('partly_masked_results', int(((n > 0) & (n < c.n)).sum()))
    ctx.count('mdtol_masked' if c.name == 'mean' else 'ddof_masked',
              int((wm & (n > 0)).sum()))
    if mask.any():
        ctx.nontrivial(*c.sig)
