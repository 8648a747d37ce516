"""Random elementwise operations with their NumPy meaning."""
import operator

import numpy as np
import numpy.ma as ma

from . import gen
from .env import biggus
from .ref import Skip

UN = ('negative absolute rint sign conj exp exp2 log log2 log10 expm1 sqrt '
      'square reciprocal sin cos tan arcsin arccos arctan sinh cosh tanh '
      'arcsinh arccosh arctanh deg2rad rad2deg invert logical_not isreal '
      'iscomplex isinf isnan signbit floor ceil trunc').split()
BI = ('add sub subtract multiply floor_divide true_divide divide power '
      'arctan2 hypot bitwise_and bitwise_or bitwise_xor left_shift '
      'right_shift greater greater_equal less less_equal not_equal equal '
      'logical_and logical_or logical_xor maximum minimum fmax fmin '
      'copysign nextafter ldexp fmod').split()
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '//': operator.floordiv, '/': operator.truediv, '**': operator.pow}
#: These are only defined for plain arrays.
PLAIN = set('isreal iscomplex isinf isnan signbit copysign nextafter ldexp '
            'fmod'.split())
DTYPES = gen.NUMERIC + ['bool'] + gen.CPLX
#: Operands for which there might be a shortcut.
SPECIAL = [0, 1, 2, -1, 3, 0.5, 2.0, 1.0, 0.0, -0.5, float('inf'),
           float('nan')]
SCALARS = [1, 2, 3, 0, -1, 7, 0.5, -1.5, 2.0, 300, 1e3, 70000]


class Op(object):
    """An elementwise operation: `arr` next to `nd()` and `mk()`."""
    pass


def np_name(name):
    return 'subtract' if name == 'sub' else name


def whole(a, shape):
    """Broadcast to at least 1 dimension, so values don't choose dtypes."""
    shape = shape or (1,)
    if ma.isMaskedArray(a):
        return ma.array(np.broadcast_to(ma.getdata(a), shape),
                        mask=np.broadcast_to(ma.getmaskarray(a), shape))
    return np.broadcast_to(a, shape)


def make(rng, masked, maxsize=60, names=None):
    dt = rng.choice(DTYPES)
    dt2 = rng.choice(DTYPES)
    r = rng.random()
    shp = gen.shape(rng, 0, 3, maxlen=4, maxsize=maxsize, zero=.04)
    if rng.random() < .75:
        v = gen.leaf(rng, shp, dt, masked)
    else:
        v = gen.structural(rng, 1, dt, masked, shp=shp)
    op = Op()
    shape = v.nd.shape
    if r < .3 and names is None:
        name = rng.choice(UN)
        op.name = name
        op.desc = '%s(%s)' % (name, v.desc)
        op.build = lambda: getattr(biggus, name)(v.arr)
        f = getattr(np, name)
        m = None if name in PLAIN else getattr(ma, f.__name__, None)
        op.nd = lambda: np.asarray(f(whole(v.nd, shape))).reshape(shape)
        op.mk = m and (lambda: m(whole(v.mk, shape)))
        op.dtype = lambda: f(np.ones(1, v.nd.dtype)).dtype
        op.shape = shape
        op.sig = (name, v.nd.dtype.str, len(shape))
        op.parts = (v,)
        return op
    special = names is None and r > .88
    if special:
        name = rng.choice(list(OPS) + ['power', 'multiply', 'divide'])
    else:
        name = rng.choice(names or (BI + list(OPS) * 3))
    op.name = name
    if name in OPS:
        bf = f = OPS[name]
        npf = {'+': np.add, '-': np.subtract, '*': np.multiply,
               '//': np.floor_divide, '/': np.true_divide,
               '**': np.power}[name]
    else:
        bf = getattr(biggus, name)
        npf = f = getattr(np, np_name(name))
    m = None if name in PLAIN else getattr(ma, npf.__name__, None)
    r = rng.random()
    if special or r < .25:
        s = rng.choice(SPECIAL if special else SCALARS)
        if rng.random() < .2:
            s = float(s)
        op.desc = '%s(%s, %r)' % (name, v.desc, s)
        op.build = lambda: bf(v.arr, s)
        op.nd = lambda: np.asarray(f(whole(v.nd, shape), s)).reshape(shape)
        op.mk = m and (lambda: m(whole(v.mk, shape), s))
        op.dtype = lambda: npf(np.ones(1, v.nd.dtype), s).dtype
        op.shape = shape
        op.sig = (name, v.nd.dtype.str, type(s).__name__, len(shape))
        op.parts = (v,)
        return op
    if r < .32:
        # The scalar comes first, or isn't a Python int or float.
        s = rng.choice(SCALARS)
        first = rng.random() < .6
        if not first or rng.random() < .2:
            s = rng.choice([np.float32(s), np.int16(s % 1000),
                            np.float64(s), complex(s, 1), True])
        if isinstance(s, complex) and name == '//':
            # (Python's complex refuses this without asking biggus.)
            raise Skip()
        sa = np.array([s])
        order = (lambda x, y: (y, x)) if first else (lambda x, y: (x, y))
        op.desc = '%s%s' % (name, tuple(
            '%s %r' % (type(x).__name__, x) if x is s else x
            for x in order(v.desc, s)))
        if isinstance(s, np.generic) and first:
            # NumPy would be in charge.
            bf = getattr(biggus, np_name(npf.__name__))
        op.build = lambda: bf(*order(v.arr, s))
        op.nd = lambda: np.asarray(npf(*order(
            whole(v.nd, shape), whole(sa, shape)))).reshape(shape)
        op.mk = m and (lambda: m(*order(whole(v.mk, shape),
                                        whole(ma.array(sa), shape))))
        op.dtype = lambda: npf(*order(np.ones(1, v.nd.dtype),
                                      np.ones(1, sa.dtype))).dtype
        op.shape = shape
        op.sig = (name, v.nd.dtype.str, 'scalar', type(s).__name__, first)
        op.parts = (v,)
        return op
    shp2 = [n if rng.random() < .7 else 1 for n in shape]
    shp2 = tuple(shp2[rng.randint(0, len(shp2))
                      if rng.random() < .5 else 0:])
    if rng.random() < .15:
        shp2 = (2,) * rng.randint(1, 2) + shp2
    if r < .45:
        # A bare NumPy array.
        a = gen.data(rng, shp2, dt2, masked)
        w = gen.V(a, gen.filled(a), ma.asanyarray(a),
                  'np%s%s' % (shp2, a.dtype))
        swap = False
    else:
        if rng.random() < .7:
            w = gen.leaf(rng, shp2, dt2, masked)
        else:
            w = gen.structural(rng, 1, dt2, masked, shp=shp2)
        if rng.random() < .15:
            w = gen.broadcast(rng, w)
        if rng.random() < .08:
            w = v
        swap = rng.random() < .5
    try:
        shape = np.broadcast(v.nd, w.nd).shape
    except ValueError:
        raise Skip()
    if int(np.prod(shape)) > 400:
        raise Skip()
    a, b = (w, v) if swap else (v, w)
    op.desc = '%s(%s, %s)' % (name, a.desc, b.desc)
    op.build = lambda: bf(a.arr, b.arr)
    op.nd = lambda: np.asarray(npf(whole(a.nd, shape),
                                   whole(b.nd, shape))).reshape(shape)
    op.mk = m and (lambda: m(whole(a.mk, shape), whole(b.mk, shape)))
    op.dtype = lambda: npf(np.ones(1, a.nd.dtype),
                           np.ones(1, b.nd.dtype)).dtype
    op.shape = shape
    op.sig = (name, a.nd.dtype.str, b.nd.dtype.str, len(a.nd.shape),
              len(b.nd.shape))
    op.parts = (a, b)
    return op


def table():
    """(name, dtype, second operand) for every operation and operands."""
    for dt in sorted(set(DTYPES)):
        for name in UN:
            yield name, dt, None, False
        for name in BI + list(OPS):
            for dt2 in sorted(set(DTYPES)):
                yield name, dt, dt2, False
        for name in list(OPS) + ['add', 'subtract', 'multiply', 'power',
                                 'floor_divide', 'divide', 'maximum',
                                 'equal', 'less', 'logical_and']:
            for s in SPECIAL:
                yield name, dt, s, False
                if s in (0, 1, -1, .5, 2):
                    yield name, dt, s, True


def entry(rng, masked, name, dt, other, first):
    """The operation of a row of the table, on a few random elements."""
    shape = (4,)
    v = gen.leaf(rng, shape, dt, masked, kinds=('numpy', 'ortho'))
    npf = {'+': np.add, '-': np.subtract, '*': np.multiply,
           '//': np.floor_divide, '/': np.true_divide, '**': np.power
           }.get(name) or getattr(np, np_name(name))
    bf = OPS.get(name) or getattr(biggus, name)
    m = None if name in PLAIN else getattr(ma, npf.__name__, None)
    op = Op()
    op.name = name
    op.shape = shape
    op.parts = (v,)
    if other is None:
        nd, mk, arrs, ones = [v.nd], [v.mk], [v.arr], [np.ones(1, v.nd.dtype)]
    elif isinstance(other, str):
        w = gen.leaf(rng, shape, other, masked, kinds=('numpy', 'ortho'))
        op.parts = (v, w)
        nd, mk, arrs = [v.nd, w.nd], [v.mk, w.mk], [v.arr, w.arr]
        ones = [np.ones(1, v.nd.dtype), np.ones(1, w.nd.dtype)]
    else:
        # NB. A scalar which comes first counts as an array.
        a = np.array([other])
        nd, mk, arrs = [v.nd, other], [v.mk, other], [v.arr, other]
        ones = [np.ones(1, v.nd.dtype), other]
        if first:
            nd, mk = [np.repeat(a, 4), v.nd], [ma.repeat(a, 4), v.mk]
            arrs = arrs[::-1]
            ones = [np.ones(1, a.dtype), ones[0]]
    op.desc = '%s(%s)' % (name, ', '.join(
        [v.desc] + [str(other)] * (other is not None)))
    if first:
        op.desc += ' reflected'
    op.build = lambda: bf(*arrs)
    op.nd = lambda: np.asarray(npf(*nd))
    op.mk = m and (lambda: m(*mk))
    op.dtype = lambda: npf(*ones).dtype
    op.sig = ('table', name, dt, str(other), first)
    return op


def sweeps(judge, masked, parts=48):
    """Directed cases which together go through the table."""
    rows = list(table())

    def sweep(part):
        def directed(rng, ctx):
            for row in rows[part::parts]:
                try:
                    judge(rng, ctx, entry(rng, masked, *row))
                except Skip:
                    ctx.count('skipped')
        directed.__name__ = 'sweep_%d' % part
        return directed
    return [sweep(i) for i in range(parts)]
