"""C24: an invalid request is refused at once, and reads nothing."""
import itertools

import numpy as np

from .. import expr, gen
from ..common import has_seq
from ..ref import Bad, Skip, check_nd, ortho
from ..env import biggus

CASES = {'quick': 14000, 'thorough': 300000}
RULE = ('random containers, expression graphs and aggregations are asked '
        'for one of 27 kinds of nonsense (indices, sequences and masks out '
        'of bounds or which are not integers, too many or impossible keys, '
        'axes which do not exist or repeat, shapes and dtypes which do not fit together or do not '
        'exist, sources without targets, things which '
        'are not arrays), which must raise at once without a read, and for '
        'the nearest valid request, which must succeed; iteration must give '
        'every item and end; non-trivial: a distinct structure, request and '
        'number of dimensions')
MUST_OBSERVE = {'refusals': 6000, 'controls': 3000, 'iterations': 300,
                'kinds': 21}
ASSUMPTIONS = ['the exception may be of any type but must be an Exception']


def refused(ctx, v, what, f):
    for s in v.sources:
        s.reset()
    try:
        r = f()
    except Exception as e:
        if isinstance(e, RecursionError):
            raise
        for s in v.sources:
            if s.reads:
                raise Bad('%s was refused after a read' % what)
        ctx.count('refusals')
        return
    raise Bad('%s was accepted: %r' % (what, r))


def virtual_ok(v):
    # Sequences of keys are documented as unsupported on broadcast axes.
    return not v.kinds & {'broadcast', 'newaxis'}


def bad_int(rng, v):
    n = v.arr.ndim
    axis = rng.randrange(n)
    size = v.arr.shape[axis]
    k = [slice(None)] * n
    off = rng.choice([0, 0, 1, 7, 2 ** 33])
    k[axis] = rng.choice([size + off, -size - 1 - off])
    if rng.random() < .3 and off < 100:
        k[axis] = np.int64(k[axis])
    if rng.random() < .4:
        for i in range(n):
            if i != axis and v.arr.shape[i]:
                k[i] = rng.randrange(v.arr.shape[i])
    if rng.random() < .3:
        k = k[:axis + 1]
    if rng.random() < .2:
        k.insert(rng.randint(0, len(k)), None)
    good = list(k)
    good[[i for i, x in enumerate(k) if x is not None][axis]] = (
        size - 1 if size else slice(None))
    return tuple(k), tuple(good)


def bad_seq(rng, v):
    n = v.arr.ndim
    axis = rng.randrange(n)
    size = v.arr.shape[axis]
    if not virtual_ok(v):
        raise Skip()
    k = [slice(None)] * n
    seq = [rng.randrange(-size, size) for _ in range(rng.randint(0, 3))] \
        if size else []
    good = list(seq) or ([0] if size else [])
    seq.insert(rng.randint(0, len(seq)),
               rng.choice([size, size + 3, -size - 1, -size - 4]))
    make = rng.choice([tuple, np.array])
    g = list(k)
    k[axis] = make(seq)
    g[axis] = tuple(good) if make is tuple or not good else np.array(good)
    if not good:
        g = [slice(None)]
    return tuple(k), tuple(g)


def bad_mask(rng, v):
    n = v.arr.ndim
    axis = rng.randrange(n)
    size = v.arr.shape[axis]
    if not virtual_ok(v):
        raise Skip()
    k = [slice(None)] * n
    wrong = max(0, size + rng.choice([-1, 1, 2]))
    if wrong == size:
        wrong = size + 1
    k[axis] = np.array([rng.random() < .7 for _ in range(wrong)], dtype=bool)
    g = list(k)
    g[axis] = np.array([True] * size, dtype=bool)
    return tuple(k), tuple(g)


def too_many(rng, v):
    n = v.arr.ndim
    k = [rng.choice([0, slice(None), slice(0, 1), 1])
         for _ in range(n + rng.randint(1, 2))]
    if rng.random() < .4:
        k.insert(rng.randint(0, len(k)), Ellipsis)
    if rng.random() < .3:
        k.insert(rng.randint(0, len(k)), None)
    return tuple(k), (Ellipsis,)


def bad_key(rng, v):
    n = v.arr.ndim
    k = [slice(None)] * n
    k[rng.randrange(n)] = rng.choice(['x', 1.5, 2j, object(),
                                      np.float64(1)])
    return tuple(k), (slice(None),) * n


def bad_grid(rng, v):
    """A sequence of indices has a single dimension."""
    n = v.arr.ndim
    axis = rng.randrange(n)
    size = v.arr.shape[axis]
    if not size or not virtual_ok(v):
        raise Skip()
    k = [slice(None)] * n
    k[axis] = np.array([[rng.randrange(size) for _ in range(2)]
                        for _ in range(rng.randint(1, 3))])
    g = list(k)
    g[axis] = k[axis][0]
    return tuple(k), tuple(g)


def bad_index(rng, v):
    """Indices are integers, and booleans are no integers."""
    n = v.arr.ndim
    axis = rng.randrange(n)
    size = v.arr.shape[axis]
    if not virtual_ok(v) or not size:
        raise Skip()
    k = [slice(None)] * n
    good = [rng.randrange(size) for _ in range(rng.randint(1, 3))]
    bad = [rng.choice([bool, float, np.float64, complex, str])(i)
           for i in good]
    how = rng.choice(['mixed', 'tuple', 'array', 'bool', 'nested', 'none'])
    if how == 'mixed':
        bad = tuple(good + bad[:1])
    elif how == 'array':
        bad = np.array(good, rng.choice(['f4', 'f8', 'c8', 'S1', 'm8[s]']))
    elif how == 'bool':
        bad = rng.choice([True, False, np.True_])
    elif how == 'nested':
        bad = rng.choice([(tuple(good),), (slice(None),), (None, good[0])])
    elif how == 'none':
        bad = (good[0], rng.choice([None, Ellipsis]))
    else:
        bad = tuple(bad)
    k[axis] = bad
    g = list(k)
    g[axis] = tuple(good)
    return tuple(k), tuple(g)


def bad_slice(rng, v):
    """Slices have a step other than 0, and are made of integers."""
    n = v.arr.ndim
    k = [slice(None)] * n
    i = rng.randrange(n)
    k[i] = rng.choice([slice(None, None, 0), slice(0, 1, 0),
                       slice(None, None, .5), slice('a', None),
                       slice(None, 1.5), slice(None, None, 'b')])
    g = list(k)
    g[i] = slice(None, None, rng.choice([1, 2, -1]))
    if rng.random() < .3:
        k, g = [Ellipsis] + k[i:], [Ellipsis] + g[i:]
    elif rng.random() < .3:
        k, g = k[:i + 1], g[:i + 1]
    return tuple(k), tuple(g)


SELECTIONS = [bad_index, bad_slice, bad_grid, bad_int, bad_int, bad_seq, bad_mask, too_many, bad_key]


def select(rng, ctx, v):
    make = rng.choice(SELECTIONS)
    if not v.arr.ndim:
        make = too_many
    k, good = make(rng, v)
    what = '%s of shape %s' % (gen.kdesc(k), v.arr.shape)
    refused(ctx, v, what, lambda: v.arr[k])
    if rng.random() < .5:
        try:
            r = v.arr[good]
        except NotImplementedError:
            # (Sequences of indices of broadcast axes.)
            if not has_seq(good):
                raise
            ctx.count('refused_sequences')
            return make.__name__
        want = ortho(v.nd, good)
        if tuple(r.shape) != want.shape:
            raise Bad('%s has shape %s instead of %s' % (
                gen.kdesc(good), r.shape, want.shape))
        if rng.random() < .3 and want.size < 500:
            check_nd(gen.kdesc(good), r.ndarray(), want, dtype=False,
                     tol=1e-4)
        ctx.count('controls')
    return make.__name__


def other_shape(rng, shape):
    """A shape which can't be broadcast with the given one."""
    axes = [i for i, n in enumerate(shape) if n != 1]
    if not axes:
        raise Skip()
    s = list(shape)
    i = rng.choice(axes)
    s[i] += rng.choice([1, 2])
    if s[i] == 1:
        s[i] = 2
    if rng.random() < .3:
        s = s[i:]
    if rng.random() < .2:
        s.insert(0, 2)
    return tuple(s)


def partner(rng, v, shape, dtype=None):
    a = np.zeros(shape, dtype or v.arr.dtype)
    return biggus.NumpyArrayAdapter(a)


def misfit(rng, shape, but=None, ndim=False):
    """A shape which differs in other dimensions than `but`."""
    ours = [n for i, n in enumerate(shape) if i != but]
    for _ in range(50):
        s = list(shape)
        if ndim or not ours:
            how = rng.choice(['last', 'first', 'one', 'drop', 'merge'])
            if how == 'last':
                s.append(2)
            elif how == 'first':
                s.insert(0, rng.choice([2] + s))
            elif how == 'one':
                s.insert(rng.randint(0, len(s)), 1)
            elif len(s) > 1:
                i = rng.randrange(len(s) - 1)
                n = s.pop(i)
                if how == 'merge':
                    s[i] *= n
            else:
                continue
            if but is not None and but >= len(s):
                continue
            return tuple(s)
        others = [i for i in range(len(s)) if i != but]
        i, j = rng.choice(others), rng.choice(others)
        how = rng.choice(['up', 'down', 'one', 'twice', 'zero', 'shuffle',
                          'product', 'axis'])
        if how == 'up':
            s[i] += 1
        elif how == 'down' and s[i]:
            s[i] -= 1
        elif how in ('one', 'zero'):
            s[i] = int(how == 'one')
        elif how == 'twice':
            s[i] *= 2
        elif how == 'shuffle':
            s[i], s[j] = s[j], s[i]
        elif how == 'product' and i != j and s[i] % 2 == 0:
            s[i] //= 2
            s[j] *= 2
        elif how == 'axis' and but is not None:
            s[i], s[but] = s[but], s[i]
        if [n for k, n in enumerate(s) if k != but] != ours:
            return tuple(s)
    raise Skip()


def another_dtype(rng, dtype):
    return rng.choice([d for d in ['f4', 'f8', 'i4', 'i8', 'u4', 'u8', 'i2',
                                   'u1', 'i1', 'c8', '?', 'S4', 'f2']
                       if np.dtype(d) != dtype])


def op_shapes(rng, ctx, v):
    s = other_shape(rng, v.arr.shape)
    other = partner(rng, v, s)
    if rng.random() < .4:
        other = other.ndarray()
    if rng.random() < .3 and not isinstance(other, np.ndarray):
        pair = (other, v.arr)
    else:
        pair = (v.arr, other)
    name = rng.choice(['add', 'multiply', 'greater', 'maximum', 'power',
                       'logical_and'])
    refused(ctx, v, '%s of shapes %s and %s' % (name, v.arr.shape, s),
            lambda: getattr(biggus, name)(*pair))
    if rng.random() < .3:
        r = biggus.greater(v.arr, partner(rng, v, v.arr.shape))
        if r.shape != v.arr.shape:
            raise Bad('shape %s' % (r.shape,))
        ctx.count('controls')


def op_junk(rng, ctx, v):
    junk = rng.choice([None, [1, 2], {}, object(), (1,), Ellipsis])
    f = rng.choice([lambda: v.arr + junk, lambda: junk - v.arr,
                    lambda: biggus.multiply(v.arr, junk),
                    lambda: biggus.maximum(junk, v.arr),
                    lambda: biggus.exp(junk),
                    lambda: biggus.ensure_array(junk),
                    lambda: biggus.sum(junk, 0)])
    refused(ctx, v, 'an operation with %r' % (junk,), f)


def stack_of(arrays):
    a = np.empty(len(arrays), dtype='O')
    for i, x in enumerate(arrays):
        a[i] = x
    return biggus.ArrayStack(a)


def stacks(rng, ctx, v):
    shape = v.arr.shape
    how = rng.choice(['shape', 'ndim', 'dtype', 'kind', 'count'])
    if how == 'shape' and shape:
        other = partner(rng, v, misfit(rng, shape))
    elif how == 'dtype':
        other = partner(rng, v, shape, another_dtype(rng, v.arr.dtype))
    elif how == 'kind':
        other = np.zeros(shape, v.arr.dtype)
        if not shape:
            raise Skip()
    elif how == 'count':
        n = rng.randint(1, 4)
        shape = rng.choice([(n + 1,), (n, 2), (2, n), (n - 1,)])
        if n == 1 and shape == (1,) or int(np.prod(shape)) == n:
            raise Skip()
        refused(ctx, v, '%d arrays in a stack of %s' % (n, shape),
                lambda: biggus.ArrayStack.multidim_array_stack(
                    [v.arr] * n, shape))
        return
    else:
        other = partner(rng, v, misfit(rng, shape, ndim=True))
    same = partner(rng, v, v.arr.shape)
    if rng.random() < .3:
        stack = stack_of([v.arr, same])
        i = rng.randrange(2)
        item = stack[i]

        def replace():
            stack[(i,)] = other
        refused(ctx, v, 'an item of a different %s' % how, replace)
        after = stack[i]
        if (stack.shape != (2,) + shape or after.shape != item.shape or
                after.dtype != item.dtype):
            raise Bad('the item was replaced all the same')
    parts = [v.arr, same, other]
    rng.shuffle(parts)
    refused(ctx, v, 'a stack with a different %s' % how,
            lambda: stack_of(parts))
    if rng.random() < .3:
        if stack_of([v.arr, same]).shape != (2,) + v.arr.shape:
            raise Bad('shape of a stack')
        ctx.count('controls')


def mosaics(rng, ctx, v):
    shape = v.arr.shape
    if not shape:
        refused(ctx, v, 'a mosaic of 0-dimensional tiles',
                lambda: biggus.LinearMosaic([v.arr, v.arr], 0))
        return
    axis = rng.randrange(len(shape))
    how = rng.choice(['shape', 'ndim', 'dtype', 'kind', 'axis', 'axis'])
    if how == 'axis':
        axis = rng.choice([len(shape), len(shape) + 3, -len(shape) - 1])
        refused(ctx, v, 'a mosaic of axis %d' % axis,
                lambda: biggus.LinearMosaic([v.arr, v.arr], axis))
        return
    if how == 'shape' and len(shape) > 1:
        other = partner(rng, v, misfit(rng, shape, axis))
    elif how == 'dtype':
        other = partner(rng, v, shape, another_dtype(rng, v.arr.dtype))
    elif how == 'kind':
        other = rng.choice([np.zeros(shape, v.arr.dtype), None, 3])
    else:
        other = partner(rng, v, misfit(rng, shape, axis, ndim=True))
    s = list(shape)
    s[axis] = 3
    same = partner(rng, v, tuple(s))
    parts = [v.arr, same]
    parts.insert(rng.randint(0, 2), other)
    refused(ctx, v, 'a mosaic with a different %s' % how,
            lambda: biggus.LinearMosaic(parts, axis))
    if rng.random() < .3:
        r = biggus.LinearMosaic([v.arr, same], axis)
        s[axis] = 3 + shape[axis]
        if r.shape != tuple(s):
            raise Bad('shape of a mosaic')
        ctx.count('controls')


def broadcasts(rng, ctx, v):
    if 'broadcast' in v.kinds:
        raise Skip()
    shape = v.arr.shape
    n = len(shape)
    options = [({n: 3}, ()), ({n + 2: 3}, ()), ({-n - 1: 3}, ()),
               ({}, (0,)), ({}, (2, -1))]
    for i, size in enumerate(shape):
        if size != 1:
            options.append(({i: size + 1}, ()))
        else:
            options.append(({i: -1}, ()))
    d, leading = rng.choice(options)
    refused(ctx, v, 'broadcasting %s by %s, %s' % (shape, d, leading),
            lambda: biggus.BroadcastArray(v.arr, d, leading))
    r = biggus.BroadcastArray(v.arr, {}, (2,))
    if r.shape != (2,) + shape:
        raise Bad('shape of a broadcast')
    ctx.count('controls')


def transpositions(rng, ctx, v):
    n = v.arr.ndim
    axes = list(range(n))
    rng.shuffle(axes)
    good = list(axes)
    how = rng.choice(['few', 'many', 'repeat', 'beyond', 'below'])
    if not n:
        how = 'many'
    if how == 'few':
        axes.pop()
    elif how == 'many':
        axes.append(rng.choice([0, n]))
    elif how == 'repeat':
        if n == 1:
            raise Skip()
        axes[0] = axes[1]
    elif how == 'beyond':
        axes[rng.randrange(n)] = n + rng.randint(0, 2)
    else:
        axes[rng.randrange(n)] = -n - rng.randint(1, 2)
    arg = rng.choice([tuple, list, np.array])(axes)
    refused(ctx, v, 'transposition of %d dimensions by %s' % (n, axes),
            lambda: v.arr.transpose(arg))
    r = v.arr.transpose(good)
    if r.shape != tuple(v.arr.shape[i] for i in good):
        raise Bad('shape of a transposition')
    ctx.count('controls')


def statistics(rng, ctx, v):
    n = v.arr.ndim
    axis = rng.choice([n, n + 3, -n - 1, -n - 5, 'x', 1.5, {}, [0.5],
                       None, (n,), (0, n)])
    f = rng.choice(['count', 'min', 'max', 'sum', 'mean', 'std', 'var'])
    refused(ctx, v, '%s over axis %r of %d' % (f, axis, n),
            lambda: getattr(biggus, f)(v.arr, axis=axis))
    if n > 1:
        refused(ctx, v, '%s over two axes' % f,
                lambda: getattr(biggus, f)(v.arr, axis=(0, 1)))
        axes = [rng.randrange(-n, n) for _ in range(rng.randint(2, 3))]
        refused(ctx, v, '%s over the axes %s' % (f, axes),
                lambda: getattr(biggus, f)(v.arr, axis=axes))
    if n:
        i = rng.randrange(n)
        axes = rng.choice([(i, i), (i, i - n), [i - n, i], (i, i, i), (),
                           [i, n], (i, i - n - n)])
        refused(ctx, v, '%s over the axes %s' % (f, axes),
                lambda: getattr(biggus, f)(v.arr, axis=axes))
        ctx.count('repeated axes')
        axis = rng.randrange(-n, n)
        s = list(v.arr.shape)
        del s[axis]
        r = getattr(biggus, f)(v.arr, axis=rng.choice([
            axis, axis, np.int64(axis), (axis,), [axis]]))
        if r.shape != tuple(s):
            raise Bad('shape of %s' % f)
        ctx.count('controls')


def iterate(rng, ctx, v):
    if not v.arr.ndim:
        raise Skip()
    n = v.arr.shape[0]
    items = list(itertools.islice(iter(v.arr), n + 3))
    if len(items) != n:
        raise Bad('iteration gives %d items of %d' % (len(items), n))
    for i, item in enumerate(items):
        if tuple(item.shape) != v.nd.shape[1:]:
            raise Bad('item %d has shape %s' % (i, item.shape))
    if n:
        i = rng.randrange(n)
        check_nd('item %d' % i, items[i].ndarray(), v.nd[i], dtype=False,
                 tol=1e-4)
    if n > 1:
        *init, last = v.arr
        if tuple(last.shape) != v.nd.shape[1:] or len(init) != n - 1:
            raise Bad('unpacking')
    ctx.count('iterations')


def constants(rng, ctx, v):
    """Nothing has a negative number of items, or a half."""
    good = list(v.arr.shape) or [2]
    shape = list(good)
    shape[rng.randrange(len(shape))] = rng.choice([-1, -1, -2, 'x', None, [2],
                                                   {}])
    make = rng.choice([biggus.zeros, biggus.ones, biggus.ConstantArray,
                       lambda s: biggus.ConstantArray(s, 3, 'i2')])
    arg = rng.choice([tuple, list])(shape)
    if len(shape) == 1 and rng.random() < .4:
        arg = shape[0]
        if isinstance(arg, (list, dict)):
            arg = -3
    refused(ctx, v, 'a constant array of %r' % (arg,), lambda: make(arg))
    if make(good).shape != tuple(good):
        raise Bad('shape of a constant array')
    ctx.count('controls')


def casts(rng, ctx, v):
    dtype = rng.choice(['foo', 'f3', object(), [1], {}, 'i4,', 3.5])
    try:
        np.dtype(dtype)
    except Exception:
        pass
    else:
        raise Skip()
    refused(ctx, v, 'a cast to %r' % (dtype,), lambda: v.arr.astype(dtype))
    refused(ctx, v, 'a constant array of %r' % (dtype,),
            lambda: biggus.ConstantArray((2,), 1, dtype))
    if v.arr.astype('f8').dtype != np.dtype('f8'):
        raise Bad('dtype of a cast')
    ctx.count('controls')


class Recorder(object):
    def __init__(self):
        self.writes = 0

    def __setitem__(self, keys, value):
        self.writes += 1


def saves(rng, ctx, v):
    """Every source has a target."""
    n, m = rng.choice([(1, 0), (0, 1), (1, 2), (2, 1), (3, 1), (2, 3)])
    targets = [Recorder() for _ in range(m)]
    masked = rng.random() < .5
    refused(ctx, v, 'to save %d arrays in %d targets' % (n, m),
            lambda: biggus.save([v.arr] * n, targets, masked=masked))
    if any(t.writes for t in targets):
        raise Bad('the refused request to save has written')
    target = Recorder()
    biggus.save([v.arr], [target], masked=masked)
    if v.nd.size and not target.writes:
        raise Bad('nothing was saved')
    ctx.count('controls')


REQUESTS = [constants, casts, saves] + [select] * 6 + [op_shapes, op_junk, stacks, mosaics, broadcasts,
                           transpositions, statistics, iterate]


def case(rng, ctx):
    r = rng.random()
    if r < .6:
        v = gen.structural(rng, rng.randint(0, 3),
                           rng.choice(['f8', 'i4', 'u1', 'f4']),
                           masked=rng.choice([0, .5]))
    else:
        pool = expr.Pool(rng, masked=rng.choice([0, .5]), maxlen=4)
        v = expr.graph(rng, pool, rng.randint(1, 2))
        if r > .85 and v.nd.ndim and v.nd.size:
            v = expr.aggregate(v, rng.choice(['sum', 'min', 'mean', 'std']),
                               rng.randrange(v.nd.ndim))
    request = rng.choice(REQUESTS)
    ctx.desc = '%s of %s %s' % (request.__name__, v.desc, v.arr.shape)
    name = request(rng, ctx, v) or request.__name__
    if name not in ctx.counters_kinds:
        ctx.counters_kinds.add(name)
        ctx.count('kinds')
    ctx.nontrivial(name, v.arr.ndim, tuple(sorted(v.kinds)))
