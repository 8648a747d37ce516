"""C26: an evaluation reflects the present state of the data."""
import numpy as np
import numpy.ma as ma

from .. import gen
from ..ref import Bad, check_ma, check_nd, ortho
from ..src import Source
from ..env import biggus, chunk_size, DEFAULT_CHUNK
from .c16 import Target
from .c22 import installed

CASES = {'quick': 2000, 'thorough': 60000}
RULE = ('random histories of 20 to 45 steps over up to 30 arrays: new arrays '
        'are derived from existing ones, sources of data are overwritten, '
        'items of stacks are replaced, results are overwritten, sources '
        'fail for a while, the chunk size and the engine change, and any of '
        'the arrays are evaluated, alone or together; a model of the history '
        'computes every result from the data as they are at the time; '
        'non-trivial: a distinct history in which an array was evaluated '
        'before and after a change to what it is made of')
MUST_OBSERVE = {'evaluations': 18000, 'changes': 6000, 'replacements': 1400,
                'reevaluated after a change': 2500, 'failures': 800,
                'results overwritten': 1200, 'saves': 2500}
ASSUMPTIONS = ['selecting from a stack selects from the items it has at the '
               'time']
CHUNKS = [1, 2, 3, 4, 7, 12, 30]
VALUES = [-3., -2., -1., 0., 1., 2., 3., 4., 5.]


class Node(object):
    """An array, and how to compute it from the present data."""

    def __init__(self, arr, model, parts=(), items=None, source=None,
                 kind=''):
        self.arr = arr
        self.model = model
        self.parts = list(parts)
        self.items = items
        self.source = source
        self.kind = kind
        # No longer a stack with items which can be replaced.
        self.frozen = False
        self.depth = 1 + max([p.depth for p in parts] or [0])
        self.seen = None

    def nodes(self):
        yield self
        for p in (self.parts if self.items is None else self.items):
            for n in p.nodes():
                yield n

    def __call__(self):
        return self.model()

    def version(self):
        """What the array is made of at present."""
        return tuple((id(n), n.changes) for n in self.nodes()
                     if n.source is not None)

    changes = 0


class History(object):
    def __init__(self, rng, ctx):
        self.rng = rng
        self.ctx = ctx
        self.masked = rng.random() < .5
        self.gaps = self.masked or rng.random() < .3
        self.nodes = []
        self.results = []
        self.text = []
        self.chunk = DEFAULT_CHUNK
        self.rechecked = 0

    def log(self, text):
        self.text.append(text)
        self.ctx.desc = ' | '.join(self.text[-12:])

    # ------------------------------------------------------------ making

    def add(self, node, text):
        i = len(self.nodes)
        self.nodes.append(node)
        self.log('%d=%s%s' % (i, text, node.arr.shape))

    def name(self, node):
        return str(self.nodes.index(node))

    def values(self, shape):
        rng = self.rng
        n = int(np.prod(shape))
        a = np.array([rng.choice(VALUES) for _ in range(n)]).reshape(shape)
        if self.gaps:
            m = np.array([rng.random() < .3 for _ in range(n)], dtype=bool)
            a = ma.array(a, mask=m.reshape(shape), fill_value=9)
        return a

    def new_source(self, shape=None):
        rng = self.rng
        if shape is None:
            shape = tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 3)))
        a = self.values(shape)
        kind = rng.choice(['plain', 'numpy', 'ortho'])
        s = None
        if kind == 'plain':
            arr = biggus.NumpyArrayAdapter(a)
        else:
            s = Source(a, style=kind, copy=True)
            s.plain = rng.random() < .3
            arr = (biggus.NumpyArrayAdapter if kind == 'numpy' else
                   biggus.OrthoArrayAdapter)(s)
        read = (lambda: a.copy()) if self.masked else (lambda: plain(a))
        node = Node(arr, read, source=(a, s), kind='source')
        self.add(node, kind)
        return node

    def pick(self, test=lambda n: True):
        found = [n for n in self.nodes if test(n)]
        return self.rng.choice(found) if found else None

    def sibling(self, node):
        """Another array of the same shape and type."""
        other = self.pick(lambda n: n.arr.shape == node.arr.shape and
                          n.arr.dtype == node.arr.dtype)
        if self.rng.random() < .4 and node.arr.dtype == np.dtype('f8'):
            other = self.new_source(node.arr.shape)
        return other

    def make(self):
        rng = self.rng
        if not self.nodes or rng.random() < .15:
            self.new_source()
            return
        x = self.pick(lambda n: n.depth < 6 and
                      0 < int(np.prod(n.arr.shape)) <= 200)
        if x is None:
            self.new_source()
            return
        op = rng.choice(['stack', 'mosaic', 'transpose', 'index', 'unary',
                         'binary', 'binary', 'scalar', 'aggregate',
                         'aggregate', 'astype', 'stack'])
        name = self.name(x)
        if op in ('unary', 'binary', 'scalar', 'aggregate') and \
                x.arr.dtype != 'f8':
            op = 'astype'
        if op == 'stack':
            items = [x] + [self.sibling(x) for _ in range(rng.randint(0, 2))]
            rng.shuffle(items)
            a = np.empty(len(items), dtype='O')
            for i, item in enumerate(items):
                a[i] = item.arr
            node = Node(biggus.ArrayStack(a), None, items, items, kind=op)
            node.model = lambda: concatenate(
                [item()[np.newaxis] for item in node.items], 0)
            self.add(node, 'stack(%s)' % ','.join(map(self.name, items)))
        elif op == 'mosaic':
            if not x.arr.ndim:
                return
            axis = rng.randrange(x.arr.ndim)
            tiles = [x] + [self.sibling(x) for _ in range(rng.randint(0, 2))]
            self.add(Node(biggus.LinearMosaic([t.arr for t in tiles], axis),
                          lambda: concatenate([t() for t in tiles], axis),
                          tiles, kind=op),
                     'mosaic%d(%s)' % (axis, ','.join(map(self.name, tiles))))
        elif op == 'transpose':
            axes = list(range(x.arr.ndim))
            rng.shuffle(axes)
            self.add(Node(x.arr.transpose(axes),
                          lambda: x().transpose(axes), [x], kind=op),
                     'transpose(%s, %s)' % (name, axes))
        elif op == 'index':
            k = gen.keys(rng, x.arr.shape, seq=.2, empty=0, newaxis=.03)
            # What has been selected doesn't follow replaced items.
            for n in x.nodes():
                n.frozen = True
            try:
                arr = x.arr[k]
            except NotImplementedError:
                return
            self.add(Node(arr, lambda: whole(ortho(x(), k)), [x], kind=op),
                     '%s%s' % (name, gen.kdesc(k)))
        elif op == 'unary':
            f, g = rng.choice([(biggus.negative, np.negative),
                               (biggus.absolute, np.absolute)])
            self.add(Node(f(x.arr), lambda: g(x()), [x], kind=op),
                     '%s(%s)' % (g.__name__, name))
        elif op == 'binary':
            y = self.sibling(x)
            if x.depth + y.depth > 8:
                return
            f = rng.choice([np.add, np.subtract, np.maximum, np.minimum])
            h = getattr(ma, f.__name__) if self.masked else f
            self.add(Node(getattr(biggus, f.__name__)(x.arr, y.arr),
                          lambda: h(x(), y()), [x, y], kind=op),
                     '%s(%s,%s)' % (f.__name__, name, self.name(y)))
        elif op == 'scalar':
            k = rng.choice([-1, 1, 2, 3])
            if rng.random() < .5:
                self.add(Node(x.arr + k, lambda: x() + k, [x], kind=op),
                         '%s+%d' % (name, k))
            else:
                self.add(Node(k - x.arr, lambda: k - x(), [x], kind=op),
                         '%d-%s' % (k, name))
        elif op == 'aggregate':
            if not x.arr.ndim:
                return
            axis = rng.randrange(x.arr.ndim)
            f = rng.choice(['sum', 'mean', 'min', 'max', 'count'])
            self.add(Node(getattr(biggus, f)(x.arr, axis=axis),
                          lambda: whole(aggregated(f, x(), axis)), [x],
                          kind=op), '%s(%s,%d)' % (f, name, axis))
        else:
            self.add(Node(x.arr.astype('f8'), lambda: x().astype('f8'), [x],
                          kind=op), 'astype(%s)' % name)

    # ---------------------------------------------------------- changing

    def poke(self):
        rng = self.rng
        x = self.pick(lambda n: n.source is not None)
        a, _ = x.source
        new = self.values(a.shape)
        if rng.random() < .5:
            a[...] = new
        else:
            i = tuple(rng.randrange(n) for n in a.shape)
            a[i] = new[i]
        x.changes = x.changes + 1
        self.ctx.count('changes')
        self.log('poke %s' % self.name(x))

    def replace(self):
        rng = self.rng
        x = self.pick(lambda n: n.items is not None and not n.frozen)
        if x is None:
            return
        i = rng.randrange(len(x.items))
        y = self.sibling(x.items[i])
        if y is None or y.depth >= 8 or any(n is x for n in y.nodes()):
            return
        x.items = list(x.items)
        x.arr[(i,)] = y.arr
        x.items[i] = y
        self.ctx.count('replacements')
        self.log('%s[%d]=%s' % (self.name(x), i, self.name(y)))

    def overwrite(self):
        for r in self.results:
            r[...] = -99
        self.ctx.count('results overwritten', len(self.results))
        self.results = []
        self.log('overwrite')

    # -------------------------------------------------------- evaluating

    def evaluate(self, failing=None):
        rng = self.rng
        xs = [self.pick(lambda n: n.arr.ndim >= 0)
              for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        how = rng.choice(['engine', 'engine', 'direct', 'save', 'dask'])
        if how == 'dask' and failing is not None:
            how = 'engine'
        if how in ('direct', 'save'):
            xs = xs[:1]
        self.log('%s %s chunk=%d%s' % (
            how, ','.join(map(self.name, xs)), self.chunk,
            '' if failing is None else ' failing %s' % self.name(failing)))
        if failing is not None:
            s = failing.source[1]
            s.reset()
            s.fail_at = rng.choice([0, 0, 0, 1, 2])
        try:
            with chunk_size(self.chunk):
                results = self.run(xs, how)
        except Exception:
            if failing is None or s.reads <= s.fail_at:
                raise
            self.ctx.count('failures')
            return
        finally:
            if failing is not None:
                fail_at = s.fail_at
                s.fail_at = None
        if failing is not None and s.reads > fail_at:
            raise Bad('the evaluation succeeded though a read has failed')
        for x, r in zip(xs, results):
            what = '%s (%s)' % (self.name(x), how)
            if self.masked:
                check_ma(what, r, x(), tol=1e-9)
            else:
                check_nd(what, r, x(), tol=1e-9)
            version = x.version()
            if x.seen is not None and x.seen != version:
                self.ctx.count('reevaluated after a change')
                self.rechecked += 1
            x.seen = version
            self.ctx.count('evaluations')
        if how in ('engine', 'dask') and rng.random() < .3:
            self.results.extend(results if how == 'engine' else [])

    def run(self, xs, how):
        arrays = [x.arr for x in xs]
        if how == 'direct':
            return [(a.masked_array if self.masked else a.ndarray)()
                    for a in arrays]
        if how == 'save':
            target = Target(arrays[0].shape, arrays[0].dtype, self.masked)
            biggus.save(arrays, [target], masked=self.masked)
            self.ctx.count('saves')
            return [ma.array(target.data, mask=target.mask) if self.masked
                    else target.data]
        f = biggus.masked_arrays if self.masked else biggus.ndarrays
        if how == 'dask':
            from biggus.experimental.dask_engine import DaskEngine
            if self.dask is None:
                self.dask = DaskEngine()
            with installed(self.dask):
                return f(arrays)
        return f(arrays)

    dask = None

    def step(self):
        rng = self.rng
        r = rng.random()
        if not self.nodes or (r < .35 and len(self.nodes) < 30):
            self.make()
        elif r < .5:
            self.poke()
        elif r < .58:
            self.replace()
        elif r < .63:
            self.overwrite()
        elif r < .67:
            self.chunk = rng.choice(CHUNKS + [DEFAULT_CHUNK] * 2)
        elif r < .73:
            x = self.pick(lambda n: n.source is not None and
                          n.source[1] is not None)
            self.evaluate(failing=x)
        else:
            self.evaluate()


def concatenate(arrays, axis):
    if any(ma.isMaskedArray(a) for a in arrays):
        return ma.concatenate(arrays, axis)
    return np.concatenate(arrays, axis)


def plain(a):
    return a.filled() if ma.isMaskedArray(a) else a.copy()


def whole(a):
    """A 0-dimensional array instead of a scalar."""
    if a is ma.masked:
        return ma.masked_all((), dtype='f8')
    return a if isinstance(a, np.ndarray) else np.asarray(a)


def aggregated(f, a, axis):
    if f == 'count':
        n = (~ma.getmaskarray(a)).sum(axis=axis)
        n = np.asarray(n).astype('i4')
        return ma.array(n) if ma.isMaskedArray(a) else n
    return getattr(ma if ma.isMaskedArray(a) else np, f)(a, axis=axis)


def case(rng, ctx):
    h = History(rng, ctx)
    for _ in range(rng.randint(20, 45)):
        h.step()
    if h.rechecked:
        ctx.nontrivial(h.masked, tuple(sorted(n.kind for n in h.nodes)))
