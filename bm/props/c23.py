"""C23: chunk keys are grouped into the finest common partition."""
import itertools

from ..ref import Bad
from ..env import biggus  # noqa: F401 (selects the code under test)
from biggus.experimental.key_grouper import group_keys

CASES = {'quick': 12000, 'thorough': 400000}
RULE = ('random partitions of 1 to 4 dimensions by 1 to 4 inputs, whose '
        'slices are spelled in every equivalent way, repeated and shuffled, '
        'grouped and compared with the boundaries which all inputs share; '
        'non-trivial: a distinct number of groups, inputs, dimensions and '
        'keys')
MUST_OBSERVE = {'groups': 40000, 'keys': 80000, 'split_groups': 3000,
                'joined_keys': 3000, 'duplicates': 700, 'long': 1}
ASSUMPTIONS = ['the chunks of each input form a grid with unit steps']


def spell(rng, start, stop, n):
    return slice(rng.choice([None, 0]) if start == 0 else start,
                 rng.choice([None, n]) if stop == n else stop,
                 rng.choice([None, None, 1]))


def norm(key, n):
    return key.indices(n)[:2]


def check(ctx, shape, cuts, inputs, result, limit=None):
    # The boundaries which every input has.
    common = []
    for d, n in enumerate(shape):
        shared = set(cuts[0][d])
        for c in cuts[1:]:
            shared &= set(c[d])
        shared = sorted(shared)
        common.append(list(zip(shared[:-1], shared[1:])))
    expected = {}
    for box in itertools.product(*common):
        expected[box] = [
            sorted(ks for ks in keys
                   if all(lo <= a and b <= hi
                          for (lo, hi), (a, b) in zip(box, ks)))
            for keys in [[tuple(norm(k, n) for k, n in zip(ks, shape))
                          for ks in keys] for keys in inputs]] \
            if limit is None or len(expected) < limit else None
    got = {}
    for group, per_input in result.items():
        box = tuple(norm(slice(*g), n) for g, n in zip(group, shape))
        if box in got:
            raise Bad('the group %s twice' % (box,))
        if len(per_input) != len(inputs):
            raise Bad('keys for %d inputs' % len(per_input))
        got[box] = [sorted(tuple(norm(k, n) for k, n in zip(ks, shape))
                           for ks in keys) for keys in per_input]
    if set(got) != set(expected):
        raise Bad('groups %s instead of %s' % (sorted(got)[:8],
                                               sorted(expected)[:8]))
    for box, keys in expected.items():
        if keys is not None and got[box] != keys:
            raise Bad('group %s holds %s instead of %s' % (box, got[box],
                                                           keys))
        ctx.count('joined_keys', int(any(len(set(k)) > 1
                                         for k in got[box])))
    ctx.count('groups', len(got))
    ctx.count('split_groups', int(len(got) > 1))
    ctx.count('keys', sum(len(k) for k in inputs))
    return len(got)


def case(rng, ctx):
    ndim = rng.randint(1, 4)
    n_inputs = rng.randint(1, 4)
    shape = tuple(rng.randint(1, 9 if ndim < 3 else 4) for _ in range(ndim))
    dense = rng.choice([.2, .5, .8, 1.])
    shared = [[c for c in range(1, n) if rng.random() < dense / 2]
              for n in shape]
    cuts = [[sorted(set([0, n] + s + [c for c in range(1, n)
                                      if rng.random() < dense / 2]))
             for n, s in zip(shape, shared)] for _ in range(n_inputs)]
    inputs = []
    for c in cuts:
        grid = itertools.product(*[list(zip(x[:-1], x[1:])) for x in c])
        keys = []
        for box in grid:
            for _ in range(rng.choice([1, 1, 1, 2])
                           if rng.random() < .3 else 1):
                keys.append(tuple(spell(rng, a, b, n)
                                  for (a, b), n in zip(box, shape)))
        if len(keys) > len(set(map(str, keys))):
            ctx.count('duplicates')
        if rng.random() < .3:
            rng.shuffle(keys)
        inputs.append(keys)
    ctx.desc = 'group_keys(%s, %s)' % (shape, ', '.join(map(str, inputs)))
    result = group_keys(shape, *[list(k) for k in inputs])
    n = check(ctx, shape, cuts, inputs, result)
    ctx.nontrivial(n, n_inputs, ndim, tuple(len(k) for k in inputs))


def many_chunks(rng, ctx):
    """Tens of thousands of chunks."""
    n = 10007
    cuts = [[list(range(n + 1))], [list(range(n + 1))[::7] + [n]]]
    cuts[1][0] = sorted(set(cuts[1][0]))
    inputs = [[(slice(a, b),) for a, b in zip(c[0][:-1], c[0][1:])]
              for c in cuts]
    ctx.desc = 'group_keys((%d,), %d and %d chunks)' % (
        n, len(inputs[0]), len(inputs[1]))
    result = group_keys((n,), *[list(k) for k in inputs])
    check(ctx, (n,), cuts, inputs, result, limit=5)
    ctx.count('long')


DIRECTED = [many_chunks]
