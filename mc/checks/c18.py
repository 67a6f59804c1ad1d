"""C18: interval sets behave like sets of integers. Bounded-exhaustive over range lists and union histories."""
import copy
import itertools

from ..core import Suite, require

PROPERTY = 'C18'
ASSUMPTIONS = ['integer end points; ranges given as two-element lists']


def ints(rs):
    s = set()
    for a, b in rs:
        s |= set(range(a, b))
    return s


def same(iv, want, lo, hi, what):
    got = {i for i in range(lo - 2, hi + 3) if i in iv}
    require(got == want, what, 'contains', sorted(got), 'expected', sorted(want))
    require(len(iv) == len(want), what, 'has length', len(iv), 'expected', len(want))


def ev_build(case, ctx):
    from kerncraft.intervals import Intervals
    rs = case
    args = [list(r) for r in rs]
    keep = copy.deepcopy(args)
    iv = Intervals(*args)
    ctx.step(len(rs))
    want = ints(rs)
    lo = min([min(r) for r in rs], default=0)
    hi = max([max(r) for r in rs], default=0)
    same(iv, want, lo, hi, 'Intervals%r' % (keep,))
    require(args == keep, 'building changed the caller\'s ranges from', keep, 'to', args)
    # equality is set equality: against unit ranges in reverse order, and against a different set
    unit = Intervals(*[[i, i + 1] for i in sorted(want, reverse=True)])
    require(iv == unit and unit == iv, 'set', keep, 'is not equal to the same set built from unit ranges')
    other = Intervals(*[[i, i + 1] for i in sorted(want ^ {lo})])
    require(not (iv == other), 'set', keep, 'equals a different set')
    ctx.state(tuple(sorted(want)))
    return str(sorted(want))


def ev_hist(case, ctx):
    """case: [[rangelist, rangelist, ...], [(i,j), ...]] objects, then unions appended to the pool."""
    from kerncraft.intervals import Intervals
    base, ops = case
    args = [[list(r) for r in rs] for rs in base]
    keep = copy.deepcopy(args)
    pool = [Intervals(*a) for a in args]
    ref = [ints(rs) for rs in base]
    for i, j in ops:
        pool.append(pool[i] & pool[j])
        ref.append(ref[i] | ref[j])
        ctx.step()
        for k, (p, r) in enumerate(zip(pool, ref)):
            same(p, r, 0, 9, 'after unions {} object {}'.format(ops, k))
        require(args == keep, 'combining changed the caller\'s ranges from', keep, 'to', args)
        ctx.state(tuple(tuple(sorted(r)) for r in ref))
        for x, y in itertools.combinations(range(len(pool)), 2):
            require((pool[x] == pool[y]) == (ref[x] == ref[y]), 'equality of', sorted(ref[x]), sorted(ref[y]))
    return str([sorted(r) for r in ref])


def ev_shared(case, ctx):
    """The same caller list used for two objects."""
    from kerncraft.intervals import Intervals
    rs, extra = case
    args = [list(r) for r in rs]
    a = Intervals(*args)
    b = Intervals(*(args + [list(extra)]))
    same(a, ints(rs), 0, 9, 'first object')
    same(b, ints(list(rs) + [extra]), 0, 9, 'second object')
    require(args == [list(r) for r in rs], 'the caller\'s ranges were changed to', args)
    ctx.step(2)
    return str((sorted(ints(rs)), extra))


def suites(tier):
    big = tier == 'thorough'
    K = 6 if big else 5
    pairs = [[a, b] for a in range(K + 1) for b in range(K + 1)]
    good = [[a, b] for a in range(K + 1) for b in range(a + 1, K + 1)]
    neg = [[a, b] for a in range(-2, 2) for b in range(-1, 3)]
    nmax = 5 if big else 4

    def build():
        for n in range(0, 4):
            for c in itertools.product(pairs, repeat=n):
                yield [list(x) for x in c]
        for c in itertools.product(neg, repeat=2):
            yield [list(x) for x in c]
        for n in range(4, nmax + 1):
            for c in itertools.product(good if n == 4 else good[::2], repeat=n):
                yield [list(x) for x in c]

    small = [[a, b] for a in range(0, 6) for b in range(a + 1, 6)]
    lists = [[]] + [[p] for p in small] + [[p, q] for p in small[::2] for q in small[1::3]]

    def hist():
        for x in lists[:16]:
            for y in lists[:16]:
                for ops in itertools.product([(0, 1), (1, 0), (0, 0)], [(0, 2), (2, 1), (2, 2), (1, 2)]):
                    yield [[x, y], [list(o) for o in ops]]
        for x in lists[16:]:
            for y in lists[1:]:
                yield [[x, y], [[0, 1], [2, 0], [1, 3]]]
        if big:
            for x in lists[16:]:
                for y in lists[16:]:
                    for z in lists[1:16]:
                        yield [[x, y, z], [[0, 1], [3, 2], [2, 0], [4, 5]]]

    def shared():
        for x in small:
            for y in small:
                for z in small:
                    yield [[x, y], z]

    return [
        Suite('build', build, ev_build, chunk=400,
              bound='all lists of <=3 ranges with end points 0..%d (empty and reversed included), <=%d proper ranges' % (K, nmax)),
        Suite('union-histories', hist, ev_hist, chunk=50, bound='all histories of 2-4 unions over 2-3 objects'),
        Suite('shared-lists', shared, ev_shared, chunk=100, bound='two objects built from the same caller lists'),
    ]
