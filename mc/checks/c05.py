"""C05: iteration numbering <-> loop indices. Every loop nest within bounds, every iteration, against direct
execution of the loops."""
import itertools

from ..core import Skip, Suite, require
from .. import kern

PROPERTY = 'C05'
ASSUMPTIONS = ['rectangular loop nests with at least one iteration per loop (inner bounds independent of outer indices)']


def ev(case, ctx):
    k, consts = case
    if not any(True for _ in kern.indices(k, consts)):
        raise Skip('no iterations')
    from kerncraft.kernel import symbol_pos_int
    kc = kern.kernel_code(k, consts)
    check_kernel(kc, k, consts, ctx)
    return str([len(list(kern.indices(k, consts))), [l[3] for l in k['loops']]])


def check_kernel(kc, k, consts, ctx):
    import numpy
    from kerncraft.kernel import symbol_pos_int
    its = list(kern.indices(k, consts))
    n = len(its)
    require(int(kc.iteration_length()) == n, 'iteration count', kc.iteration_length(), 'expected', n)
    for d, (idx, a, b, s) in enumerate(k['loops']):
        ln = len(range(kern.ev(a, consts), kern.ev(b, consts), int(s)))
        for dd in (d, d - len(k['loops'])):
            require(int(kc.iteration_length(dd)) == ln, 'length of loop', idx, kc.iteration_length(dd), 'expected', ln)
    require(kc.max_global_iteration() == n - 1, 'last iteration number', kc.max_global_iteration(), 'expected', n - 1)
    ctx.step(3)
    conv = kc.global_iterator_to_indices()
    syms = {idx: symbol_pos_int(idx) for idx, *_ in k['loops']}
    require(set(conv) == set(syms.values()), 'indices', conv.keys())
    arr = numpy.arange(n, dtype='int64')
    for idx, sym in syms.items():
        want = [it[idx] for it in its]
        got = numpy.asarray(conv[sym](arr), dtype=float) * numpy.ones(n)
        require(list(got) == want, 'index', idx, 'of iterations 0..%d is' % (n - 1), [float(x) for x in got][:40], 'expected', want[:40])
    for g in sorted({0, 1, 2, n // 2, n - 2, n - 1} | set(range(0, n, max(1, n // 6)))):
        if not 0 <= g < n:
            continue
        one = kc.global_iterator_to_indices(g)
        ctx.step(2)
        require({str(s): int(v) for s, v in one.items()} == its[g] and all(float(v) == int(v) for v in one.values()),
                'iteration', g, 'is converted to', one, 'expected', its[g])
        back = kc.indices_to_global_iterator({syms[i]: v for i, v in its[g].items()})
        require(float(back) == g, 'indices', its[g], 'are iteration', back, 'expected', g)
        back = kc.indices_to_global_iterator(one)
        require(float(back) == g, 'converting iteration', g, 'to indices and back gives', back)
        ctx.state(str(k['loops']), g)
    ctx.trace()


def nest(loops):
    names = 'kji'[3 - len(loops):]
    return {'arrays': {'a': ['9000']}, 'loops': [[n] + list(l) for n, l in zip(names, loops)],
            'stmts': [['a[%s]' % names[-1], '=', '1.0']]}


def suites(tier):
    big = tier == 'thorough'

    def one():
        for a in range(0, 5 if big else 4):
            for ln in range(1, 14 if big else 10):
                for s in range(1, 8 if big else 6):
                    yield [nest([[a, a + ln, s]]), {}]

    L2 = [[a, a + ln, s] for a in (0, 1, 2) for ln in ((1, 2, 3, 4, 5, 6, 7) if big else (1, 2, 4, 5)) for s in (1, 2, 3)]

    def two():
        for x in L2:
            for y in L2:
                yield [nest([x, y]), {}]

    L3 = [[0, 3, 1], [1, 6, 2], [2, 5, 2], [0, 7, 3], [1, 2, 1]] + ([[3, 9, 4], [0, 4, 2], [0, 5, 5]] if big else [])

    def three():
        for c in itertools.product(L3, repeat=3):
            yield [nest(list(c)), {}]

    def symbolic():
        forms = [('N', 'N'), ('N-1', 'N-1'), ('N+2', 'N+2'), ('2*N', '2*N'), ('M', 'M'), ('M-2', 'M-2'), ('N*M', 'N*M')]
        for (f, _), (g, _) in itertools.product(forms[:6], forms[:6]):
            for s, t in itertools.product((1, 2, 3), repeat=2):
                for N, M in ((5, 7), (7, 4)) + (((6, 6), (9, 5)) if big else ()):
                    yield [nest([[1, f, s], [0 if t < 3 else 1, g, t]]), {'N': N, 'M': M}]
        for (f, _) in forms:
            for s in (1, 2, 3, 4):
                for N, M in ((5, 7), (8, 3), (10, 10)):
                    yield [nest([['1', f, s]]), {'N': N, 'M': M}]

    def lengths():
        for n in range(2, 1200 if big else 260):
            for s in (1, 2, 3) if big or n < 130 else (1,):
                yield [nest([[0, 3, 1], [1, 1 + n * s, s]]), {}]
        for n in (49, 98, 103, 107, 161, 187):
            for m in (2, 49, 103):
                yield [nest([[0, 2, 1], [0, m, 1], [1, n + 1, 1]]), {}]

    return [
        Suite('lengths', lengths, ev, chunk=4, bound='every inner length from 2 to %d' % (1199 if big else 259)),
        Suite('one-loop', one, ev, chunk=4, bound='starts 0-%d, lengths 1-%d, steps 1-%d' % ((4, 13, 7) if big else (3, 9, 5))),
        Suite('two-loops', two, ev, chunk=8, bound='%d^2 loop pairs' % len(L2)),
        Suite('three-loops', three, ev, chunk=4, bound='%d^3 loop triples' % len(L3)),
        Suite('symbolic-bounds', symbolic, ev, chunk=4, bound='bounds given by constant expressions, steps 1-4'),
    ]
