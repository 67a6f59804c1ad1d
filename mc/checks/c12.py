"""C12: bandwidth selection, decided on all small machine descriptions and requests.

The real MachineModel.get_bandwidth is run on every combination of measured kernels, stream mixes, orders of
measured values, topologies and requests within the bounds. The expected answer is computed in exact arithmetic
from the description alone.
"""
import itertools
import os
from fractions import Fraction

from .. import kern
from ..core import REPO, Suite, Violation, quiet, require

PROPERTY = 'C12'
ASSUMPTIONS = [
    'A kernel named load (reading only) is part of every machine description, as in all machine files.',
    'When two kernels are exactly equally close, either may be chosen; no traffic at all allows any kernel.',
    'Requests for core counts, threads per core or levels that were not measured are refused with an exception.',
]

# name: read streams, write streams, streams both read and written, bytes per stream
POOL = {
    'load': (1, 0, 0, 8), 'copy': (1, 1, 0, 8), 'update': (1, 1, 1, 8), 'triad': (3, 1, 0, 8),
    'daxpy': (2, 1, 1, 8), 'store': (0, 1, 0, 8), 'copy2': (2, 2, 0, 4), 'many': (7, 2, 1, 4),
    'aload': (2, 0, 0, 8), 'swap': (2, 2, 2, 8),
}


def kernels(names, pool=POOL):
    from kerncraft.prefixedunit import PrefixedUnit as PU
    out = {}
    for n in names:
        r, w, rw, b = pool[n]
        out[n] = {k: {'streams': s, 'bytes': PU(float(s * b), 'B')}
                  for k, s in (('read streams', r), ('write streams', w), ('read+write streams', rw))}
        out[n]['FLOPs per iteration'] = 0
    return out


def build(names, levels, cores, results, groups, numa, threads=(1,), pool=POOL):
    """results(level, threads, kernel, i) -> bytes per second of the i-th measurement."""
    from kerncraft.prefixedunit import PrefixedUnit as PU
    hier, meas = [], {}
    for lvl, g in zip(levels, groups):
        hier.append({'level': lvl, 'cores per group': g, 'threads per group': g})
        meas[lvl] = {t: {'threads per core': t, 'cores': list(cores), 'threads': [c * t for c in cores],
                         'results': {n: [PU(float(results(lvl, t, n, i)), 'B/s') for i in range(len(cores))]
                                     for n in names}} for t in threads}
    return kern.machine(**{'memory hierarchy': hier, 'cores per NUMA domain': numa,
                           'benchmarks': {'kernels': kernels(names, pool), 'measurements': meas}})


INF = float('inf')


def ratio(a, b):
    return INF if b == 0 else Fraction(a) / Fraction(b)


def distance(a, b):
    if a == b:
        return 0
    return INF if INF in (a, b) else abs(a - b)


def closest(pool, names, reads, writes):
    """All kernels whose ratio is closest to the request."""
    if not reads and not writes:
        return set(names)
    want = ratio(reads, writes)
    d = {n: distance(ratio(pool[n][0] + pool[n][1] - pool[n][2], pool[n][1]), want) for n in names}
    best = min(d.values())
    return {n for n in names if d[n] == best or (d[n] != INF and abs(d[n] - best) < Fraction(1, 10 ** 9))}


def factor(pool, n, level):
    r, w, rw, b = pool[n]
    return Fraction(1) if level == 0 else Fraction(r + 2 * w - rw, r + w)


def same(a, b):
    return abs(Fraction(float(a)) - b) <= abs(b) * Fraction(1, 10 ** 12)


def check(m, pool, names, level, reads, writes, threads, cores, values, measured, limit, answer=None):
    """values(kernel) -> measured values in the order of measured core counts."""
    try:
        bw, name = answer or m.get_bandwidth(level, reads, writes, threads, cores)
    except Exception as e:
        if cores is not None and cores not in measured:
            return 'refused'
        raise
    good = closest(pool, names, reads, writes)
    require(name in good, 'kernel', name, 'chosen for', reads, 'reads and', writes, 'writes, closest', sorted(good))
    vals = [Fraction(v) for v in values(name)]
    if cores is not None:
        require(cores in measured, 'answer for unmeasured', cores, 'cores')
        exp = vals[measured.index(cores)]
    else:
        exp = max(v for c, v in zip(measured, vals) if c <= limit)
    exp *= factor(pool, name, level)
    require(same(bw, exp), 'bandwidth', bw, 'instead of', float(exp), 'for', name, 'level', level, 'cores', cores,
            'threads', threads)
    return name


# --- stream mixes: all subsets of kernels ----------------------------------------------------------
def mix_cases(tier):
    top = 3 if tier == 'quick' else 5

    def cases():
        others = [n for n in POOL if n != 'load']
        for n in range(0, top + 1):
            for s in itertools.combinations(others, n):
                yield {'kernels': ['load'] + list(s)}
        yield {'kernels': ['load'] + others}
        # order of the description must not matter
        for p in itertools.permutations(['load', 'copy', 'update', 'triad']):
            yield {'kernels': list(p)}
    return cases


def mix_eval(case, ctx):
    names = case['kernels']
    val = {n: (i + 3) * 10 ** 9 for i, n in enumerate(sorted(names))}
    levels = ['L1', 'L2', 'MEM']
    m = build(names, levels, [1, 2], lambda l, t, n, i: val[n] * (levels.index(l) + 1) + i, [1, 2, 2], 2)
    seen = set()
    grid = [(r, w) for r in range(0, 9) for w in range(0, 5)] + \
        [(0.5, 0.25), (1.25, 0.75), (2.875, 1.0), (0.125, 0), (0, 0.125), (3.5, 1.5)]
    for r, w in grid:
        for lvl in range(3):
            got = check(m, POOL, names, lvl, r, w, 1, None,
                        lambda n: [val[n] * (lvl + 1), val[n] * (lvl + 1) + 1], [1, 2], [1, 2, 2][lvl])
            seen.add(got)
            ctx.step(1)
    ctx.state(*names)
    return ' '.join(sorted(seen))


# --- cores: all orders of measured values, topologies and requests ---------------------------------
def core_cases(tier):
    n = 4 if tier == 'quick' else 5

    def cases():
        for perm in itertools.permutations(range(1, n + 1)):
            for cores in (list(range(1, n + 1)), [2 ** i for i in range(n)], [1] + list(range(3, n + 2))):
                yield {'values': list(perm), 'cores': cores}
    return cases


def core_eval(case, ctx):
    cores, vals = case['cores'], case['values']
    names = ['load', 'copy', 'update']
    top = cores[-1]
    outs = set()
    for numa in sorted({1, 2, 3, len(cores), top, top + 4}):
        for group in sorted({1, 2, 3, len(cores), top, top + 2, 2.0}):
            m = build(names, ['L1', 'L2', 'MEM'], cores, lambda l, t, n, i:
                      vals[i] * 10 ** 9 + 1000 * names.index(n) + 10 * ['L1', 'L2', 'MEM'].index(l) + t,
                      [1, group, group], numa, threads=(1, 2))
            for lvl, g in ((0, 1), (1, group), (2, group)):
                for t in (1, 2):
                    for r, w in ((1, 0), (2, 1), (1, 1)):
                        for req in [None] + list(range(1, top + 2)):
                            outs.add(check(m, POOL, names, lvl, r, w, t, req, lambda n:
                                           [v * 10 ** 9 + 1000 * names.index(n) + 10 * lvl + t for v in vals],
                                           cores, min(g, numa)))
                            ctx.step(1)
            ctx.state(repr(cores), repr(vals), numa, group)
    return ' '.join(sorted(outs))


# --- history: the answer does not depend on earlier requests ---------------------------------------
def history_cases():
    for a in range(6):
        for b in range(6):
            for c in range(6):
                yield {'requests': [a, b, c]}


REQ = [(0, 1, 0, 1, None), (1, 2, 1, 1, None), (2, 1, 1, 2, None), (1, 1, 1, 1, 2), (2, 0, 0, 1, 1), (2, 5, 1, 2, 3)]


def history_eval(case, ctx):
    names = ['load', 'copy', 'update', 'triad']
    levels = ['L1', 'L2', 'MEM']

    def value(l, t, n, i):
        return 10 ** 9 * (names.index(n) + 1) + 1000 * (levels.index(l) + 1) * (i + 1) * t
    m = build(names, levels, [1, 2, 3], value, [1, 2, 3], 3, threads=(1, 2))
    for i in case['requests']:
        lvl, r, w, t, c = REQ[i]
        check(m, POOL, names, lvl, r, w, t, c, lambda n: [value(levels[lvl], t, n, j) for j in range(3)],
              [1, 2, 3], [1, 2, 3][lvl])
        ctx.step(1)
        ctx.state(i)
    return repr(case['requests'])


# --- machine files ---------------------------------------------------------------------------------
MF = os.path.join(REPO, 'examples/machine-files')
_mf = {}


def file_cases():
    for f in sorted(os.listdir(MF)):
        if f.endswith('.yml'):
            yield {'file': f}


def file_eval(case, ctx):
    from kerncraft.machinemodel import MachineModel
    with quiet():
        m = MachineModel(os.path.join(MF, case['file']))
    ks = m['benchmarks']['kernels']
    names = sorted(ks)
    pool = {}
    for n in names:
        r, w, rw = (ks[n][k + ' streams']['streams'] for k in ('read', 'write', 'read+write'))
        b = Fraction(float(ks[n]['read streams']['bytes'])) / r
        require(all(Fraction(float(ks[n][k + ' streams']['bytes'])) == b * s
                    for k, s in (('read', r), ('write', w), ('read+write', rw))), 'bytes of', n)
        pool[n] = (r, w, rw, b)
    for lvl, info in enumerate(m['memory hierarchy']):
        for t, meas in m['benchmarks']['measurements'][info['level']].items():
            limit = min(info['cores per group'], m['cores per NUMA domain'])
            for r, w in [(a / 2, b / 2) for a in range(0, 15) for b in range(0, 5)]:
                for req in [None] + sorted({meas['cores'][0], meas['cores'][-1], meas['cores'][-1] // 2}):
                    check(m, pool, names, lvl, r, w, t, req, lambda n: [float(v) for v in meas['results'][n]],
                          meas['cores'], limit)
                    ctx.step(1)
            ctx.state(case['file'], lvl, t)
    return case['file']


def suites(tier):
    return [
        Suite('mixes', mix_cases(tier), mix_eval,
              bound='all sets of up to %d further kernels out of 9 x 51 stream mixes x 3 levels'
                    % (3 if tier == 'quick' else 5)),
        Suite('cores', core_cases(tier), core_eval,
              bound='all orders of %d measured values x 3 lists of core counts x topologies x requests'
                    % (4 if tier == 'quick' else 5)),
        Suite('histories', history_cases, history_eval, bound='all sequences of 3 out of 6 requests'),
        Suite('files', file_cases, file_eval, bound='all machine files x levels x threads x 75 stream mixes'),
    ]
