"""C10: cache simulation. The complete access stream the predictor feeds to the simulator is recorded and compared, row by
row, with the real iteration stream of the loop nest; statistics come from an independently built hierarchy fed with it."""
import os

from ..core import Suite, Skip, Violation, require, scratch
from .. import family, kern
from . import c06, c09, c11

PROPERTY = 'C10'
ASSUMPTIONS = ['the cache simulator library (pycachesim) behaves as documented',
               'the first store advances by one element per step of the inner loop (documented assumption); the alignment of '
               'the measured interval is judged only where no row end lies within the moved range',
               'loop nests shorter than two cache lines of work may be refused',
               'a line written back to a level that does not hold it any more is loaded by that level first (write allocate), in addition '
               'to the misses of the level above',
               'warm means: no empty entry left, or one complete sweep, or at least twice the cache size in iterations']


class Recorder:
    """Records the streams given to any simulator while active."""

    def __init__(self):
        self.events = []

    def __enter__(self):
        import cachesim
        import numpy as np
        C = self.C = cachesim.CacheSimulator
        self.saved = {n: getattr(C, n) for n in ('loadstore', 'load', 'store', 'reset_stats', 'mark_all_invalid')}
        rec = self.events

        def rows(o, f):
            if isinstance(o, np.ndarray) and o.dtype.names:
                return np.array(o[o.dtype.names[f]]).reshape(len(o), -1).astype(np.int64)
            o = list(o)
            return np.array([list(x[f]) for x in o], dtype=np.int64).reshape(len(o), -1)

        def loadstore(s, addrs, length=1):
            rec.append(('ls', rows(addrs, 0), rows(addrs, 1), length, s))
            return self.saved['loadstore'](s, addrs, length=length)

        def reset(s):
            if not getattr(s, '_mark', False):
                rec.append(('reset', s.count_invalid_entries(), s))
            return self.saved['reset_stats'](s)

        def mark(s):
            s._mark = True
            rec.append(('clear', s))
            try:
                return self.saved['mark_all_invalid'](s)
            finally:
                s._mark = False

        def other(s, *a, **kw):
            raise RuntimeError('unexpected use of the simulator')
        C.loadstore, C.load, C.store, C.reset_stats, C.mark_all_invalid = loadstore, other, other, reset, mark
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(self.C, n, f)


def np_reference(k, consts, cl):
    """(loads, stores) matrices of byte offsets, one row per iteration, sorted within a row."""
    import numpy as np
    es = kern.ESIZE[k.get('type', 'double')]
    ranges = [np.arange(kern.ev(a, consts), kern.ev(b, consts), int(s), dtype=np.int64) for _, a, b, s in k['loops']]
    grid = np.meshgrid(*ranges, indexing='ij')
    env = dict(consts)
    for l, g in zip(k['loops'], grid):
        env[l[0]] = g.ravel()
    n = env[k['loops'][0][0]].size
    # base addresses from the documented layout via the plain interpreter
    base, pos = {}, 0
    for a in sorted(k['arrays']):
        base[a] = pos
        size = es
        for d in k['arrays'][a]:
            size *= kern.ev(d, consts)
        pos += (size + cl - 1) // cl * cl

    def addr(l):
        o = 0
        for d, e in zip(k['arrays'][l[0]], l[1]):
            o = o * kern.ev(d, consts) + kern.ev(e, env)
        return base[l[0]] + es * o

    out = []
    for ls in family.accesses(k):
        cols = [addr(l) for l in family.distinct(ls) if len(l) > 1]
        cols = [c for c in cols if hasattr(c, 'size') and c.size == n]
        out.append(np.sort(np.stack(cols, 1), 1) if cols else np.zeros((n, 0), np.int64))
    return out[0], out[1], n


def follow(ev, L, S, n, p, wrap):
    """Check the rows of an event are the iterations p, p+1, ...; returns the next position."""
    import numpy as np
    l, s = np.sort(ev[1], 1), np.sort(ev[2], 1)
    i, m, done = 0, len(l), 0
    while i < m:
        if p == n and wrap:
            p = 0
        t = min(m - i, n - p)
        require(t > 0, 'iterations after the last one are executed')
        ok = l[i:i + t].shape == L[p:p + t].shape and s[i:i + t].shape == S[p:p + t].shape and \
            (l[i:i + t] == L[p:p + t]).all() and (s[i:i + t] == S[p:p + t]).all()
        if not ok and wrap and i == 0 and p != 0:
            # restart of the sweep is allowed after the last iteration only
            require(p == n, 'stream leaves the order of the iterations at', p, 'of', n)
        if not ok:
            bad = 0
            if l[i:i + t].shape == L[p:p + t].shape and s[i:i + t].shape == S[p:p + t].shape:
                bad = int(np.argmax((l[i:i + t] != L[p:p + t]).any(1) | (s[i:i + t] != S[p:p + t]).any(1)))
            raise Violation('stream differs from iteration %d of %d: loads %s stores %s expected %s %s' % (
                p + bad, n, l[i + bad].tolist(), s[i + bad].tolist(), L[p + bad].tolist(), S[p + bad].tolist()))
        i += t
        p += t
    return p


def run(k, consts, data, cores, how, d):
    from kerncraft.cacheprediction import CacheSimulationPredictor
    from kerncraft.machinemodel import MachineModel
    mach = MachineModel(machine_yaml=data)
    kc = c09.kernel(k, mach, how, d)
    for c, v in consts.items():
        kc.set_constant(c, v)
    with Recorder() as r:
        try:
            p = CacheSimulationPredictor(kc, mach, cores)
        except Exception:
            if r.events:
                raise
            raise
    return p, r.events


def ev(case, ctx):
    import cachesim
    k, consts, mname, cores, how = case
    data = c11.synth(*MACH[mname])
    es = kern.ESIZE[k.get('type', 'double')]
    step = int(k['loops'][-1][3])
    cl = 64
    L, S, n = np_reference(k, consts, cl)
    if not L.shape[1] and not S.shape[1]:
        raise Skip('no moving accesses')
    per_line = cl // (es * step) if (cl % (es * step)) == 0 else cl / (es * step)
    with scratch() as d:
        try:
            p, events = run(k, consts, data, cores, how, d)
        except Violation:
            raise
        except Exception:
            if n <= 2 * per_line + 1:
                raise Skip('less than two cache lines of work')
            raise
    # the last simulator used
    sims = [e[-1] for e in events if e[0] == 'ls']
    sim = p.csim if hasattr(p, 'csim') else events[-1][-1]
    events = [e for e in events if (e[-1] is sim or e[0] == 'ls' and e[4] is sim)]
    last = max(i for i, e in enumerate(events) if e[0] == 'reset')
    warm = [e for e in events[:last] if e[0] == 'ls']
    bench = [e for e in events[last:] if e[0] == 'ls']
    for e in warm + bench:
        require(e[3] == es, 'accesses of', e[3], 'bytes instead of', es)
    require(not any(e[0] == 'clear' for e in events[1:]) or not warm, 'the warm cache is cleared')
    pos, done, swept = 0, 0, False
    for e in warm:
        pos = follow(e, L, S, n, pos, True)
        done += len(e[1])
        swept = swept or done >= n
    exp = c11.expected(data, cores)
    size = sum(v['sets'] * v['ways'] * v['cl_size'] for v in exp.values())
    require(events[last][1] == 0 or swept or done * es >= 2 * size,
            'the cache is not warm:', events[last][1], 'invalid entries after', done, 'of', n, 'iterations')
    start = 0 if pos == n else pos
    end = start
    for e in bench:
        end = follow(e, L, S, n, end, False)
    count = end - start
    require(count > 0, 'nothing is measured')
    # alignment
    A = S if S.shape[1] else L
    mn = A.min(1)

    def at_boundary(g):
        return mn[g] // cl * cl > mn[g] - es * step

    def linear(a, b):
        a, b = max(0, a), min(n - 1, b)
        return all(mn[x + 1] - mn[x] == es * step for x in range(a, b))
    w = int(per_line) + 2
    if linear(start - w, start + w):
        require(at_boundary(start), 'measuring starts inside of a cache line: iteration', start, 'offset', mn[start])
    if end < n and linear(end - w, end + w):
        require(at_boundary(end), 'measuring ends inside of a cache line: iteration', end, 'offset', mn[end])
    # statistics of an independent hierarchy
    def num(v):
        v = dict(v)
        for l in ('load_from', 'store_to', 'victims_to'):
            if v.get(l) is None:
                v.pop(l, None)
        return v
    ref = cachesim.CacheSimulator.from_dict({a: num(v) for a, v in exp.items()})[0]
    feed(ref, warm, es)
    ref.reset_stats()
    feed(ref, bench, es)
    lines = count * es * step / cl
    st = list(ref.stats())
    ctx.step(len(warm) + len(bench))
    ctx.state(n, start, end, str(mname), cores)
    got = {f: [float(x) for x in getattr(p, 'get_' + f)()] for f in ('loads', 'hits', 'misses', 'stores', 'evicts')}
    for f, key in (('loads', 'LOAD'), ('hits', 'HIT'), ('misses', 'MISS'), ('stores', 'STORE'), ('evicts', 'EVICT')):
        want = [s[key + '_count'] / lines for s in st]
        require(close(got[f], want), f, got[f], 'expected', want, 'measured iterations', start, end, 'of', n)
    nl = len(st)
    for i in range(nl):
        require(abs(got['hits'][i] + got['misses'][i] - got['loads'][i]) < 1e-9, 'hits and misses of level', i, 'are not its loads')
        if i + 1 < nl and mname not in ('victim', 'wt'):
            extra = got['loads'][i + 1] - got['misses'][i]
            require(abs(extra) < 1e-9 or 0 < extra <= got['stores'][i + 1] + 1e-9, 'misses of level', i, 'are not the loads of the next')
            require(abs(got['evicts'][i] - got['stores'][i + 1]) < 1e-9, 'evicts of level', i, 'are not the stores of the next')
    info = p.get_infos()
    require(abs(float(info['cachelines in stats']) - lines) < 1e-9, 'cachelines in stats', info['cachelines in stats'], 'expected', lines)
    for i, m in enumerate(info['memory hierarchy']):
        require(m['level'] == data['memory hierarchy'][i]['level'], 'level names')
        for kk, key in (('loads', 'LOAD_byte'), ('misses', 'MISS_byte'), ('hits', 'HIT_byte'), ('stores', 'STORE_byte'), ('evicts', 'EVICT_byte')):
            require(abs(float(m['total ' + kk]) - st[i][key] / lines) < 1e-6, 'total', kk, 'of level', i, m['total ' + kk])
        for kk, key in (('load', 'LOAD'), ('misses', 'MISS'), ('hits', 'HIT'), ('stores', 'STORE'), ('evicts', 'EVICT')):
            require(abs(float(m['total lines ' + kk]) - st[i][key + '_count'] / lines) < 1e-6, 'total lines', kk, 'of level', i)
    return str((n, start, end, [s['MISS_count'] for s in st]))


def feed(sim, events, es):
    for e in events:
        sim.loadstore([(tuple(x), tuple(y)) for x, y in zip(e[1].tolist(), e[2].tolist())], length=es)


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))


MACH = {'two': c09.MACH['two'], 'three': c09.MACH['three'],
        'one': ([(4, 4, 1, 'LRU', True, True)], 8, 'chain'),
        'fifo': ([(4, 2, 1, 'FIFO', True, True), (8, 4, 1, 'FIFO', True, True)], 8, 'chain'),
        'wt': ([(4, 2, 1, 'LRU', False, False), (8, 4, 1, 'LRU', True, True)], 8, 'chain'),
        'victim': ([(4, 2, 1, 'LRU', True, True), (8, 4, 1, 'LRU', True, True), (32, 4, 4, 'LRU', True, True)], 8, 'victim')}


def suites(tier):
    big = tier == 'thorough'
    D1 = c09.make(1, ['b', ['i']], [['a', ['i-1']], ['a', ['i+1']]])
    D1s = c09.make(1, ['s'], [['a', ['i']], ['s']])
    D1u = c09.make(1, ['u', ['i+4']], [['a', ['i']]], type='float')
    D2 = c09.make(2, ['b', ['j', 'i']], [['a', ['j-1', 'i']], ['a', ['j+1', 'i']], ['a', ['j', 'i+1']]])

    def lengths():
        # chunk boundaries of the warm-up
        for n in range(10, 900 if big else 330):
            yield [D1, {'N': n}, 'two', 1, 'desc']
        for n in range(10, 700 if big else 200, 1 if big else 3):
            yield [D1s, {'N': n}, 'one', 1, 'desc']
            yield [D1u, {'N': n}, 'three', 2, 'desc']

    def two():
        for m in (6, 7, 12):
            for n in range(6, 120 if big else 40):
                yield [D2, {'M': m, 'N': n}, 'two', 1, 'desc']

    def strided():
        for st in (2, 3, 4, 8):
            for s0 in range(3, 9):
                loops = [['i', s0, 'N-3', st]]
                for t in ('double', 'float'):
                    for n in (200, 333, 1700):
                        yield [c09.make(1, ['b', ['i']], [['a', ['i']], ['b', ['i']]], loops=loops, type=t), {'N': n}, 'two', 1, 'desc']

    def forms():
        for dim, consts in ((1, {'N': 700}), (2, {'M': 20, 'N': 37}), (3, {'M': 9, 'N': 13})):
            R = c09.POOL[dim][2]
            for lhs in R:
                for r in R:
                    for mach, cores in ((('two', 1), ('victim', 2), ('wt', 1), ('fifo', 1), ('three', 4)) if big else (('three', 4), ('victim', 2))):
                        yield [c09.make(dim, lhs, [r, R[0]]), consts, mach, cores, 'desc']

    def long():
        for n in (100003, 100620, 101000, 101150, 101175, 101176, 101177, 101200, 101500, 120000, 202000):
            yield [D1, {'N': n}, 'two', 1, 'desc']
        for n in (100203, 101300, 102000):
            yield [c09.make(1, ['b', ['i']], [['a', ['i']]], loops=[['i', 3, 'N-3', 1]], type='float'), {'N': n}, 'wt', 1, 'desc']
        for m, n in ((320, 321), (400, 300), (1000, 250), (10, 20000)):
            yield [D2, {'M': m, 'N': n}, 'two', 1, 'desc']
        for m, n in ((20, 90), (50, 60)):
            yield [c09.make(3, ['b', ['k', 'j', 'i']], [['a', ['k-1', 'j', 'i']], ['a', ['k', 'j', 'i+1']]]), {'M': m, 'N': n}, 'three', 2, 'desc']

    def code():
        for n in (40, 200, 333):
            yield [D1, {'N': n}, 'two', 1, 'code']
            yield [D2, {'M': 12, 'N': n}, 'three', 2, 'code']

    return [
        Suite('long', long, ev, chunk=1, timeout=300, bound='lengths around the switch between sweep and early stop (100000 iterations)'),
        Suite('lengths', lengths, ev, chunk=4, bound='every length of one-loop kernels from 10 to 330 (thorough 900)'),
        Suite('two-loops', two, ev, chunk=4, bound='every row length from 6 to 40 (120) with 3 column lengths'),
        Suite('strided', strided, ev, chunk=4, bound='steps 2,3,4,8 x start 3..8 x 2 types x 3 lengths'),
        Suite('forms', forms, ev, chunk=4, bound='all pairs of target and source references in 1 to 3 loops, 2 (5) hierarchies'),
        Suite('code', code, ev, chunk=1, bound='C files'),
    ]
