"""C32: the machine file generator describes the host: every small topology LIKWID can report, every measurement."""
import collections
import contextlib
import io
import itertools
import os

from ..core import Suite, require, scratch
from .. import sysfake

PROPERTY = 'C32'
ASSUMPTIONS = ['the host is a stand-in: likwid-topology prints the enumerated topology in the format of LIKWID 5, likwid-bench reports a different '
               'bandwidth for each run', 'all sockets are equal and cache groups are spread evenly',
               'measured bandwidths have two decimal places']

REPS = 10


# ------------------------------------------------------------------ hosts
def text(host):
    """likwid-topology output of a host (type, sockets, cores per socket, threads per core, NUMA domains, caches (size text, groups))"""
    S, C, T, N, caches = host['S'], host['C'], host['T'], host['N'], host['caches']
    line = '-' * 80 + '\n'
    stars = '*' * 80 + '\n'
    out = line + 'CPU name:\t%s\nCPU type:\t%s\nCPU stepping:\t4\n' % (host.get('model', 'x'), host.get('type', 'Synthetic A')) + stars
    out += 'Hardware Thread Topology\n' + stars
    out += 'Sockets:\t\t%d\nCores per socket:\t%d\nThreads per core:\t%d\n' % (S, C, T) + line
    out += 'HWThread        Thread        Core        Die        Socket        Available\n'
    hw = [(t, c, s) for t in range(T) for s in range(S) for c in range(C)]
    for n, (t, c, s) in enumerate(hw):
        out += '%-16d%-14d%-12d%-11d%-14d*\n' % (n, t, s * C + c, 0, s)
    out += line
    for s in range(S):
        out += 'Socket %d:\t\t( %s )\n' % (s, ' '.join(str(n) for n, h in enumerate(hw) if h[2] == s))
    out += line + stars + 'Cache Topology\n' + stars
    for lv, (size, groups) in enumerate(caches, 1):
        per = S * C // groups
        gs = [' '.join(str(n) for n, (t, c, s) in enumerate(hw) if (s * C + c) // per == g) for g in range(groups)]
        out += 'Level:\t\t\t%d\nSize:\t\t\t%s\nCache groups:\t\t%s\n' % (lv, size, ' '.join('( %s )' % g for g in gs)) + line
    out += stars + 'NUMA Topology\n' + stars + 'NUMA domains:\t\t%d\n' % N + line
    for n in range(N):
        out += 'Domain:\t\t\t%d\nProcessors:\t\t( %d )\nDistances:\t\t10\nFree memory:\t\t1000 MB\nTotal memory:\t\t2000 MB\n' % (n, n) + line
    return out


def size_bytes(s):
    v, u = s.split()
    return float(v) * {'kB': 1e3, 'MB': 1e6}[u]


@contextlib.contextmanager
def on(host, bw=None):
    s = sysfake.System(bw=bw)
    s.topo = text(host)
    s.freq = host.get('freq', 2200.)
    s.cpuinfo = 'processor\t: 0\nmodel name\t: %s\nflags\t: x\n' % host.get('name', 'Synthetic CPU @ 2.20GHz')
    real = s.open
    huge = host.get('huge', 'always [madvise] never\n')
    s.open = lambda name, *a, **k: io.StringIO(huge) if name == '/sys/kernel/mm/transparent_hugepage/enabled' else real(name, *a, **k)
    with s.active():
        yield s


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def hosts(small=False):
    SIZES = ['32 kB', '256 kB', '1.25 MB', '20 MB']
    for S in (1, 2):
        for C in (1, 2, 3, 4, 6):
            for T in (1, 2, 3, 4) if not small or C < 3 else (1, 2):
                for N in sorted({1, S, 2 * S} if C % 2 == 0 else {1, S}):
                    for n in (1, 2, 3, 4) if not small else (1, 2, 3):
                        for gs in itertools.combinations_with_replacement(sorted(divisors(S * C), reverse=True), n):
                            if gs[-1] < (S if n > 1 else 1):
                                continue        # caches are not shared between sockets
                            yield dict(S=S, C=C, T=T, N=N, caches=[[SIZES[k + (n == 1 and S == 2)], g] for k, g in enumerate(gs)])


# ------------------------------------------------------------------ description of the topology
def ev_topology(host, ctx):
    from kerncraft.machinemodel import MachineModel
    S, C, T, N, caches = host['S'], host['C'], host['T'], host['N'], host['caches']
    ns = max(1, N // S)
    for overwrite in (True, False):
        with on(host):
            m = MachineModel()
            before = {k: repr(m[k]) for k in m._data}
            m.update(benchmarks=False, overwrite=overwrite)
        for k, v in {'sockets': S, 'cores per socket': C, 'threads per core': T, 'NUMA domains per socket': ns, 'cores per NUMA domain': C // ns,
                     'model type': 'Synthetic A', 'model name': 'Synthetic CPU @ 2.20GHz', 'transparent hugepage': 'madvise',
                     'machine state': 'machine state of the synthetic host\n  kernel   x\n'}.items():
            require(m[k] == v, k, 'is', m[k], 'instead of', v)
        require(float(m['clock']) == 2200e6 and m['clock'].unit == 'Hz', 'clock is', m['clock'])
        mh = m['memory hierarchy']
        require([l['level'] for l in mh] == ['L%d' % (n + 1) for n in range(len(caches))] + ['MEM'], 'levels are', [l['level'] for l in mh])
        for n, (l, (size, groups)) in enumerate(zip(mh, caches)):
            require(abs(float(l['size per group']) - size_bytes(size)) < 1e-6 and l['size per group'].unit == 'B', 'size of', l['level'], 'is', l['size per group'])
            per = S * C // groups
            require((l['groups'], l['cores per group'], l['threads per group']) == (groups, per, per * T), l['level'], 'has', l['groups'], 'groups of',
                    l['cores per group'], 'cores and', l['threads per group'], 'threads instead of', (groups, per, per * T))
            for key in ('load_from', 'store_to'):
                want = 'L%d' % (n + 2) if n + 1 < len(caches) else None
                require(l['cache per group'].get(key) == want, l['level'], key, l['cache per group'].get(key))
        require((mh[-1]['cores per group'], mh[-1]['threads per group'], mh[-1]['size per group']) == (C, C * T, None), 'memory is described as', dict(mh[-1]))
        require((mh[-1]['penalty cycles per cacheline load'], mh[-1]['penalty cycles per cacheline store']) == (0, 0), 'memory has a penalty')
        for l in mh:
            for key in ('upstream throughput',):
                require((key in l) == overwrite, 'placeholder', key, 'of', l['level'])
        for k in before:
            if k not in ('sockets', 'cores per socket', 'threads per core', 'NUMA domains per socket', 'cores per NUMA domain', 'model type', 'model name',
                         'clock', 'memory hierarchy', 'machine state'):
                require(repr(m[k]) == before[k], k, 'was changed')
        ctx.step()
    with scratch() as d:
        p = os.path.join(d, 'm.yml')
        m.dump(p)
        m2 = MachineModel(p)
        from .c28 import norm
        require(norm(m2['memory hierarchy']) == norm(m['memory hierarchy']), 'stored description differs from', m['memory hierarchy'])
    ctx.state(repr(host))
    return S, C, T, ns, [g for _, g in caches]


# ------------------------------------------------------------------ measurements
FAMILIES = {'load': ['load', 'load_avx'], 'copy': ['copy', 'copy_avx'], 'update': ['update'], 'triad': ['triad', 'triad_avx512'], 'daxpy': ['daxpy']}
STREAMS = {'load': (1, 0, 0, 0), 'copy': (1, 0, 1, 0), 'update': (1, 1, 1, 0), 'triad': (3, 0, 1, 2), 'daxpy': (2, 1, 1, 2)}


def ev_measure(case, ctx):
    from kerncraft.machinemodel import MachineModel
    host, fast = case
    S, C, T, N, caches = host['S'], host['C'], host['T'], host['N'], host['caches']
    count = [0]
    log = []

    def bw(cmd):
        count[0] += 1
        avx = cmd[2].endswith('_avx')
        v = 1000. + (500 if avx == bool(fast >> (cmd[2][0] == 'c') & 1) else 0) + (count[0] * 37) % 101 + count[0] % 4 * .25
        log.append((tuple(cmd), v))
        return v
    with on(host, bw) as s:
        m = MachineModel()
        m.dump = lambda *a, **k: ''     # see C27
        m.update()
    require(len(s.log) == len(log) + sum('avx512' in c[2] for c in s.log), 'benchmarks do not match the log')
    b = m['benchmarks']
    require(sorted(b['kernels']) == sorted(FAMILIES), 'kernels are', sorted(b['kernels']))
    levels = ['L%d' % (n + 1) for n in range(len(caches))] + ['MEM']
    require(sorted(b['measurements']) == levels, 'measured levels are', sorted(b['measurements']))

    def cmd(kernel, size, threads, tpc):
        return ('likwid-bench', '-t', kernel, '-W', 'S0:%dkB:%d:1:%d' % (int(size / 1000), threads, T // tpc))
    sizes = {}
    for n, lv in enumerate(levels):
        for c in range(1, C + 1):
            if lv == 'MEM':
                size = 15 * size_bytes(caches[-1][0])
            else:
                def share(k):
                    return size_bytes(caches[k][0]) * max(1, c / (S * C // caches[k][1]))
                size = share(n) * .66
                if n:
                    size = max(size, share(n - 1) * 1.2)
            sizes[lv, c] = size
    runs = collections.defaultdict(list)
    for c, v in log:
        runs[c].append(v)
    search = {}
    for k, names in FAMILIES.items():
        info = b['kernels'][k]
        got = tuple(info[x]['streams'] for x in ('read streams', 'read+write streams', 'write streams')) + (info['FLOPs per iteration'],)
        require(got == STREAMS[k], 'streams of', k, 'are', got)
        for x in ('read streams', 'read+write streams', 'write streams'):
            require(float(info[x]['bytes']) == 8 * info[x]['streams'] and info[x]['bytes'].unit == 'B', 'bytes of', k, x, info[x])
        for name in names:
            c = cmd(name, sizes['L1', 1], 1, 1)
            tried = [x for x in s.log if tuple(x) == c]
            require(tried, 'kernel', name, 'was not tried:', c)
            if 'avx512' not in name:
                search[name] = runs[c].pop(0)
        best = max((search[x], x) for x in names if x in search)[1]
        require(info['fastest bench kernel'] == best, 'fastest kernel of', k, 'is', info['fastest bench kernel'], 'instead of', best)
    for k in FAMILIES:
        best = b['kernels'][k]['fastest bench kernel']
        for lv in levels:
            require(sorted(b['measurements'][lv]) == list(range(1, T + 1)), 'threads per core of', lv, sorted(b['measurements'][lv]))
            for t in range(1, T + 1):
                ms = b['measurements'][lv][t]
                require(ms['threads per core'] == t and ms['cores'] == list(range(1, C + 1)) and ms['threads'] == [x * t for x in range(1, C + 1)],
                        'configuration of', lv, t, 'is', ms['cores'], ms['threads'])
                for key, div in (('total size', lambda c: 1), ('size per core', lambda c: c), ('size per thread', lambda c: c * t)):
                    got = [float(x) for x in ms[key]]
                    want = [sizes[lv, c] / div(c) for c in range(1, C + 1)]
                    require(len(got) == C and all(abs(x - y) <= 1e-6 * y for x, y in zip(got, want)), key, 'of', lv, t, 'is', got, 'instead of', want)
                require(len(ms['results'][k]) == len(ms['stats'][k]) == C, 'results of', lv, t, k, ms['results'][k])
                for i in range(C):
                    c = cmd(best, sizes[lv, i + 1], (i + 1) * t, t)
                    st = [float(x) for x in ms['stats'][k][i]]
                    require(len(st) == REPS and all(x.unit == 'B/s' for x in ms['stats'][k][i]), 'repetitions of', lv, t, k, i, ms['stats'][k][i])
                    v = [round(x * 1e6, 2) for x in runs[c]]
                    st = [round(x, 2) for x in st]
                    require(v[:REPS] == st, 'measurements of', lv, t, k, i + 1, 'cores are', st, 'but', c, 'gave', v[:REPS])
                    del runs[c][:REPS]
                    require(round(float(ms['results'][k][i]), 2) == max(st), 'result of', lv, t, k, i, 'is', ms['results'][k][i], 'of', st)
                    ctx.step()
    left = {c: v for c, v in runs.items() if v}
    require(not left, 'other benchmarks were run:', list(left.items())[:3])
    ctx.state(repr(host), fast)
    return C, T, len(levels), b['kernels']['load']['fastest bench kernel'], b['kernels']['copy']['fastest bench kernel']


def measure_cases(tier):
    def it():
        for h in hosts(small=tier == 'quick'):
            if tier == 'quick' and h['N'] != h['S']:
                continue
            for fast in range(4):
                yield [h, fast]
    return it


# ------------------------------------------------------------------ comparison of a description with the host
BASE = dict(S=2, C=4, T=2, N=2, caches=[['32 kB', 8], ['256 kB', 8], ['20 MB', 2]])
VARIANTS = {
    'same': {}, 'type': {'type': 'Synthetic B'}, 'name': {'name': 'Other CPU'}, 'sockets': {'S': 4, 'N': 4}, 'cores': {'C': 2}, 'threads': {'T': 1},
    'numa': {'N': 4}, 'hugepages': {'huge': '[always] madvise never\n'}, 'frequency': {'freq': 1234.5},
}
KEYS = ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core', 'NUMA domains per socket', 'cores per NUMA domain', 'transparent hugepage']


def entries(h):
    ns = max(1, h['N'] // h['S'])
    return {'model type': h.get('type', 'Synthetic A'), 'model name': h.get('name', 'Synthetic CPU @ 2.20GHz'), 'sockets': h['S'], 'cores per socket': h['C'],
            'threads per core': h['T'], 'NUMA domains per socket': ns, 'cores per NUMA domain': h['C'] // ns,
            'transparent hugepage': h.get('huge', ' [madvise]').split('[')[1].split(']')[0]}


def combine(names):
    h = dict(BASE)
    for n in names:
        h.update(VARIANTS[n])
    h['caches'] = [['32 kB', h['S'] * h['C']], ['256 kB', h['S'] * h['C']], ['20 MB', h['S']]]
    return h


def ev_compare(case, ctx):
    from kerncraft.machinemodel import MachineModel
    from . import c27
    a, b, how = case
    ha, hb = combine(a), combine(b)
    ea, eb = entries(ha), entries(hb)
    diff = [k for k in KEYS if ea[k] != eb[k]]
    with scratch() as d:
        p = os.path.join(d, 'm.yml')
        with on(ha):
            m = MachineModel()
            m.update(benchmarks=False)
            m.dump(p)
        out = io.StringIO()
        with on(hb), contextlib.redirect_stdout(out):
            if how == 'call':
                same = MachineModel(p).current_system(print_diff=True)
                require(MachineModel(p).current_system() == same, 'printing the differences changes the result')
            else:
                same = c27.call_main(['-m', p, '--compare-host', os.path.join(d, 'other.yml')]) == 0
        require(os.listdir(d) == ['m.yml'], 'comparison wrote', os.listdir(d))
        require(same == (not diff), 'description of', a, 'on host', b, 'same:', same, 'but they differ in', diff)
        said = out.getvalue()
        got = [k for k in KEYS if repr(k) in said]
        require(got == diff, 'reported differences are', got, 'instead of', diff)
        for k in diff:
            require(any(repr(k) in l and repr(ea[k]) in l and repr(eb[k]) in l for l in said.split('\n')), 'difference in', k, 'is reported as', said)
    ctx.step()
    ctx.state(tuple(a), tuple(b))
    return diff


def compare_cases(tier):
    def it():
        names = [n for n in VARIANTS if n != 'same']
        for how in ('call', 'main'):
            for n in range(0, 3 if tier == 'quick' else 4):
                for c in itertools.combinations(names, n):
                    yield [[], list(c), how]
                    if n:
                        yield [list(c), [], how]
                        yield [list(c), list(c), how]
                        yield [list(c[:1]), list(c[1:]), how]
    return it


def suites(tier):
    q = tier == 'quick'
    return [
        Suite('topology', lambda: hosts(), ev_topology, chunk=16, bound='1-2 sockets x 1-6 cores x 1-4 threads x NUMA domains x all groupings of 1-4 cache levels'),
        Suite('measure', measure_cases(tier), ev_measure, chunk=2, timeout=300,
              bound='1-2 sockets x 1-%d cores x 1-%d threads x all groupings of 1-%d cache levels%s; fastest kernels' % ((6, 2, 3, '; 1-4 threads with 1-2 cores') if q else (6, 4, 4, ''))),
        Suite('compare', compare_cases(tier), ev_compare, chunk=8, bound='all combinations of up to %d of 8 differences between description and host' % (2 if q else 3)),
    ]
