"""C16: roofline bounds, decided on all orders of bandwidths, traffic and peaks of small machines.

The real RooflineFLOP and RooflineASM run with injected traffic and in-core results. The expected bound of every
level, the tightest of them and the peak are computed in exact arithmetic from the machine description and the
kernel's source.
"""
import itertools
import os
from fractions import Fraction

from .. import kern
from ..core import Skip, Suite, quiet, require
from . import c12, c13, c14, c15

PROPERTY = 'C16'
ASSUMPTIONS = [
    'Traffic of caches and memory and in-core results are injected; C10, C11 and C25 check what they predict.',
    'The first level transfers every distinct element read and every distinct element written by one cache line worth '
    'of iterations, at the bandwidth measured for reading only.',
    'References to a fixed element and scalars stay in registers.',
    'Machine files whose peak is not filled in cannot be used with RooflineFLOP.',
    'Core counts which were not measured are refused.',
]

KS = ['load', 'copy', 'update', 'triad']
PEAK = {'SP': 32, 'DP': 16}


def machine(bws, cores=(1, 2, 4), cl=64, clock=2.0e9, peak=PEAK):
    """bws: bytes per second of every level; kernels and core counts differ slightly in a known way."""
    from kerncraft.prefixedunit import PrefixedUnit as PU
    names = ['L1'] + ['L%d' % (i + 2) for i in range(len(bws) - 2)] + ['MEM']
    hier, meas = [], {}
    for i, n in enumerate(names):
        h = {'level': n, 'cores per group': [1, 4][i > 0], 'threads per group': 1, 'transfers overlap': False}
        if i:
            h['upstream throughput'] = [c13.MEMBW if n == 'MEM' else PU(32.0, 'B/cy'), 'half-duplex']
        hier.append(h)
        meas[n] = {1: {'threads per core': 1, 'cores': list(cores), 'threads': list(cores), 'results': {
            k: [PU(value(bws, i, k, j), 'B/s') for j in range(len(cores))] for k in KS}}}
    return kern.machine(**{
        'memory hierarchy': hier, 'cacheline size': PU(float(cl), 'B'), 'clock': PU(float(clock), 'Hz'),
        'cores per NUMA domain': 4, 'cores per socket': 4,
        'FLOPs per cycle': {p: {'total': v, 'ADD': v / 2, 'MUL': v / 2} for p, v in peak.items()},
        'benchmarks': {'kernels': c12.kernels(KS), 'measurements': meas}})


def value(bws, level, k, j):
    # not monotonic in the number of cores
    return float(bws[level] * (1 + KS.index(k) / 16) * (1, 2.5, 1.75)[j])


SOURCES = {
    'one': ('{t} a[N]; {t} b[N];', 'a[i] = b[i] + b[i];', 1),
    'copy': ('{t} a[N]; {t} b[N];', 'a[i] = b[i];', 0),
    'stencil': ('{t} a[N]; {t} b[N];', 'a[i] = b[i-1] + b[i] * b[i+1];', 2),
    'update': ('{t} a[N]; {t} s;', 'a[i] = a[i] * s;', 1),
    'two': ('{t} a[N]; {t} b[N]; {t} c[N];', 'a[i] = b[i] * c[i] + c[i+2] * b[i]; b[i] = a[i];', 3),
    'scalar': ('{t} s; {t} r;', 's = s + r;', 1),
    'scatter': ('{t} a[M]; {t} b[M];', 'a[2*i] = b[2*i+1] + b[i];', 1),
    'fixed': ('{t} a[N]; {t} b[N];', 'a[i] = b[7] + b[i];', 1),
}
_kernels = {}


def kernel(name, t, step, m):
    if (name, t, step) not in _kernels:
        decl, stmt, flops = SOURCES[name]
        src = '%s\nfor(int i=2; i<N-2; %s) { %s }\n' % (decl.format(t=t), '++i' if step == 1 else 'i+=%d' % step, stmt)
        k = kern.kernel_code(src, {'N': 4000}, m) if 'M' not in decl else \
            kern.kernel_code(src, {'N': 4000, 'M': 9000}, m)
        _kernels[name, t, step] = k
    return _kernels[name, t, step]


def l1_bytes(name, step, size, cl):
    """Bytes moved between core and first level by one cache line worth of iterations.

    As everywhere, references to a fixed element stay in registers.
    """
    n = cl // size
    reads, writes = set(), set()
    acc = {'one': (['b[i]'], ['a[i]']), 'copy': (['b[i]'], ['a[i]']), 'stencil': (['b[i-1]', 'b[i]', 'b[i+1]'], ['a[i]']),
           'update': (['a[i]'], ['a[i]']), 'two': (['b[i]', 'c[i]', 'c[i+2]', 'a[i]'], ['a[i]', 'b[i]']),
           'scalar': ([], []), 'scatter': (['b[2*i+1]', 'b[i]'], ['a[2*i]']), 'fixed': (['b[i]'], ['a[i]'])}[name]
    for k in range(n):
        i = 2 + k * step
        for out, refs in zip((reads, writes), acc):
            for r in refs:
                arr, idx = r[:-1].split('[')
                out.add((arr, eval(idx, {'i': i})))
    return (len(reads) + len(writes)) * size, n


def run(m, traffic, name='one', t='double', step=1, cls='RooflineFLOP', ports=None, thr=1.0, inc=64, **opts):
    import kerncraft.models as models
    k = kernel(name, t, step, m)
    k.incore_analysis = c14.incore(ports or {'0': thr}, thr, inc)
    k.machine = m
    with c14.injected(traffic), quiet():
        e = getattr(models, cls)(k, m, args=c14.options(**opts), parser=None)
        e.analyze()
    return e


INF = float('inf')


def bounds(m, bws, traffic, name, t, step, cores):
    """For every level: permitted iterations per second, by benchmark kernel."""
    measured = m['benchmarks']['measurements']['L1'][1]['cores']
    j = measured.index(cores)
    cl, size = int(float(m['cacheline size'])), c14.SIZES[t]
    its = Fraction(cl, size * step)
    nbytes, n = l1_bytes(name, step, size, cl)
    out = [{'load': INF if not nbytes else Fraction(value(bws, 0, 'load', j)) * n / nbytes}]
    pool = {k: c12.POOL[k] for k in KS}
    for i in range(1, len(bws)):
        l, s = Fraction(traffic[0][i - 1]), Fraction(traffic[1][i - 1])
        out.append({})
        for k in c12.closest(pool, KS, l, s):
            bw = Fraction(value(bws, i, k, j)) * c12.factor(pool, k, i)
            out[-1][k] = INF if l + s == 0 else bw * its / ((l + s) * cl)
    return out


def close(a, b):
    return c15.close(a, b)


def judge(m, e, bws, traffic, name, t, step, cores, ctx, first=0):
    """Levels from *first* on must be those of the description; returns the tightest bound."""
    r = e.results
    exp = bounds(m, bws, traffic, name, t, step, cores)
    mb = r['mem bottlenecks']
    require(len(mb) == len(exp), 'levels', len(mb))
    got = []
    for i, (b, x) in enumerate(zip(mb, exp)):
        if i < first:
            require(b is None, 'first level', b)
            continue
        require(b['level'] == m['memory hierarchy'][i]['level'], 'level', b['level'])
        it = float(b['performance']['It/s'])
        require(b['bw kernel'] in x, 'benchmark', b['bw kernel'], 'for', b['level'], sorted(x))
        require(close(it, x[b['bw kernel']]), b['level'], 'allows', it, 'It/s instead of', float(x[b['bw kernel']]))
        got.append((it, i))
        ctx.step(1)
    worst = min(got)[0]
    require(close(r['min performance']['It/s'], Fraction(worst) if worst != INF else INF), 'prediction',
            r['min performance']['It/s'], 'instead of', worst)
    lvl = r['bottleneck level']
    if worst == INF:
        require(lvl is None or close(got[lvl - first][0], INF), 'bottleneck', lvl)
    else:
        require(lvl is not None and [it for it, i in got if i == lvl] == [worst], 'bottleneck', lvl, 'of', got)
    return worst, exp


def decision(e, worst, peak, unit='It/s'):
    """What the report says is the bound."""
    text = c15.report(e, unit)
    if 'CPU bound. ' in text:
        require(worst >= peak, 'reported CPU bound with', worst, 'below', float(peak))
        return 'CPU'
    require('Cache or mem bound.' in text and worst <= peak, 'not reported CPU bound with', worst, 'above', float(peak))
    require('Arithmetic Intensity: ' in text, text)
    lvl = e.results['mem bottlenecks'][e.results['bottleneck level']]
    line = [l for l in text.split('\n') if ' transfer bottleneck ' in l]
    require(len(line) == 1 and 'due to %s transfer bottleneck (with bw from %s benchmark)'
            % (lvl['level'], lvl['bw kernel']) in line[0], 'report', text)
    ai = float(text.split('Arithmetic Intensity: ')[1].split()[0])
    require(abs(ai - lvl['arithmetic intensity']) <= 0.0051, 'arithmetic intensity', ai, lvl)
    return lvl['level']


def peak_of(m, name, t, cores):
    flops = SOURCES[name][2]
    p = 'DP' if t.startswith('double') else 'SP'
    return INF if not flops else Fraction(m['FLOPs per cycle'][p]['total']) * Fraction(float(m['clock'])) * cores / flops


def check_peak(m, e, name, t, cores):
    exp = peak_of(m, name, t, cores)
    require(close(e.results['max_perf']['It/s'], exp), 'peak', e.results['max_perf']['It/s'], 'It/s instead of',
            float(exp))
    if exp != INF:
        require(close(e.results['max_perf']['FLOP/s'], exp * SOURCES[name][2]), 'peak',
                e.results['max_perf']['FLOP/s'])
    return exp


# --- orders of bandwidths --------------------------------------------------------------------------
def order_cases(tier):
    vals = [0, 0.5, 2] if tier == 'quick' else [0, 0.5, 1, 2, 6]

    def cases():
        for n in (2, 3, 4):
            for order in itertools.product(range(n), repeat=n):
                if n == 4 and tier == 'quick' and len(set(order)) < 3:
                    continue
                for loads in itertools.product(vals if n < 4 or tier != 'quick' else (0, 2), repeat=n - 1):
                    yield {'order': list(order), 'loads': list(loads)}
    return cases


def order_eval(case, ctx):
    n = len(case['order'])
    bws = [1.0e10 * 4 ** o for o in case['order']]
    outs = set()
    m = {p: machine(bws, peak={'SP': 2 * p, 'DP': p}) for p in (1, 8, 256)}
    for stores in itertools.product((0, 1), repeat=n - 1):
        traffic = (case['loads'], list(stores))
        for cores in (1, 2) if n < 4 else (2,):
            for p in m:
                e = run(m[p], traffic, cores=cores)
                worst, _ = judge(m[p], e, bws, traffic, 'one', 'double', 1, cores, ctx)
                outs.add(decision(e, worst, check_peak(m[p], e, 'one', 'double', cores)))
            for thr in (0.5, 8.0, 100.0):
                e = run(m[1], traffic, cls='RooflineASM', thr=thr, inc=128, cores=cores)
                worst, _ = judge(m[1], e, bws, traffic, 'one', 'double', 1, cores, ctx, first=1)
                peak = Fraction(2 * 10 ** 9) / Fraction(thr) * 16 * cores
                cpu = e.results['cpu bottleneck']
                require(close(cpu['performance throughput']['It/s'], peak), 'in-core bound',
                        cpu['performance throughput'], float(peak))
                require(close(cpu['cl throughput'], Fraction(thr) / 2), 'cycles per cache line', cpu['cl throughput'])
                outs.add('asm ' + decision(e, worst, peak))
        ctx.state(repr(case), repr(stores))
    return ' '.join(sorted(outs))


# --- kernels, types, steps, cores, cache lines ------------------------------------------------------
def kernel_cases():
    for name in SOURCES:
        for t in c14.SIZES:
            for step in (1, 2, 3):
                for cl in (32, 64, 128, 256):
                    for cores in (1, 2, 4):
                        yield {'kernel': name, 'type': t, 'step': step, 'cl': cl, 'cores': cores}


def kernel_eval(case, ctx):
    name, t, step, cores = case['kernel'], case['type'], case['step'], case['cores']
    outs = set()
    for bws in ([3e10, 2e10, 1e10], [1e9, 5e11, 2e10]):
        for peak in ({'SP': 1, 'DP': 256}, {'SP': 512, 'DP': 2}, {'SP': 0.125, 'DP': 0.0625}):
            m = machine(bws, cl=case['cl'], peak=peak, clock=2.5e9)
            for traffic in (([1, 1], [1, 0]), ([0, 0], [0, 0]), ([0, 2.5], [0, 1]), ([3, 0], [1, 0])):
                e = run(m, traffic, name, t, step, cores=cores)
                worst, _ = judge(m, e, bws, traffic, name, t, step, cores, ctx)
                exp = check_peak(m, e, name, t, cores)
                if worst != INF or exp != INF:
                    outs.add(decision(e, worst, exp))
                size = c14.SIZES[t]
                for inc in (size * step, -4 * size * step):
                    for thr in (0.25, 6.0):
                        e = run(m, traffic, name, t, step, cls='RooflineASM', thr=thr, inc=inc, cores=cores)
                        worst, _ = judge(m, e, bws, traffic, name, t, step, cores, ctx, first=1)
                        peak_ = Fraction(25 * 10 ** 8) / Fraction(thr) * (abs(inc) // (size * step)) * cores
                        require(close(e.results['cpu bottleneck']['performance throughput']['It/s'], peak_),
                                'in-core bound', e.results['cpu bottleneck']['performance throughput']['It/s'],
                                'instead of', float(peak_))
                        outs.add('asm ' + decision(e, worst, peak_))
    ctx.state(*case.values())
    return ' '.join(sorted(outs))


# --- histories -------------------------------------------------------------------------------------
def history_cases(tier):
    n = 3 if tier == 'quick' else 4
    acts = [(c, k) for c in ('RooflineFLOP', 'RooflineASM') for k in (0, 1, 2)]

    def cases():
        for h in itertools.product(range(len(acts)), repeat=n):
            yield {'history': [list(acts[i]) for i in h]}
    return cases


TRAFFIC = [([1, 1], [1, 1]), ([0, 3], [0, 1]), ([0, 0], [0, 0])]


def history_eval(case, ctx):
    """Analyses with one machine and kernel do not influence each other; each is repeated."""
    bws = [4e10, 1e10, 2e10]
    m = machine(bws)
    for cls, k in case['history']:
        e = run(m, TRAFFIC[k], cls=cls, cores=2)
        with c14.injected(TRAFFIC[k]), quiet():
            for _ in range(2):
                judge(m, e, bws, TRAFFIC[k], 'one', 'double', 1, 2, ctx, first=int(cls == 'RooflineASM'))
                e.analyze()
        ctx.state(cls, k)
    return repr(case['history'])


# --- refusals, files, predictors -------------------------------------------------------------------
def core_cases():
    for measured in ([1], [1, 2], [1, 2, 4], [2, 4, 8]):
        for cores in range(1, 10):
            yield {'measured': measured, 'cores': cores}


def core_eval(case, ctx):
    bws = [4e10, 1e10, 2e10]
    m = machine(bws, cores=case['measured'])
    ctx.step(1)
    ctx.state(repr(case))
    try:
        e = run(m, TRAFFIC[0], cores=case['cores'])
    except Exception as err:
        require(case['cores'] not in case['measured'], 'refused', err)
        return 'refused'
    require(case['cores'] in case['measured'], 'bandwidth of unmeasured', case['cores'], 'cores')
    judge(m, e, bws, TRAFFIC[0], 'one', 'double', 1, case['cores'], ctx)
    check_peak(m, e, 'one', 'double', case['cores'])
    return 'bound'


def file_eval(case, ctx):
    from kerncraft.machinemodel import MachineModel
    with quiet():
        m = MachineModel(os.path.join(c12.MF, case['file']))
    n = len(m['memory hierarchy']) - 1
    if isinstance(m['FLOPs per cycle']['DP']['total'], str):
        raise Skip('peak of %s is not known' % case['file'])
    cores = m['benchmarks']['measurements']['L1'][1]['cores']
    for c in sorted({cores[0], cores[-1], cores[len(cores) // 2]}):
        for traffic in (([1] * n, [1] * n), ([3] * n, [0] * n), ([2] * (n - 1) + [0], [1] * (n - 1) + [0])):
            for t in ('double', 'float'):
                e = run(m, traffic, 'stencil', t, cores=c)
                its = [float(b['performance']['It/s']) for b in e.results['mem bottlenecks']]
                for i, b in enumerate(e.results['mem bottlenecks'][1:], 1):
                    l, s = traffic[0][i - 1], traffic[1][i - 1]
                    bw, _ = m.get_bandwidth(i, l, s, 1, cores=c)
                    exp = INF if not l + s else Fraction(float(bw)) / ((l + s) * c14.SIZES[t])
                    require(close(its[i], exp), b['level'], its[i], 'instead of', float(exp))
                require(close(e.results['min performance']['It/s'], min(its)), 'prediction',
                        e.results['min performance'])
                # 2 FLOPs per iteration
                exp = Fraction(m['FLOPs per cycle']['DP' if t == 'double' else 'SP']['total']) * \
                    Fraction(float(m['clock'])) * c
                require(close(e.results['max_perf']['FLOP/s'], exp), 'peak', e.results['max_perf']['FLOP/s'])
                decision(e, min(its), exp / 2)
                ctx.step(n)
        ctx.state(case['file'], c)
    return case['file']


def suites(tier):
    return [
        Suite('orders', order_cases(tier), order_eval,
              bound='2 to 4 levels, all orders (with ties) of bandwidths, loads out of %d values, stores out of 2, '
                    '3 peaks, 3 throughputs, 2 core counts (quick: fewer for 4 levels)' % (3 if tier == 'quick' else 5)),
        Suite('kernels', kernel_cases, kernel_eval,
              bound='8 kernels x 3 types x 3 steps x 4 cache-line sizes x 3 core counts x 6 machines x 4 traffics'),
        Suite('histories', history_cases(tier), history_eval,
              bound='all sequences of %d out of 6 analyses, each repeated' % (3 if tier == 'quick' else 4)),
        Suite('cores', core_cases, core_eval, bound='4 lists of measured core counts x 9 requests'),
        Suite('files', c12.file_cases, file_eval, bound='all machine files x 3 core counts x 3 traffics x 2 types'),
    ]
