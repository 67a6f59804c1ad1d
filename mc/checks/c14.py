"""C14: composition and multi-core scaling of the ECM model, decided on all small contributions.

The real ECM, ECMData and ECMCPU run while the traffic and the outcome of the in-core analysis are enumerated:
all small cycle contributions, sides on which they overlap, assembly block sizes, ports and topologies. Expected
compositions and predictions are computed in exact arithmetic.
"""
import itertools
import os
from argparse import Namespace
from contextlib import contextmanager
from fractions import Fraction
from unittest import mock

from .. import kern
from ..core import Suite, quiet, require
from . import c13

PROPERTY = 'C14'
ASSUMPTIONS = [
    'Traffic and in-core results are injected at the interfaces of the cache predictors and of the in-core analysis.',
    'The throughput of an in-core analysis is never below the cycles of its busiest port.',
    'Pointer increments are multiples of the element size (others cannot come from compiled kernels).',
    'Published utilisation model: u(n) = min(1, n T_MEM / (T_ECM + u(n-1) (n-1) T_MEM / 2)).',
]

SIZES = {'double': 8, 'float': 4, 'double _Complex': 16}
CLOCK = 2.0e9


def make(overlap=(False, False, False), cl=64, cores=4, numa=4, sockets=1, penalty=(None, None), flow=None,
         clock=CLOCK):
    """Machine where one cache line takes one cycle on every link and memory."""
    n = len(overlap) - 1
    flow = flow or ['half-duplex'] * n
    links = [(cl, d) for d in flow[:-1]] + [(c13.MEMBW, flow[-1]) + tuple(penalty)]
    # The same bandwidth with all benchmark kernels, after correction of write allocation
    m = c13.machine(links, cl=cl, clock=clock, mem={'load': [cl * clock, cl * clock]},
                    **{'cores per socket': cores, 'cores per NUMA domain': numa, 'sockets': sockets,
                       'FLOPs per cycle': {p: {'total': 8, 'ADD': 4, 'MUL': 4} for p in ('SP', 'DP')}})
    for h, o in zip(m['memory hierarchy'], overlap):
        h['transfers overlap'] = o
    return m


SOURCE = {0: 'a[i] = b[i]', 1: 'a[i] = b[i] + b[i]', 3: 'a[i] = b[i] * b[i] + b[i] - s'}
_kernels = {}


def kernel(t, m, step=1, flops=1):
    if (t, step, flops) not in _kernels:
        src = '{t} a[N]; {t} b[N]; {t} s;\nfor(int i=0; i<N; {n}) {x};\n'.format(
            t=t, n='++i' if step == 1 else 'i+=%d' % step, x=SOURCE[flops])
        _kernels[t, step, flops] = kern.kernel_code(src, {'N': 10000}, m)
    return _kernels[t, step, flops]


def options(**over):
    d = dict(verbose=0, cores=1, cache_predictor='LC', unit='cy/CL', asm_block='auto', pointer_increment='auto',
             incore_model='OSACA')
    d.update(over)
    return Namespace(**d)


@contextmanager
def injected(traffic, made=None):
    """Both predictors answer with the given traffic."""
    import kerncraft.cacheprediction as cp

    def init(self, kernel, machine, cores=1, **kw):
        c13.Stub.__init__(self, kernel, machine, cores)
        self.loads, self.stores = traffic
        for n in d:
            setattr(self, n, d[n].__get__(self))
        if made is not None:
            made.append((type(self).__name__, cores))
    d = {n: getattr(c13.Stub, n) for n in dir(c13.Stub) if n.startswith('get_')}
    with mock.patch.multiple(cp.LayerConditionPredictor, __init__=init, **d), \
            mock.patch.multiple(cp.CacheSimulationPredictor, __init__=init, **d):
        yield


def incore(ports, throughput, increment, calls=None):
    def analysis(*a, **kw):
        if calls is not None:
            calls.append((a, kw))
        return {'throughput': throughput, 'port cycles': dict(ports), 'uops': 4, 'output': 'OUT'}, increment
    return analysis


def run(m, traffic, ports, throughput, increment, t='double', step=1, flops=1, cls='ECM', **opts):
    import kerncraft.models as models
    k = kernel(t, m, step, flops)
    k.incore_analysis = incore(ports, throughput, increment)
    args = options(**opts)
    with injected(traffic), quiet():
        e = getattr(models, cls)(k, m, args=args, parser=None)
        e.analyze()
    return e


def compose(m, traffic, ports, throughput, increment):
    """Named contributions on either side, in exact cycles per cache line."""
    cl = Fraction(float(m['cacheline size']))
    f = cl / abs(Fraction(increment))

    def busiest(side):
        return max([Fraction(v) * f for p, v in ports.items() if p in m[side]['ports']['OSACA']] + [Fraction(0)])
    comp, reg = busiest('overlapping model'), busiest('non-overlapping model')
    if reg < Fraction(throughput) * f:
        comp = Fraction(throughput) * f
    ol, nol = {'T_comp': comp}, {}
    hier = m['memory hierarchy']
    (ol if hier[0]['transfers overlap'] else nol)['T_RegL1'] = reg
    mem = pen = None
    for i, h in enumerate(hier[1:]):
        a, b = Fraction(traffic[0][i]), Fraction(traffic[1][i])
        mem = a + b if h['upstream throughput'][1] == 'half-duplex' else max(a, b)
        (ol if h['transfers overlap'] else nol)['T_' + hier[i]['level'] + h['level']] = mem
        pen = a * Fraction(h.get('penalty cycles per cacheline load', 0)) + \
            b * Fraction(h.get('penalty cycles per cacheline store', 0))
    if pen:
        nol['T_penalty'] = pen
    return ol, nol, mem


def close(a, b, rel=Fraction(1, 10 ** 10)):
    return abs(Fraction(float(a)) - b) <= abs(b) * rel


def judge(m, e, ol, nol, mem, ctx):
    r = e.results
    names, vals = r['ECM Model Construction'], r['ECM']
    require(sorted(names[:-1]) == sorted(ol) and sorted(names[-1]) == sorted(nol), 'contributions', names,
            'instead of', sorted(ol), sorted(nol))
    for side, ns, vs in ((ol, names[:-1], vals[:-1]), (nol, names[-1], vals[-1])):
        require(len(ns) == len(vs), 'values', vals)
        for n, v in zip(ns, vs):
            require(close(v, side[n]), n, 'is', v, 'instead of', float(side[n]))
    total = max([sum(nol.values(), Fraction(0))] + list(ol.values()))
    require(close(r['total cycles']['cy/CL'], total), 'prediction', r['total cycles']['cy/CL'], 'instead of',
            float(total), 'for', vals)
    ctx.step(1)
    scaling(m, e, total, mem, ctx)
    return total


EPS = Fraction(1, 10 ** 9)


def scaling(m, e, total, mem, ctx):
    """Invariants of the multi-core prediction and the published model."""
    r = e.results
    pred = r['scaling prediction']
    n, top = m['cores per NUMA domain'], m['cores per socket']
    require([p['cores'] for p in pred] == list(range(1, top + 1)), 'core counts', [p['cores'] for p in pred])
    perf = [Fraction(float(p['performance']['cy/CL'])) for p in pred]
    require(close(perf[0], total), 'one core takes', float(perf[0]), 'instead of', float(total))
    for a, b in zip(perf, perf[1:]):
        require(b <= a * (1 + EPS), 'slower with more cores:', [float(p) for p in perf])
    sat = r['scaling cores']
    cores = e._args.cores
    require(r['multi-core'] is None or r['multi-core'] == pred[cores - 1], 'multi-core', r['multi-core'])
    require(r['multi-core'] is not None or cores in (None, 0), 'no multi-core prediction for', cores)
    if not mem:
        require(sat == float('inf'), 'saturating at', sat, 'without memory traffic')
        for c, p in enumerate(perf, 1):
            require(close(p, total / c), c, 'cores take', float(p), 'instead of', float(total / c))
        return
    u, exp, ties, definite = Fraction(0), [], [], float('inf')
    for c in range(1, n + 1):
        x = c * mem / (total + u * (c - 1) * mem / 2)
        if definite == float('inf'):
            if abs(x - 1) < EPS:
                ties.append(c)  # at the limit, up to rounding
            elif x > 1:
                definite = c
        u = min(Fraction(1), Fraction(float(x)))
        exp.append(mem / u)
    allowed = {1} if total == mem else set(ties) | {definite}
    require(sat in allowed, 'saturating at', sat, 'instead of', sorted(allowed), 'for', float(total), float(mem),
            [float(p) for p in perf])
    for c, p in enumerate(perf, 1):
        if c <= n:
            require(p >= mem * (1 - EPS), c, 'cores beat the memory bound:', float(p), '<', float(mem))
            require(close(p, exp[c - 1], EPS), c, 'cores take', float(p), 'instead of', float(exp[c - 1]))
            if sat != float('inf') and c >= sat:
                require(close(p, mem, EPS), 'memory bound not reached with', c, 'cores, saturating at', sat)
            elif c not in ties:
                require(p > mem * (1 + EPS / 10), 'memory bound reached with', c, 'cores, saturating at', sat)
        else:
            require(close(p, exp[n - 1] * n / c, EPS), c, 'cores on several domains take', float(p))
        ctx.step(1)


# --- composition -----------------------------------------------------------------------------------
PORTS = [
    {'0': 1.0, '1': 2.0, '2D': 1.0, '3D': 1.0},
    {'0': 4.0, '1': 1.0, '5': 0.5, '2D': 2.0, '3D': 1.5},
    {'0': 0.5, '1': 0.5, '2D': 8.0, '3D': 8.0, '4': 16.0},
    {'0': 0.0, '1': 0.0, '5': 0.0, '2D': 0.0, '3D': 0.0},
    {'4': 3.0},
]


def compose_cases(tier):
    vals = [0, 1, 5] if tier == 'quick' else [0, 0.5, 1, 5, 40]

    def cases():
        for n in (2, 3, 4):
            for overlap in itertools.product([False, True], repeat=n):
                for loads in itertools.product(vals, repeat=n - 1):
                    yield {'overlap': list(overlap), 'loads': list(loads), 'vals': vals}
    return cases


def valid(overlap):
    return all(a or not b for a, b in zip(overlap, overlap[1:]))


def compose_eval(case, ctx):
    overlap = case['overlap']
    n = len(overlap) - 1
    outs = set()
    for pen in ((None, None), (1.5, 0.5)):
        m = make(overlap, penalty=pen)
        for stores in itertools.product(case['vals'] if n < 3 else case['vals'][:2], repeat=n):
            traffic = (case['loads'], list(stores))
            for ports in PORTS:
                top = max(ports.values())
                for thr in {top, top + 1.5, top + 30}:
                    try:
                        e = run(m, traffic, ports, thr, 64)
                    except ValueError as err:
                        require(not valid(overlap), 'refused', overlap, err)
                        ctx.step(1)
                        outs.add('refused')
                        continue
                    require(valid(overlap), 'order of overlaps', overlap, 'accepted')
                    total = judge(m, e, *compose(m, traffic, ports, thr, 64), ctx)
                    outs.add(str(float(total)))
        ctx.state(repr(overlap), repr(case['loads']), repr(pen))
    return ' '.join(sorted(outs)[:12])


# --- block sizes -----------------------------------------------------------------------------------
def block_cases():
    for t in SIZES:
        for cl in (32, 64, 128, 256):
            for mult in (1, 2, 3, 4, 6, 8, 16, 32, 64):
                for sign in (1, -1):
                    yield {'type': t, 'cl': cl, 'elements': mult, 'sign': sign}


def block_eval(case, ctx):
    m = make((False, False, False), cl=case['cl'])
    inc = case['elements'] * case['sign'] * SIZES[case['type']]
    for ports, thr in [(PORTS[0], 2.0), (PORTS[1], 5.5), (PORTS[2], 16.0), (PORTS[4], 3.25)]:
        traffic = ([1, 2], [0, 1])
        e = run(m, traffic, ports, thr, inc, t=case['type'])
        ol, nol, mem = compose(m, traffic, ports, thr, inc)
        judge(m, e, ol, nol, mem, ctx)
        f = Fraction(case['cl'], abs(inc))
        cpu = run(m, traffic, ports, thr, inc, t=case['type'], cls='ECMCPU').results
        for res in (cpu, e.results):
            require(close(res['T_comp'], ol['T_comp']) and close(res['T_RegL1'], nol['T_RegL1']), 'in-core cycles',
                    res['T_comp'], res['T_RegL1'])
            require(close(res['cl throughput']['cy/CL'], Fraction(thr) * f), 'throughput', res['cl throughput'])
            require(set(res['port cycles']) == set(ports) and all(close(res['port cycles'][p], Fraction(v) * f)
                                                                 for p, v in ports.items()), 'ports',
                    res['port cycles'])
            require(close(res['uops'], 4 * f), 'uops', res['uops'])
            require(res['elements_per_block'] == case['elements'], 'elements', res['elements_per_block'])
    ctx.state(*case.values())
    return repr(case)


def zero_cases():
    for t in SIZES:
        for cls in ('ECM', 'ECMCPU', 'RooflineASM'):
            yield {'type': t, 'model': cls}


def zero_eval(case, ctx):
    """Blocks which do not advance are refused."""
    m = make()
    ctx.step(1)
    ctx.state(*case.values())
    try:
        run(m, ([1, 1], [1, 1]), PORTS[0], 2.0, 0, t=case['type'], cls=case['model'])
    except SystemExit as e:
        require(e.code not in (0, None), 'exit code', e.code)
        return 'refused'
    require(False, 'accepted a block which does not advance')


# --- port sides ------------------------------------------------------------------------------------
def port_cases():
    names = ['0', '1', '5', '2D', '3D', '4']
    for vals in itertools.product([0.0, 1.0, 3.0], repeat=len(names)):
        yield {'ports': dict(zip(names, vals))}


def port_eval(case, ctx):
    m = make()
    ports = case['ports']
    for thr in (max(ports.values()), max(ports.values()) + 0.25):
        for traffic in (([0, 0], [0, 0]), ([1, 1], [1, 0])):
            e = run(m, traffic, ports, thr, 32)
            judge(m, e, *compose(m, traffic, ports, thr, 32), ctx)
    ctx.state(repr(ports))
    return repr(e.results['ECM'])


# --- scaling ---------------------------------------------------------------------------------------
def scale_cases(tier):
    def cases():
        for numa in (1, 2, 3, 4, 6, 10):
            for cores in sorted({numa, 2 * numa, numa + 1, 3 * numa}):
                for mem in (0, 0.5, 1, 2, 3, 7):
                    for overlap in ([False] * 3, [True, False, False], [True, True, True]):
                        yield {'numa': numa, 'cores': cores, 'mem': mem, 'overlap': overlap}
    return cases


def scale_eval(case, ctx):
    m = make(case['overlap'], cores=case['cores'], numa=case['numa'], sockets=2)
    outs = set()
    for l2 in (0, 1, 4):
        for reg in (0.0, 1.0, 2.5):
            for comp in (0.0, 1.0, 2.0, 3.0, 7.0, 11.3, 50.0):
                for cores in sorted({1, 2, case['cores']} & set(range(1, case['cores'] + 1))):
                    ports = {'0': comp, '2D': reg}
                    traffic = ([l2, case['mem']], [0, 0])
                    thr = max(comp, reg)
                    e = run(m, traffic, ports, thr, 64, cores=cores)
                    judge(m, e, *compose(m, traffic, ports, thr, 64), ctx)
                    ctx.state(repr(case), l2, reg, comp)
                    outs.add(e.results['scaling cores'])
    return repr(sorted(outs))


def ratio_cases(tier):
    k = 4 if tier == 'quick' else 16

    def cases():
        for i in range(0, 20 * k + 1):
            yield {'total': i / k, 'grid': k}
    return cases


def ratio_eval(case, ctx):
    """All ratios between prediction and memory cycles on a grid, including exact ties."""
    outs = []
    for numa in (1, 2, 4, 7, 24):
        m = make([False, False, False], cores=numa * 2, numa=numa)
        for mem in (0.25, 1, 2, 3.5):
            # serial part first, overlapping time beyond it
            for l1 in (0, 1):
                ports = {'0': case['total'], '2D': 0.0}
                traffic = ([l1, mem], [0, 0])
                e = run(m, traffic, ports, case['total'], 64)
                judge(m, e, *compose(m, traffic, ports, case['total'], 64), ctx)
                outs.append(e.results['scaling cores'])
                ctx.state(case['total'], numa, mem, l1)
    return repr(outs)


# --- repeated analyses and wiring ------------------------------------------------------------------
def wire_cases():
    for pred in ('LC', 'SIM'):
        for cores in (1, 2, 4):
            for n in (1, 2, 3):
                yield {'predictor': pred, 'cores': cores, 'times': n}


def wire_eval(case, ctx):
    import kerncraft.models as models
    made, calls = [], []
    m = make(penalty=(1.0, 2.0))
    k = kernel('double', m)
    k.incore_analysis = incore(PORTS[1], 5.0, -32, calls)
    traffic = ([1, 3], [2, 1])
    args = options(cores=case['cores'], cache_predictor=case['predictor'], asm_block='3', pointer_increment='32')
    with injected(traffic, made), quiet():
        e = models.ECM(k, m, args=args, parser=None)
        require(len(made) == 1 and made[0][0].startswith('Layer' if case['predictor'] == 'LC' else 'Cache') and
                made[0][1] == case['cores'], 'predictors', made)
        for _ in range(case['times']):
            e.analyze()
            judge(m, e, *compose(m, traffic, PORTS[1], 5.0, -32), ctx)
    for a, kw in calls:
        require(kw.get('asm_block') == 3 and kw.get('pointer_increment') == 32 and kw.get('model') == 'OSACA',
                'in-core options', a, kw)
    ctx.state(*case.values())
    # without command line, the given predictor is used
    seen = []

    def predictor(k, mach, cores):
        seen.append(cores)
        s = c13.Stub(k, mach, cores)
        s.loads, s.stores = traffic
        return s
    e = models.ECM(k, m, cores=case['cores'], cache_predictor=predictor)
    require(seen == [case['cores']], 'given predictor was not used', seen)
    return case['predictor']


def suites(tier):
    return [
        Suite('composition', compose_cases(tier), compose_eval,
              bound='2 to 4 levels, every overlap pattern, all traffic out of %d values per link, 5 port loads x 3 '
                    'throughputs x penalties' % (3 if tier == 'quick' else 5)),
        Suite('blocks', block_cases, block_eval, bound='types x cache lines x 9 block sizes x direction'),
        Suite('still', zero_cases, zero_eval, bound='blocks which do not advance'),
        Suite('ports', port_cases, port_eval, bound='all loads of 6 ports out of 3 values'),
        Suite('scaling', scale_cases(tier), scale_eval, bound='NUMA sizes x cores x contributions on a grid'),
        Suite('ratios', ratio_cases(tier), ratio_eval,
              bound='all single-core predictions up to 20 cy in steps of 1/%d x 5 NUMA sizes x 4 memory times'
                    % (4 if tier == 'quick' else 16)),
        Suite('wiring', wire_cases, wire_eval, bound='predictors x cores x repetitions'),
    ]
