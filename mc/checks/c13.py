"""C13: data-transfer cycles of the ECM model, decided on all small traffic patterns and machines.

The real ECMData runs on machine descriptions with two to four levels while the predictor's answers are
enumerated: every traffic of every link, throughput, duplexity and penalty within the bounds. Sequences of
analyses of one model and of two models sharing a machine are explored as well.
"""
import itertools
import os
from argparse import Namespace
from fractions import Fraction
from unittest import mock

from .. import kern
from ..core import REPO, Suite, quiet, require
from . import c12

PROPERTY = 'C13'
ASSUMPTIONS = [
    'Traffic is injected at the interface of the cache predictors; C10 and C11 check what they predict.',
    'The measured memory bandwidth is selected as checked by C12, with one thread per core and no core count.',
]

MEMBW = 'full socket memory bandwidth'
KS = ['load', 'copy', 'update', 'triad']


def machine(links, cl=64, clock=2.0e9, mem=None, **over):
    """links: [(throughput or MEMBW, duplexness, load penalty or None, store penalty or None), ...] from L2 on."""
    from kerncraft.prefixedunit import PrefixedUnit as PU
    names = ['L1'] + ['L%d' % (i + 2) for i in range(len(links) - 1)] + ['MEM']
    mem = mem or {n: [(i + 1) * 1.1e10, (i + 2) * 1.3e10] for i, n in enumerate(KS)}
    hier = [{'level': 'L1', 'cores per group': 1, 'threads per group': 1, 'transfers overlap': False}]
    meas = {}
    for n, l in zip(names[1:], links):
        h = {'level': n, 'cores per group': 2, 'threads per group': 2, 'transfers overlap': False,
             'upstream throughput': [l[0] if isinstance(l[0], str) else PU(float(l[0]), 'B/cy'), l[1]]}
        if len(l) > 2 and l[2] is not None:
            h['penalty cycles per cacheline load'] = l[2]
        if len(l) > 3 and l[3] is not None:
            h['penalty cycles per cacheline store'] = l[3]
        hier.append(h)
    for n in names:
        meas[n] = {1: {'threads per core': 1, 'cores': [1, 2], 'threads': [1, 2],
                       'results': {k: [PU(v, 'B/s') for v in vs] for k, vs in mem.items()}}}
    d = {'memory hierarchy': hier, 'cacheline size': PU(float(cl), 'B'), 'clock': PU(float(clock), 'Hz'),
         'cores per NUMA domain': 2, 'cores per socket': 2,
         'benchmarks': {'kernels': c12.kernels(sorted(mem)), 'measurements': meas}}
    d.update(over)
    return kern.machine(**d)


class Stub:
    """Answers of a cache predictor, settable at any time."""

    def __init__(self, kernel=None, machine=None, cores=1):
        self.kernel, self.machine, self.cores = kernel, machine, cores
        self.loads = self.stores = ()

    def get_loads(self):
        return [float('nan')] + list(self.loads)

    def get_stores(self):
        return [float('nan')] + list(self.stores)

    def get_misses(self):
        return list(self.loads) + [0]

    def get_hits(self):
        return [0] + list(self.loads)

    def get_evicts(self):
        return list(self.stores) + [0]

    def get_infos(self):
        return {'stub': (tuple(self.loads), tuple(self.stores))}


_kernels = {}


def kernel(t='double', mach=None, step=1):
    if (t, step) not in _kernels:
        src = '{t} a[N]; {t} b[N];\nfor(int i=0; i<N; {n}) a[i] = b[i] + b[i];\n'.format(
            t=t, n='++i' if step == 1 else 'i+=%d' % step)
        _kernels[t, step] = kern.kernel_code(src, {'N': 1000}, mach)
    return _kernels[t, step]


def model(m, traffic, t='double', step=1, cls=None):
    from kerncraft.models.ecm import ECMData
    p = []

    def predictor(k, mach, cores):
        p.append(Stub(k, mach, cores))
        return p[-1]
    e = (cls or ECMData)(kernel(t, m, step), m, cores=1, cache_predictor=predictor)
    p[0].loads, p[0].stores = traffic
    return e, p[0]


def exact(x):
    return Fraction(x) if not isinstance(x, str) else x


def bandwidth(m, level, reads, writes):
    """All bandwidths C12 allows."""
    meas = m['benchmarks']['measurements'][m['memory hierarchy'][level]['level']][1]
    ks = m['benchmarks']['kernels']
    pool = {n: tuple(ks[n][x + ' streams']['streams'] for x in ('read', 'write', 'read+write')) + (0,) for n in ks}
    limit = min(m['memory hierarchy'][level]['cores per group'], m['cores per NUMA domain'])
    return {n: max(Fraction(float(v)) for c, v in zip(meas['cores'], meas['results'][n]) if c <= limit) *
            c12.factor(pool, n, level) for n in c12.closest(pool, sorted(ks), reads, writes)}


def close(a, b, rel=Fraction(1, 10 ** 10)):
    return abs(Fraction(float(a)) - b) <= abs(b) * rel


def expected(m, level, load, store):
    """All permitted cycles of one link."""
    cl = Fraction(float(m['cacheline size']))
    info = m['memory hierarchy'][level]
    through, duplex = info['upstream throughput']
    amount = load + store if duplex == 'half-duplex' else max(load, store)
    if isinstance(through, str):
        clock = Fraction(float(m['clock']))
        return {n: amount * cl * clock / bw for n, bw in bandwidth(m, level, load, store).items()}
    return {None: amount * cl / Fraction(float(through))}


def judge(m, res, traffic, ctx):
    loads, stores = ([Fraction(x) for x in l] for l in traffic)
    levels = m['memory hierarchy'][1:]
    require([c[0] for c in res['cycles']] == [l['level'] for l in levels], 'levels', res['cycles'])
    penalty = Fraction(0)
    for i, info in enumerate(levels):
        exp = expected(m, i + 1, loads[i], stores[i])
        got = res['cycles'][i][1]
        ok = [n for n, v in exp.items() if close(got, v)]
        require(ok, info['level'], 'takes', got, 'cycles instead of', [float(v) for v in exp.values()])
        require(res[info['level']] == got, 'cycles of', info['level'], 'differ')
        if None not in exp:
            require(res['memory bandwidth kernel'] in exp and close(got, exp[res['memory bandwidth kernel']]),
                    'memory kernel', res['memory bandwidth kernel'], exp)
            penalty += loads[i] * Fraction(info.get('penalty cycles per cacheline load', 0)) + \
                stores[i] * Fraction(info.get('penalty cycles per cacheline store', 0))
        ctx.step(1)
    require(close(res['penalty'], penalty), 'penalty', res['penalty'], 'instead of', float(penalty))
    require(res['misses'] == list(traffic[0]) + [0] and res['evicts'] == list(traffic[1]) + [0], 'traffic',
            res['misses'], res['evicts'])


def digest(res):
    return repr([(l, float(c)) for l, c in res['cycles']]), float(res['penalty']), \
        repr(res.get('memory bandwidth kernel'))


# --- links: all traffic of machines with 2 to 4 levels ---------------------------------------------
THROUGH = [64, 32, 16, 8.5]


def link_cases(tier):
    vals = [0, 1, 2.5, 3] if tier == 'quick' else [0, 0.125, 1, 2.5, 3, 7]

    def cases():
        for n in (1, 2, 3):
            for dup in itertools.product(['half-duplex', 'full-duplex'], repeat=n):
                for mem in ([True] if n > 1 else [True, False]):
                    ths = itertools.product([[64, 32], [8.5, 16]][:2], repeat=1) if n == 3 else \
                        itertools.product(itertools.product(THROUGH, repeat=n - 1), repeat=1)
                    for th, in ths:
                        for loads in itertools.product(vals, repeat=n):
                            yield {'through': list(th), 'duplex': list(dup), 'mem': mem, 'loads': list(loads),
                                   'vals': vals}
    return cases


def link_eval(case, ctx):
    th = case['through'] + [MEMBW if case['mem'] else 24]
    m = machine(list(zip(th, case['duplex'])))
    outs = set()
    for stores in itertools.product(case['vals'], repeat=len(th)):
        traffic = (case['loads'], list(stores))
        e, _ = model(m, traffic)
        e.analyze()
        judge(m, e.results, traffic, ctx)
        ctx.state(repr(th), repr(case['duplex']), repr(traffic))
        outs.add(digest(e.results)[0])
    return '%d results' % len(outs)


# --- penalties -------------------------------------------------------------------------------------
def penalty_cases():
    for pl in (None, 0, 1, 3.5):
        for ps in (None, 0, 2, 0.585):
            for dup in ('half-duplex', 'full-duplex'):
                for n in (1, 2, 3):
                    yield {'load': pl, 'store': ps, 'duplex': dup, 'levels': n}


def penalty_eval(case, ctx):
    n = case['levels']
    m = machine([(32, 'half-duplex')] * (n - 1) + [(MEMBW, case['duplex'], case['load'], case['store'])])
    for l, s in itertools.product([0, 0.5, 1, 3], repeat=2):
        traffic = ([2] * (n - 1) + [l], [1] * (n - 1) + [s])
        e, _ = model(m, traffic)
        for again in range(3):
            e.analyze()
            judge(m, e.results, traffic, ctx)
        ctx.state(repr(case), l, s)
    return repr(sorted(map(str, case.values())))


# --- histories: repeated analyses, changing traffic, shared machine --------------------------------
TRAFFIC = [([1, 1], [1, 1]), ([3, 2], [0, 1]), ([2, 0], [1, 0]), ([0, 0], [0, 0]), ([0.5, 4], [2, 3])]


def history_cases(tier):
    n = 3 if tier == 'quick' else 4

    def cases():
        acts = [(w, t) for w in (0, 1) for t in range(len(TRAFFIC))]
        for h in itertools.product(acts, repeat=n):
            if h[0][0] == 0:
                yield {'history': [list(a) for a in h]}
    return cases


def history_eval(case, ctx):
    """Two models on one machine, analysed in turn with changing traffic."""
    m = machine([(32, 'full-duplex'), (MEMBW, 'half-duplex', 1.5, 2.5)])
    ms = [model(m, TRAFFIC[0]), model(m, TRAFFIC[1], t='float')]
    for who, t in case['history']:
        e, p = ms[who]
        p.loads, p.stores = TRAFFIC[t]
        r = e.analyze()
        require(r is e.results, 'result of analyze')
        judge(m, e.results, TRAFFIC[t], ctx)
        fresh, _ = model(machine([(32, 'full-duplex'), (MEMBW, 'half-duplex', 1.5, 2.5)]), TRAFFIC[t],
                         t=['double', 'float'][who])
        require(digest(fresh.analyze()) == digest(e.results), 'differs from a fresh model', digest(e.results))
        ctx.state(repr(ms[who][0].results['cycles']), who)
    return repr(case['history'])


# --- data types, cache-line sizes, clocks, steps ----------------------------------------------------
def type_cases():
    for t in ('double', 'float', 'double _Complex', 'float _Complex'):
        for cl in (32, 64, 128, 256):
            for clock in (1e9, 2.7e9, 3.1e9):
                for step in (1, 2, 4):
                    yield {'type': t, 'cl': cl, 'clock': clock, 'step': step}


def type_eval(case, ctx):
    m = machine([(32, 'half-duplex'), (16, 'full-duplex'), (MEMBW, 'half-duplex', 1)], cl=case['cl'],
                clock=case['clock'])
    for traffic in ([1, 1, 1], [1, 0, 2]), ([3, 0, 1], [2, 5, 0]):
        e, _ = model(m, traffic, t=case['type'], step=case['step'])
        e.analyze()
        judge(m, e.results, traffic, ctx)
        size = {'double': 8, 'float': 4, 'double _Complex': 16, 'float _Complex': 8}[case['type']]
        require(Fraction(str(e.results['iterations per cacheline'])) ==
                Fraction(case['cl'], size * case['step']), 'iterations per cache line',
                e.results['iterations per cacheline'])
        require(e.results['flops per iteration'] == 1, 'flops', e.results['flops per iteration'])
    ctx.state(*case.values())
    return repr(case)


# --- refusals --------------------------------------------------------------------------------------
def bad_cases():
    for d in ('simplex', '', 'Half-Duplex', 'full', None):
        for where in (0, 1):
            yield {'duplex': d, 'where': where}


def bad_eval(case, ctx):
    links = [[32, 'half-duplex'], [MEMBW, 'half-duplex']]
    links[case['where']][1] = case['duplex']
    m = machine(links)
    e, _ = model(m, ([1, 1], [1, 1]))
    ctx.step(1)
    ctx.state(repr(case))
    try:
        e.analyze()
    except ValueError as err:
        require(str(case['duplex']) in str(err), 'message', err)
        return 'refused'
    require(False, 'unknown duplexity', case['duplex'], 'accepted')


# --- command line: choice of predictor -------------------------------------------------------------
def wire_cases():
    for pred in ('LC', 'SIM', 'XX'):
        for cores in (1, 2, 3):
            for verbose in (0, 2):
                yield {'predictor': pred, 'cores': cores, 'verbose': verbose}


def wire_eval(case, ctx):
    import io
    import kerncraft.cacheprediction as cp
    from kerncraft.models.ecm import ECMData
    m = machine([(32, 'half-duplex'), (MEMBW, 'half-duplex', 1, 2)])
    args = Namespace(verbose=case['verbose'], cores=case['cores'], cache_predictor=case['predictor'], unit='cy/CL')
    made = []

    def patch(cls, name, traffic):
        def init(self, kernel, machine, cores=1, **kw):
            made.append((name, cores))
            Stub.__init__(self, kernel, machine, cores)
            self.loads, self.stores = traffic
        return mock.patch.multiple(cls, __init__=init, **{n: getattr(Stub, n) for n in dir(Stub)
                                                         if n.startswith('get_')})
    ctx.step(1)
    ctx.state(*case.values())
    out = io.StringIO()
    with patch(cp.LayerConditionPredictor, 'LC', ([1, 2], [1, 0])), \
            patch(cp.CacheSimulationPredictor, 'SIM', ([3, 1], [0, 2])):
        try:
            e = ECMData(kernel('double', m), m, args=args)
        except NotImplementedError:
            require(case['predictor'] == 'XX', 'refused')
            return 'refused'
        require(made == [(case['predictor'], case['cores'])], 'predictors', made)
        e.analyze()
        traffic = {'LC': ([1, 2], [1, 0]), 'SIM': ([3, 1], [0, 2])}[case['predictor']]
        judge(m, e.results, traffic, ctx)
        with quiet():
            e.report(output_file=out)
        text = out.getvalue()
        if case['verbose'] > 1:
            for i, (a, b) in enumerate((('L1', 'L2'), ('L2', 'MEM'))):
                row = [l for l in text.split('\n') if l.strip().startswith(a + '-' + b)]
                require(len(row) == 1, 'transfers', text)
                cells = [c.split()[0] for c in row[0].split('|')[1:3]]
                require([float(c) for c in cells] == [traffic[0][i] * 64, traffic[1][i] * 64], 'transfers', row)
    return case['predictor']


# --- machine files ---------------------------------------------------------------------------------
def file_cases():
    for c in c12.file_cases():
        yield c


def file_eval(case, ctx):
    from kerncraft.machinemodel import MachineModel
    with quiet():
        m = MachineModel(os.path.join(c12.MF, case['file']))
    n = len(m['memory hierarchy']) - 1
    for l in itertools.product([0, 1, 3], repeat=n):
        for s in itertools.product([0, 2], repeat=n):
            e, _ = model(m, (list(l), list(s)))
            e.analyze()
            judge(m, e.results, (list(l), list(s)), ctx)
            ctx.state(case['file'], repr(l), repr(s))
    unknown = [k for info in m['memory hierarchy'] for k in info
               if 'penalty' in k and k not in ('penalty cycles per cacheline load', 'penalty cycles per cacheline store')]
    require(not unknown, 'unknown penalties', unknown)
    return case['file']


def suites(tier):
    return [
        Suite('links', link_cases(tier), link_eval,
              bound='2 to 4 levels, every duplexity, throughputs, all loads and stores out of %d values per link'
                    % (4 if tier == 'quick' else 6)),
        Suite('penalties', penalty_cases, penalty_eval, bound='4 x 4 penalties x duplexity x levels x 16 traffics'),
        Suite('histories', history_cases(tier), history_eval,
              bound='all sequences of %d analyses of two models with 5 traffics' % (3 if tier == 'quick' else 4)),
        Suite('types', type_cases, type_eval, bound='data types x cache-line sizes x clocks x steps'),
        Suite('refusals', bad_cases, bad_eval, bound='unknown duplexities on every link'),
        Suite('wiring', wire_cases, wire_eval, bound='predictors x cores x verbosity'),
        Suite('files', file_cases, file_eval, bound='all machine files x all loads and stores out of 3 x 2 values'),
    ]
