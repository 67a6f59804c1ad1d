"""C15: conversion of units and printed reports, decided on a grid of predictions, machines and kernels.

The real models run with injected traffic and in-core results; every prediction in their results and every printed
value is compared with the exact conversion of the cycles or iterations it stands for.
"""
import contextlib
import io
import itertools
import re
from fractions import Fraction

from ..core import Suite, require
from . import c14

PROPERTY = 'C15'
ASSUMPTIONS = [
    'Traffic and in-core results are injected at the interfaces of the cache predictors and of the in-core analysis.',
    'One cache line of work is a cache line worth of loop steps: cache-line size / (element size * step) iterations.',
    'A kernel without floating-point operations has 0 FLOP/s, however fast it is.',
    'Printed values are rounded as quantities are printed everywhere (C17).',
]

UNITS = ['cy/CL', 'cy/It', 'It/s', 'FLOP/s']
INF = float('inf')


class Conv:
    """Exact conversions for one machine and kernel."""

    def __init__(self, m, t, step, flops):
        self.clock = Fraction(float(m['clock']))
        self.its = Fraction(float(m['cacheline size'])) / (c14.SIZES[t] * step)
        self.flops = flops

    def cycles(self, cy_cl):
        """All units of a prediction in cycles per cache line."""
        cy = Fraction(cy_cl)
        if cy == 0:
            return {'cy/CL': cy, 'cy/It': cy, 'It/s': INF, 'FLOP/s': INF if self.flops else Fraction(0)}
        it = self.clock * self.its / cy
        return {'cy/CL': cy, 'cy/It': cy / self.its, 'It/s': it, 'FLOP/s': it * self.flops}

    def speed(self, it_s):
        """All units of a prediction in iterations per second."""
        return self.cycles(0) if it_s == INF else self.cycles(self.clock * self.its / Fraction(it_s))


def close(a, b, rel=Fraction(1, 10 ** 10), abs_=0):
    a = float(a)
    if INF in (a, b):
        return a == b
    return a == a and abs(Fraction(a) - b) <= max(abs(b) * rel, abs_)


def same(d, exp, what, rel=Fraction(1, 10 ** 10)):
    require(set(d) >= set(UNITS), what, 'lacks units', sorted(d))
    for u in UNITS:
        require(close(d[u], exp[u], rel), what, 'is', d[u], 'instead of', float(exp[u]), u)
        require(getattr(d[u], 'unit', u) == u, what, 'in', u, 'is given in', getattr(d[u], 'unit', None))


PREFIX = {'': 1, 'k': 10 ** 3, 'M': 10 ** 6, 'G': 10 ** 9, 'T': 10 ** 12, 'P': 10 ** 15, 'E': 10 ** 18, 'Z': 10 ** 21,
          'Y': 10 ** 24}


def shown(text, exp, unit, what):
    """Printed quantity against an exact one."""
    m = re.match(r'\s*(-?[0-9.]+|inf|nan) ?([kMGTPEZY]?)' + re.escape(unit) + r'(?![A-Za-z/])', text)
    require(m, what, 'does not show', unit, 'in', repr(text))
    if m.group(1) == 'inf':
        require(exp == INF, what, 'shows', text, 'instead of', exp)
        return
    require(exp != INF and m.group(1) != 'nan', what, 'shows', text, 'instead of', exp)
    v = Fraction(m.group(1)) * PREFIX[m.group(2)]
    require(abs(v - exp) <= max(abs(exp) * Fraction('0.0101'), Fraction('0.00501')), what, 'shows', text,
            'instead of', float(exp))


def after(text, label, what):
    ls = [l for l in text.split('\n') if l.startswith(label)]
    require(len(ls) == 1, what, 'has', len(ls), 'lines starting with', repr(label), text)
    return ls[0][len(label):]


def report(e, unit, verbose=0):
    e._args.unit, e._args.verbose, e.verbose = unit, verbose, verbose
    out = io.StringIO()
    stray = io.StringIO()
    with contextlib.redirect_stdout(stray):
        e.report(output_file=out)
    require(not stray.getvalue(), 'part of the report went elsewhere:', repr(stray.getvalue()[:200]))
    return out.getvalue()


def kernels(tier):
    for t in ('double', 'float'):
        for step in (1, 2, 3):
            for flops in (0, 1, 3):
                for cl in (64, 128) if tier == 'quick' else (32, 64, 128, 256):
                    yield {'type': t, 'step': step, 'flops': flops, 'cl': cl}


CLOCKS = (1.0e9, 2.7e9, 3.3e6)
VALUES = [0, 0.001, 0.125, 1, 3.7, 12, 1e6]


def machine(case, clock, **kw):
    return c14.make(cl=case['cl'], clock=clock, **kw)


def run(m, case, traffic, cls, ports=None, thr=1.0, inc=64, **opts):
    return c14.run(m, traffic, ports if ports is not None else {'0': thr}, thr, inc, t=case['type'],
                   step=case['step'], flops=case['flops'], cls=cls, **opts)


# --- data transfers --------------------------------------------------------------------------------
def data_eval(case, ctx):
    for clock in CLOCKS:
        m = machine(case, clock)
        conv = Conv(m, case['type'], case['step'], case['flops'])
        for l2, mem in itertools.product(VALUES, repeat=2):
            e = run(m, case, ([l2, mem], [0, 0]), 'ECMData')
            require(e.results['flops per iteration'] == case['flops'], 'FLOPs', e.results['flops per iteration'])
            for u in UNITS:
                text = report(e, u)
                for lvl, cy in (('L2', l2), ('MEM', mem)):
                    # cycles are those reported by the model (C13)
                    got = dict(e.results['cycles'])[lvl]
                    require(close(got, Fraction(cy)), lvl, got, cy)
                    shown(after(text, lvl + ' = ', 'report'), conv.cycles(cy)[u], u, lvl)
                ctx.step(1)
            ctx.state(repr(case), clock, l2, mem)
    # penalties
    m = machine(case, CLOCKS[0], penalty=(2.0, 0))
    for mem in VALUES:
        e = run(m, case, ([1, mem], [0, 0]), 'ECMData')
        text = report(e, 'It/s', 2)
        if mem:
            got = float(after(text, 'penalty cycles: ', 'report').split()[0])
            require(abs(got - 2 * mem) <= 0.0051, 'penalty', got, 2 * mem)
        else:
            require('penalty' not in text.split('L1-L2')[0], 'penalty reported', text)
    return repr(case)


# --- in-core ---------------------------------------------------------------------------------------
def cpu_eval(case, ctx):
    for clock in CLOCKS:
        m = machine(case, clock)
        conv = Conv(m, case['type'], case['step'], case['flops'])
        for thr in VALUES:
            for inc in (c14.SIZES[case['type']] * case['step'], 4 * c14.SIZES[case['type']] * case['step'], -64):
                e = run(m, case, ([1, 1], [0, 0]), 'ECMCPU', {'0': thr / 2, '2D': thr}, thr, inc)
                cy = Fraction(thr) * case['cl'] / abs(inc)
                exp = conv.cycles(cy)
                same(e.results['cl throughput'], exp, 'throughput')
                for u in UNITS:
                    text = report(e, u, 3)
                    shown(after(text, 'Throughput: ', 'report'), exp[u], u, 'throughput')
                    for n, v in (('T_comp', cy / 2), ('T_RegL1', cy)):
                        got = Fraction(after(text, n + ' = ', 'report').split()[0])
                        require(abs(got - v) <= Fraction('0.051'), n, float(got), float(v))
                    ctx.step(1)
                ctx.state(repr(case), clock, thr, inc)
    return repr(case)


# --- complete model --------------------------------------------------------------------------------
def ecm_eval(case, ctx):
    for clock in CLOCKS:
        for numa, cores in ((2, 4), (3, 3)):
            m = machine(case, clock, numa=numa, cores=cores)
            conv = Conv(m, case['type'], case['step'], case['flops'])
            for thr, l2, mem, n in itertools.product((0, 0.001, 3.7, 12, 1e6), (0, 1), (0, 0.125, 1, 3.7),
                                                     (1, cores)):
                e = run(m, case, ([l2, mem], [0, 0]), 'ECM', {'0': thr, '2D': thr / 4}, thr, case['cl'], cores=n)
                ol, nol, _ = c14.compose(m, ([l2, mem], [0, 0]), {'0': thr, '2D': thr / 4}, thr, case['cl'])
                total = max([sum(nol.values(), Fraction(0))] + list(ol.values()))
                exp = conv.cycles(total)
                same(e.results['total cycles'], exp, 'prediction')
                pred = e.results['scaling prediction']
                for p in pred:
                    same(p['performance'], conv.cycles(Fraction(float(p['performance']['cy/CL']))),
                         '%d cores' % p['cores'])
                for u in UNITS:
                    text = report(e, u)
                    ls = text.split('\n')
                    i = [j for j, l in enumerate(ls) if l.startswith('T_ECM = ')]
                    require(len(i) == 1, 'report', text)
                    require(ls[i[0] + 2].startswith('      = '), 'report', text)
                    shown(ls[i[0] + 2][8:], exp[u], u, 'prediction')
                    nums = re.findall(r'-?[0-9.]+', ls[i[0] + 1].replace('cy/CL', ''))
                    require(len(nums) == len(ol) + len(nol) and all(
                        abs(Fraction(a) - Fraction(float(b))) <= Fraction('0.0501') for a, b in
                        zip(nums, list(e.results['ECM'][:-1]) + list(e.results['ECM'][-1]))), 'contributions', ls)
                    require(('(single core)' in ls[i[0] + 2]) == (n > 1), 'report', ls)
                    mc = after(text, 'prediction for %d cores, assuming static scheduling: ' % n, 'report')
                    shown(mc, conv.cycles(Fraction(float(pred[n - 1]['performance']['cy/CL'])))[u], u, 'multi-core')
                    head = after(text, 'cores ', 'report').split('||')[1].split('|')
                    require([int(h) for h in head] == list(range(1, cores + 1)), 'cores', head)
                    row = after(text, 'perf. (%s) || ' % u, 'report').split('|')
                    require(len(row) == len(pred), 'scaling', row)
                    for cell, p in zip(row, pred):
                        v = conv.cycles(Fraction(float(p['performance']['cy/CL'])))[u]
                        require(close(float(cell), v, Fraction(1, 10 ** 9), Fraction('0.0501')), 'scaling shows',
                                cell, 'instead of', float(v), u)
                    ctx.step(1)
                ctx.state(repr(case), clock, thr, l2, mem, n, numa)
            full = report(e, 'It/s', 2)
            for lbl in ('T_comp', 'T_RegL1', 'L2 = ', 'MEM = ', 'T_ECM = '):
                require('\n' + lbl in '\n' + full, 'verbose report lacks', lbl)
    return repr(case)


# --- roofline --------------------------------------------------------------------------------------
def roofline_eval(case, ctx):
    for clock in CLOCKS:
        m = machine(case, clock)
        conv = Conv(m, case['type'], case['step'], case['flops'])
        for l2, mem, n in itertools.product(VALUES, VALUES, (1, 2)):
            e = run(m, case, ([l2, mem], [0, 0]), 'RooflineFLOP', cores=n)
            r = e.results
            its = {}
            for b in r['mem bottlenecks']:
                it = float(b['performance']['It/s'])
                same(b['performance'], conv.speed(it), b['level'])
                if b['arithmetic intensity'] != INF:
                    require(close(it, Fraction(float(b['bandwidth'])) * Fraction(b['arithmetic intensity'])),
                            b['level'], it, b)
                else:
                    require(it == INF and not b['bytes transfered'], b['level'], b)
                its[b['level']] = it
            same(r['min performance'], conv.speed(float(r['min performance']['It/s'])), 'prediction')
            peak = INF if not case['flops'] else 8 * Fraction(clock) * n / case['flops']
            same(r['max_perf'], conv.speed(peak), 'peak')
            for u in UNITS:
                text = report(e, u, 1)
                rows = {l.split('|')[0].strip(): l.split('|') for l in text.split('\n') if l.count('|') >= 4}
                require({'CPU', 'L1', 'L2', 'MEM'} <= set(rows), 'report', text)
                shown(rows['CPU'][2], conv.speed(peak)[u], u, 'CPU')
                for b in r['mem bottlenecks']:
                    shown(rows[b['level']][2], conv.speed(its[b['level']])[u], u, b['level'])
                worst = min(its.values())
                bound(text, u, conv, worst, peak, 'due to CPU max. FLOP/s')
                ctx.step(1)
            ctx.state(repr(case), clock, l2, mem, n)
    return repr(case)


def bound(text, u, conv, worst, peak, cpu):
    if 'CPU bound. ' in text:
        line = after(text, 'CPU bound. ', 'report')
        require(worst >= peak and line.endswith(cpu), 'CPU bound although', worst, '<', peak)
        shown(line, conv.speed(peak)[u], u, 'bound')
    else:
        require('Cache or mem bound.' in text and worst <= peak, 'not CPU bound although', worst, '>', peak)
        line = [l for l in text.split('\n') if ' transfer bottleneck ' in l]
        require(len(line) == 1, 'report', text)
        shown(line[0], conv.speed(worst)[u], u, 'bound')


def asm_eval(case, ctx):
    size = c14.SIZES[case['type']] * case['step']
    for clock in CLOCKS:
        m = machine(case, clock)
        conv = Conv(m, case['type'], case['step'], case['flops'])
        for thr, mem, inc, n in itertools.product(VALUES, (0, 0.125, 3.7), (size, -4 * size, 64), (1, 2)):
            e = run(m, case, ([0, mem], [0, 0]), 'RooflineASM', {'0': thr}, thr, inc, cores=n)
            r = e.results
            exp = conv.cycles(Fraction(thr) * case['cl'] / abs(inc) / n)
            same(r['cpu bottleneck']['performance throughput'], exp, 'in-core prediction')
            its = [float(b['performance']['It/s']) for b in r['mem bottlenecks'] if b is not None]
            for b in r['mem bottlenecks']:
                if b is not None:
                    same(b['performance'], conv.speed(float(b['performance']['It/s'])), b['level'])
            same(r['min performance'], conv.speed(min(its)), 'prediction')
            for u in UNITS:
                text = report(e, u, 1)
                rows = {l.split('|')[0].strip(): l.split('|') for l in text.split('\n') if l.count('|') >= 4}
                shown(rows['CPU'][2], exp[u], u, 'CPU')
                bound(text, u, conv, min(its), exp['It/s'], 'due to CPU bottleneck')
                ctx.step(1)
            ctx.state(repr(case), clock, thr, mem, inc, n)
    return repr(case)


def suites(tier):
    def cases():
        return kernels(tier)
    b = '%d kernels and cache-line sizes x 3 clocks x ' % len(list(kernels(tier)))
    return [
        Suite('data', cases, data_eval, bound=b + '49 traffics x 4 units'),
        Suite('in-core', cases, cpu_eval, bound=b + '7 throughputs x 3 blocks x 4 units'),
        Suite('ecm', cases, ecm_eval, bound=b + '2 topologies x 80 contributions x 4 units', timeout=300, chunk=2),
        Suite('roofline', cases, roofline_eval, bound=b + '49 traffics x 2 core counts x 4 units', chunk=2),
        Suite('asm', cases, asm_eval, bound=b + '126 contributions x 4 units', chunk=2),
    ]
