"""C29: benchmark results follow exactly from the measured values.

The real Benchmark model and perfctr run with a stand-in for likwid-perfctr whose output is chosen
by the check: every sequence of runtimes up to a length, runtime models of many magnitudes, every
sequence of output lines up to a length, and counter values for whole machine descriptions.
"""
import argparse
import contextlib
import io
import itertools
import math
import os
import subprocess as real_subprocess
import sys
from fractions import Fraction
from unittest import mock

from mc.core import Suite, require, quiet
from . import c24, c23

PROPERTY = 'C29'
ASSUMPTIONS = [
    'rectangular loop nests; building the executable is replaced by a stand-in (see C08)',
    'the bandwidth for the memory contribution is MachineModel.get_bandwidth (see C12)',
    'likwid-perfctr prints events the way they are requested; one value column',
]
ROOT = os.environ.get('VERIF_REPO', '/repo')
MACH = os.path.join(ROOT, 'examples/machine-files/SandyBridgeEP_E5-2680.yml')


class Lock:
    closed = False

    def close(self):
        self.closed = True


_cache = {}


def machine(path=MACH):
    if path not in _cache:
        from kerncraft.machinemodel import MachineModel
        _cache[path] = MachineModel(path)
    return _cache[path]


KERNELS = {
    'copy': ('double a[N], b[N];\nfor(int i=0; i<N; ++i) b[i] = a[i];', 0, 1),
    'odd': ('double a[N], b[N];\nfor(int i=1; i<N-1; i+=2) b[i] = 2.0*a[i] + a[i-1];', 2, 2),
    'third': ('float a[M][N], b[M][N];\nfor(int j=1; j<M; j+=3)\n for(int i=0; i<N; i+=4)\n'
              '  b[j][i] = a[j][i] + a[j-1][i] - 1.0;', 2, 4),
    'twod': ('double a[M][N], b[M][N], s;\nfor(int j=1; j<M-1; ++j)\n for(int i=1; i<N-1; ++i)\n'
             '  b[j][i] = (a[j][i-1] + a[j][i+1] + a[j-1][i] + a[j+1][i]) * s;', 4, 1),
}


def iterations(name, c):
    if name == 'copy':
        return len(range(0, c['N']))
    if name == 'odd':
        return len(range(1, c['N'] - 1, 2))
    if name == 'third':
        return len(range(1, c['M'], 3)) * len(range(0, c['N'], 4))
    return len(range(1, c['M'] - 1)) * len(range(1, c['N'] - 1))


def element(name):
    return 4 if name == 'third' else 8


class Likwid:
    """Stand-in for subprocess.check_output."""

    def __init__(self, runtime, counters=None, groups=('MEM', 'CLOCK'), extra=(), lock=None,
                 clock='2.70 GHz', fail=False):
        self.runtime, self.counters, self.groups, self.extra = runtime, counters, groups, extra
        self.calls, self.lock, self.clock, self.fail = [], lock, clock, fail

    def check_output(self, cmd, *a, **kw):
        if '-a' in cmd:
            return ('-' * 40 + '\n' + ''.join('  %s  words about it\n' % g for g in self.groups)).encode()
        env = kw.get('env') or os.environ
        require('OMP_NUM_THREADS' not in env, 'OMP_NUM_THREADS is set for', cmd)
        if self.lock:
            require(not self.lock.closed, 'executable used without holding its lock')
        if self.fail:
            raise real_subprocess.CalledProcessError(1, cmd)
        group = cmd[cmd.index('-g') + 1]
        pos = cmd.index('/exe')
        reps, consts = cmd[pos + 1], cmd[pos + 2:]
        require(float(reps) == int(float(reps)) and int(float(reps)) >= 1 and
                'e' not in reps.lower(), 'repetition count', reps)
        reps = int(float(reps))
        t = self.runtime(len(self.calls), reps)
        vol, bw = 0.015625 * (len(self.calls) + 1), 1234.5 + len(self.calls)
        self.calls.append({'group': group, 'reps': reps, 'consts': consts, 'runtime': t, 'vol': vol,
                           'bw': bw, 'cmd': list(cmd)})
        out = ['-' * 40, 'CPU name:,Synthetic,', 'CPU clock:,%s,' % self.clock, '-' * 40,
               'STRUCT,Info,5', '1,%s,loop' % group.split(',')[0], 'Region Info,Core 0,',
               'RDTSC Runtime [s],%r,' % t, 'call count,1,', 'TABLE,Group 1 Raw,MEM,3',
               'Event,Counter,Core 0', 'INSTR_RETIRED_ANY,FIXC0,3574329']
        if ':' in group:
            for e in group.split(','):
                name, reg = e.split(':', 1)
                out.append('%s,%s,%s' % (name, reg, self.counters(name, reg)))
        out += ['TABLE,Group 1 Metric,MEM,3', 'Metric,Core 0,', 'Runtime (RDTSC) [s],%r,' % t]
        out += [l.format(vol=repr(vol), bw=repr(bw)) for l in self.extra]
        return '\n'.join(out).encode()


MEMLINES = ('Memory data volume [GBytes],{vol},', 'Memory bandwidth [MBytes/s],{bw},')


@contextlib.contextmanager
def patched(lk):
    from kerncraft.models import benchmark
    fake = mock.Mock()
    fake.check_output = lk.check_output
    fake.CalledProcessError = real_subprocess.CalledProcessError
    with mock.patch.object(benchmark, 'subprocess', fake), \
            mock.patch.object(benchmark, 'find_executable', lambda n: '/bin/' + n), \
            mock.patch('kerncraft.machinemodel.MachineModel.current_system', lambda *a, **k: True), \
            quiet():
        yield


def arguments(mach, **over):
    d = dict(no_phenoecm=True, verbose=0, iterations=10, cores=1, ignore_warnings=False, unit=None)
    d.update(over)
    return argparse.Namespace(**d)


def run_model(name, consts, lk, mach=None, **over):
    """Analyse kernel *name* with constants given in order; (kernel, results)."""
    from kerncraft.kernel import KernelCode
    from kerncraft.models.benchmark import Benchmark
    mach = mach or machine()
    kernel = KernelCode(KERNELS[name][0], machine=mach, filename=None)
    for k, v in consts:
        kernel.set_constant(k, v)
    lock = Lock()
    lk.lock = lock
    built = []

    def build(*a, **kw):
        built.append(kw)
        return '/exe', lock
    kernel.build_executable = build
    env = dict(os.environ)
    try:
        with patched(lk):
            model = Benchmark(kernel, mach, arguments(mach, **over))
            model.analyze()
            buf = io.StringIO()
            model.report(output_file=buf)
    finally:
        require(dict(os.environ) == env, 'environment changed from run',
                set(dict(os.environ).items()) ^ set(env.items()))
    require(lock.closed, 'lock on the executable is kept')
    require(len(built) == 1 and bool(built[0].get('openmp')) == (over.get('cores', 1) > 1),
            'build with OpenMP', built)
    return kernel, model.results, buf.getvalue()


def close(a, b):
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def judge(name, consts, lk, res, cores=1, has_mem=True, report='', clock=2.7e9):
    c = dict(consts)
    its = iterations(name, c)
    first = [x for x in lk.calls if ':' not in x['group']]
    for n, x in enumerate(first):
        require(x['consts'] == [str(v) for k, v in sorted(consts)], 'constants', consts, 'passed as', x['consts'])
        cpu = x['cmd'][x['cmd'].index('-C') + 1]
        require(cpu == ('S0:0' if cores == 1 else 'S0:0-%d' % (cores - 1)), 'cores', cores, 'pinned', cpu)
        require('-m' in x['cmd'], 'markers not used')
        if n + 1 < len(first):
            require(x['runtime'] < 1.5, 'measured again after', x['runtime'], 's')
            require(first[n + 1]['reps'] > x['reps'], 'repetitions', x['reps'], 'then', first[n + 1]['reps'])
    last = first[-1]
    require(last['runtime'] >= 1.5, 'a run of', last['runtime'], 's was accepted')
    require(all(x['reps'] == last['reps'] and x['consts'] == last['consts']
                for x in lk.calls[len(first):]), 'counters measured with other arguments')
    t = last['runtime'] / last['reps']
    per_cl = 64 / (element(name) * KERNELS[name][2])
    flops = KERNELS[name][1]
    exp = {'Runtime (per repetition) [s]': t, 'Iterations per repetition': its,
           'Iterations per cacheline': per_cl,
           'Runtime (per cacheline update) [cy/CL]': t * clock / its * per_cl,
           'MEM volume (per repetition) [B]':
               last['vol'] * 1e9 / last['reps'] if has_mem else float('nan'),
           'Performance [MFLOP/s]': flops * its / t / 1e6,
           'MEM BW [MByte/s]': last['bw'] if has_mem else float('nan'),
           'Performance [MLUP/s]': its / t / 1e6, 'Performance [MIt/s]': its / t / 1e6}
    for k, v in exp.items():
        require(close(res[k], v), k, 'is', res[k], 'instead of', v, 'for', name, consts, last)
    for fmt, k in (('Runtime (per cacheline update): {:.2f} cy/CL', 'Runtime (per cacheline update) [cy/CL]'),
                   ('MEM volume (per repetition): {:.0f} Byte', 'MEM volume (per repetition) [B]'),
                   ('Performance: {:.2f} MFLOP/s', 'Performance [MFLOP/s]'),
                   ('Performance: {:.2f} MLUP/s', 'Performance [MLUP/s]'),
                   ('Performance: {:.2f} MIt/s', 'Performance [MIt/s]')):
        label, unit = fmt.split('{')[0], fmt.split('}')[1]
        lines = [l for l in report.split('\n') if l.startswith(label) and l.endswith(unit)]
        require(len(lines) == 1, 'report', repr(report))
        shown = float(lines[0][len(label):len(lines[0]) - len(unit)])
        v = exp[k]
        require(math.isnan(v) and math.isnan(shown) or abs(shown - v) <= (0.51 if 'Byte' in fmt else 0.0051) +
                1e-9 * abs(v), 'report shows', lines[0], 'for', v)
    return its, t, per_cl, last


# --- suites --------------------------------------------------------------------------------------
SHORT = [0.0, 0.004, 0.11, 0.7, 1.4999]
LONG = [1.5, 1.9, 7.25, 3600.0]
CONSTS = {'copy': [('N', 1000)], 'odd': [('N', 1000), ('M', 3)],
          'third': [('M', 33), ('N', 130)], 'twod': [('N', 57), ('M', 40)]}


def history_cases(tier):
    n = 3 if tier == 'quick' else 5

    def cases():
        for l in range(n + 1):
            for seq in itertools.product(SHORT, repeat=l):
                yield {'short': list(seq)}
    return cases


def history_eval(case, ctx):
    calls = set()
    for n, end in enumerate(LONG):
        seq = case['short'] + [end]
        name = sorted(KERNELS)[(n + len(seq)) % len(KERNELS)]
        for iters in (10, 1, 25):
            lk = Likwid(lambda i, reps: seq[min(i, len(seq) - 1)], extra=MEMLINES)
            kernel, res, rep = run_model(name, CONSTS[name], lk, iterations=iters)
            require(len(lk.calls) == len(seq), 'runtimes', seq, 'needed', len(lk.calls), 'runs')
            require(lk.calls[0]['reps'] == iters, 'first run with', lk.calls[0]['reps'],
                    'repetitions instead of', iters)
            judge(name, CONSTS[name], lk, res, report=rep)
            ctx.step(len(lk.calls))
            ctx.state(tuple(seq), iters)
            calls.add(len(lk.calls))
    return 'calls %s' % sorted(calls)


def speed_cases(tier):
    exps = range(-9, 2) if tier == 'quick' else range(-11, 3)

    def cases():
        for e in exps:
            for m in (1.0, 1.7, 3.3, 5.9):
                for over in (0.0, 0.01, 1.2):
                    yield {'time': m * 10.0 ** e, 'overhead': over}
    return cases


def speed_eval(case, ctx):
    out = set()
    for digits in (12, 3):
        for name in sorted(KERNELS):
            for cores in (1, 4):
                lk = Likwid(lambda i, reps: round(case['overhead'] + reps * case['time'], digits),
                            extra=MEMLINES if cores == 1 else ())
                kernel, res, rep = run_model(name, CONSTS[name], lk, cores=cores)
                judge(name, CONSTS[name], lk, res, cores=cores, has_mem=cores == 1, report=rep)
                require(len(lk.calls) <= 100, 'needed', len(lk.calls), 'runs')
                if case['overhead'] == 0 and case['time'] <= 0.01:
                    require(lk.calls[-1]['runtime'] < 4, 'last run took', lk.calls[-1]['runtime'])
                ctx.step(len(lk.calls))
                ctx.state(case['time'], case['overhead'], digits, name, cores)
                out.add(len(lk.calls))
    return 'calls %s' % sorted(out)


def const_cases(tier):
    hi = 13 if tier == 'quick' else 30

    def cases():
        for name in sorted(KERNELS):
            for m in range(4, hi):
                yield {'kernel': name, 'M': m, 'hi': hi}
    return cases


def const_eval(case, ctx):
    for n in range(4, case['hi'] + 8):
        for order in ('MN', 'NM'):
            consts = [(k, case['M'] if k == 'M' else n) for k in order]
            lk = Likwid(lambda i, reps: 2.0, extra=MEMLINES)
            kernel, res, rep = run_model(case['kernel'], consts, lk)
            judge(case['kernel'], consts, lk, res, report=rep)
            ctx.step(1)
            ctx.state(case['kernel'], tuple(consts))
    return case['kernel']


# lines of measurement output: text -> what it contributes
LINES = [
    ('Runtime (RDTSC) [s],1.75,', ('m', 'Runtime (RDTSC) [s]', 1.75)),
    ('Memory bandwidth [MBytes/s],2.7e+02,', ('m', 'Memory bandwidth [MBytes/s]', 270.0)),
    ('CPI,nan,', ('m', 'CPI', float('nan'))),
    ('Clock [MHz],-,', None),
    ('L1D_REPLACEMENT,PMC0,12345', ('c', 'L1D_REPLACEMENT', 'PMC0', 12345)),
    ('L1D_REPLACEMENT,PMC1,77', ('c', 'L1D_REPLACEMENT', 'PMC1', 77)),
    ('L1D_REPLACEMENT,PMC0:EDGEDETECT:THRESHOLD=0x2,9',
     ('c', 'L1D_REPLACEMENT', 'PMC0:EDGEDETECT:THRESHOLD=0x2', 9)),
    ('CAS_COUNT_RD,MBOX0C0,5.642000e+03', ('c', 'CAS_COUNT_RD', 'MBOX0C0', 5642)),
    ('CAS_COUNT_RD,MBOX1C0,-', ('c', 'CAS_COUNT_RD', 'MBOX1C0', 0)),
    ('CAS_COUNT_WR,MBOX1C1,nan', ('c', 'CAS_COUNT_WR', 'MBOX1C1', 0)),
    ('L1D_REPLACEMENT,PMC0,9007199254740993', ('c', 'L1D_REPLACEMENT', 'PMC0', 9007199254740993)),
    ('CPU clock:,2.70 GHz,', ('i', 'CPU clock:', '2.70 GHz')),
    ('TABLE,Group 1 Raw,MEM,3', None),
    ('Event,Counter,Core 0', None),
    ('---------------', None),
    ('', None),
    ('call count,3,', ('m', 'call count', 3.0)),
]


def expected(lines):
    out = {}
    for l in lines:
        what = dict((t, w) for t, w in LINES)[l]
        if what is None:
            continue
        if what[0] == 'c':
            out.setdefault(what[1], {})[what[2]] = what[3]
        else:
            out[what[1]] = what[2]
    return out


def parse_cases(tier):
    def cases():
        yield {'prefix': [], 'n': 1}
        for a in range(len(LINES)):
            for b in range(len(LINES)):
                yield {'prefix': [a, b], 'n': 1 if tier == 'quick' else 2}
    return cases


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def parse_eval(case, ctx):
    from kerncraft.models import benchmark
    for l in range(case['n'] + 1):
        for rest in itertools.product(range(len(LINES)), repeat=l):
            lines = [LINES[i][0] for i in case['prefix'] + list(rest)]
            for ending in ('\n', '') if l == 0 else ('\n',):
                fake = mock.Mock()
                fake.check_output = lambda cmd, *a, **k: ('\n'.join(lines) + ending).encode()
                fake.CalledProcessError = real_subprocess.CalledProcessError
                with mock.patch.object(benchmark, 'subprocess', fake), \
                        mock.patch.object(benchmark, 'find_executable', lambda n: n):
                    got = benchmark.perfctr(['/exe', '1'], 1)
                got = {k: v for k, v in got.items() if k != 'raw output'}
                exp = expected(lines)
                ctx.step(1)
                ctx.state(tuple(lines))
                require(same(got, exp), 'output', lines, 'is read as', got, 'instead of', exp)
    return 'parsed'


def env_cases():
    for value in (None, '', '1', '8'):
        for fail in (False, True):
            for cores in (1, 2, 4):
                for other in (None, 'kept'):
                    yield {'value': value, 'fail': fail, 'cores': cores, 'other': other}


def env_eval(case, ctx):
    from kerncraft.models import benchmark
    ctx.step(1)
    ctx.state(*case.values())
    save = dict(os.environ)
    try:
        os.environ.pop('OMP_NUM_THREADS', None)
        if case['value'] is not None:
            os.environ['OMP_NUM_THREADS'] = case['value']
        if case['other']:
            os.environ['KMP_AFFINITY'] = case['other']
        before = dict(os.environ)
        lk = Likwid(lambda i, reps: 2.0, fail=case['fail'])
        try:
            with patched(lk):
                r = benchmark.perfctr(['/exe', '3', '10'], case['cores'], group='CLOCK')
            require(not case['fail'], 'a failing measurement is ignored')
            require(lk.calls[0]['group'] == 'CLOCK', 'group')
            require(r['Runtime (RDTSC) [s]'] == 2.0, 'runtime')
        except SystemExit as e:
            require(case['fail'] and e.code not in (0, None), 'exit', e.code)
        require(dict(os.environ) == before, 'environment is changed afterwards:',
                set(os.environ.items()) ^ set(before.items()))
        # the context itself, for all kinds of values
        for v in (None, '', '5'):
            for raising in (False, True):
                try:
                    with benchmark.fix_env_variable('OMP_NUM_THREADS', v):
                        require(os.environ.get('OMP_NUM_THREADS') == v, 'variable not set')
                        if raising:
                            raise KeyError()
                except KeyError:
                    pass
                require(dict(os.environ) == before, 'environment is changed afterwards')
    finally:
        os.environ.clear()
        os.environ.update(save)
    return 'failed' if case['fail'] else 'ok'


def clock_cases():
    for ghz in ('2.70', '2.695', '2.72', '2.73', '2.674', '2.67', '1.2', '3.5'):
        for ignore in (False, True):
            for groups in (('MEM', 'CLOCK'), ('CLOCK', 'MEM'), ('L2', 'L3')):
                yield {'ghz': ghz, 'ignore': ignore, 'groups': list(groups)}


def clock_eval(case, ctx):
    ctx.step(1)
    ctx.state(case['ghz'], case['ignore'], tuple(case['groups']))
    off = abs(Fraction(case['ghz']) - Fraction('2.7')) > Fraction('0.027')
    lk = Likwid(lambda i, reps: 1.75, extra=MEMLINES, clock=case['ghz'] + ' GHz', groups=case['groups'])
    try:
        kernel, res, rep = run_model('copy', CONSTS['copy'], lk, ignore_warnings=case['ignore'])
    except SystemExit as e:
        require(off and not case['ignore'] and e.code not in (0, None), 'clock of', case['ghz'], 'refused')
        return 'refused'
    require(not off or case['ignore'], 'clock of', case['ghz'], 'GHz accepted for 2.7 GHz')
    require(lk.calls[0]['group'] == ('MEM' if 'MEM' in case['groups'] else case['groups'][0]),
            'group', lk.calls[0]['group'])
    judge('copy', CONSTS['copy'], lk, res, report=rep)
    return 'accepted'


# --- counters --------------------------------------------------------------------------------------
METRICS = [
    {},
    {('L1', 'loads'): 'LD:PMC[0-3] + LD:PMC[0-3]:EDGE', ('L1', 'stores'): 'ST:PMC0 - ST:PMC0:EDGE=0x1'},
    {('L2', 'loads'): 'L2:PMC0', ('L2', 'stores'): 'L2:PMC0:INVERT', ('L3', 'loads'): 'A_L2:PMC0',
     ('L3', 'stores'): 'L2:PMC0:INVERT:T=0x2/2'},
    {('OL', ''): 'Max(P0:PMC[0-3], P1:PMC[0-3], P4:PMC[0-3], P5:PMC[0-3], P6:PMC[0-3])',
     ('MEM', 'loads'): '2*RD:MBOX0C[01]+RD:MBOX1C[01]', ('L3', 'misses'): 'RD:MBOX0C[01] + RD:MBOX1C[01]'},
    {('L3', 'misses'): 'X:PMC0|PMC2', ('L3', 'evicts'): 'X:PMC1', ('L2', 'loads'): 'Y:PMC0|PMC1',
     ('MEM', 'stores'): 'X:PMC0|PMC2 * 0.5'},
    {('L1', 'loads'): '3*LD:PMC0', ('L1', 'stores'): '0', ('L3', 'evicts'): '0', ('MEM', 'stores'): '0'},
]


def counter_cases(tier):
    files = ['BroadwellEP_E5-2630v4', 'HaswellEP_E5-2695v3', 'SkylakeSP_Gold-6148', 'IvyBridgeEP_E5-2690v2']
    if tier != 'quick':
        files += ['IvyBridgeEP_E5-2660v2', 'SkylakeSP_Platinum-8147_2.7GHz', 'CascadelakeSP_Gold-6248_SNC', 'HaswellEP_E5-2695v3_CoD']

    def cases():
        for f in files:
            for m in range(len(METRICS)):
                for scale in (1, 1000, 12345678):
                    yield {'file': f, 'metrics': m, 'scale': scale}
    return cases


def counter_eval(case, ctx):
    import zlib
    from copy import deepcopy
    import kerncraft.machinemodel as mm
    path = os.path.join(ROOT, 'examples/machine-files', case['file'] + '.yml')
    mach = deepcopy(machine(path))
    hier = {c['level']: c for c in mach['memory hierarchy']}
    for (lvl, what), text in METRICS[case['metrics']].items():
        if lvl == 'OL':
            mach['overlapping model']['performance counter metric'] = text
        else:
            hier[lvl]['performance counter metrics'][what] = text
    # the non-overlapping metric is written in terms of ECM contributions
    texts = {('OL', ''): str(mach['overlapping model']['performance counter metric'])}
    for lvl, c in hier.items():
        for k, v in c['performance counter metrics'].items():
            texts[lvl, k] = str(v)

    def count(name, reg):
        """Counts of an event, by box of its register and parameters."""
        reg, _, params = reg.partition(':')
        box = reg.rstrip('0123456789')
        if reg.startswith(('MBOX', 'CBOX')):
            box = reg[:-1].rstrip('C')
        return (zlib.crc32(repr((name, box, params)).encode()) % 9000 + 1000) * case['scale']
    allowed = {}
    for t in texts.values():
        for ref in c24.references(t):
            allowed[c24.event_of(ref)] = ref
    clock = float(mach['clock'])
    lk = Likwid(lambda i, reps: reps * 0.25, counters=count, extra=MEMLINES, clock='%r GHz' % (clock / 1e9))
    name = 'twod'
    kernel, res, rep = run_model(name, CONSTS[name], lk, mach=mach, no_phenoecm=False)
    its, t, per_cl, last = judge(name, CONSTS[name], lk, res, report=rep, clock=clock)
    # runs measuring counters
    seen = []
    for x in lk.calls:
        if ':' not in x['group']:
            continue
        regs = [e.split(':')[1] for e in x['group'].split(',')]
        require(len(set(regs)) == len(regs), 'register used twice:', x['group'])
        seen += x['group'].split(',')
    require(len(seen) == len(allowed), 'events', sorted(allowed), 'measured by', seen)
    cls = Fraction(its * last['reps']) / Fraction(per_cl)

    def value(kind, text):
        require(kind == 'ref', 'plain symbol', text)
        n, r, p = c24.event_of(text)
        return Fraction(count(n, ':'.join([c23.ref_options(r)[0]] + list(p))))
    val = {k: c24.evaluate(v, value) for k, v in texts.items()}
    for lvl, c in hier.items():
        for k in c['performance counter metrics']:
            got = res['data transfers'][lvl][k]
            require(close(got, val[lvl, k] / cls), lvl, k, 'per cache line is', got, 'instead of',
                    float(val[lvl, k] / cls), 'by', texts[lvl, k])
    with quiet():
        bw, _ = mach.get_bandwidth(-1, float(val['L3', 'misses']), float(val['L3', 'evicts']), 1)

    def link(level):
        return float([c for c in mach['memory hierarchy'] if c['level'] == level][0]['upstream throughput'][0])
    exp = {'T_OL': val['OL', ''] / cls, 'T_nOL': val['L1', 'loads'] / cls / 2,
           'T_L1L2': float((val['L2', 'loads'] + val['L2', 'stores']) / cls * 64) / link('L2'),
           'T_L2L3': float((val['L3', 'loads'] + val['L3', 'stores']) / cls * 64) / link('L3'),
           'T_MEM': float((val['MEM', 'loads'] + val['MEM', 'stores']) / cls * 64) / float(bw) *
           float(mach['clock'])}
    require(set(res['ECM']) == set(exp), 'contributions', sorted(res['ECM']))
    for k, v in exp.items():
        require(close(res['ECM'][k], v), k, 'is', res['ECM'][k], 'instead of', float(v))
    ctx.step(len(lk.calls))
    ctx.state(*case.values())
    shown = [l for l in rep.split('\n') if l.startswith('Phenomenological ECM')]
    require(shown and '{ %.1f || %.1f | %.1f | %.1f | %.1f }' % tuple(
        float(exp[k]) for k in ('T_OL', 'T_nOL', 'T_L1L2', 'T_L2L3', 'T_MEM')) in shown[0],
        'report', shown, exp)
    return '%d runs' % (len(lk.calls) - len([x for x in lk.calls if ':' not in x['group']]))



NEEDED = [('L1', 'loads'), ('L1', 'stores'), ('L2', 'loads'), ('L2', 'stores'), ('L3', 'loads'), ('L3', 'stores'),
          ('L3', 'misses'), ('L3', 'evicts'), ('MEM', 'loads'), ('MEM', 'stores')]


def incomplete_cases():
    for f in ('HaswellEP_E5-2695v3', 'SkylakeSP_Gold-6148'):
        for i, a in enumerate(NEEDED):
            for how in ('gone', 'None', 'unparsable'):
                yield {'file': f, 'without': [list(a)], 'how': how}
            for b in NEEDED[i + 1:]:
                yield {'file': f, 'without': [list(a), list(b)], 'how': 'gone'}
        for lvl in ('L1', 'L2', 'L3', 'MEM'):
            yield {'file': f, 'without': [[lvl, None]], 'how': 'gone'}
    for f in ('SandyBridgeEP_E5-2680', 'BroadwellEP_E5-2697v4_CoD', 'Zen2_EPYC-7452'):
        yield {'file': f, 'without': [], 'how': 'gone'}


def incomplete_eval(case, ctx):
    """Machines without all metrics are still benchmarked, without the phenomenological model."""
    from copy import deepcopy
    mach = deepcopy(machine(os.path.join(ROOT, 'examples/machine-files', case['file'] + '.yml')))
    hier = {c['level']: c for c in mach['memory hierarchy']}
    for lvl, what in case['without']:
        if what is None:
            hier[lvl].pop('performance counter metrics')
        elif case['how'] == 'gone':
            del hier[lvl]['performance counter metrics'][what]
        else:
            hier[lvl]['performance counter metrics'][what] = None if case['how'] == 'None' else 'A:PMC0 +* B'
    clock = float(mach['clock'])
    lk = Likwid(lambda i, reps: reps * 0.25, extra=MEMLINES, clock='%r GHz' % (clock / 1e9))
    kernel, res, rep = run_model('twod', CONSTS['twod'], lk, mach=mach, no_phenoecm=False)
    judge('twod', CONSTS['twod'], lk, res, report=rep, clock=clock)
    require(not [x for x in lk.calls if ':' in x['group']], 'counters measured although a metric is missing')
    require(not res.get('ECM'), 'contributions', res.get('ECM'))
    require('Phenomenological ECM' not in rep, 'report', rep)
    ctx.step(len(lk.calls))
    ctx.state(case['file'], repr(case['without']), case['how'])
    return 'disabled'


def suites(tier):
    return [
        Suite('histories', history_cases(tier), history_eval,
              bound='all sequences of up to %d too short runtimes out of %d before a long one'
                    % (3 if tier == 'quick' else 5, len(SHORT))),
        Suite('speeds', speed_cases(tier), speed_eval,
              bound='runtime per repetition from 1e-9 to 59 s, with overhead, two timer resolutions'),
        Suite('constants', const_cases(tier), const_eval,
              bound='all small sizes of four kernels in both orders of the constants'),
        Suite('output', parse_cases(tier), parse_eval,
              bound='all sequences of up to %d lines out of %d' % (3 if tier == 'quick' else 4, len(LINES))),
        Suite('environment', env_cases, env_eval, bound='values x failure x cores'),
        Suite('clock', clock_cases, clock_eval, bound='measured clocks around the tolerance, groups'),
        Suite('counters', counter_cases(tier), counter_eval,
              bound='%d machine files x %d sets of metrics x 3 magnitudes of counts'
                    % (4 if tier == 'quick' else 9, len(METRICS))),
        Suite('incomplete', incomplete_cases, incomplete_eval,
              bound='every needed metric removed, unparsable or empty, alone and in pairs'),
    ]
