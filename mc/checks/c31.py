"""C31: the in-core results are the numbers of the analyser for exactly the marked loop.

LLVM-MCA (the real one) and OSACA (the real one) run on every small marked assembly file; the oracle is their own
machine-readable report on the text of the loop alone. All small reports of LLVM-MCA and IACA are produced by
stand-in executables and compared with the numbers they were made of.
"""
import contextlib
import io
import itertools
import json
import os
import re
import stat
import subprocess
from unittest import mock

from ..core import Suite, require, scratch, quiet, Skip
from . import c25

PROPERTY = 'C31'
ASSUMPTIONS = [
    'AT&T syntax on x86; the loops are those of the segment library of C25.',
    'LLVM-MCA is the installed one (suites with the real tool are left out where there is none); reports of IACA, which is not available, are those of versions 2.2, 2.3 and 3.0 as kerncraft documents them.',
    'OSACA: its command line on the loop alone is the reference.',
]

CPUS = {
    'x86': ['sandybridge', 'skylake-avx512', 'znver2', 'haswell', 'broadwell', 'ivybridge', 'cascadelake', 'znver1'],
    'aarch64': ['a64fx', 'thunderx2t99', 'neoverse-n1', 'cortex-a57'],
}
ARCHS = {'x86': ['SKX', 'ZEN1', 'SNB', 'IVB', 'HSW', 'BDW', 'CSX', 'ZEN2'], 'aarch64': ['TX2', 'A64FX', 'N1']}


def parameter(isa, cpu):
    return '-mcpu=' + cpu if isa == 'x86' else '-mcpu=%s -march=aarch64' % cpu


def close(a, b, eps=1e-9):
    return abs(a - b) <= eps * max(1, abs(a), abs(b))


def mark(d, isa, names, block):
    """Path of marked file and the lines of the marked loop."""
    text, loops = c25.compose(isa, names)
    n = c25.best(isa, loops) if block == 'auto' else block
    got = c25.Home(d).run(isa, text, block=block, increment=8)
    require(not isinstance(got, Exception), 'not marked:', got)
    path = os.path.join(d, 'marked.s')
    with open(path, 'w') as f:
        f.write(got[2])
    return path, loops[n][1]


# ---- LLVM-MCA

def real_mca():
    try:
        return b'llvm' in subprocess.check_output(['llvm-mca', '--version']).lower()
    except (OSError, subprocess.CalledProcessError):
        return False


@contextlib.contextmanager
def no_stderr():
    """Processes started have nowhere to complain."""
    keep = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.close(null)


def mca_reference(param, lines):
    """Result from machine-readable report on lines."""
    out = subprocess.check_output(['llvm-mca'] + param.split() + ['--json', '--timeline', '--timeline-max-iterations=1', '--timeline-max-cycles=0'],
                                  input='\n'.join(lines).encode() + b'\n', stderr=subprocess.DEVNULL)
    d = json.loads(out.decode())
    region = d['CodeRegions'][0]
    ports = {}
    last = len(region['Instructions'])
    usage = {r['ResourceIndex']: r['ResourceUsage'] for r in region['ResourcePressureView']['ResourcePressureInfo'] if r['InstructionIndex'] == last}
    for i, name in enumerate(d['TargetInfo']['Resources']):
        name = re.sub('\\.[\x00-\x1f]$', '', name)
        ports[name] = max(ports.get(name, 0), usage.get(i, 0))
    s = region['SummaryView']
    t = region['TimelineView']['TimelineInfo'][:last]
    return {
        'port cycles': ports,
        'throughput': s['TotalCycles'] / s['Iterations'],
        'lcd': s['TotalCycles'] / s['Iterations'],
        'cp_latency': max(x['CycleRetired'] for x in t) - min(x['CycleDispatched'] for x in t),
        'uops': s['TotaluOps'] / s['Iterations'],
    }


def ev_mca(case, ctx):
    from kerncraft import incore_model as im
    isa = case['isa']
    res = []
    with scratch() as d:
        path, lines = mark(d, isa, case['names'], case['block'])
        for cpu in case['cpus']:
            param = parameter(isa, cpu)
            with quiet(), no_stderr():
                try:
                    got = im.llvm_mca_analyse_instrumented_assembly(path, param, isa=isa)
                except subprocess.CalledProcessError:
                    got = None
            try:
                want = mca_reference(param, lines)
            except subprocess.CalledProcessError:
                require(got is None, 'analyser fails on loop for', cpu, 'but result is', got)
                res.append('refused')
                continue
            ctx.step()
            require(got is not None, 'analysis fails for', cpu)
            compare(got, want, cpu)
            ctx.state(isa, cpu, tuple(lines))
            res.append('%s %.2f' % (cpu, got['throughput']))
    ctx.trace()
    return ' '.join(res)


def compare(got, want, what, eps=5.1e-3):
    require(set(got['port cycles']) == set(want['port cycles']), what, 'ports are', list(got['port cycles']), 'instead of', list(want['port cycles']))
    for p, c in want['port cycles'].items():
        require(abs(got['port cycles'][p] - c) <= eps, what, 'cycles of port', p, 'are', got['port cycles'][p], 'instead of', c)
    for k in ('throughput', 'lcd', 'cp_latency', 'uops'):
        a, b = got[k], want[k]
        require((a is None) == (b is None) and (a is None or close(a, b)), what, k, 'is', a, 'instead of', b)


STAND_IN = '''#!/bin/sh
printf '%%s\\n' "$0" "$@" > "%(d)s/args"
if [ -n "%(stdin)s" ]; then cat > "%(d)s/stdin"; fi
cat "%(d)s/report"
exit %(rc)d
'''


def stand_in(d, path, rc=0, stdin=False):
    with open(path, 'w') as f:
        f.write(STAND_IN % {'d': d, 'rc': rc, 'stdin': 'x' if stdin else ''})
    os.chmod(path, 0o755)


def columns(cells):
    """As printed by LLVM-MCA."""
    out = ''
    for i, c in enumerate(cells):
        out += c
        out += ' ' * max(1, 7 * (i + 1) - len(out))
    return out


# ports: (number, name)
LAYOUTS = {
    'one': [('[0]', 'SBPort0')],
    'plain': [('[0]', 'HWDivider'), ('[1]', 'HWPort0'), ('[2]', 'HWPort1')],
    'two units': [('[0]', 'SBDivider'), ('[1.0]', 'SBPort23'), ('[1.1]', 'SBPort23')],
    'units first': [('[0.0]', 'THX2T99P4'), ('[0.1]', 'THX2T99P4'), ('[1]', 'THX2T99P5')],
    'three units': [('[0.0]', 'ZnAGU'), ('[0.1]', 'ZnAGU'), ('[0.2]', 'ZnAGU')],
    'twelve': [('[%d]' % i, 'Zn2FPU%d' % i) for i in range(9)] + [('[9]', 'Zn2Multiplier'), ('[10.0]', 'Zn2AGU'), ('[10.1]', 'Zn2AGU')],
}
CELLS = ['-', '0.33', '2.00', '10.50', '1234.56']
TIMELINES = {
    # one instruction per string: iteration, cycles
    'single': [(0, 'DeER')],
    'later': [(0, 'DeeeeeER  .'), (0, '.D==eE---R.'), (0, '. DeE----R.')],
    'first retires last': [(0, 'DeeeeeeeeeeE-R'), (0, '.DeER    .    .'), ],
    'iterations': [(0, 'DeER .    .'), (0, 'D=eER.    .'), (1, 'D==eER    .'), (1, '.DeeeeeeeeER')],
    'idle first': [(0, '. DeER'), (0, '.DeE-R'), (1, 'DeE--R'), (2, 'D========eER'), (3, '.D==============eER')],
}


def mca_report(layout, cells, total, iterations, uops, timeline):
    o = ['Iterations:        %d' % iterations, 'Instructions:      600', 'Total Cycles:      %d' % total, 'Total uOps:        %d' % uops, '',
         'Dispatch Width:    4', 'uOps Per Cycle:    3.73', 'IPC:               3.73', 'Block RThroughput: 77.5', '', '',
         'Instruction Info:', '[1]: #uOps', '[2]: Latency', '[3]: RThroughput', '[4]: MayLoad', '[5]: MayStore', '[6]: HasSideEffects (U)', '',
         '[1]    [2]    [3]    [4]    [5]    [6]    Instructions:', ' 1      6     0.50    *                   movsd\t(%rax), %xmm0', '', '',
         'Resources:']
    w = max(5, max(len(n) for n, _ in layout))
    o += ['%s - %s' % (n.ljust(w), p) for n, p in layout]
    o += ['', '', 'Resource pressure per iteration:', columns([n for n, _ in layout]), columns([' ' + c + ' ' if c == '-' else ' ' + c for c in cells]), '',
          'Resource pressure by instruction:', columns([n for n, _ in layout]) + 'Instructions:',
          columns([' 99.00' for _ in layout]) + 'movsd\t(%rax), %xmm0', '', '', 'Timeline view:', '                    012345', 'Index     0123456789    ', '']
    count = {}
    for it, line in TIMELINES[timeline]:
        n = count[it] = count.get(it, -1) + 1
        o += ['[%d,%d]     %s   %s' % (it, n, line, 'DIVSD\t(%RAX), %xmm0')]
    o += ['', '', 'Average Wait times (based on the timeline view):', '[0]: Executions', '[1]: Average time spent waiting in a scheduler\'s queue', '',
          '      [0]    [1]    [2]    [3]', '0.     2     1.0    0.5    2.0       movsd\t(%rax), %xmm0', '       2     3.6    0.2    4.3       <total>', '']
    return '\n'.join(o)


def ev_mca_reports(case, ctx):
    from kerncraft import incore_model as im
    layout = LAYOUTS[case['layout']]
    res = []
    with scratch() as d:
        path, lines = mark(d, 'x86', ['scalar'], 'auto')
        bin_ = os.path.join(d, 'bin')
        os.mkdir(bin_)
        stand_in(d, os.path.join(bin_, 'llvm-mca'), stdin=True)
        for cells in case['cells']:
            cells = list(cells) + ['0.01'] * (len(layout) - len(cells))
            for total, iterations, uops, timeline in case['summaries']:
                with open(os.path.join(d, 'report'), 'w') as f:
                    f.write(mca_report(layout, cells, total, iterations, uops, timeline))
                with mock.patch.dict(os.environ, {'PATH': bin_ + ':' + os.environ['PATH']}), quiet():
                    got = im.llvm_mca_analyse_instrumented_assembly(path, '-mcpu=foo -mattr=+x', isa='x86')
                ports = {}
                for (n, p), c in zip(layout, cells):
                    ports[p] = max(ports.get(p, 0), 0. if c == '-' else float(c))
                spans = [(l.index('D'), l.index('R')) for it, l in TIMELINES[timeline] if it == 0]
                compare(got, {'port cycles': ports, 'throughput': total / iterations, 'lcd': total / iterations, 'uops': uops / iterations,
                              'cp_latency': max(b for a, b in spans) - min(a for a, b in spans)}, '%s %s:' % (cells, timeline), eps=1e-9)
                require(got['output'] == open(os.path.join(d, 'report')).read(), 'output is not the report')
                args = open(os.path.join(d, 'args')).read().split('\n')[1:]
                require('-mcpu=foo' in args and '-mattr=+x' in args, 'arguments of analyser are', args)
                text = [l for l in open(os.path.join(d, 'stdin')).read().split('\n') if l.strip() and 'pointer_increment=' not in l]
                require(text == lines, 'analysed', text, 'instead of', lines)
                ctx.step()
                ctx.state(case['layout'], tuple(cells), total, iterations, uops, timeline)
                res.append('%.2f' % got['throughput'])
        ctx.trace()
    return ' '.join(res)


# ---- OSACA

def osaca_reference(d, arch, lines, fixed=False):
    from osaca import osaca
    from ruamel.yaml import YAML
    path = os.path.join(d, 'loop.s')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    p = osaca.create_parser()
    report = os.path.join(d, 'loop.yml')
    args = p.parse_args(['--arch', arch, '--yaml-out', report] + (['--fixed'] if fixed else []) + ['--lines', '1-%d' % len(lines), path])
    osaca.check_arguments(args, p)
    text = io.StringIO()
    osaca.run(args, text)
    args.file.close()
    args.yaml_out.close()
    with open(report) as f:
        r = YAML(typ='unsafe', pure=True).load(f)
    return r, text.getvalue()


def ev_osaca(case, ctx):
    from kerncraft import incore_model as im
    isa = case['isa']
    res = []
    with scratch() as d:
        path, lines = mark(d, isa, case['names'], case['block'])
        for arch in case['archs']:
            for kw in ({}, {'assign_optimal_throughput': False}) if case['full'] else ({},):
                with quiet() as captured:
                    got = im.osaca_analyse_instrumented_assembly(path, arch, isa=isa, **kw)
                with quiet():
                    ref, text = osaca_reference(d, arch, lines, fixed=bool(kw))
                ctx.step()
                s = ref['Summary']
                ports = s['PortPressure']
                eps = .006
                require(set(got['port cycles']) == set(ports), arch, 'ports are', list(got['port cycles']), 'instead of', list(ports))
                for p, c in ports.items():
                    require(abs(got['port cycles'][p] - c) <= eps, arch, 'cycles of port', p, 'are', got['port cycles'][p], 'instead of', c)
                require(abs(got['cp_latency'] - s['CriticalPath']) <= eps, arch, 'critical path is', got['cp_latency'], 'instead of', s['CriticalPath'])
                require(abs(got['lcd'] - s['LCD']) <= eps, arch, 'loop-carried dependency is', got['lcd'], 'instead of', s['LCD'])
                best = max(list(ports.values()) + [s['LCD']])
                require(abs(got['throughput'] - best) <= eps, arch, 'throughput is', got['throughput'], 'instead of', best)
                require(max(list(got['port cycles'].values()) + [got['lcd']]) == got['throughput'], arch, 'throughput is', got['throughput'], 'which is not the worst bound')
                require(got['uops'] is None, 'uops are', got['uops'])
                ctx.state(isa, arch, tuple(lines), bool(kw))
                res.append('%s %.2f' % (arch, got['throughput']))
    ctx.trace()
    return ' '.join(res)


# ---- IACA

IACA_ARCHS = {'NHM': ('iaca2.2', True), 'WSM': ('iaca2.2', True), 'SNB': ('iaca2.3', True), 'IVB': ('iaca2.3', True),
              'HSW': ('iaca3.0', False), 'BDW': ('iaca3.0', False), 'SKL': ('iaca3.0', False), 'SKX': ('iaca3.0', False)}
# columns: one or two names
IACA_PORTS = {
    'six': ['0 DV', '1', '2 D', '3 D', '4', '5'],
    'eight': ['0 DV', '1', '2 D', '3 D', '4', '5', '6', '7'],
    'plain': ['0', '1', '5'],
}


def iaca_report(cols, cells, throughput, uops, version):
    wide = version == 'iaca3.0'
    head, cyc = '|  Port  |', '| Cycles |'
    for c, v in zip(cols, cells):
        if ' ' in c:
            a, b = c.split()
            head += ('   %s   -  %s  |' if wide else '  %s   -  %s  |') % (a, b.ljust(2))
            cyc += (' %s     %s  |' if wide else ' %s    %s  |') % v
        else:
            head += ('   %s   |' if wide else '  %s   |') % c
            cyc += ('  %s  |' if wide else ' %s  |') % v
    bar = '-' * len(head)
    o = ['Intel(R) Architecture Code Analyzer Version - 2.3 build:246dfea (Thu, 6 Jul 2017 13:38:05 +0300)', 'Analyzed File - k.o', 'Binary Format - 64Bit', 'Architecture  - SNB',
         'Analysis Type - Throughput', '', 'Throughput Analysis Report', '--------------------------',
         'Block Throughput: %s Cycles       Throughput Bottleneck: Port0, 7.77 Cycles' % throughput]
    o += ['Loop Count:  22', 'Port Binding In Cycles Per Iteration:'] if wide else ['', 'Port Binding In Cycles Per Iteration:']
    o += [bar, head, bar, cyc, bar, '']
    o += ['N - port number or number of cycles resource conflict caused delay, DV - Divider pipe (on port 0)', 'D - Data fetch pipe (on ports 2 and 3), CP - on a critical path', '',
          '| Num Of |                    Ports pressure in cycles                     |    |', '|  Uops  |  0  - DV  |  1  |  2  -  D  |  3  -  D  |  4  |  5  |    |', bar,
          '|   1    | 9.9       |     |           |           |     |     |    | vmovsd xmm0, qword ptr [rax]', 'Total Num Of Uops: %s' % uops, '']
    return '\n'.join(o)


def ev_iaca(case, ctx):
    from kerncraft import incore_model as im
    exe, is64 = IACA_ARCHS[case['arch']]
    cols = IACA_PORTS[case['ports']]
    res = []
    with scratch() as d:
        home = os.path.join(d, '.kerncraft', 'iaca', 'lin64', 'bin')
        os.makedirs(home)
        for v in ('iaca2.2', 'iaca2.3', 'iaca3.0'):
            stand_in(d, os.path.join(home, v))
        for cells, throughput, uops in case['reports']:
            cells = [tuple(c) if isinstance(c, (list, tuple)) else c for c in cells]
            with open(os.path.join(d, 'report'), 'w') as f:
                f.write(iaca_report(cols, cells, throughput, uops, exe))
            with mock.patch.dict(os.environ, {'HOME': d}), quiet():
                got = im.iaca_analyse_instrumented_binary(os.path.join(d, 'k.o'), case['arch'])
            ctx.step()
            ports = {}
            for c, v in zip(cols, cells):
                if ' ' in c:
                    a, b = c.split()
                    ports[a], ports[a + b] = float(v[0]), float(v[1])
                else:
                    ports[c] = float(v)
            require(list(got['port cycles']) == list(ports) and all(close(got['port cycles'][k], v) for k, v in ports.items()), 'port cycles are', dict(got['port cycles']), 'instead of', ports)
            require(close(got['throughput'], float(throughput)), 'throughput is', got['throughput'], 'instead of', throughput)
            require(close(got['uops'], float(uops)), 'uops are', got['uops'], 'instead of', uops)
            require(got['lcd'] is None and got['cp_latency'] is None, 'latencies are', got['lcd'], got['cp_latency'])
            require(got['output'] == open(os.path.join(d, 'report')).read(), 'output is not the report')
            args = open(os.path.join(d, 'args')).read().split('\n')[:-1]
            require(os.path.basename(args[0]) == exe, 'executed', args[0])
            require(args[args.index('-arch') + 1:][:1] == [case['arch']] and args[-1] == os.path.join(d, 'k.o') and ('-64' in args) == is64, 'arguments are', args)
            ctx.state(case['arch'], case['ports'], tuple(cells), throughput, uops)
            res.append('%s %s' % (throughput, uops))
        ctx.trace()
    return ' '.join(res)


def ev_failures(case, ctx):
    """Failing or missing analyser: no result."""
    from kerncraft import incore_model as im
    tool, what = case['tool'], case['what']
    with scratch() as d:
        path, lines = mark(d, 'x86', ['scalar'], 'auto')
        if tool == 'iaca':
            good = iaca_report(IACA_PORTS['eight'], [('1.0', '0.0'), '1.0', ('0.5', '0.5'), ('0.5', '0.5'), '1.0', '1.0', '0.0', '0.0'], '2.00', 9, 'iaca3.0')
            dest = os.path.join(d, '.kerncraft', 'iaca', 'lin64', 'bin')
            exes = ['iaca2.2', 'iaca2.3', 'iaca3.0']
        else:
            good = mca_report(LAYOUTS['plain'], ['-', '1.00', '2.00'], 200, 100, 300, 'later')
            dest = os.path.join(d, 'bin')
            exes = ['llvm-mca']
        os.makedirs(dest)
        arch = 'SKX' if what != 'unknown' else 'FOO'
        for e in exes:
            if what != 'missing':
                stand_in(d, os.path.join(dest, e), rc=3 if what == 'fails' else 0, stdin=tool == 'mca')
        report = good
        if isinstance(what, int):
            # report ends early
            report = '\n'.join(good.split('\n')[:what])
            if what >= good.count('\n'):
                raise Skip()
        with open(os.path.join(d, 'report'), 'w') as f:
            f.write(report)
        env = {'HOME': d, 'PATH': dest + ':/nowhere' if what == 'missing' else dest + ':' + os.environ['PATH']}
        refused = None

        def call():
            if tool == 'iaca':
                return im.iaca_analyse_instrumented_binary(path, arch)
            return im.llvm_mca_analyse_instrumented_assembly(path, '-mcpu=x', isa='x86')
        with mock.patch.dict(os.environ, env), quiet():
            try:
                got = call()
            except Exception as e:
                refused = e
        ctx.step()
        ctx.state(tool, what)
        if isinstance(what, int):
            # a report which is cut has all or nothing
            if refused is None:
                with open(os.path.join(d, 'report'), 'w') as f:
                    f.write(good)
                with mock.patch.dict(os.environ, env), quiet():
                    full = call()
                # (a timeline without its last lines can not be recognised)
                compare(dict(got, cp_latency=None), dict(full, cp_latency=None), 'report of %d lines' % what)
                return 'complete'
            return 'refused'
        if what == 'good':
            require(refused is None, 'refused', refused)
            return 'result'
        require(refused is not None, what, 'analyser, but result is', refused or got)
        return type(refused).__name__


def suites(tier):
    deep = tier == 'thorough'
    c25.warm()
    from kerncraft import incore_model as im
    archs = {isa: a if deep else a[:1] + (a[1:2] if isa == 'x86' else []) for isa, a in ARCHS.items()}
    # load databases once
    with scratch() as d:
        for isa in archs:
            path, lines = mark(d, isa, ['scalar'], 'auto')
            for a in archs[isa]:
                with quiet():
                    im.osaca_analyse_instrumented_assembly(path, a, isa=isa)

    def files(sizes):
        for isa in c25.LIB:
            for k in sizes:
                for names in itertools.product(c25.LIB[isa], repeat=k):
                    loops = c25.compose(isa, names)[1]
                    for b in range(len(loops)):
                        yield isa, list(names), b

    def mca():
        for isa, names, b in files((1, 2)):
            full = deep or len(names) == 1
            yield {'isa': isa, 'names': names, 'block': b, 'cpus': CPUS[isa] if full else CPUS[isa][:1]}

    def osaca():
        for isa, names, b in files((1, 2, 3) if deep else (1, 2)):
            full = len(names) == 1 or (deep and len(names) == 2)
            yield {'isa': isa, 'names': names, 'block': b, 'full': full, 'archs': archs[isa] if full else archs[isa][:1]}

    summaries = [(200, 100, 300, 'single'), (161, 100, 600, 'later'), (7, 1, 12, 'first retires last'), (12345, 100, 50, 'iterations'), (3, 2, 1, 'idle first'), (99, 100, 101, 'later')]

    def reports():
        for layout, ports in LAYOUTS.items():
            n = min(len(ports), 4 if deep else 3)
            grid = itertools.product(CELLS, repeat=n)
            if layout == 'twelve':
                # the last ones vary
                grid = (['-'] * (len(ports) - n) + list(g) for g in grid)
            grid = [list(g) for g in grid]
            for i in range(0, len(grid), 5):
                yield {'layout': layout, 'cells': grid[i:i + 5], 'summaries': summaries[i // 5 % 6:][:1]}
            yield {'layout': layout, 'cells': grid[7:8] or grid[:1], 'summaries': list(itertools.product((1, 7, 250, 10001), (1, 2, 100), (1, 99, 100000), sorted(TIMELINES)))}

    def iaca():
        for arch in IACA_ARCHS:
            for ports, cols in IACA_PORTS.items():
                values = ['0.0', '0.5', '12.0'] if not deep else ['0.0', '0.5', '1.3', '12.0']
                split = [i for i, c in enumerate(cols) if ' ' in c]
                base = [('1.0', '0.3') if ' ' in c else '0.%d' % i for i, c in enumerate(cols)]
                res = []
                for i, j in itertools.combinations(range(len(cols)), 2):
                    for v in itertools.product(values, repeat=(1 + (i in split)) + (1 + (j in split))):
                        v = list(v)
                        cells = list(base)
                        for k in (i, j):
                            cells[k] = (v.pop(), v.pop()) if k in split else v.pop()
                        res.append((cells, '%d.%02d' % (len(res) % 13, len(res) % 100), 1 + len(res) % 120))
                for k in range(0, len(res), 24):
                    if deep or (k // 24) % 3 == list(IACA_ARCHS).index(arch) % 3:
                        yield {'arch': arch, 'ports': ports, 'reports': res[k:k + 24]}

    def failures():
        for tool in ('iaca', 'mca'):
            for what in ('good', 'missing', 'fails') + (('unknown',) if tool == 'iaca' else ()) + tuple(range(45)):
                yield {'tool': tool, 'what': what}

    t = 1500
    res = [Suite('OSACA', osaca, ev_osaca, chunk=4, timeout=t, bound='all files of up to 2 segments (thorough: 3), every loop in them, %s micro-architectures, optimal and fixed port assignment' % (sum(len(a) for a in archs.values()))),
           Suite('reports of LLVM-MCA', reports, ev_mca_reports, chunk=4, timeout=t, bound='6 port layouts x all combinations of 5 printed values on 3 (4) ports; all combinations of 4 cycle, 3 iteration and 3 uop counts with 5 timelines'),
           Suite('reports of IACA', iaca, ev_iaca, chunk=2, timeout=t, bound='8 architectures x 3 port layouts x all values of all pairs of ports (quick: a third of them for each architecture)'),
           Suite('failures', failures, ev_failures, chunk=8, timeout=t, bound='missing, failing, unknown; reports cut after every line')]
    if real_mca():
        res.insert(0, Suite('LLVM-MCA', mca, ev_mca, chunk=4, timeout=t, bound='all files of up to 2 segments, every loop in them, 8 and 4 processors (quick: all for single segments)'))
    return res
