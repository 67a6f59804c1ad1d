"""C30: arguments of the stand-alone benchmark apply to exactly the named regions.

The real parser, BinaryDescription and StandaloneBenchmark are run on all short argument lists; the
program and likwid-perfctr are stand-ins whose behaviour is a function of the arguments they get.
"""
import itertools
import math
import os
import re
import sys
from unittest import mock

from mc.core import Suite, require, quiet

PROPERTY = 'C30'
ASSUMPTIONS = [
    'region names start with a non-digit and contain neither comma nor colon',
    'the phenomenological ECM model is disabled (--no-phenoecm)',
    'repetition counts are positive and runtimes grow with the adjustable variables',
]
ROOT = os.environ.get('VERIF_REPO', '/repo')
MACH = os.path.join(ROOT, 'tests/test_files/SandyBridgeEP_E5-2680.yml')

NUM = r'(?:[0-9]*\.)?[0-9]+(?:[eE][-+]?[0-9]+)?'


# --- independent reading of single arguments ---------------------------------------------------
def split_region(text):
    """(regions, rest)"""
    head, sep, rest = text.partition(':')
    if sep and not head[:1].isdigit() and all(re.fullmatch(r'\D\w*', r) for r in head.split(',')):
        return head.split(','), rest
    return [''], text


def number(t):
    return float(t) if re.fullmatch(NUM, t) else None


def ref_define(text):
    regions, rest = split_region(text)
    parts = rest.split(':')
    start = number(parts[0])
    if start is None or len(parts) > 3:
        return None
    out = {'region': regions, 'start': start, 'value': start, 'adjustable': len(parts) > 1}
    if len(parts) > 1:
        stop = number(parts[1])
        if stop is None or start == 0:
            return None
        out['stop'] = stop
        out['scale'] = 'lin' if stop > start else 'log'
        if len(parts) == 3:
            if parts[2] not in ('lin', 'log'):
                return None
            out['scale'] = parts[2]
    return out


def ref_loop(text):
    regions, rest = split_region(text)
    parts = rest.split(':')
    nums = []
    while parts and re.fullmatch(r'[0-9]+', parts[0]) and len(nums) < 3:
        nums.append(int(parts.pop(0)))
    if len(nums) < 2:
        return None
    var = None
    if parts:
        var = ':'.join(parts)
        if not re.fullmatch(r'\D\S*', var):
            return None
    if len(nums) == 2:
        nums.insert(1, 1)
    if nums[1] == 0:
        return None
    return regions, {'start': nums[0], 'step': nums[1], 'end': nums[2], 'variable': var,
                     'offset': None}


def ref_rep(text):
    regions, rest = split_region(text)
    return (regions, rest) if re.fullmatch(r'\w+', rest) else None


def ref_flops(text):
    regions, rest = split_region(text)
    return (regions, int(rest)) if re.fullmatch(r'[0-9]+', rest) else None


def reference(argv):
    """Namespace content for a list of (option, text), None if refused."""
    ns = {'define': {}, 'loop': {}, 'repetitions': {'': '1'}, 'flops': {}}
    for opt, text in argv:
        if opt[0] == 'D':
            v = ref_define(text)
            if v is None:
                return None
            ns['define'][opt[1:]] = v
        elif opt == 'L':
            v = ref_loop(text)
            if v is None:
                return None
            for r in v[0]:
                ns['loop'].setdefault(r, []).append(v[1])
        elif opt == 'R':
            v = ref_rep(text)
            if v is None:
                return None
            for r in v[0]:
                ns['repetitions'][r] = v[1]
        elif opt == 'F':
            v = ref_flops(text)
            if v is None:
                return None
            for r in v[0]:
                if r in ns['flops']:
                    return None
                ns['flops'][r] = v[1]
    if not ns['loop'] or not ns['flops']:
        return None
    return ns


def to_argv(args):
    out = ['-m', MACH, 'prog', '--no-phenoecm', '--ignore-warnings']
    for opt, text in args:
        if opt[0] == 'D':
            out += ['-D', opt[1:], text]
        else:
            out += [{'L': '--loop', 'R': '--repetitions', 'F': '--flops'}[opt], text]
    return out


def parse(parser, args, extra=()):
    """Namespace or None if refused."""
    try:
        with quiet():
            return parser.parse_args(to_argv(args) + list(extra))
    except SystemExit as e:
        require(e.code not in (0, None), 'refused with success', args)
        return None


def plain(ns):
    return {k: {kk: vv for kk, vv in dict(getattr(ns, k)).items()}
            for k in ('define', 'loop', 'repetitions', 'flops')}


def compare(args, ns, ctx):
    exp = reference(args)
    ctx.step(1)
    ctx.state(tuple(map(tuple, args)))
    if exp is None:
        require(ns is None, 'malformed arguments', args, 'are taken as', ns and plain(ns))
        return 'refused'
    require(ns is not None, 'well-formed arguments', args, 'are refused')
    got = plain(ns)
    for k in exp:
        require(got[k] == exp[k], '--%s' % k, 'of', args, 'is', got[k], 'instead of', exp[k])
    require(list(got['define']) == list(exp['define']), 'order of defines', args)
    return 'accepted'


# --- suites -------------------------------------------------------------------------------------
TOKENS = ['1', '20', '0', '1.5', '1e2', 'a', 'r_1', ':', ',', 'lin', 'log', '.', 'N']


def grammar_cases(tier):
    n = 4 if tier == 'quick' else 5

    def cases():
        for opt in ('DN', 'L', 'R', 'F'):
            for pre in itertools.product(TOKENS, repeat=2):
                yield {'opt': opt, 'prefix': ''.join(pre), 'n': n - 2}
            yield {'opt': opt, 'prefix': '', 'n': 1}
            for pre in ('a:', 'a,b:', '1:20:', 'a:1:', 'b:1:2:'):
                yield {'opt': opt, 'prefix': pre, 'n': n - 1}
    return cases


def grammar_eval(case, ctx):
    from kerncraft import standalone_pheno
    parser = standalone_pheno.create_parser()
    opt = case['opt']
    rest = [('L', '0:4')] if opt != 'L' else []
    rest += [('F', '3')] if opt != 'F' else []
    out = set()
    action = [a for a in parser._actions
              if a.dest == {'D': 'define', 'L': 'loop', 'R': 'repetitions', 'F': 'flops'}[opt[0]]][0]
    for l in range(case['n'] + 1):
        for t in itertools.product(TOKENS, repeat=l):
            text = case['prefix'] + ''.join(t)
            out.add(compare([(opt, text)] + rest, parse(parser, [(opt, text)] + rest), ctx))
    return ','.join(sorted(out))


LISTS = {
    'L': ['0:4', 'a:0:8', 'b:1:3:10', 'a,b:0:6:N', '2:2:9:M'],
    'F': ['3', 'a:5', 'b:7', 'a,b:2'],
    'R': ['6', 'a:4', 'a,b:N', 'marker', 'b:marker'],
    'D': ['10', 'a:2:30', '5:1:log', 'a,b:4:8:lin'],
}


def list_cases(tier):
    n = 3 if tier == 'quick' else 4

    def cases():
        for opt in 'LFR':
            for l in range(1, n + 1):
                for combo in itertools.product(LISTS[opt], repeat=l):
                    yield {'args': [[opt, t] for t in combo]}
        for l in range(1, n + 1):
            for combo in itertools.product(LISTS['D'], repeat=l):
                for names in itertools.product('NM', repeat=l):
                    yield {'args': [['D' + k, t] for k, t in zip(names, combo)]}
    return cases


def list_eval(case, ctx):
    from kerncraft import standalone_pheno
    args = [tuple(a) for a in case['args']]
    kinds = {a[0][0] for a in args}
    rest = ([('L', '0:4')] if 'L' not in kinds else []) + ([('F', '3')] if 'F' not in kinds else [])
    parser = standalone_pheno.create_parser()
    first = parse(parser, args + rest)
    kept = repr(plain(first)) if first is not None else None
    out = compare(args + rest, first, ctx)
    # the same parser used again starts from scratch and leaves the earlier result alone
    other = [('L', 'a:1:2'), ('F', 'a:9'), ('R', 'a:8'), ('DQ', '1')]
    compare(other, parse(parser, other), ctx)
    compare(args + rest, parse(parser, args + rest), ctx)
    if first is not None:
        require(repr(plain(first)) == kept, 'parsing again changed earlier arguments')
        # no description is shared between regions
        ids = [id(l) for ls in first.loop.values() for l in ls]
        require(len(ids) == len(set(ids)), 'regions share one loop description', args)
    return out


# --- iteration counts -----------------------------------------------------------------------------
def make_kernel(ns):
    from kerncraft.kernel import BinaryDescription
    try:
        with quiet():
            return BinaryDescription(args=ns, machine=None)
    except SystemExit as e:
        require(e.code not in (0, None), 'refused with success')
        return None


def count_cases(tier):
    hi = 7 if tier == 'quick' else 12

    def cases():
        for start in range(hi):
            for step in range(1, 5 if tier == 'quick' else 8):
                yield {'start': start, 'step': step, 'hi': hi + 5}
    return cases


def count_eval(case, ctx):
    from kerncraft import standalone_pheno
    start, step = case['start'], case['step']
    for end in range(case['hi']):
        for inner in (None, (1, 2, 8), (0, 3, 9)):
            for dt in ('double', 'float'):
                args = [('L', '%d:%d:%d' % (start, step, end))]
                if inner:
                    args.append(('L', '%d:%d:%d' % inner))
                args.append(('F', '1'))
                ns = parse(standalone_pheno.create_parser(), args, ['--datatype', dt])
                k = make_kernel(ns)
                exp = len(range(start, end, step)) * (len(range(inner[0], inner[2], inner[1]))
                                                      if inner else 1)
                got = k.region__iterations_per_repetition('')
                ctx.step(1)
                ctx.state(start, step, end, inner, dt)
                require(got == exp, 'loops', args, 'have', exp, 'iterations, not', got)
                b = (8 if dt == 'double' else 4) * (inner[1] if inner else step)
                require(k.region__bytes_per_iteration('') == b, 'bytes per iteration', args)
    return 'counted'


# --- descriptions and complete runs -----------------------------------------------------------------
LOOPSETS = [['0:100'], ['0:10', '0:3:20'], ['a:0:100', 'b:0:50'], ['0:100', 'a:5:25'],
            ['0:64:N'], ['a,b:2:4:32:N'], ['a:0:64:N', '0:50'], ['a:0:8', 'a:0:16:N', 'b:1:9:M'],
            ['a:0:10'], ['0:10:Q']]
FLOPSETS = [['4'], ['a:5', 'b:6'], ['4', 'b:6'], ['a:5']]
REPSETS = [[], ['5'], ['a:5'], ['N'], ['3', 'b:M'], ['marker'], ['a:marker'], ['a:Q']]
DEFSETS = [[['N', '64'], ['M', '9']], [['N', '64:100000'], ['M', '9']],
           [['M', '9:9000:lin'], ['N', '64:2000']], [['N', 'a:64:4000'], ['M', 'b:9:100000']],
           [['N', 'b:64:500000:lin'], ['M', '1000:995:log']]]
MARKERS = [None, [], ['a'], ['a', 'b'], ['b']]
SPEEDS = [{'': 2.0, 'a': 1.6, 'b': 3.0}, {'': 0.4, 'a': 0.01, 'b': 0.7}, {'': 1.4, 'a': 2.0, 'b': 0.002}]


def run_cases(tier):
    def cases():
        for li, fl, rp, df, mk in itertools.product(range(len(LOOPSETS)), range(len(FLOPSETS)),
                                                    range(len(REPSETS)), range(len(DEFSETS)),
                                                    range(len(MARKERS))):
            yield {'loops': li, 'flops': fl, 'reps': rp, 'defs': df, 'marker': mk}
    return cases


class Program:
    """What the binary and likwid-perfctr would do."""

    def __init__(self, names, markers, speeds, regions):
        self.names, self.speeds, self.calls, self.present = names, speeds, [], regions

    def output(self, values):
        """Measured values by region."""
        n = 1.0
        for k, v in zip(self.names, values):
            n *= 1 + abs(float(v)) / 64 if k == 'N' else 1 + 1 / (1 + float(v) / 100)
        res = {}
        for i, r in enumerate(self.present):
            res[r] = {'runtime': self.speeds[r] * n / 2, 'calls': 7 + 3 * i,
                      'volume': 0.125 * (i + 1) * n, 'bw': 1000.5 * (i + 2)}
        return res

    def check_output(self, cmd, *a, **kw):
        if '-a' in cmd:
            return b'   MEM  memory\n   CLOCK  clock\n'
        require('prog' in cmd, 'program not called:', cmd)
        values = cmd[cmd.index('prog') + 1:]
        res = self.output(values)
        self.calls.append((list(cmd), values, res))
        lines = ['-' * 30, 'CPU name:,Synthetic,', 'CPU clock:,2.70 GHz,']
        for r, v in res.items():
            if r:
                lines += ['TABLE,Region %s,Group 1 Raw,MEM,3' % r, 'Region Info,HWThread 0,',
                          'RDTSC Runtime [s],%r,' % v['runtime'], 'call count,%d,' % v['calls']]
            else:
                lines += ['TABLE,Group 1 Raw,MEM,3']
            lines += ['Event,Counter,HWThread 0', 'INSTR_RETIRED_ANY,FIXC0,12345',
                      'Runtime (RDTSC) [s],%r,' % v['runtime'],
                      'Memory data volume [GBytes],%r,' % v['volume'],
                      'Memory bandwidth [MBytes/s],%r,' % v['bw']]
        return '\n'.join(lines).encode()


_machine = []


def machine():
    if not _machine:
        from kerncraft.machinemodel import MachineModel
        _machine.append(MachineModel(MACH))
    return _machine[0]


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))


def run_eval(case, ctx):
    from kerncraft import standalone_pheno
    from kerncraft.kernel import BinaryDescription
    from kerncraft.models import standalone_benchmark, benchmark
    args = [('L', t) for t in LOOPSETS[case['loops']]] + [('F', t) for t in FLOPSETS[case['flops']]] + \
        [('R', t) for t in REPSETS[case['reps']]] + [('D' + k, t) for k, t in DEFSETS[case['defs']]]
    markers = MARKERS[case['marker']]
    extra = []
    if markers is not None:
        extra = ['--marker'] + ([','.join(markers)] if markers else [])
    ref = reference(args)
    ctx.state(tuple(args), tuple(markers) if markers is not None else None)
    outcome = set()
    for speeds in SPEEDS:
        present = [''] if markers is None else ['a', 'b']
        # --- what must happen
        regions = set(markers) if markers else ({''} if markers is None else {'a', 'b'})
        pick = lambda d, r: d[r] if r in d else d.get('')
        refuse = any(pick(ref[k], r) is None for k in ('loop', 'flops') for r in regions)
        refuse = refuse or any(q == 'marker' and markers is None or
                               q != 'marker' and not q.isdigit() and q not in ref['define']
                               for q in ref['repetitions'].values())
        refuse = refuse or any(l['variable'] and l['variable'] not in ref['define']
                               for ls in ref['loop'].values() for l in ls)
        # --- run
        prog = Program(list(ref['define']), markers, speeds, present)
        ns = parse(standalone_pheno.create_parser(), args, extra)
        compare(args, ns, ctx)
        got_args = dict(ns.define)
        fake = mock.Mock()
        fake.check_output = prog.check_output
        fake.CalledProcessError = OSError
        env = dict(os.environ)
        try:
            with mock.patch.object(standalone_benchmark, 'subprocess', fake), \
                    mock.patch.object(benchmark, 'subprocess', fake), \
                    mock.patch.object(standalone_benchmark, 'find_executable', lambda n: '/bin/' + n), \
                    mock.patch.object(type(machine()), 'current_system', lambda *a, **k: True), \
                    quiet():
                kernel = BinaryDescription(args=ns, machine=machine())
                kernel.clear_state()
                for k, v in ns.define.items():
                    kernel.set_constant(k, v['value'])
                model = standalone_benchmark.StandaloneBenchmark(kernel, machine(), ns, None)
                model.analyze()
        except SystemExit as e:
            require(refuse, 'well-formed arguments', args, extra, 'are refused')
            require(e.code not in (0, None), 'refused with success')
            outcome.add('refused')
            continue
        ctx.step(1)
        require(not refuse, 'incomplete arguments', args, extra, 'are accepted')
        require(dict(os.environ) == env, 'environment changed')
        # --- the sequence of calls
        require(prog.calls, 'nothing was measured')
        d = ref['define']
        values = [v['value'] for v in d.values()]
        for n, (cmd, given, res) in enumerate(prog.calls):
            require(('-m' in cmd) == (markers is not None), 'marker mode of', cmd)
            given = [float(v) for v in given]
            require(len(given) == len(d), 'arguments passed', cmd)
            if n == 0:
                require(given == values, 'first call', cmd, 'does not use', values)
            else:
                prev_res = prog.calls[n - 1][2]
                short = [r for r in regions if prev_res[r]['runtime'] < 1.5]
                require(short, 'measured again although long enough')
                changed = 0
                for (name, v), a, b in zip(d.items(), values, given):
                    if a == b:
                        continue
                    changed += 1
                    require(v['adjustable'], name, 'is fixed but changed to', b)
                    own = v['region'] == [''] or set(v['region']) & set(short)
                    require(own, name, 'of regions', v['region'], 'changed for', short)
                    if v['scale'] == 'lin':
                        require(a < b <= v['stop'], name, 'changed from', a, 'to', b)
                    else:
                        require(v['stop'] <= b < a, name, 'changed from', a, 'to', b)
                require(changed, 'measured again without a change')
            values = given
        last = prog.calls[-1][2]
        for r in regions:
            if last[r]['runtime'] < 1.5:
                for (name, v), val in zip(d.items(), values):
                    mine = v['adjustable'] and (v['region'] == [''] or r in v['region'])
                    # a later region may have been served by another variable in the same step
                    room = mine and (val < v['stop'] if v['scale'] == 'lin' else val > v['stop'])
                    require(not room, 'gave up although', name, 'could still be changed from', val)
        # --- results
        require(set(model.results) == regions, 'results for', set(model.results), 'instead of', regions)
        final = dict(zip(d, values))
        for r in regions:
            its = 1
            for l in pick(ref['loop'], r):
                end = l['end']
                if l['variable']:
                    end += final[l['variable']] - d[l['variable']]['start']
                its *= max(0, math.ceil((end - l['start']) / l['step']))
            q = pick(ref['repetitions'], r)
            reps = last[r]['calls'] if q == 'marker' else int(q) if q.isdigit() else final[q]
            t = last[r]['runtime'] / reps
            res = model.results[r]
            step = pick(ref['loop'], r)[-1]['step']
            exp = {'Runtime (per repetition) [s]': t, 'Iterations per repetition': its,
                   'Iterations per cacheline': 64 / (8 * step),
                   'Runtime (per cacheline update) [cy/CL]':
                       t * float(machine()['clock']) / its * 64 / (8 * step),
                   'MEM volume (per repetition) [B]': last[r]['volume'] * 1e9 / reps,
                   'MEM BW [MByte/s]': last[r]['bw'],
                   'Performance [MFLOP/s]': pick(ref['flops'], r) * its / t / 1e6,
                   'Performance [MLUP/s]': its / t / 1e6, 'Performance [MIt/s]': its / t / 1e6}
            for k, v in exp.items():
                require(close(res[k], v), k, 'of region', repr(r), 'is', res[k], 'instead of', v,
                        'for', args, extra, 'speeds', speeds)
        outcome.add('%d calls' % min(3, len(prog.calls)))
    return ','.join(sorted(outcome))


def suites(tier):
    return [
        Suite('grammar', grammar_cases(tier), grammar_eval,
              bound='all concatenations of up to %d tokens out of %d for each option, with further '
                    'prefixes' % (4 if tier == 'quick' else 5, len(TOKENS))),
        Suite('lists', list_cases(tier), list_eval,
              bound='all sequences of up to %d arguments per option, parser used repeatedly'
                    % (3 if tier == 'quick' else 4)),
        Suite('counts', count_cases(tier), count_eval, bound='all small loop bounds and steps'),
        Suite('runs', run_cases(tier), run_eval,
              bound='product of %d loop, %d FLOP, %d repetition, %d define and %d marker settings '
                    'and %d program speeds' % (
                                               len(LOOPSETS), len(FLOPSETS), len(REPSETS),
                                               len(DEFSETS), len(MARKERS), len(SPEEDS))),
    ]
