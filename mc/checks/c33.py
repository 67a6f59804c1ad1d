"""C33: complete runs of kerncraft: models run together, repeatedly, with any verbosity, unit and order give the results of a single
fresh run, and everything is printed to the requested output."""
import contextlib
import difflib
import io
import itertools
import os
import re
import shutil

from ..core import REPO, Suite, require, scratch

PROPERTY = 'C33'
ASSUMPTIONS = ['gcc and OSACA are deterministic; times and paths in the output of OSACA are ignored']

MACHINE = os.path.join(REPO, 'tests', 'test_files', 'SandyBridgeEP_E5-2680.yml')
MODELS = ['LC', 'ECMData', 'ECMCPU', 'ECM', 'RooflineFLOP', 'RooflineASM']

KERNELS = {
    'add': ('double a[N], b[N], c[N];\nfor(int i=0; i<N; ++i)\n  a[i] = b[i] + c[i];\n', {'N': [4000, 400]}, ''),
    'stencil': ('double a[M][N], b[M][N];\ndouble s;\nfor(int j=1; j<M-1; ++j)\n  for(int i=1; i<N-1; ++i)\n'
                '    b[j][i] = (a[j][i-1] + a[j][i+1] + a[j-1][i] + a[j+1][i]) * s;\n', {'N': [600, 200], 'M': [200]}, ''),
    'float': ('float a[N], b[N];\nfor(int i=1; i<N-1; ++i)\n  a[i] = 2.5f * (b[i-1] + b[i+1]);\n', {'N': [9000, 1000]}, ''),
    'copy': ('double a[N], b[N];\nfor(int i=0; i<N; ++i)\n  a[i] = b[i];\n', {'N': [3000]}, ''),
    'described': ('''arrays:
    a: {type: !!python/tuple ['double',], dimension: [M, N]}
    b: {type: !!python/tuple ['double',], dimension: [M, N]}
    s: {type: !!python/tuple ['double',], dimension: null}
loops:
    - {index: j, start: 1, stop: M-1, step: 1}
    - {index: i, start: 1, stop: N-1, step: 1}
data sources:
    a: [[j, i-1], [j, i+1], [j-1, i], [j+1, i]]
    s: [null]
data destinations:
    b: [[j, i]]
flops: {"+": 3, "*": 1}
''', {'N': [600, 200], 'M': [200]}, '--kernel-description'),
}
UNITS = ['cy/CL', 'cy/It', 'It/s', 'FLOP/s']


def models_of(kname):
    return MODELS if kname != 'described' else ['LC', 'ECMData', 'RooflineFLOP']


def share_databases():
    """Load OSACA's databases (not under test) once per process."""
    from osaca.semantics import MachineModel
    if not hasattr(MachineModel._get_cached, 'shared'):
        load, known = MachineModel._get_cached, {}

        def cached(self, path):
            if not known.get(path):
                known[path] = load(self, path)
            return known[path]
        cached.shared = True
        MachineModel._get_cached = cached


def run(d, kname, models, sizes, opts):
    """(results by (define, model), report, what else was printed, ends of stored identifiers)"""
    from kerncraft import kerncraft as kc
    share_databases()
    src, _, flag = KERNELS[kname]
    p = os.path.join(d, kname + '.c')
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write(src)
    parser = kc.create_parser()
    argv = ['-m', MACHINE] + sum((['-p', m] for m in models), []) + opts + ([flag] if flag else [])
    for n, vs in sizes.items():
        for v in vs:
            argv += ['-D', n, str(v)]
    args = parser.parse_args(argv + [p])
    kc.check_arguments(args, parser)
    out, stray = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(stray):
        res = kc.run(parser, args, output_file=out)
    got = {}
    for ident, r in res.items():
        i = dict(ident)
        got[tuple(sorted((str(k), int(v)) for k, v in i['define'])), i['pmodel']] = norm(r)
    return got, out.getvalue(), stray.getvalue()


VOLATILE = re.compile(r'^\s*(Analyzed file|Timestamp|Architecture|.*/tmp/|Open Source Architecture).*$', re.M)


def clean(text):
    text = re.sub(r'/[^\s:\'"]*/', '', VOLATILE.sub('', text))
    return re.sub(r'\d{4}-\d\d-\d\d|\d\d:\d\d:\d\d', '', text)


def norm(x):
    from kerncraft.prefixedunit import PrefixedUnit
    if isinstance(x, PrefixedUnit):
        return 'unit', norm(float(x)), x.unit
    if isinstance(x, dict):
        return 'map', sorted(((str(k), norm(v)) for k, v in x.items()), key=repr)
    if isinstance(x, (list, tuple)):
        return 'seq', [norm(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return 'set', sorted(repr(norm(v)) for v in x)
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        return float(x) if x == x else 'nan'
    return clean(str(x))


def sections(report):
    """[(sizes, model, text)] of a report"""
    parts = re.split(r'^ {20,}kerncraft +\n', report, flags=re.M)
    require(not parts[0].strip(), 'report starts with', parts[0])
    out = []
    for p in parts[1:]:
        l = p.split('\n')
        require('-m ' in l[0], 'header', l[:3])
        sizes = tuple(sorted((a, int(b)) for a, b in re.findall(r'-D (\w+) (\d+)', l[1])))
        m = re.match(r'^-+ (\w+) -+$', l[2])
        require(m and len(l[2]) == 80, 'header', l[:3])
        out.append((sizes, m.group(1), clean('\n'.join(l[3:]))))
    return out


def verbose(opts):
    return any(o.startswith('-v') for o in opts)    # (asked for diagnostics, which go to standard output)


_ref = {}


def reference(kname, model, size, opts):
    """Result and report of a run of one model for one size in a fresh directory."""
    key = (kname, model, tuple(sorted(size.items())), tuple(opts))
    if key not in _ref:
        with scratch() as d:
            got, rep, stray = run(d, kname, [model], {n: [v] for n, v in size.items()}, opts)
        require(len(got) == 1, 'a single run has results', sorted(got))
        (ident, r), = got.items()
        require(ident == (tuple(sorted(size.items())), model), 'result is stored as', ident)
        require(verbose(opts) or not stray, model, 'printed elsewhere:', stray[:200])
        s = sections(rep)
        require(len(s) == 1 and s[0][:2] == ident, 'report has sections', [x[:2] for x in s])
        _ref[key] = r, s[0][2]
    return _ref[key]


def combos(sizes):
    names = sorted(sizes)
    return [dict(zip(names, c)) for c in itertools.product(*[sorted(sizes[n]) for n in names])]


def first_diff(a, b, path=''):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for n, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, '%s[%s]' % (path, x[0] if isinstance(x, tuple) and isinstance(x[0], str) else n))
    return path, str(a)[:300], str(b)[:300]


def ev(case, ctx):
    kname, base, runs = case
    for more, orders in runs:
        together(kname, base + more, orders, ctx)
    _ref.clear()
    return kname, base


def together(kname, opts, orders, ctx):
    sizes = KERNELS[kname][1]
    plain = [o for n, o in enumerate(opts) if not (o.startswith('-v') or o == '-u' or (n and opts[n - 1] == '-u'))]
    base = {}
    for c in combos(sizes):
        for m in {m for o in orders for m in o}:
            base[tuple(sorted(c.items())), m] = reference(kname, m, c, plain)[0], reference(kname, m, c, opts)
    with scratch() as d:
        for models in orders:
            got, rep, stray = run(d, kname, models, sizes, opts)
            require(verbose(opts) or not stray, 'printed elsewhere:', stray[:300])
            want = [(tuple(sorted(c.items())), m) for c in combos(sizes) for m in models]
            require(sorted(got) == sorted(want), 'results are stored for', sorted(got), 'instead of', want)
            secs = sections(rep)
            require(sorted(s[:2] for s in secs) == sorted(want), 'reported are', [s[:2] for s in secs], 'instead of', want)
            by_size = [k for k, _ in itertools.groupby(s[0] for s in secs)]
            require(len(by_size) == len(combos(sizes)), 'sections of one size are not together', [s[:2] for s in secs])
            for g in by_size:
                require([s[1] for s in secs if s[0] == g] == models, 'models are reported in another order:', [s[:2] for s in secs])
            for ident in want:
                r0, (r1, text) = base[ident]
                require(r1 == r0, 'verbosity or unit', opts, 'change the results of', ident, first_diff(r1, r0))
                require(got[ident] == r0, 'run together as', models, 'the results of', ident, 'differ from those of a run alone:', first_diff(got[ident], r0))
            for s in secs:
                require(s[2] == base[s[:2]][1][1], 'run together as', models, 'the report of', s[:2], 'differs from that of a run alone:',
                        *difflib.unified_diff(base[s[:2]][1][1].split('\n'), s[2].split('\n'), lineterm='', n=0))
            ctx.step(len(want))
            ctx.state(kname, tuple(opts), tuple(models))


# ------------------------------------------------------------------ models used as a library
def ev_library(case, ctx):
    """Models created with parameters instead of command line arguments, one after another for the same kernel and machine."""
    from kerncraft import models
    from kerncraft.cacheprediction import CacheSimulationPredictor, LayerConditionPredictor
    kname, first, ops, depth = case
    src = KERNELS[kname][0]
    pred = {'LC': LayerConditionPredictor, 'SIM': CacheSimulationPredictor}

    def use(k, m, op):
        model, p, cores, size = op
        k.clear_state()
        for n, v in size.items():
            k.set_constant(n, v)
        x = getattr(models, model)(k, m, cores=cores, cache_predictor=pred[p])
        x.analyze()
        return norm(x.results)

    with scratch() as d:
        path = os.path.join(d, 'k.c')
        with open(path, 'w') as f:
            f.write(src)
        library(case, use, path, ctx)
    return kname


def library(case, use, path, ctx):
    from kerncraft.kernel import KernelCode, KernelDescription
    from kerncraft.machinemodel import MachineModel
    import ruamel.yaml
    kname, first, ops, depth = case
    src = KERNELS[kname][0]
    want = {}
    for rest in itertools.product(ops, repeat=depth - 1):
        m = MachineModel(MACHINE)
        shutil.rmtree(os.path.join(os.path.dirname(path), '.k.c_kerncraft'), ignore_errors=True)
        if KERNELS[kname][2]:
            k = KernelDescription(ruamel.yaml.YAML(typ='unsafe').load(src), machine=m)
        else:
            k = KernelCode(src, machine=m, filename=path)
        for n, op in enumerate((first,) + rest):
            key = repr(op)
            if key not in want:
                want[key] = reference(kname, op[0], op[3], ['-P', op[1], '-c', str(op[2]), '-u', 'cy/CL'])[0]
            got = use(k, m, op)
            require(got == want[key], op, 'after', ((first,) + rest)[:n], 'on the same kernel and machine gives other results than kerncraft:', first_diff(got, want[key]))
            ctx.step()
        ctx.state(kname, first, rest)


def library_cases(tier):
    def it():
        for kname in ('stencil', 'described', 'float')[:3 if tier == 'thorough' else 2]:
            ns = KERNELS[kname][1]
            sizes = [{n: vs[0] for n, vs in ns.items()}, {n: vs[-1] for n, vs in ns.items()}]
            ops = [list(o) for o in itertools.product(('ECMData', 'RooflineFLOP'), ('LC', 'SIM'), (1, 3), sizes)]
            for o in ops:
                yield [kname, o, ops, 3 if tier == 'thorough' else 2]
    return it


def cases(tier):
    def it():
        q = tier == 'quick'
        for kname in KERNELS:
            ms = models_of(kname)
            if q:
                orders = [list(p) for p in itertools.permutations(ms, 2)][::1 if len(ms) == 3 else 3] + [ms, ms[::-1]]
            else:
                orders = [list(p) for n in (2, 3) for p in itertools.permutations(ms, n)] + [ms, ms[::-1]]
            for n, (pred, cores) in enumerate(itertools.product(('LC', 'SIM'), ('1', '3'))):
                o = ['-P', pred, '-c', cores]
                runs = [[['-u', UNITS[n]], orders]]      # (the default depends on the models)
                for k, (u, v) in enumerate(itertools.product(UNITS, ([], ['-v'], ['-vv'], ['-vvv']))):
                    if q and (k % 4 != (k // 4 + n) % 4 or k // 4 not in ((n,) if kname in ('float', 'copy') else (n, (n + 1) % 4))):
                        continue
                    runs.append([['-u', u] + v, [ms]])
                yield [kname, o, runs]
    return it


def suites(tier):
    return [Suite('together', cases(tier), ev, chunk=1, timeout=600,
                  bound='5 kernels x 2 predictors x 2 core counts: pairs%s of models in every order and all of them in one directory; 4 units x verbosity 0-3'
                        % (' (every third)' if tier == 'quick' else ' and triples')),
            Suite('library', library_cases(tier), ev_library, chunk=4, timeout=600,
                  bound='2 (3) kernels x all sequences of %d uses of 2 models x 2 predictors x 2 core counts x 2 sizes, on one kernel and machine' % (3 if tier == 'thorough' else 2))]
