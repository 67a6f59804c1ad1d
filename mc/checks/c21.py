"""C21: which combinations of constants and models a run evaluates. All short command lines over a pool of definitions, with
recording stand-ins for the models (and with the real analytical models for a smaller set)."""
import io
import itertools
import os

from ..core import REPO, Suite, require, scratch
from .. import kern

PROPERTY = 'C21'
ASSUMPTIONS = ['recording stand-ins replace the models in the large suite; the smaller one runs the real analytical models',
               'values and their order within a definition are covered by C20']

MACHINE = os.path.join(REPO, 'tests', 'test_files', 'SandyBridgeEP_E5-2680.yml')

KERNELS = {
    'none': 'double a[60];\ndouble b[60];\nfor(int i=1; i<59; ++i) b[i] = a[i-1];\n',
    'N': 'double a[N];\ndouble b[N];\nfor(int i=1; i<N-1; ++i) b[i] = a[i-1];\n',
    'NM': 'double a[M][N];\ndouble b[M][N];\nfor(int j=1; j<M-1; ++j)\nfor(int i=1; i<N-1; ++i) b[j][i] = a[j-1][i];\n',
    'size': 'double a[K+N];\ndouble b[K+N];\nfor(int i=1; i<N; ++i) b[i] = a[i];\n',         # K only in a declaration
    'offset': 'double a[500];\ndouble b[500];\nfor(int i=0; i<N; ++i) b[i] = a[i+M];\n',       # M only in an access
    'start': 'double a[500];\ndouble b[500];\nfor(int i=K; i<N; ++i) b[i] = a[i];\n',
    'NMi': 'double a[N];\ndouble b[M];\nfor(int i=1; i<N-1; ++i) b[i+M-N] = a[i-1];\n',
}
NEEDS = {'none': [], 'N': ['N'], 'NM': ['M', 'N'], 'size': ['K', 'N'], 'offset': ['M', 'N'], 'start': ['K', 'N'], 'NMi': ['M', 'N']}

POOL = [('N', '100', [100]), ('N', '100-102', [100, 101, 102]), ('N', '102-110:3', [102, 106, 110]), ('M', '100', [100]), ('M', '120-121', [120, 121]),
        ('.', '100', [100]), ('.', '102-103', [102, 103]), ('K', '5', [5]), ('i', '7', [7]), ('Z', '1-3', [1, 2, 3]), ('N', '64-66:5', [64, 64, 65, 66, 66])]


def expected(needs, defs):
    """set of tuples of values or None if a constant is missing"""
    vals = []
    for c in needs:
        v = set()
        for i in defs:
            if POOL[i][0] in (c, '.'):
                v |= set(POOL[i][2])
        if not v:
            return None
        vals.append(sorted(v))
    return {tuple(zip(needs, c)) for c in itertools.product(*vals)}


LOG = []


def recorder(name):
    class Rec:
        results = None

        @classmethod
        def configure_arggroup(cls, parser):
            pass

        def __init__(self, kernel, machine, args=None, parser=None):
            self.kernel, self.machine, self.args = kernel, machine, args

        def analyze(self):
            k = self.kernel
            consts = {str(n): int(v) for n, v in k.constants.items()}
            sizes = {v: int(s) for v, s in k.array_sizes(in_bytes=True, subs_consts=True).items()}
            self.results = {'n': len(LOG)}
            LOG.append((name, tuple(sorted(consts.items())), tuple(sorted(sizes.items()))))

        def report(self, output_file=None):
            LOG.append(('report', name))
    Rec.__name__ = name
    Rec.name = name
    return Rec


MODELS = ['LC', 'ECMData', 'RooflineFLOP']


def run_cli(d, source, argv, stub=True, want_error=False):
    """results dict of kerncraft.run on a source written to d."""
    from kerncraft import kerncraft as kc
    from kerncraft import models
    p = os.path.join(d, 'k.c')
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write(source)
    old = {m: getattr(models, m) for m in MODELS}
    del LOG[:]
    try:
        if stub:
            for m in MODELS:
                setattr(models, m, recorder(m))
        parser = kc.create_parser()

        def error(msg):
            raise RuntimeError('usage error: ' + msg)
        parser.error = error
        args = parser.parse_args(['-m', MACHINE] + argv + [p])
        kc.check_arguments(args, parser)
        out = io.StringIO()
        res = kc.run(parser, args, output_file=out)
        return res, list(LOG), out.getvalue()
    finally:
        for m, v in old.items():
            setattr(models, m, v)


def norm_define(define):
    return tuple(sorted((str(k), int(v)) for k, v in define))


def check_storage(res, want, models):
    """One stored result for each combination and model, found by its identifier."""
    got = {}
    for ident, r in res.items():
        d = dict(ident)
        key = (norm_define(d['define']), d['pmodel'])
        require(key not in got, 'two stored results for', key)
        got[key] = r
    require(set(got) == {(w, m) for w in want for m in models}, 'stored results are for', sorted(got), 'instead of', sorted(want), models)
    return got


def ev_defines(case, ctx):
    kname, defs, models = case
    want = expected(NEEDS[kname], defs)
    argv = sum((['-p', m] for m in models), []) + sum((['-D', POOL[i][0], POOL[i][1]] for i in defs), [])
    with scratch() as d:
        try:
            res, log, out = run_cli(d, KERNELS[kname], argv)
        except ValueError as e:
            require(want is None, 'refused although all constants are given:', e)
            require(not LOG, 'something was evaluated although a constant is missing', LOG)
            ctx.step()
            ctx.state(kname, tuple(defs))
            return 'missing'
    require(want is not None, 'accepted although a constant is missing', log)
    uniq = list(dict.fromkeys(models))
    runs = [l for l in log if l[0] != 'report']
    got = [(l[1], l[0]) for l in runs]
    exp = sorted((c, m) for c in want for m in uniq)
    require(sorted(got) == exp, 'evaluated', sorted(got), 'instead of', exp)
    require(len([l for l in log if l[0] == 'report']) == len(runs), 'not every result was reported')
    for name, consts, sizes in runs:
        env = dict(consts)
        for var, expr in (('a', KERNELS[kname].split('double a')[1].split(';')[0]), ('b', KERNELS[kname].split('double b')[1].split(';')[0])):
            n = 8
            for dim in expr.strip('[]').split(']['):
                n *= kern.ev(dim, env)
            require(dict(sizes)[var] == n, 'size of', var, 'seen by the model is', dict(sizes)[var], 'with', consts)
    st = check_storage(res, want, uniq)
    for key, r in st.items():
        require((runs_at(log, r['n'])[1], runs_at(log, r['n'])[0]) == key, 'result of', runs_at(log, r['n']), 'stored as', key)
    ctx.step(len(runs))
    for r in runs:
        ctx.state(kname, r[0], r[1])
    return kname, len(runs)


def runs_at(log, n):
    return log[n]


def define_cases(tier):
    def it():
        for k in KERNELS:
            for n in range(4 if tier == 'quick' else 5):
                for defs in itertools.product(range(len(POOL)), repeat=n):
                    names = [POOL[i][0] for i in defs]
                    if n >= 3 and (names.count('Z') + names.count('i')) > 1:
                        continue
                    if n >= 3 and k in ('none', 'size', 'start') and tier == 'quick' and sum(defs) % 5:
                        continue
                    yield [k, list(defs), ['LC'] if (sum(defs) + n) % 3 else ['ECMData', 'LC']]
        for n in (1, 2, 3, 4):
            for ms in itertools.product(MODELS, repeat=n):
                yield ['NM', [1, 4], list(ms)]
                yield ['none', [], list(ms)]
    return it


# ------------------------------------------------------------------ real models: a sweep gives what single runs give
def normr(x):
    if isinstance(x, dict):
        return {str(k): normr(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [normr(v) for v in x]
    if isinstance(x, float):
        return '%.9g' % x
    return str(x) if not isinstance(x, (int, float, str, type(None))) else x


_single = {}


def ev_real(case, ctx):
    kname, defs, models, predictor, cores = case
    want = expected(NEEDS[kname], defs)
    base = ['-P', predictor, '--cores', str(cores)]
    with scratch() as d:
        argv = base + sum((['-p', m] for m in models), []) + sum((['-D', POOL[i][0], POOL[i][1]] for i in defs), [])
        res, _, _ = run_cli(d, KERNELS[kname], argv, stub=False)
    got = check_storage(res, want, models)
    for (consts, m), r in got.items():
        key = (kname, consts, m, predictor, cores)
        if key not in _single:
            with scratch() as d:
                one, _, _ = run_cli(d, KERNELS[kname], base + ['-p', m] + sum((['-D', c, str(v)] for c, v in consts), []), stub=False)
            require(len(one) == 1, 'single run gave', len(one), 'results')
            _single[key] = normr(list(one.values())[0])
        require(normr(r) == _single[key], 'result for', consts, m, 'in a sweep:', normr(r), 'alone:', _single[key])
        ctx.step(2)
        ctx.state(*key)
        ctx.trace()
    return kname, len(got)


def real_cases(tier):
    def it():
        sets = [[1], [1, 4], [2, 4], [5, 6], [1, 5, 7], [0, 2, 4, 7], [2, 7], [10, 7]]
        for k in ('N', 'NM', 'size', 'start'):
            for defs in sets:
                if expected(NEEDS[k], defs) is None or k == 'start' and (5 in defs or 7 not in defs):     # or loops without iterations
                    continue
                for p in ('LC', 'SIM'):
                    for ms in itertools.permutations(MODELS, 2 if tier == 'quick' else 3):
                        for cores in (1, 2):
                            yield [k, defs, list(ms), p, cores]
    return it


# ------------------------------------------------------------------ same identifiers in every process
def ev_hash(case, ctx):
    import pickle
    import subprocess
    import sys
    kname, defs = case
    with scratch() as d:
        p = os.path.join(d, 'k.c')
        with open(p, 'w') as f:
            f.write(KERNELS[kname])
        prog = ("import sys,json; sys.path.insert(0,%r); sys.path.insert(0,%r); from mc.checks import c21; import io\n"
                "r=c21.run_cli(%r, '', %r)[0]; print(repr(sorted(r)))") % (
                    REPO, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), d,
                    ['-p', 'LC'] + sum((['-D', POOL[i][0], POOL[i][1]] for i in defs), []))
        outs = []
        for seed in (0, 1, 2, 3):
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c', prog], capture_output=True, text=True, cwd=d,
                               env=dict(os.environ, PYTHONHASHSEED=str(seed)), timeout=100)
            require(r.returncode == 0, r.stderr[-400:])
            outs.append(r.stdout)
            ctx.step()
            ctx.state(kname, seed)
        require(len(set(outs)) == 1, 'identifiers of the same combination differ between processes', sorted(set(outs)))
    return kname


def suites(tier):
    q = tier == 'quick'
    return [
        Suite('defines', define_cases(tier), ev_defines, chunk=16,
              bound='7 kernels x all sequences of up to %d of 11 definitions (thinned for three kernels) and all model lists up to 4' % (3 if q else 4)),
        Suite('real', real_cases(tier), ev_real, chunk=1, timeout=300, bound='4 kernels x 6 definition sets x 2 predictors x ordered pairs of 3 models x 1-2 cores'),
        Suite('hash', lambda: ([k, d] for k in ('NM', 'size') for d in ([5], [5, 0, 3, 7], [1, 4, 7])), ev_hash, chunk=1, bound='4 hash seeds'),
    ]
