"""C03: cached analyses, decided on all short histories of analyses in one directory.

Every operation of a history picks a configuration (kernel source, machine description and where it is stored,
constants, cores, compiler and flags, in-core model, block and increment) and asks for a result through the real code.
Each answer has to be the one computed in an empty directory. Files are modified in logical time: the kernel or
machine file changes right after (same tick) or later than the last cached file was written.
"""
import contextlib
import hashlib
import itertools
import os
from argparse import Namespace

from .. import kern
from ..core import Suite, require, scratch
from . import c01

PROPERTY = 'C03'
ASSUMPTIONS = [
    'A kernel or machine file which is changed gets a modification time not before the last analysis (as editors do).',
    'Compilers, instrumentation and in-core analyses are deterministic functions of their inputs (stand-ins here).',
    'Interactive choices (manual block or increment) are not part of a history.',
    'Environment variables (LIKWID_*) and files included by the compiler do not change.',
]

CODES = {
    'k1': 'double a[N];\ndouble b[N];\ndouble s;\nfor(int i=1; i<N-1; ++i) {\n  a[i] = s * b[i];\n}\n',
    'k2': 'double a[N];\ndouble b[N];\ndouble s;\nfor(int i=1; i<N-1; ++i) {\n  a[i] = s * (b[i-1] + b[i+1]);\n}\n',
    'k3': 'double a[M][N];\ndouble b[M][N];\nfor(int j=1; j<M-1; ++j) {\nfor(int i=1; i<N-1; ++i) {\n  a[j][i] = b[j-1][i] + b[j+1][i];\n}\n}\n',
    'k4': 'double a[M][N];\ndouble b[M][N];\nfor(int j=1; j<M-1; ++j) {\nfor(int i=1; i<N-1; ++i) {\n  a[j][i] = b[j-1][i] + b[j][i] + b[j+1][i];\n}\n}\n',
}
CONSTS = {'n': {'N': 100}, 'n2': {'N': 60}, 'nk': {'N': 100, 'K': 5}, 'kn': {'K': 100, 'N': 60}, 'mn': {'M': 12, 'N': 30}, 'mn2': {'M': 12, 'N': 60},
          'nm': {'M': 30, 'N': 12}}


def hierarchy(scale):
    return [{'level': 'L1', 'cores per group': 1, 'threads per group': 1,
             'cache per group': {'sets': 1 * scale, 'ways': 8, 'cl_size': 64, 'replacement_policy': 'LRU', 'load_from': 'L2', 'store_to': 'L2'}},
            {'level': 'L2', 'cores per group': 4, 'threads per group': 4,
             'cache per group': {'sets': 4 * scale, 'ways': 8, 'cl_size': 64, 'replacement_policy': 'LRU'}},
            {'level': 'MEM', 'cores per group': 4, 'threads per group': 4}]


def machine_data(kind):
    from kerncraft.prefixedunit import PrefixedUnit as PU
    over = {'memory hierarchy': hierarchy({'big': 2}.get(kind, 1)), 'cacheline size': PU({'cl': 128}.get(kind, 64), 'B'),
            'in-core model': {'OSACA': {'arch': 'HSW'}.get(kind, 'SNB'), 'LLVM-MCA': '-mcpu=sandybridge', 'IACA': 'SNB'},
            'compiler': {'gcc': {'flags': '-O3 -fopenmp'}.get(kind, '-O2 -fopenmp'), 'clang': '-O2'},
            'isa': 'x86'}
    return kern.machine_data(**over)


# where machine descriptions come from: file (changed in place), file of the same name elsewhere, no file
class World:
    def __init__(self, d, same_tick):
        self.dir, self.same = d, same_tick
        self.root = os.path.join(d, 'run')
        os.makedirs(self.root)
        self.kernel = os.path.join(self.root, 'k.c')
        self.clock = c01.OLD + 1000
        self.code = None
        self.files = {}
        self.objects = {}

    def write(self, path, data):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(data)
        os.utime(path, (self.clock, self.clock))

    def settle(self):
        """Files written by the last operation get the current logical time."""
        for r, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(r, f)
                if os.stat(p).st_mtime > c01.OLD * 1.2 and not f.endswith('.lock'):
                    os.utime(p, (self.clock, self.clock))

    def configure(self, op):
        from kerncraft.machinemodel import MachineModel
        if not self.same:
            self.clock += 1 / 8
        if op['code'] != self.code:
            self.write(self.kernel, CODES[op['code']])
            self.code = op['code']
        elif op.get('touch'):
            self.write(self.kernel, CODES[op['code']])
        kind, where = op.get('machine', 'std'), op.get('where', 'file')
        args = None
        if 'compiler' in op:
            args = Namespace(compiler=op['compiler'][0], compiler_flags=op['compiler'][1])
        m = MachineModel(machine_yaml=machine_data(kind), args=args)
        if where != 'none':
            path = os.path.join(self.dir, where, 'm.yml')
            if self.files.get(path) != kind:
                self.write(path, kind)
                self.files[path] = kind
            m.set_path(path)
        key = (op['code'], kind, where, str(op.get('compiler')))
        if op.get('reuse') and key in self.objects:
            k, m = self.objects[key]
            k.clear_state()
        else:
            k = kern.kernel_code(CODES[op['code']], None, m, self.kernel)
        self.objects = {key: (k, m)}
        for n, v in CONSTS[op['consts']].items():
            k.set_constant(n, v)
        self.clock += 1 / 8    # the analysis takes some time
        return k, m


def text(path):
    with open(path) as f:
        return f.read()


def ask(world, op):
    """Result of one operation, comparable and independent of paths."""
    k, m = world.configure(op)
    q = op['ask']
    if q in ('lc', 'csim'):
        from kerncraft.cacheprediction import CacheSimulationPredictor, LayerConditionPredictor
        p = {'lc': LayerConditionPredictor, 'csim': CacheSimulationPredictor}[q](k, m, cores=op.get('cores', 1))
        r = tuple(str(x) for x in (p.get_loads(), p.get_hits(), p.get_misses(), p.get_stores(), p.get_evicts()))
        if q == 'lc':
            r += (str(sorted(p.results)), str(p.results['cache']), str(p.results['distances']))
    elif q == 'code':
        name, l0 = k.get_kernel_header()
        path, l1 = k.get_kernel_code(openmp=op.get('openmp', False))
        main, l2 = k.get_main_code()
        header = os.path.join(os.path.dirname(main), os.path.basename(name))
        r = (text(header), text(path), text(main))
        for l in (l0, l1, l2):
            l.close()
    elif q in ('asm', 'obj', 'exe'):
        if q == 'exe':
            path, l = k.build_executable(openmp=op.get('openmp', False))
        else:
            path, l = k.compile_kernel(assembly=q == 'asm', openmp=op.get('openmp', False))
        r = (text(path),)
        l.close()
    elif q == 'incore':
        a, inc = k.incore_analysis(asm_block=op.get('block', 'auto'), pointer_increment=op.get('increment', 'auto'),
                                   model=op.get('model', 'OSACA'))
        require(k.pointer_increment == inc, 'increment of the kernel object is', k.pointer_increment, 'instead of', inc)
        r = (repr(a), inc)
    world.settle()
    return r


def _instrument(input_file, output_file, block_selection=None, pointer_increment=None, isa=None, **kw):
    data = input_file.read()
    inc = pointer_increment if pointer_increment != 'auto' else [8, -8][int(hashlib.md5(data.encode()).hexdigest(), 16) % 2]
    output_file.write('# block=%s\n# marked pointer_increment=%s abc\n%s' % (block_selection, inc, data))
    return [], inc


def _incore(name):
    def f(file, micro_architecture, *a, **kw):
        with open(file, 'rb') as fp:
            return {'throughput': 4.0, 'by': name, 'for': str(micro_architecture), 'seen': hashlib.md5(fp.read()).hexdigest()}
    return f


@contextlib.contextmanager
def standins():
    from unittest import mock
    from kerncraft import cacheprediction as cp, incore_model as im
    keep = [(o, n, getattr(o, n)) for o, n in ((cp.LayerConditionPredictor, 'build_symbolic_LCs'), (cp.CacheSimulationPredictor, 'simulate'))
            if hasattr(o, n)]
    with c01.standins(hooks=False), contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(im, 'asm_instrumentation', _instrument))
        for n in ('osaca_analyse_instrumented_assembly', 'llvm_mca_analyse_instrumented_assembly', 'iaca_analyse_instrumented_binary'):
            st.enter_context(mock.patch.object(im, n, _incore(n)))
        # cache analyses are the real ones here
        for o, n, v in keep:
            st.enter_context(mock.patch.object(o, n, v))
        # nor was kerncraft changed after the logical times
        import kerncraft.kerncraft as kc
        from datetime import datetime
        if hasattr(kc, 'get_last_modified_datetime'):
            st.enter_context(mock.patch.object(kc, 'get_last_modified_datetime', lambda *a, **kw: datetime(2001, 1, 1)))
        yield


_clean = {}


def clean(op):
    """Result in an empty directory."""
    op = {k: v for k, v in op.items() if k not in ('touch', 'reuse')}
    key = repr(sorted(op.items()))
    if key not in _clean:
        with scratch() as d:
            os.chdir(d)
            _clean[key] = ask(World(d, False), op)
    return _clean[key]


def ev(case, ctx):
    alphabet = ALPHABETS[case['alphabet']]
    first = [alphabet[i] for i in case['prefix']]
    cwd = os.getcwd()
    differing = set()
    try:
        with standins():
            for last in range(len(alphabet)):
                ops = first + [alphabet[last]]
                want = [clean(o) for o in ops]
                with scratch() as d:
                    os.chdir(d)
                    w = World(d, case['same'])
                    for n, o in enumerate(ops):
                        got = ask(w, o)
                        ctx.step()
                        if got != want[n]:
                            diff = [(a, b) for a, b in zip(got, want[n]) if a != b]
                            require(False, 'after', ops[:n], 'the answer to', o, 'is', str(diff[0][0])[:400], 'instead of', str(diff[0][1])[:400])
                    ctx.trace()
                    ctx.state(case['alphabet'], tuple(case['prefix']), last, case['same'])
                    differing.add(want[-1])
                    os.chdir(cwd)
    finally:
        os.chdir(cwd)
    return '%s %s %d' % (case['alphabet'], case['prefix'], len(differing))


def product(**dims):
    return [dict(zip(dims, v)) for v in itertools.product(*dims.values())]


ALPHABETS = {
    'generated code': [dict(o, machine=m, where=w) for o in
                       product(code=['k1', 'k2'], consts=['n', 'n2', 'nk', 'kn'], ask=['code', 'exe'])
                       for m, w in (('std', 'file'), ('cl', 'file'), ('cl', 'other'))],
    'compiled': [dict(o, **c) for o in product(code=['k1', 'k2'], consts=['n', 'nk'], ask=['asm', 'exe', 'obj']) for c in
                 ({}, {'openmp': True}, {'machine': 'flags'}, {'machine': 'flags', 'where': 'other'},
                  {'compiler': ('clang', None)}, {'compiler': ('gcc', '-O2')}, {'compiler': ('gcc', '-I/x/y')}, {'compiler': ('gcc', '-I/xy')},
                  {'compiler': ('gcc', '-D A_B')}, {'compiler': ('gcc', '-D_A B')})
                 if not (c.get('openmp') and o['ask'] == 'asm')],
    'in-core': [dict(o, ask='incore', consts='n') for o in
                product(code=['k1', 'k2'], model=['OSACA', 'LLVM-MCA', 'IACA'], block=['auto', 1, 2], increment=['auto', 16, -8])],
    'in-core machines': [dict(o, ask='incore', **c) for o in product(code=['k1', 'k2'], model=['OSACA', 'IACA'], increment=['auto', 16]) for c in
                         ({'consts': 'n'}, {'consts': 'nk'}, {'consts': 'n', 'machine': 'arch'}, {'consts': 'n', 'machine': 'flags', 'where': 'other'},
                          {'consts': 'n', 'machine': 'flags'}, {'consts': 'n', 'where': 'none'}, {'consts': 'n', 'where': 'none', 'machine': 'arch'},
                          {'consts': 'n', 'compiler': ('gcc', '-O1')}, {'consts': 'n', 'compiler': ('clang', '-O1')})],
    'predictors': [dict(o, machine=m, where=w) for o in product(code=['k3', 'k4'], consts=['mn', 'mn2'], cores=[1, 2], ask=['lc', 'csim'])
                   for m, w in (('std', 'file'), ('big', 'file'), ('big', 'other'))],
    'predictors without file': [dict(o, machine=m, where=w) for o in product(code=['k3', 'k4'], consts=['mn', 'nm'], ask=['lc', 'csim'])
                                for m, w in (('std', 'none'), ('big', 'none'), ('std', 'file'))],
    'same object': [dict(o, reuse=True) for o in product(code=['k3'], consts=['mn', 'mn2', 'nm'], cores=[1, 2, 4], ask=['lc', 'csim'])] +
                   [dict(o, reuse=True) for o in product(code=['k1'], consts=['n', 'nk', 'kn'], ask=['code', 'exe', 'incore'])],
    'short code': [dict(o, machine=m) for o in product(code=['k1', 'k2'], consts=['n', 'nk'], ask=['exe', 'incore']) for m in ('std', 'cl')],
    'short predictors': [dict(o, machine=m) for o in product(code=['k3', 'k4'], consts=['mn'], cores=[1, 2], ask=['lc', 'csim']) for m in ('std', 'big')],
    'touched': [dict(o, touch=True) for o in product(code=['k1', 'k2'], consts=['n', 'nk'], ask=['exe', 'incore', 'lc', 'csim'])],
}


def suites(tier):
    deep = tier == 'thorough'

    def pairs():
        for name, al in ALPHABETS.items():
            for same in (False, True):
                if same and not deep and name not in ('short code', 'short predictors', 'touched'):
                    continue
                for i, op in enumerate(al):
                    if not deep and op['code'] != al[0]['code']:
                        continue    # the codes are interchangeable
                    yield {'alphabet': name, 'prefix': [i], 'same': same}

    def triples():
        for name, al in ALPHABETS.items():
            if not deep and name != 'short code':
                continue
            if len(al) > 60:
                continue
            for same in (False, True) if deep else (name == 'short code',):
                for i in range(len(al)):
                    for j in range(len(al)):
                        if i != j:
                            yield {'alphabet': name, 'prefix': [i, j], 'same': same}
    t = 3000 if deep else 800
    return [
        Suite('pairs', pairs, ev, chunk=1, timeout=t, bound='all histories of 2 analyses over 10 alphabets of up to 112 configurations (quick: the first one of the first code)'),
        Suite('triples', triples, ev, chunk=2, timeout=t, bound='all histories of 3 analyses over small alphabets'),
    ]
