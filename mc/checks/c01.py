"""C01: concurrent runs sharing intermediate files, decided on all interleavings of their lock and file operations.

The real KernelCode and cache predictors run as 2 or 3 processes under the controlled scheduler of mc/sched.py, from
absent, stale and fresh files. Compilers, in-core analysis and cache analysis are replaced by stand-ins which read
their inputs and write their outputs, because only the order of file accesses matters here.
"""
import contextlib
import fcntl
import hashlib
import os
import pickle
import shutil
from copy import deepcopy
from unittest import mock

from .. import kern, sched
from ..core import Suite, Violation, require, scratch

PROPERTY = 'C01'
ASSUMPTIONS = [
    'flock() works on the file system (kerncraft warns otherwise), and conversions of locks are not atomic.',
    'Kernel and machine file do not change meanwhile (C03), runs are not killed (C02) and do not clean up (--clean-intermediates).',
    'Compiler, in-core analysis, instrumentation and cache analysis are stand-ins reading inputs and writing outputs.',
    'Directories appearing is observable, directories are never removed.',
]

SOURCE = '''double a[N];
double b[N];
double s;
for(int i=0; i<N; ++i) {
  a[i] = s * b[i];
}
'''
OLD = 1000000000


class Case:
    """Kernel file, machine file and expected content of all intermediates."""

    def __init__(self, d, tasks):
        from kerncraft.machinemodel import MachineModel
        self.dir = d
        self.tasks = tasks
        self.root = os.path.join(d, 'run')
        self.kernel = os.path.join(self.root, 'k.c')
        self.machine_file = os.path.join(d, 'm.yml')
        os.makedirs(self.root)
        open(self.kernel, 'w').write(SOURCE)
        open(self.machine_file, 'w').write('')
        self.machines, self.kernels = [], []
        for t in tasks:
            m = MachineModel(machine_yaml=kern.machine_data(**{
                'memory hierarchy': [
                    {'level': 'L1', 'cores per group': 1, 'threads per group': 1,
                     'cache per group': {'sets': 2, 'ways': 2, 'cl_size': 64, 'replacement_policy': 'LRU', 'load_from': 'L2', 'store_to': 'L2'}},
                    {'level': 'L2', 'cores per group': 1, 'threads per group': 1,
                     'cache per group': {'sets': 4, 'ways': 2, 'cl_size': 64, 'replacement_policy': 'LRU'}},
                    {'level': 'MEM', 'cores per group': 4, 'threads per group': 4}],
                'in-core model': {'OSACA': 'SNB', 'IACA': 'SNB'}}))
            m.set_path(self.machine_file)
            self.machines.append(m)
            self.kernels.append(kern.kernel_code(SOURCE, {'N': 100}, m, self.kernel))
        for p in (self.kernel, self.machine_file):
            os.utime(p, (OLD + 1000, OLD + 1000))

    def reset(self, state):
        """Directory tree with the given state: {relative path: ('fresh'|'stale', content)}, and all directories."""
        for n in os.listdir(self.root):
            if n != 'k.c':
                shutil.rmtree(os.path.join(self.root, n))
        for rel, (kind, content) in state.items():
            p = os.path.join(self.root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with sched.REAL['open'](p, 'wb') as f:
                f.write(content)
            if kind == 'stale':
                os.utime(p, (OLD, OLD))


def digest(path):
    with sched.REAL['open'](path, 'rb') as f:
        return hashlib.md5(f.read()).hexdigest()


def lock_free(path, mode):
    """May another process lock it with this mode now?"""
    with sched.REAL['open'](path, 'a') as f:
        try:
            sched.REAL['flock'](f, mode | fcntl.LOCK_NB)
        except BlockingIOError:
            return False
    return True


def hold(world, proc, case, path, lock):
    """The run uses its file while holding the lock it was given."""
    path = os.path.abspath(path)
    rel = os.path.relpath(path, case.root)
    for i in range(2):
        if not os.path.exists(path):
            raise Violation('file %s is missing' % rel)
        if case.expected is not None and digest(path) != case.expected[rel]:
            raise Violation('process %d was given an incomplete or wrong %s' % (proc.num, rel))
        if lock.closed:
            raise Violation('lock of %s is closed' % rel)
        if lock_free(path + '.lock', fcntl.LOCK_EX):
            raise Violation('process %d holds no lock on %s' % (proc.num, rel))
        if not lock_free(path + '.lock', fcntl.LOCK_SH):
            raise Violation('process %d does not hold a shared lock on %s' % (proc.num, rel))
        if i == 0:
            proc.point('hold', rel)
    lock.close()


def t_header(k, m, world, proc, case):
    d, lock = k.get_kernel_header()
    path = case.find('kernel.h')
    hold(world, proc, case, path, lock)


def t_code(k, m, world, proc, case, **kw):
    hold(world, proc, case, *k.get_kernel_code(**kw))


def t_main(k, m, world, proc, case):
    hold(world, proc, case, *k.get_main_code())


def t_asm(k, m, world, proc, case):
    hold(world, proc, case, *k.compile_kernel(assembly=True))


def t_obj(k, m, world, proc, case):
    hold(world, proc, case, *k.compile_kernel())


def t_exe(k, m, world, proc, case):
    hold(world, proc, case, *k.build_executable(openmp=False))


def t_ompexe(k, m, world, proc, case):
    hold(world, proc, case, *k.build_executable(openmp=True))


def t_incore(k, m, world, proc, case, model='OSACA'):
    r = k.incore_analysis(asm_block='auto', pointer_increment='auto', model=model)
    case.result(world, proc, r)


def t_lc(k, m, world, proc, case):
    from kerncraft.cacheprediction import LayerConditionPredictor
    p = LayerConditionPredictor(k, m)
    case.result(world, proc, p.results)


def t_csim(k, m, world, proc, case):
    from kerncraft.cacheprediction import CacheSimulationPredictor
    p = CacheSimulationPredictor(k, m)
    case.result(world, proc, (p.first_dim_factor, p.stats, p.pretty_stats))


TASKS = {
    'header': [t_header], 'code': [t_code], 'omp': [lambda *a: t_code(*a, openmp=True)], 'main': [t_main], 'asm': [t_asm],
    'obj': [t_obj], 'exe': [t_exe], 'ompexe': [t_ompexe], 'osaca': [t_incore], 'iaca': [lambda *a: t_incore(*a, model='IACA')],
    'lc': [t_lc], 'csim': [t_csim], 'lc+csim': [t_lc, t_csim], 'lc+osaca': [t_lc, t_incore], 'osaca+exe': [t_incore, t_exe],
    'exe+osaca': [t_exe, t_incore], 'osaca+iaca': [t_incore, lambda *a: t_incore(*a, model='IACA')],
    'header+code': [t_header, t_code], 'code+header': [t_code, t_header],
}


# ------------------------------------------------------------------ stand-ins for expensive analyses
def _instrument(input_file, output_file, **kw):
    data = input_file.read()
    output_file.write('# marked pointer_increment=8 abc\n' + data)
    return [], 8


def _incore(file, *a, **kw):
    with open(file, 'rb') as f:
        return {'throughput': 4.0, 'seen': hashlib.md5(f.read()).hexdigest()}


def copy(x):
    try:
        return pickle.loads(pickle.dumps(x, -1))
    except (pickle.PickleError, TypeError, AttributeError):
        return deepcopy(x)


class Parser:
    parsed = {}

    def __init__(self, *a, **kw):
        self.args = a, kw

    def parse(self, text, *a, **kw):
        k = repr((text, a, kw))
        if k not in self.parsed:
            from pycparser import CParser
            self.parsed[k] = pickle.dumps(CParser(*self.args[0], **self.args[1]).parse(text, *a, **kw), -1)
        return pickle.loads(self.parsed[k])


@contextlib.contextmanager
def standins(hooks=True):
    import kerncraft.kernel as K
    import kerncraft.kerncraft as kc
    from kerncraft import cacheprediction as cp, incore_model as im
    last = kc.get_last_modified_datetime()
    patches = []

    def patch(obj, name, new):
        if hasattr(obj, name):
            patches.append(mock.patch.object(obj, name, new))

    def lcs(self):
        self.results = {'cache': [[{'condition': True, 'hits': 1, 'misses': 2, 'evicts': 1, 'tail': 0}]]}

    def simulate(self):
        self.first_dim_factor, self.stats, self.pretty_stats = 1.0, [{'HIT': 1}], 'stats'
    patch(im, 'asm_instrumentation', _instrument)
    for n in ('osaca_analyse_instrumented_assembly', 'llvm_mca_analyse_instrumented_assembly', 'iaca_analyse_instrumented_binary'):
        patch(im, n, _incore)
    patch(cp.LayerConditionPredictor, 'build_symbolic_LCs', lcs)
    patch(cp.CacheSimulationPredictor, 'simulate', simulate)
    # (faster equivalents of parsing and copying the same syntax trees again and again)
    patch(K, 'CParser', Parser)
    patch(K, 'deepcopy', copy)
    # (the time of the last change of kerncraft itself, looked up again and again)
    patch(kc, 'get_last_modified_datetime', lambda *a, **kw: last)
    with contextlib.ExitStack() as st:
        for p in patches:
            st.enter_context(p)
        st.enter_context(mock.patch.dict(os.environ, {'LIKWID_LIB': '', 'LIKWID_INC': '-I.'}))
        st.enter_context(sched.Hooks() if hooks else sched.Tools())
        yield


# ------------------------------------------------------------------ evaluation
def final_path(rel):
    return not os.path.basename(rel).startswith('incomplete.')


def ev(case, ctx):
    tasks, init = case['tasks'], case['init']
    with scratch() as d, standins():
        from kerncraft import kerncraft as kc
        cwd = os.getcwd()
        os.chdir(d)
        try:
            return evaluate(Case(d, tasks), init, ctx)
        finally:
            os.chdir(cwd)


def evaluate(c, init, ctx):
    # all files and results of undisturbed runs
    c.expected, c.wanted = None, {}
    c.results, c.dirs = {}, ()

    def find(name):
        for r, _, fs in os.walk(c.root):
            if name in fs:
                return os.path.join(r, name)
        raise Violation('no file %s' % name)
    c.find = find

    def result(world, proc, r):
        r = repr(r)
        k = (c.tasks[proc.num], len([x for x in proc.log if x[0] == 'result']))
        proc.seen('result', r)
        if c.expected is None:
            c.results[k] = r
        elif c.results[k] != r:
            raise Violation('process %d got %s instead of %s' % (proc.num, r[:300], c.results[k][:300]))
    c.result = result

    def make(procs):
        def body(i):
            def f(world, proc):
                for t in TASKS[c.tasks[i]]:
                    t(c.kernels[i], c.machines[i], world, proc, c)
            return f
        fns = [body(i) for i in procs]
        w = sched.World(c.root, fns, OLD + 1000, c.dirs)
        for p, i in zip(w.procs, procs):
            p.num = i
        return w
    content = {}
    for i in range(len(c.tasks)):
        c.reset({})
        w = sched.World(c.root, [None] * len(c.tasks), OLD + 1000)
        w.procs = [w.procs[i]]
        w.procs[0].fn = make(range(len(c.tasks))).procs[i].fn
        while not w.procs[0].done:
            if not w.procs[0].thread.is_alive():
                w.procs[0].thread.start()
            require(w.procs[0].pending is None or w.procs[0].pending[2] is None or w.procs[0].pending[2](),
                    'single run waits for its own lock', w.procs[0].pending)
            w.step_proc(w.procs[0])
        require(w.violation is None, w.violation)
        if w.procs[0].error:
            raise w.procs[0].error
        for r, _, fs in os.walk(c.root):
            for f in fs:
                p = os.path.join(r, f)
                rel = os.path.relpath(p, c.root)
                if f.endswith('.lock') or rel == 'k.c':
                    continue
                with sched.REAL['open'](p, 'rb') as fp:
                    data = fp.read()
                require(content.setdefault(rel, data) == data, 'two undisturbed runs write different', rel)
    c.expected = {k: hashlib.md5(v).hexdigest() for k, v in content.items()}
    names = sorted(content)
    state = {}
    if init == 'empty':
        pass
    elif init == 'directories':
        pass
    elif init == 'fresh':
        state = {n: ('fresh', content[n]) for n in names}
    elif init == 'stale':
        state = {n: ('stale', b'stale ' + n.encode()) for n in names}
    elif init == 'source stale':
        # products are fresh, while sources they were made of are old
        state = {n: ('stale', b'stale ' + n.encode()) if n.endswith(('.c', '.h')) else ('fresh', content[n]) for n in names}
    elif init == 'product stale':
        state = {n: ('fresh', content[n]) if n.endswith(('.c', '.h', '.s')) else ('stale', b'stale ' + n.encode()) for n in names}
    elif init == 'sources only':
        state = {n: ('fresh', content[n]) for n in names if n.endswith(('.c', '.h', '.s'))}
    else:
        raise AssertionError(init)
    dirs = set()
    for n in names:
        while os.path.dirname(n):
            n = os.path.dirname(n)
            dirs.add(n)
    c.dirs = dirs

    def start():
        c.reset(state)
        if init != 'empty':
            for x in sorted(dirs):
                os.makedirs(os.path.join(c.root, x), exist_ok=True)
        return make(range(len(c.tasks)))

    def final(w):
        for rel, who in w.productions.items():
            if not final_path(rel):
                continue
            if state.get(rel, ('absent',))[0] == 'fresh':
                raise Violation('up-to-date %s was rewritten by process %s' % (rel, who))
            require(len(who) == 1, rel, 'was written', len(who), 'times, by processes', who)
            require(rel in content, 'unexpected file', rel)
        for r, _, fs in os.walk(c.root):
            for f in fs:
                p = os.path.join(r, f)
                rel = os.path.relpath(p, c.root)
                if rel == 'k.c':
                    continue
                if f.endswith('.lock'):
                    require(lock_free(p, fcntl.LOCK_EX), 'lock', rel, 'is never released')
                    continue
                require(rel in content, 'unexpected file', rel, 'is left behind')
                if os.stat(p).st_mtime > OLD + 1000:
                    require(digest(p) == c.expected[rel], 'content of', rel, 'differs from an undisturbed run')
    states, execs, ends = sched.explore(start, final, ctx)
    require(ends > 0, 'no execution was completed')
    ctx.states.update(states)
    ctx.trace(execs)
    ctx.count('executions', execs)
    return '%s %s' % ('|'.join(c.tasks), init)


INITS = ['directories', 'fresh', 'stale', 'source stale', 'product stale', 'sources only']
SINGLE = ['header', 'code', 'main', 'lc', 'csim', 'asm', 'obj', 'osaca', 'iaca', 'exe', 'ompexe']


def suites(tier):
    deep = tier == 'thorough'

    def same():
        for init in INITS:
            for t in SINGLE:
                yield {'tasks': [t, t], 'init': init}
        for t in SINGLE if deep else ['header', 'lc', 'asm']:
            yield {'tasks': [t, t], 'init': 'empty'}

    def mixed():
        pairs = [('header', 'code'), ('code', 'obj'), ('header', 'asm'), ('obj', 'exe'), ('asm', 'osaca'), ('code', 'exe'),
                 ('main', 'exe'), ('lc', 'csim'), ('omp', 'ompexe'), ('code+header', 'header+code'), ('lc+csim', 'csim'),
                 ('lc+csim', 'lc+csim')]
        for p in pairs:
            for init in INITS if deep else ['directories', 'stale', 'product stale']:
                yield {'tasks': list(p), 'init': init}
        for init in INITS if deep else ['product stale', 'fresh']:
            yield {'tasks': ['asm', 'obj'], 'init': init}
        if deep:
            for p in (('osaca', 'exe'), ('osaca', 'iaca'), ('osaca', 'obj'), ('exe', 'ompexe'), ('osaca+iaca', 'iaca'),
                      ('osaca+exe', 'exe+osaca'), ('lc+osaca', 'osaca')):
                for init in INITS:
                    yield {'tasks': list(p), 'init': init}

    def three():
        for init in INITS if deep else ['directories', 'fresh']:
            for p in (('lc', 'lc', 'lc'), ('lc', 'lc', 'csim'), ('csim', 'csim', 'csim')):
                yield {'tasks': list(p), 'init': init}
            yield {'tasks': ['header'] * 3, 'init': init}
        if deep:
            for init in INITS:
                for p in (('code',) * 3, ('main',) * 3, ('code', 'code', 'obj'), ('obj', 'obj', 'obj'), ('lc', 'lc', 'csim', 'csim')):
                    yield {'tasks': list(p), 'init': init}
    t = 7000 if deep else 800
    return [
        Suite('same-request', same, ev, chunk=1, timeout=t, bound='2 processes asking for the same file, %d kinds, %d initial states' % (len(SINGLE), len(INITS) + 1)),
        Suite('dependent-requests', mixed, ev, chunk=1, timeout=t, bound='2 processes asking for different files which depend on each other'),
        Suite('three-processes', three, ev, chunk=1, timeout=t, bound='3 processes'),
    ]
