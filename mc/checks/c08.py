"""C08: generated code. The generated sources of every kernel of the enumerated families are executed - by an interpreter
recording every access and by a compiler - and compared with a direct interpretation of the original loop nest."""
import ctypes
import itertools
import glob
import os
import re
import shutil
import subprocess

from ..core import REPO, Skip, Suite, Violation, require, scratch
from .. import cinterp, family, kern

PROPERTY = 'C08'
ASSUMPTIONS = ['array element counts fit the index type used by the kernel', 'with several threads: the outer loop has independent iterations '
               'and scalars are only read', 'gcc with strict IEEE evaluation (no contraction, no fast-math)']


# ------------------------------------------------------------------ reference execution of a kernel dict
def dims_of(k, n, consts):
    return [kern.ev(d, consts) for d in k['arrays'][n]]


def sizes(k, consts):
    out = {}
    for n in k['arrays']:
        s = 1
        for d in dims_of(k, n, consts):
            s *= d
        out[n] = s
    return out


def fill(k, consts):
    """Distinct contents, so that any wrong location shows up in the results."""
    mem, c = {}, 0
    for n, s in sizes(k, consts).items():
        mem[n] = [1.0 + ((c + x) * 7919 % 10007) / 64.0 for x in range(s)]
        c += s
    return mem, {n: 1.5 + p for p, n in enumerate(k['scalars'])}


def run_ref(k, consts, mem, cells):
    trace = []

    def flat(l, env):
        o = 0
        for d, e in zip(dims_of(k, l[0], consts), l[1]):
            o = o * d + kern.ev(e, env)
        return o

    def get(l, env):
        if len(l) == 1:
            return cells[l[0]]
        i = flat(l, env)
        trace.append(('R', l[0], i))
        return mem[l[0]][i]

    def val(t, env):
        if isinstance(t, str):
            return float(t)
        if family.is_leaf(t):
            return get(t, env)
        if t[0] == 'neg':
            return -val(t[1], env)
        a, b = val(t[1], env), val(t[2], env)
        return a + b if t[0] == '+' else a - b if t[0] == '-' else a * b if t[0] == '*' else cinterp.fdiv(a, b)

    def put(l, v, env):
        if len(l) == 1:
            cells[l[0]] = v
        else:
            i = flat(l, env)
            trace.append(('W', l[0], i))
            mem[l[0]][i] = v

    for it in kern.indices(k, consts):
        env = dict(consts, **it)
        for l, op, t in k['acc']:
            v = val(t, env)
            if op != '=':
                o = get(l, env)
                v = o + v if op == '+=' else o - v if op == '-=' else o * v if op == '*=' else cinterp.fdiv(o, v)
            put(l, v, env)
    return trace


def in_bounds(k, consts):
    for it in kern.indices(k, consts):
        env = dict(consts, **it)
        for l in sum(family.accesses(k), []):
            if len(l) > 1:
                o = 0
                n = 1
                for d, e in zip(dims_of(k, l[0], consts), l[1]):
                    o = o * d + kern.ev(e, env)
                    n *= d
                if not 0 <= o < n:
                    return False
    return True


def func(text, name):
    for e in cinterp.parse(text).ext:
        if type(e).__name__ == 'FuncDef' and e.decl.name == name:
            return e
    raise Violation('no function %s in %s' % (name, text[:200]))


def params(f):
    t = f.decl.type if hasattr(f, 'decl') else f.type
    return [(p.name, type(p.type).__name__) for p in t.args.params]


def generate(k, consts, what=('code', 'omp'), name='kernel', src=None):
    out = {}
    with scratch() as d:
        os.environ['TMPDIR'] = d
        kc = kern.kernel_code(src or k, consts, kern.machine(), filename=os.path.join(d, 'k.c'))
        with open(os.path.join(d, 'k.c'), 'w') as f:
            f.write(src or kern.c_source(k))
        for w in what:
            out[w] = gen1(kc, w, d, name)
    return out


def gen1(kc, w, d, name='kernel'):
    if w == 'header':
        r, fp = kc.get_kernel_header(name=name)
        # stored next to the other files, somewhere below
        found = glob.glob(os.path.join(d, '**', os.path.basename(r)), recursive=True, include_hidden=True)
        require(len(found) == 1, 'header', r, 'found as', found)
        r = found[0]
    elif w == 'main':
        r, fp = kc.get_main_code(kernel_function_name=name)
    else:
        r, fp = kc.get_kernel_code(openmp=(w == 'omp'), name=name)
    fp.close()
    with open(r) as f:
        return f.read()


def by_iteration(trace):
    """Accesses grouped into statements: reads since the previous write (order of evaluation is free), then the write."""
    out, cur = [], []
    for t in trace:
        if t[0] == 'W':
            out.append((sorted(cur), t))
            cur = []
        else:
            cur.append(t)
    return out, sorted(cur)


def ev_interp(case, ctx):
    k, consts = case[:2]
    src = case[2] if len(case) > 2 else None
    if not in_bounds(k, consts):
        raise Skip('the original kernel accesses memory outside of its arrays')
    mem, cells = fill(k, consts)
    want = run_ref(k, consts, mem, cells)
    out = generate(k, consts, src=src)
    for w, text in out.items():
        f = func(text, 'kernel')
        m2, c2 = fill(k, consts)
        order = list(k['arrays']) + [s + '_' for s in k['scalars']] + sorted(consts)
        ps = params(f)
        require([p for p, _ in ps] == order, 'parameters', ps, 'expected', order)
        args = {n: cinterp.Ptr(n) for n in k['arrays']}
        args.update({s + '_': cinterp.Ptr(s) for s in k['scalars']})
        args.update(consts)
        it = cinterp.Interp(m2, c2)
        try:
            it.call(f, args)
        except cinterp.CError as e:
            raise Violation('%s: generated code: %s\n%s' % (w, e, text))
        require(by_iteration(it.trace) == by_iteration(want), w, 'accesses', it.trace[:12], 'expected', want[:12], text)
        require(repr((m2, c2)) == repr((mem, cells)), w, 'results differ', text)
        ctx.step(len(want))
        ctx.trace()
        has = re.findall(r'#pragma omp[^\n]*', text)
        if w == 'code':
            require(not has, 'OpenMP directives without OpenMP', has)
        else:
            require(any(re.search(r'\bfor\b', p) for p in has), 'no work-sharing directive', has)
    ctx.state(str(k['stmts']), str(k['loops']), str(consts))
    return str(want[-2:])


# ------------------------------------------------------------------ compiled
def c_reference(k, name, consts):
    t = k.get('type', 'double')
    p = ['%s *%s__' % (t, n) for n in k['arrays']] + ['%s *%s_' % (t, n) for n in k['scalars']] + ['const int %s' % c for c in sorted(consts)]
    body = ['%s (*%s)%s = (void*)%s__;' % (t, n, ''.join('[%s]' % d for d in dims[1:]), n) if len(dims) > 1 else '%s *%s = %s__;' % (t, n, n)
            for n, dims in k['arrays'].items()]
    body += ['%s %s = *%s_;' % (t, s, s) for s in k['scalars']]
    src = kern.c_source(k)
    body.append('\n'.join(l for l in src.split('\n') if not re.match(r'^(double|float) ', l)))
    body += ['*%s_ = %s;' % (s, s) for s in k['scalars']]
    return 'void %s(%s) {\n%s\n}\n' % (name, ', '.join(p), '\n'.join(body))


def ev_compiled(case, ctx):
    import numpy
    ks, threads = case
    with scratch() as d:
        parts = []
        for x, (k, consts) in enumerate(ks):
            if not in_bounds(k, consts):
                raise Skip('out of bounds')
            g = generate(k, consts, ('code', 'omp'), 'k%d' % x)
            parts += [g['code'].replace('void k%d(' % x, 'void s%d(' % x), g['omp'], c_reference(k, 'r%d' % x, consts)]
            require('void s%d(' % x in parts[-3] and 'void k%d(' % x in parts[-2], 'function name not used')
            ps = params(func(g['omp'], 'k%d' % x))
            t = k.get('type', 'double')
            parts.append('void p%d(%s) {\n#pragma omp parallel num_threads(%d)\n k%d(%s);\n}\n' % (
                x, ', '.join(('%s *%s' % (t, p) if c == 'PtrDecl' else 'int ' + p) for p, c in ps), threads, x, ', '.join(p for p, _ in ps)))
        with open(os.path.join(d, 'x.c'), 'w') as f:
            f.write('#include "kerncraft.h"\n' + '\n'.join(parts))
        r = subprocess.run(['gcc', '-std=c99', '-O1', '-ffp-contract=off', '-fopenmp', '-w', '-shared', '-fPIC', '-I', REPO + '/kerncraft/headers',
                            '-o', os.path.join(d, 'x.so'), os.path.join(d, 'x.c')], capture_output=True, text=True)
        require(r.returncode == 0, 'generated code does not compile', r.stderr[:1500])
        lib = ctypes.CDLL(os.path.join(d, 'x.so'))
        for x, (k, consts) in enumerate(ks):
            dt = numpy.float32 if k.get('type') == 'float' else numpy.float64
            res = {}
            for fn in ('r', 's', 'k', 'p'):
                mem, cells = fill(k, consts)
                bufs, args = [], []
                for n in k['arrays']:
                    b = numpy.full(len(mem[n]) + 64, 12345.0, dtype=dt)
                    b[32:32 + len(mem[n])] = mem[n]
                    bufs.append(b)
                    args.append(ctypes.c_void_p(b.ctypes.data + 32 * b.itemsize))
                for n in k['scalars']:
                    b = numpy.full(1, cells[n], dtype=dt)
                    bufs.append(b)
                    args.append(ctypes.c_void_p(b.ctypes.data))
                args += [ctypes.c_int(consts[c]) for c in sorted(consts)]
                getattr(lib, fn + str(x))(*args)
                res[fn] = b''.join(b.tobytes() for b in bufs)
                ctx.step()
            for fn in 'skp':
                require(res[fn] == res['r'], {'s': 'serial', 'k': 'OpenMP (one thread)', 'p': 'OpenMP (%d threads)' % threads}[fn],
                        'code leaves other contents than the original', k['stmts'], k['loops'], consts)
            ctx.trace(3)
            ctx.state(str(k['stmts']), str(k['loops']), str(consts))
    return str([k['stmts'] for k, _ in ks])


# ------------------------------------------------------------------ main program
LIKWID = '''
int likwid_calls; 
static inline void likwid_markerInit(void) {} static inline void likwid_markerThreadInit(void) {}
static inline int likwid_markerRegisterRegion(const char*t) {return 0;} static inline int likwid_markerStartRegion(const char*t) {return 0;}
static inline int likwid_markerStopRegion(const char*t) {return 0;} static inline void likwid_markerClose(void) {}
'''


def c_eval(n, env):
    from pycparser import c_ast
    t = type(n)
    if t is c_ast.Constant:
        return int(n.value, 0)
    if t is c_ast.ID:
        return env[n.name]
    if t is c_ast.BinaryOp:
        a, b = c_eval(n.left, env), c_eval(n.right, env)
        return {'+': a + b, '-': a - b, '*': a * b}[n.op]
    if t is c_ast.UnaryOp and n.op == 'sizeof':
        names = n.expr.type.type.names
        return {'double': 8, 'float': 4}[names[0]] * (2 if '_Complex' in names else 1)
    raise Violation('unexpected %s in size' % t.__name__)


def calls(node, name, out):
    from pycparser import c_ast
    if isinstance(node, c_ast.FuncCall) and getattr(node.name, 'name', None) == name:
        out.append(node)
    for _, c in node.children():
        calls(c, name, out)
    return out


def ev_main(case, ctx):
    k, consts, cl, build = case
    from kerncraft.prefixedunit import PrefixedUnit
    from pycparser import c_ast
    es = kern.ESIZE[k.get('type', 'double')]
    with scratch() as d:
        mach = kern.machine(**{'cacheline size': PrefixedUnit(cl, 'B')})
        kc = kern.kernel_code(k, consts, mach, filename=os.path.join(d, 'k.c'))
        with open(os.path.join(d, 'k.c'), 'w') as f:
            f.write(kern.c_source(k))
        texts = {w: gen1(kc, w, d) for w in ('main', 'code', 'omp', 'header')}
        main = func(texts['main'], 'main')
        decls = {s.name: s for s in main.body.block_items if isinstance(s, c_ast.Decl)}
        order = [str(c) for c in kc.constants]
        for c in consts:
            require(c in decls, 'constant', c, 'not declared')
            i = decls[c].init
            require(isinstance(i, c_ast.FuncCall) and isinstance(i.args.exprs[0], c_ast.ArrayRef), 'constant', c, 'not taken from command line')
            require(c_eval(i.args.exprs[0].subscript, {}) == 2 + order.index(c), 'constant', c, 'taken from another argument')
        for n, size in sizes(k, consts).items():
            i = decls[n].init
            require(isinstance(decls[n].type, c_ast.PtrDecl) and decls[n].type.type.type.names == [k.get('type', 'double')], n, 'has another type')
            require(i.name.name == 'aligned_malloc', n, 'not allocated')
            got = c_eval(i.args.exprs[0], consts), c_eval(i.args.exprs[1], consts)
            require(got == (size * es, cl), n, 'allocated as (bytes, alignment)', got, 'expected', (size * es, cl))
        for s in k['scalars']:
            require(isinstance(decls[s].init, c_ast.Constant), 'scalar', s, 'not initialised')
            require(decls[s].type.type.names == [k.get('type', 'double')], s, 'has another type')
        # call matches the parameters of definition and declaration
        ps = params(func(texts['code'], 'kernel'))
        hd = cinterp.parse(texts['header'] + ';').ext[0]
        require(params(hd if hasattr(hd, 'decl') else type('T', (), {'decl': hd})()) == ps, 'declaration and definition differ', texts['header'])
        require(params(func(texts['omp'], 'kernel')) == ps, 'definitions with and without OpenMP differ')
        cs = calls(main, 'kernel', [])
        require(len(cs) == 1, 'kernel called at', len(cs), 'places')
        args = []
        for a in cs[0].args.exprs:
            args.append(a.expr.name + '_' if isinstance(a, c_ast.UnaryOp) and a.op == '&' else a.name)
        require(args == [p for p, _ in ps], 'kernel called with', args, 'but takes', ps)
        ctx.step(len(decls) + 3)
        # the initialisation touches only existing elements: interpret the loops in front of the warm-up
        inner = [s for s in main.body.block_items if isinstance(s, c_ast.Compound)][0]
        mem = {n: [0.0] * s for n, s in sizes(k, consts).items()}
        it = cinterp.Interp(mem, {})
        it.env = {n: cinterp.Ptr(n) for n in k['arrays']}
        it.env.update(consts)
        it.env.update({s: 1.0 for s in k['scalars']})
        for s in inner.block_items:
            if isinstance(s, c_ast.For):
                if s.init.decls[0].name == 'warmup':
                    break
                try:
                    it.block(s)
                except cinterp.CError as e:
                    raise Violation('initialisation: %s' % e)
        mem2, cells2 = fill(k, consts)
        touched = {t[1:] for t in run_ref(k, consts, mem2, cells2)}
        initd = {t[1:] for t in it.trace if t[0] == 'W'}
        require(touched <= initd, 'elements used but never initialised', sorted(touched - initd)[:5])
        for n in k['arrays']:
            require(it.env[n].name == n, 'pointers to arrays exchanged by the initialisation')
        if build:
            with open(os.path.join(d, 'main.c'), 'w') as f:
                f.write(texts['main'])
            with open(os.path.join(d, 'likwid.h'), 'w') as f:
                f.write(LIKWID)
            for w in ('code', 'omp'):
                with open(os.path.join(d, w + '.c'), 'w') as f:
                    f.write(texts[w])
                with open(os.path.join(d, 'kernel.h'), 'w') as f:
                    f.write(texts['header'])
                for extra in ([], ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']):
                    out = os.path.join(d, w + str(len(extra)))
                    hd_ = os.path.join(REPO, 'kerncraft', 'headers')
                    r = subprocess.run(['gcc', '-std=c99', '-w', '-O' + ('0' if extra else '2'), '-fopenmp', '-I' + hd_, '-I' + d] + extra +
                                       [os.path.join(hd_, 'dummy.c'), os.path.join(d, w + '.c'), os.path.join(d, 'main.c'), '-o', out],
                                       capture_output=True, text=True)
                    require(r.returncode == 0, 'generated program does not build (%s %s)' % (w, extra), r.stderr[:1200])
                    r = subprocess.run([out, '3'] + [str(v) for v in kc.constants.values()], capture_output=True, text=True,
                                       env=dict(os.environ, OMP_NUM_THREADS='2', ASAN_OPTIONS='detect_leaks=0'))
                    require(r.returncode == 0, 'generated program fails (%s)' % w, r.returncode, r.stderr[:1200])
                    ctx.step()
            ctx.trace()
    ctx.state(str(k['stmts']), cl)
    return str(args)


# ------------------------------------------------------------------ constants reach the kernel
def ev_large(case, ctx):
    """The generated program is built with a kernel which prints its arguments instead."""
    itype, names, values = case
    src = 'double a[10], s;\nfor(%s i=0; i<10; ++i)\n  a[i] = s * (a[i] + 1.0);\n' % itype
    consts = dict(zip(names, values[0]))
    with scratch() as d:
        with open(os.path.join(d, 'k.c'), 'w') as f:
            f.write(src)
        kc = kern.kernel_code(src, consts, kern.machine(), filename=os.path.join(d, 'k.c'))
        texts = {fn: gen1(kc, w, d) for w, fn in (('main', 'main.c'), ('header', 'kernel.h'))}
        for fn, text in texts.items():
            with open(os.path.join(d, fn), 'w') as f:
                f.write(text)
        header = open(os.path.join(d, 'kernel.h')).read().strip().rstrip(';')
        pars = [p for p, _ in params(cinterp.parse(header + ';').ext[0])]
        require(sorted(pars) == sorted(['a', 's_'] + names), 'kernel takes', pars)
        with open(os.path.join(d, 'k1.c'), 'w') as f:
            f.write('#include <stdio.h>\n' + header + ' { printf("%s\\n", %s); }\n' % (
                ' '.join(['%lld'] * len(names)), ', '.join('(long long)' + n for n in names)))
        with open(os.path.join(d, 'likwid.h'), 'w') as f:
            f.write(LIKWID)
        hd_ = os.path.join(REPO, 'kerncraft', 'headers')
        r = subprocess.run(['gcc', '-std=c99', '-w', '-O1', '-I' + hd_, '-I' + d, os.path.join(hd_, 'dummy.c'), os.path.join(d, 'k1.c'),
                            os.path.join(d, 'main.c'), '-o', os.path.join(d, 'main')], capture_output=True, text=True)
        require(r.returncode == 0, 'generated program does not build', r.stderr[:1000])
        for vs in values:
            for n, v in zip(names, vs):
                kc.set_constant(n, v)
            for rep in (1, 3):
                # arguments as passed by the Benchmark model
                r = subprocess.run([os.path.join(d, 'main'), str(rep)] + [str(v) for v in kc.constants.values()], capture_output=True, text=True, timeout=60)
                require(r.returncode == 0, 'generated program fails', r.returncode, r.stderr[:500])
                want = ' '.join(str(v) for v in vs)
                require(r.stdout.split('\n') == [want] * (rep + 2) + [''], 'with', dict(zip(names, vs)), 'and', rep, 'repetitions, calls of the kernel (', ' '.join(names),
                        ') are', r.stdout.split('\n')[:5], 'instead of', rep + 2, 'times', want)
                ctx.step()
            ctx.state(itype, vs)
    return itype


def large_cases():
    small = [1, 9, 32768, 65536, 2**31 - 1]
    large = [2**31, 3000000000, 2**32 - 1, 2**32, 2**32 + 7, 10**12, 2**53 + 1, 2**62]
    for itype, vals in (('int', small), ('long', small + large), ('long long', small + large)):
        yield [itype, ['N'], [[v] for v in vals]]
        yield [itype, ['N', 'M'], [list(c) for c in itertools.product(vals[::3], vals[1::3])]]


# ------------------------------------------------------------------ generation never changes later answers
def ev_history(case, ctx):
    from . import c04
    kx, hist = case
    src, consts = HKERNELS[kx]
    with scratch() as d:
        def new():
            with open(os.path.join(d, 'k.c'), 'w') as f:
                f.write(src)
            return kern.kernel_code(src, consts, kern.machine(), filename=os.path.join(d, 'k.c'))

        def answers(kc):
            return [(n, c04.ask(q, kc)) for n, q in c04.Q()] + [('code', kc.kernel_code), ('type', kc.get_index_type()),
                                                                  ('arrays', len(kc.get_array_declarations())), ('scalars', len(kc.get_scalar_declarations()))]

        def fresh(w):
            key = (kx, w)
            if key not in _gen:
                shutil.rmtree(os.path.join(d, '.k.c_kerncraft'), ignore_errors=True)
                _gen[key] = answers(new()) if w == 'answers' else gen1(new(), w, d)
            return _gen[key]

        kc = new()
        for op in hist:
            if op == 'q':
                answers(kc)
                continue
            if op == 'set':
                for n, v in consts.items():
                    kc.set_constant(n, v)
                continue
            want = fresh(op)
            shutil.rmtree(os.path.join(d, '.k.c_kerncraft'), ignore_errors=True)
            got = gen1(kc, op, d)
            ctx.step()
            require(got == want, 'generating', op, 'after', hist, 'gives another text than a new kernel:\n', got, '\nexpected\n', want)
        got, want = answers(kc), fresh('answers')
        for g, w in zip(got, want):
            require(g == w, 'after', hist, g[0], 'answers', str(g[1])[:300], 'a new kernel', str(w[1])[:300])
    ctx.trace()
    return str(hist[-1])


_gen = {}
HKERNELS = {
    'plain': ('double a[M][N], b[M][N], s;\nfor(int j=1; j<M-1; ++j)\n for(int i=1; i<N-1; ++i)\n  b[j][i] = s*(a[j-1][i]+a[j+1][i]);\n', {'M': 6, 'N': 7}),
    'omp': ('double a[M][N], b[M][N], s;\n#pragma omp parallel for schedule(static)\nfor(int j=1; j<M-1; ++j) {\n#pragma omp simd\n for(int i=1; i<N-1; ++i)\n'
            '  b[j][i] = s*(a[j-1][i]+a[j+1][i]);\n}\n', {'M': 6, 'N': 7}),
    'swap': ('float a[N], b[N];\nfor(long i=1; i<N-1; i+=2)\n  b[i] += a[i-1];\nswap(a, b);\n', {'N': 9}),
}


def example_cases():
    """Kernel texts with pragmas, swaps and index types, as in the examples directory."""
    K = family
    two = K.make(2, [['j', 1, 'M-1', 1], ['i', 1, 'N-1', 1]], [[['a', ['j', 'i']], '+=', ['*', ['b', ['i', 'j']], ['s']]]])
    c = {'M': 5, 'N': 6}
    base = kern.c_source(two)
    lines = base.split('\n')
    at = [i for i, l in enumerate(lines) if 'for(' in l]

    def ins(*at_text):
        l = list(lines)
        for p, t in sorted(at_text, reverse=True):
            l.insert(at[p], t)
        return '\n'.join(l)
    for src in (base, ins((0, '#pragma omp parallel for')), ins((0, '#pragma omp for')), ins((0, '#pragma omp parallel for schedule(static, 1)')),
                ins((1, '#pragma omp simd')), ins((0, '#pragma omp parallel for'), (1, '#pragma omp simd')), ins((1, '#pragma vector aligned')),
                ins((0, '#pragma vector aligned')), base.replace('int ', 'long '), base.replace('int ', 'long long '), base + 'swap(a, b);\n',
                base + 'swap(a, b);\nswap(b, a);\n', ins((0, '#pragma omp parallel for')) + 'swap(a, b);\n',
                ins((0, '#pragma omp parallel for firstprivate(s)'))):
        yield [two, c, src]


def ev_example(case, ctx):
    """As ev_interp, but also compiled with several threads."""
    k, consts, src = case
    r = ev_interp(case, ctx)
    with scratch() as d:
        g = generate(k, consts, ('code', 'omp', 'main', 'header'), src=src)
        with open(os.path.join(d, 'likwid.h'), 'w') as f:
            f.write(LIKWID)
        hd_ = os.path.join(REPO, 'kerncraft', 'headers')
        for w, fn in (('main', 'main.c'), ('header', 'kernel.h'), ('code', 'code.c'), ('omp', 'omp.c')):
            with open(os.path.join(d, fn), 'w') as f:
                f.write(g[w])
        for w in ('code', 'omp'):
            r_ = subprocess.run(['gcc', '-std=c99', '-w', '-O2', '-fopenmp', '-I' + hd_, '-I' + d, os.path.join(hd_, 'dummy.c'),
                                 os.path.join(d, w + '.c'), os.path.join(d, 'main.c'), '-o', os.path.join(d, w)], capture_output=True, text=True)
            require(r_.returncode == 0, 'generated program does not build', r_.stderr[:1000], src)
        # kernel under several threads
        ps = params(func(g['omp'], 'kernel'))
        it = re.search(r'for ?\((long long|long|int) ', src).group(1)
        drv = '#include <stdio.h>\n#include <string.h>\n' + c_reference(k, 'ref', consts) + g['header'] + ';\nint main() { enum {%s};\n' % ', '.join(
            '%s=%d' % x for x in consts.items())
        for n, s in sizes(k, consts).items():
            drv += 'static double %s[%d], %s__[%d]; for(int x=0; x<%d; ++x) %s[x] = %s__[x] = x*%d.25+1;\n' % (n, s, n, s, s, n, n, len(n) + s)
        drv += ''.join('double %s=1.5, %s__=1.5;\n' % (s, s) for s in k['scalars'])
        drv += 'ref(%s);\n' % ', '.join([n + '__' for n in k['arrays']] + ['&%s__' % s for s in k['scalars']] + sorted(consts))
        drv += '#pragma omp parallel num_threads(3)\nkernel(%s);\n' % ', '.join(list(k['arrays']) + ['&' + s for s in k['scalars']] + sorted(consts))
        drv += ''.join('if(memcmp(%s, %s__, sizeof %s)) return 3;\n' % (n, n, n) for n in k['arrays'])
        drv += ''.join('if(%s != %s__) return 4;\n' % (s, s) for s in k['scalars']) + 'return 0; }\n'
        with open(os.path.join(d, 'drv.c'), 'w') as f:
            f.write(drv)
        r_ = subprocess.run(['gcc', '-std=c99', '-w', '-O1', '-ffp-contract=off', '-fopenmp', '-I' + hd_, os.path.join(d, 'omp.c'), os.path.join(d, 'drv.c'),
                             '-o', os.path.join(d, 'drv')], capture_output=True, text=True)
        require(r_.returncode == 0, 'OpenMP kernel does not build', r_.stderr[:1000])
        for _ in range(3):
            rc = subprocess.run([os.path.join(d, 'drv')]).returncode
            require(rc == 0, 'OpenMP kernel run by three threads leaves other', 'arrays' if rc == 3 else 'scalars' if rc == 4 else 'crashes %s' % rc, src)
            ctx.step()
    return r


# ------------------------------------------------------------------ enumeration
def independent(dim):
    """Race-free single-statement kernels: every thread writes its own elements."""
    tgt = {1: [['a', ['i']], ['b', ['i']], ['c', ['2*i']]], 2: [['a', ['j', 'i']], ['b', ['i', 'j']], ['lin', ['j*N+i']]],
           3: [['a', ['k', 'j', 'i']], ['q', ['2', 'k', 'j+1', 'i']]]}[dim]
    for lo in family.FAM[dim][2]:
        for t in ('double', 'float'):
            for l in tgt:
                for r1, r2 in itertools.product(family.FAM[dim][1], repeat=2):
                    for op in ('=', '+='):
                        if (r1[0] == l[0] and r1 != l) or (r2[0] == l[0] and r2 != l):
                            continue
                        yield family.make(dim, lo, [[l, op, ['-', r1, ['*', r2, '0.5']]]], type=t)


def suites(tier):
    big = tier == 'thorough'

    def interp(dim, nload):
        def gen():
            for k in family.kernels(dim, nload, ('=', '+=') if big or dim < 3 else ('+=',), None, ('double',)):
                for c in family.CONSTS[dim][:2 if big else 1]:
                    yield [k, c]
        return gen

    def exprs():
        from . import c07
        leafs = [['a', ['j', 'i+1']], ['b', ['i', 'j']], ['s'], '2.0']
        for n in (1, 2, 3):
            for t in c07.trees(n, leafs if n < 3 else leafs[:3], ['+', '-', '*', '/'] if n < 3 or big else ['-', '*', '/']):
                for op in ('=', '-=', '/=', '*='):
                    if n == 3 and op != '-=' and not big:
                        continue
                    yield [family.make(2, family.L2[0], [[['a', ['j', 'i']], op, t]]), {'M': 4, 'N': 4}]
                    for x in c07.negs(t):
                        if n < 3:
                            yield [family.make(2, family.L2[0], [[['b', ['i', 'j']], op, x]]), {'M': 4, 'N': 4}]

    def two():
        for dim in (1, 2):
            R = family.FAM[dim][1]
            for lo in family.FAM[dim][2]:
                for x, y, z in itertools.permutations(R if big or dim == 1 else R[:8], 3):
                    yield [family.make(dim, lo, [[x, '=', ['*', y, z]], [y, '+=', ['-', x, z]]]), family.CONSTS[dim][0]]

    def batches():
        for dim in (1, 2, 3):
            ks = [k for k in independent(dim) if in_bounds(k, family.CONSTS[dim][0])]
            if not big:
                ks = ks[::3 if dim == 2 else 2]
            for b in range(0, len(ks), 24):
                yield [[[k, family.CONSTS[dim][0]] for k in ks[b:b + 24]], 3]

    def mains():
        for dim in (1, 2, 3):
            R = family.FAM[dim][1]
            n = 0
            for lo in family.FAM[dim][2]:
                for l, r in itertools.product(R, R):
                    for t, cl in (('double', 64), ('float', 128)):
                        k = family.make(dim, lo, [[l, '+=', ['*', r, R[0]]]], type=t)
                        if in_bounds(k, family.CONSTS[dim][0]):
                            n += 1
                            yield [k, family.CONSTS[dim][0], cl, n % (4 if big else 40) == 1]

    def hist():
        ops = ['header', 'code', 'omp', 'main', 'q', 'set']
        for kx in HKERNELS:
            for dpt in (1, 2, 3, 4) if big else (1, 2, 3):
                for h in itertools.product(ops, repeat=dpt):
                    yield [kx, list(h)]

    return [
        Suite('one-loop', interp(1, 2), ev_interp, chunk=8, bound='all statements over 10 access forms, 3 loop forms'),
        Suite('two-loops', interp(2, 2 if big else 1), ev_interp, chunk=8, bound='all statements over 13 access forms, 3 loop nests'),
        Suite('three-loops', interp(3, 2 if big else 1), ev_interp, chunk=8, bound='all statements over 10 access forms (up to 4 dimensions), 2 loop nests'),
        Suite('expressions', exprs, ev_interp, chunk=8, bound='all expression trees up to 3 leaves, 5 operators'),
        Suite('two-statements', two, ev_interp, chunk=8, bound='all ordered triples of access forms in two statements'),
        Suite('pragmas-and-swaps', example_cases, ev_example, chunk=1, timeout=200, bound='14 source forms, compiled and run with 3 threads'),
        Suite('compiled', batches, ev_compiled, chunk=1, timeout=300, bound='race-free kernels, compiled, serial / OpenMP with 1 and 3 threads'),
        Suite('main-programs', mains, ev_main, chunk=4, timeout=300, bound='all target/source pairs x loop forms x 2 types; a fixed subset is built and run with sanitizers'),
        Suite('constants', large_cases, ev_large, chunk=1, bound='1 and 2 constants of 3 index types over boundary values up to 2**62'),
        Suite('histories', hist, ev_history, chunk=8, bound='all generation/query histories up to %d operations on 3 kernels' % (4 if big else 3)),
    ]
