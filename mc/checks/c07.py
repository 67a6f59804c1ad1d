"""C07: kernel extraction. Every kernel of the enumerated grammar, in every layout, against its abstract syntax; every
enumerated departure from the supported form must be rejected."""
import itertools

from ..core import Suite, Violation, require
from .. import family, kern

PROPERTY = 'C07'
ASSUMPTIONS = ['C sources use // comments, #pragma lines and single-nest form as in the documentation',
               'literal constants are decimal']


# ------------------------------------------------------------------ what the kernel object reports
def value(e, env=None):
    import sympy
    if isinstance(e, (int, str)):
        return kern.ev(e, env or family.GENERIC)
    return int(sympy.sympify(e).subs({s: (env or family.GENERIC)[s.name] for s in e.free_symbols}))


def reported(kc, env=None):
    def acc(d):
        return {n: sorted([None] if a is None else [value(x, env) for x in a] for a in s) for n, s in d.items() if s}
    return {'loops': [[l['index'], value(l['start'], env), value(l['stop'], env), value(l['increment'], env)] for l in kc.get_loop_stack()],
            'variables': {n: [list(t), None if s is None else [value(x, env) for x in s]] for n, (t, s) in kc.variables.items()},
            'datatype': list(kc.datatype), 'sources': acc(kc.sources), 'destinations': acc(kc.destinations),
            'flops': {k: v for k, v in kc._flops.items() if v}}


def expected(k, env=None):
    env = env or family.GENERIC
    t = k.get('type', 'double').split()

    def acc(ls):
        o = {}
        for l in family.distinct(ls):
            o.setdefault(l[0], []).append([None] if len(l) < 2 else [kern.ev(e, env) for e in l[1]])
        return {n: sorted(v) for n, v in o.items()}
    loads, stores = family.accesses(k)
    vs = {n: [t, [kern.ev(d, env) for d in dims]] for n, dims in k['arrays'].items()}
    vs.update({n: [t, None] for n in k['scalars']})
    return {'loops': [[i, kern.ev(a, env), kern.ev(b, env), int(s)] for i, a, b, s in k['loops']],
            'variables': vs, 'datatype': t, 'sources': acc(loads), 'destinations': acc(stores), 'flops': family.flops(k)}


def diff(got, want):
    for f in want:
        require(got[f] == want[f], f, 'reported as', got[f], 'but the code has', want[f])


# ------------------------------------------------------------------ layouts of the same kernel
LAYOUT = {'decl': ('each', 'joined'), 'incr': ('++i', 'i++', 'i+=1'), 'brace': ('all', 'none', 'inner'),
          'pragma': ('none', 'outer', 'every'), 'comment': (0, 1), 'itype': ('int', 'long long'), 'swap': (0, 1)}


def render(k, lay):
    t = k.get('type', 'double')
    out = []
    c = ' // a[i] = b[i]; for(' if lay['comment'] else ''
    ds = ['%s%s' % (n, ''.join('[%s]' % d for d in dims)) for n, dims in k['arrays'].items()] + list(k['scalars'])
    if lay['decl'] == 'joined':
        out.append('%s %s;%s' % (t, ', '.join(ds), c))
    else:
        out += ['%s %s;%s' % (t, d, c) for d in ds]
    if lay['comment']:
        out.append('')
    multi = len(k['stmts']) > 1
    n = len(k['loops'])
    close = []
    for p, (i, a, b, s) in enumerate(k['loops']):
        if lay['pragma'] == 'every' or (lay['pragma'] == 'outer' and p == 0):
            out.append('#pragma %s' % ('omp parallel for' if p == 0 else 'vector aligned'))
        nxt = '%s+=%s' % (i, s) if s != 1 else {'++i': '++' + i, 'i++': i + '++', 'i+=1': i + '+=1'}[lay['incr']]
        pragma_next = lay['pragma'] == 'every'
        br = lay['brace'] == 'all' or (p == n - 1 and (lay['brace'] == 'inner' or multi or pragma_next)) or pragma_next
        out.append('  ' * p + 'for(%s %s=%s; %s<%s; %s)%s%s' % (lay['itype'], i, a, i, b, nxt, ' {' if br else '', c))
        if br:
            close.append('  ' * p + '}')
    if lay['pragma'] == 'every':
        out.append('#pragma unroll')
    out += ['  ' * n + '%s %s %s;%s' % (l, o, r, c) for l, o, r in k['stmts']]
    out += reversed(close)
    if lay['swap']:
        arr = list(k['arrays'])
        out.append('swap(%s, %s);' % (arr[0], arr[-1]))
    return '\n'.join(out) + '\n'


PLAIN = {f: v[0] for f, v in LAYOUT.items()}


def ev_kernel(case, ctx):
    k, lay = case
    kc = kern.kernel_code(render(k, lay) if lay else kern.c_source(k))
    diff(reported(kc), expected(k))
    ctx.step(6)
    return str(expected(k))


def ev_desc(case, ctx):
    k, ren = case
    from kerncraft.kernel import KernelDescription
    kk = rename(k, ren) if ren else k
    env = dict(family.GENERIC, **{b: family.GENERIC[a] for a, b in (ren or {}).items()})
    from .c06 import with_lists
    family.GENERIC.update(env)
    kd = KernelDescription(kern.description(with_lists(k) if not ren else rename(with_lists(k), ren)), machine=kern.machine())
    want = expected(kk, env)
    got = reported(kd, env)
    diff(got, want)
    diff(reported(kern.kernel_code(kk), env), want)
    require(len(kd._loop_stack) == len(kk['loops']), 'loops')
    consts = {'N': 9, 'M': 8, 'L': 7}
    kc = kern.kernel_code(kk)
    for o in (kd, kc):
        for n, v in consts.items():
            o.set_constant((ren or {}).get(n, n), v)
    for f in ('array_sizes', 'iteration_length', 'max_global_iteration'):
        a, b = getattr(kd, f), getattr(kc, f)
        if f == 'array_sizes':
            a, b = a(in_bytes=True, subs_consts=True), b(in_bytes=True, subs_consts=True)
        else:
            a, b = a(), b()
        require(a == b, f, 'of description', a, 'of code', b)
    require(kd.bytes_per_iteration == kc.bytes_per_iteration, 'bytes per iteration differ')
    sa = [{v: sorted(str(e) for e in l) for v, l in o.compile_sympy_accesses().items()} for o in (kd, kc)]
    require(sa[0] == sa[1], 'flattened accesses of description', sa[0], 'of code', sa[1])
    ctx.step(6)
    return str(want)


def rename(k, ren):
    import json
    import re
    s = json.dumps({x: y for x, y in k.items() if x not in ('arrays', 'scalars')})
    s = re.sub(r'(?<![A-Za-z0-9_])(%s)(?![A-Za-z0-9_])(?!":)' % '|'.join(ren), lambda m: ren[m.group(1)], s)
    d = json.loads(s)
    d['scalars'] = k['scalars']
    d['arrays'] = {n: [re.sub(r'\b(%s)\b' % '|'.join(ren), lambda m: ren[m.group(1)], str(x)) for x in dims]
                   for n, dims in k['arrays'].items()}
    return d


# ------------------------------------------------------------------ expression grammar
def trees(n, leafs, ops):
    if n == 1:
        yield from leafs
        return
    for i in range(1, n):
        for o in ops:
            for l in trees(i, leafs, ops):
                for r in trees(n - i, leafs, ops):
                    yield [o, l, r]


def negs(t):
    """t with a unary minus at every single position."""
    yield ['neg', t]
    if isinstance(t, list) and not family.is_leaf(t) and t[0] != 'neg':
        for p in range(1, len(t)):
            for x in negs(t[p]):
                yield t[:p] + [x] + t[p + 1:]


# ------------------------------------------------------------------ unary ++/--
def ev_unary(case, ctx):
    src, dst, srcs, flops = case
    kc = kern.kernel_code(src)
    got = reported(kc)
    require(got['flops'] == flops, 'FLOPs', got['flops'], 'expected', flops)
    require(sorted(got['destinations']) == dst, 'written', got['destinations'], 'expected', dst)
    require(sorted(got['sources']) == srcs, 'read', got['sources'], 'expected', srcs)
    return src


# ------------------------------------------------------------------ integer literals
LITERALS = {'0': 0, '7': 7, '10': 10, '010': 8, '017': 15, '0x10': 16, '0X1f': 31, '10u': 10, '10L': 10, '10UL': 10, '0b11': 3, '08': None, '1.0': None,
            '1e1': None, "'a'": None, '1.5f': None, '2.': None}


def ev_literal(case, ctx):
    lit, src, pos = case
    try:
        kc = kern.kernel_code(src)
    except (Exception, SystemExit):
        return 'refused'  # plain decimals are covered by the other suites
    require(LITERALS[lit] is not None, lit, 'accepted as an integer')
    l = kc._loop_stack[0]
    got = {'start': l[1], 'stop': l[2], 'step': l[3], 'size': kc.variables['a'][1][0], 'load': list(kc.sources['b'])[0][0],
           'store': list(kc.destinations['a'])[0][0]}[pos]
    require(value(got, {'i': 0, 'N': 50}) == LITERALS[lit], lit, 'used as', pos, 'is taken as', got)
    return str(got)


def literals():
    for lit in LITERALS:
        for pos in ('start', 'stop', 'step', 'size', 'load', 'store'):
            v = {'start': '0', 'stop': '50', 'step': '1', 'size': '50', 'load': '0', 'store': '0', pos: lit}
            for e in ('{}', 'i+{}', '{}+i') if pos in ('load', 'store') else ('{}',):
                w = dict(v)
                for q in ('load', 'store'):
                    w[q] = (e if q == pos else '{}').format(v[q])
                yield [lit, 'double a[%s], b[50];\nfor(int i=%s; i<%s; i+=%s) a[%s] = b[%s];\n' % (
                    w['size'], w['start'], w['stop'], w['step'], w['store'], w['load']), pos]


# ------------------------------------------------------------------ rejection
def ev_reject(case, ctx):
    src, why = case
    try:
        kc = kern.kernel_code(src)
    except (Exception, SystemExit):
        return why
    raise Violation('accepted although %s; reported as %s' % (why, reported_safe(kc)))


def reported_safe(kc):
    return {'loops': kc._loop_stack, 'sources': kc.sources, 'destinations': kc.destinations, 'flops': kc._flops}


def nest_source(depth, heads=None, body='a[i]=b[i];', pre='double a[N], b[N], c[N][N], s;', post='', inner_pre=None):
    """Loops k,j,i (last is i); heads[p] replaces loop head at position p; inner_pre[p]: code before loop p (in braces of p-1)."""
    names = 'kji'[3 - depth:]
    out, close = [pre], []
    for p, i in enumerate(names):
        if inner_pre and p in inner_pre:
            out.append(inner_pre[p])
        out.append((heads or {}).get(p, 'for(int {i}=0; {i}<N; ++{i})').replace('{i}', i) + ' {')
        close.append('}')
    return '\n'.join(out + [body] + close + [post]) + '\n'


BAD_HEADS = [('for(int {i}=0; {i}<=N; ++{i})', '<= condition'), ('for(int {i}=0; {i}!=N; ++{i})', '!= condition'),
             ('for(int {i}=N; {i}>0; --{i})', '> condition'), ('for(int {i}=0; N>{i}; ++{i})', 'reversed condition'),
             ('for(int {i}=0; {i}<N; --{i})', 'decrement'), ('for(int {i}=0; {i}<N; {i}--)', 'decrement'),
             ('for(int {i}=0; {i}<N; {i}-=1)', 'subtracting step'), ('for(int {i}=1; {i}<N; {i}*=2)', 'multiplying step'),
             ('for(int {i}=0; {i}<N; {i}+=M)', 'non-constant step'), ('for(int {i}=0; {i}<N; {i}={i}+1)', 'assignment step'),
             ('for(int {i}=0; {i}<N; ++x)', 'steps another variable'), ('for(int {i}=0; x<N; ++{i})', 'tests another variable'),
             ('for(int x=0; {i}<N; ++{i})', 'initialises another variable'), ('for({i}=0; {i}<N; ++{i})', 'no declaration'),
             ('for(int {i}=0, x=0; {i}<N; ++{i})', 'two declarations'), ('for(int {i}; {i}<N; ++{i})', 'no start'),
             ('for(int {i}=0; ; ++{i})', 'no condition'), ('for(int {i}=0; {i}<N; )', 'no step'), ('for(;;)', 'endless'),
             ('for(int {i}=0; {i}<N/2; ++{i})', 'division in bound'), ('for(int {i}=0; {i}<f(N); ++{i})', 'call in bound'),
             ('for(int {i}=0; {i}<N && {i}<M; ++{i})', 'compound condition'), ('for(int {i}=N/2; {i}<N; ++{i})', 'division in start'),
             ('for(int {i}=0; {i}<N; {i}+=-1)', 'negative step'), ('for(int {i}=0; {i}<b[0]; ++{i})', 'array in bound'),
             ('for(int {i}=0; {i}<M-N/2; ++{i})', 'division inside bound'), ('for(int {i}=0; {i}<N; {i}+=2*2)', 'computed step'),
             ('for(int {i}=0; {i}<N; {i}+=1.5)', 'fractional step'), ('for(int {i}=0; {i}+1<N; ++{i})', 'expression in condition'),
             ('for(int {i}=0; {i}<N; ++{i}, ++x)', 'two steps'), ('while(s)', 'while loop'), ('if(s)', 'if'), ('do', 'do'),
             ('for(int {i}=0; {i}<N+1.5; ++{i})', 'fractional bound'), ('for(int {i}=0; {i}<1.5; ++{i})', 'fractional bound'),
             ('switch(s)', 'switch')]
BAD_BODY = [('a[i/2]=b[i];', 'division in subscript'), ('a[i]=b[i/2];', 'division in subscript'), ('a[i%2]=b[i];', 'modulo in subscript'),
            ('a[b[i]]=1.0;', 'indirect access'), ('a[i]=b[a[i]];', 'indirect access'), ('a[i+b[0]]=1.0;', 'indirect access'),
            ('a[f(i)]=1.0;', 'call in subscript'), ('a[i]=f(b[i]);', 'call'), ('f(a[i]);', 'call statement'), ('a[i]=b[i]=1.0;', 'chained assignment'),
            ('a[i]=1.0, b[i]=2.0;', 'comma'), ('a[i] = s ? b[i] : 1.0;', 'ternary'), ('a[i] = (float)b[i];', 'cast'), ('*a = b[i];', 'pointer write'),
            ('*(a+i) = b[i];', 'pointer write'), ('a[i] = *b;', 'pointer read'), ('a[i] = *(b+i);', 'pointer read'), ('a[i] = !b[i];', 'logical not'),
            ('a[i] = ~b[i];', 'bit not'), ('a[i] = &b[i];', 'address'), ('a[i] = sizeof(b);', 'sizeof'), ('double x; a[i]=b[i];', 'declaration in loop'),
            ('a[i]=b[i]; if(s) a[i]=1.0;', 'if'), ('if(s) a[i]=b[i];', 'if'), ('a[i]=b[i]; break;', 'break'), ('return;', 'return'), ('continue;', 'continue'),
            (';', 'empty'), ('{ a[i]=b[i]; }', 'nested block'), ('a[i]++;', 'increment statement'), ('a[i];', 'expression statement'), ('goto x;', 'goto'),
            ('x: a[i]=b[i];', 'label'), ('a[i].x = b[i];', 'struct access'), ('a[i]=b->x;', 'struct access'), ('a[-i]=b[i];', 'unary in subscript'),
            ('a[i]=b[-1];', 'unary in subscript'), ('a[i++]=b[i];', 'increment in subscript'), ('a[i]=b[i=2];', 'assignment in subscript'),
            ('z[i]=b[i];', 'undeclared array written'), ('a[i]=z[i];', 'undeclared array read'), ('a[i]=b[i]+2.0*z[i][i];', 'undeclared array read'),
            ('z[i]+=b[i];', 'undeclared array written'), ('a[i][i]=b[i];', 'too many subscripts'), ('a[i]=c[i];', 'too few subscripts'),
            ('c[i]=b[i];', 'too few subscripts'), ('a[i]=b[i][i];', 'too many subscripts'), ('a[i]=s[i];', 'subscripted scalar'),
            ('s[i]=b[i];', 'subscripted scalar'), ('a=b[i];', 'array written as a whole'), ('a[i]=b;', 'array read as a whole'),
            ('z=b[i];', 'undeclared scalar written'), ('i=i+1;', 'loop index written'), ('a[i]=b[i]; i+=1;', 'loop index written'),
            ('a[i]=b[1.5];', 'fractional subscript'),
            ('a[i] = b[i] = c[i][i];', 'chained assignment'), ('asm("nop");', 'asm'), ('a[i] = ({b[i];});', 'statement expression'),
            ('while(s) a[i]=b[i];', 'while'), ('do a[i]=b[i]; while(s);', 'do')]
BAD_PRE = [('double a[N], b[N]; float s;', 'mixed types'), ('float a[N]; double b[N], s;', 'mixed types'), ('int a[N], b[N];', 'integer arrays'),
           ('double a[N], b[N]; int s;', 'integer scalar'), ('double *a; double b[N];', 'pointer'), ('double a[N], b[]; ', 'unknown size'),
           ('double a[N/2], b[N];', 'division in size'), ('struct q a[N]; double b[N];', 'struct'), ('double a[N], b[N]; s=1.0;', 'statement before loop'),
           ('typedef double t; double a[N], b[N];', 'typedef'), ('double a[f(N)], b[N];', 'call in size'), ('double a[N], b[N]; f();', 'call before loop'),
           ('double b[N];', 'array never declared'), ('#include <x.h>\ndouble a[N], b[N];', 'include'), ('#define a b\ndouble a[N], b[N];', 'define'),
           ('double f(int x); double a[N], b[N];', 'function'), ('char a[N], b[N];', 'char arrays'), ('long double a[N], b[N];', 'long double'),
           ('double a[N], b[N]; if(s) { }', 'if before loop'), ('double a[N], b[N]; { }', 'block before loop'), ('unsigned a[N]; double b[N];', 'unsigned'),
           ('double a[1.5], b[N];', 'fractional size'), ('double *a[N], b[N];', 'array of pointers'),
           ('double (*a)[N], b[N];', 'pointer to array')]
BAD_POST = [('for(int x=0; x<N; ++x) a[x]=1.0;', 'second loop nest'), ('s=1.0;', 'statement after loop'), ('double z;', 'declaration after loop'),
            ('f(a,b);', 'unknown call after loop'), ('if(s) swap(a,b);', 'if after loop'), ('{ }', 'block after loop'), ('return;', 'return'),
            ('swap(a,b); s=2.0;', 'statement after swap'), ('swap(a,b); for(int x=0; x<N; ++x) a[x]=1.0;', 'loop after swap'),
            ('swap(a,b); f(a);', 'call after swap')]


def rejects():
    for d in (1, 2, 3):
        for p in range(d):
            for h, why in BAD_HEADS:
                yield [nest_source(d, {p: h}), '%s in loop %d of %d' % (why, p + 1, d)]
        for b, why in BAD_BODY:
            yield [nest_source(d, body=b), why]
            if ';' in b:
                yield [nest_source(d, body='b[i]=s; ' + b), why + ' (2nd statement)']
        for b, why in BAD_PRE:
            yield [nest_source(d, pre=b), why]
        for b, why in BAD_POST:
            yield [nest_source(d, post=b), why]
        for p in range(1, d):
            for x, why in (('a[0]=1.0;', 'statement between loops'), ('for(int x=0; x<N; ++x) a[x]=1.0;', 'two inner loops'),
                           ('double z;', 'declaration between loops'), ('if(s) a[0]=1.0;', 'if between loops'), ('s=2.0;', 'scalar statement between loops'),
                           ('f(a);', 'call between loops'), (';', 'empty statement between loops')):
                yield [nest_source(d, inner_pre={p: x}), why]
        # imperfect nests: statements after an inner loop
        if d > 1:
            names = 'kji'[3 - d:]
            for x in ('a[0]=1.0;', 's=a[0];', 'for(int x=0; x<N; ++x) a[x]=1.0;', 'double z;'):
                for p in range(1, d):
                    src = nest_source(d).rstrip('\n').split('\n')
                    pos = len(src) - p
                    yield ['\n'.join(src[:pos] + [x] + src[pos:]) + '\n', 'statement after inner loop']
            for p in range(1, d):
                for b in range(p):
                    yield [nest_source(d, {p: 'for(int {i}=0; {i}<%s; ++{i})' % names[b]}), 'bound depends on an outer index']
                    yield [nest_source(d, {p: 'for(int {i}=%s; {i}<N; ++{i})' % names[b]}), 'start depends on an outer index']
                    yield [nest_source(d, {p: 'for(int {i}=0; {i}<N-2*%s; ++{i})' % names[b]}), 'bound depends on an outer index']
                    yield [nest_source(d, {p: 'for(int %s=0; %s<N; ++%s)' % ((names[b],) * 3)}), 'index used by two loops']
    for s, why in (('', 'empty file'), ('double a[N];', 'no loop'), ('#pragma x\n', 'only a pragma'), ('double a[N];\n#pragma x\n', 'no loop'),
                   ('for(int i=0; i<N; ++i) { }', 'empty loop'), ('for(int i=0; i<N; ++i);', 'empty loop'), ('double a[N]; a[0]=1.0;', 'no loop'),
                   ('double a[N]; for(int i=0; i<N; ++i) a[i]=1.0', 'missing semicolon'), ('double a[N]; for(int i=0; i<N; ++i) { a[i]=1.0;', 'missing brace'),
                   ('double a[N]; for(int i=0; i<N; ++i) a[i]=1.0; }', 'extra brace'), ('double a[N] for(int i=0; i<N; ++i) a[i]=1.0;', 'missing semicolon'),
                   ('void f(){ }', 'function')):
        yield [s, why]


def suites(tier):
    big = tier == 'thorough'
    leafs = [['a', ['i']], ['b', ['i+1']], ['s'], '2.0']

    def exprs():
        for n in (1, 2, 3):
            for t in trees(n, leafs if n < 3 else leafs[:3], ['+', '-', '*', '/'] if n < 3 or big else ['+', '*', '-']):
                yield [family.make(1, family.L1[0], [[['a', ['i']], '=', t]]), None]
                if n < 3 or big:
                    for x in negs(t):
                        yield [family.make(1, family.L1[0], [[['b', ['i']], '+=', x]]), None]
        for n in (4,) if big else ():
            for t in trees(n, leafs[:2], ['+', '*']):
                yield [family.make(1, family.L1[0], [[['a', ['i']], '-=', t]]), None]

    def compound():
        for dim in (1, 2, 3):
            R = family.FAM[dim][1]
            for l, r in itertools.product(R, R):
                for op in ('=', '+=', '-=', '*=', '/='):
                    for t in ('double', 'float'):
                        yield [family.make(dim, family.FAM[dim][2][-1], [[l, op, r]], type=t), None]

    def multi():
        for dim in (1, 2, 3):
            R = family.FAM[dim][1]
            for lo in family.FAM[dim][2]:
                for x, y, z in itertools.permutations(R[:7] if not big else R, 3):
                    yield [family.make(dim, lo, [[x, '=', ['*', y, z]], [y, '+=', ['+', x, ['neg', z]]]]), None]
                    # (target of the second one is not read before; other elements of the same array are)
                    yield [family.make(dim, lo, [[x, '=', y], [z, '*=', x]]), None]
                    yield [family.make(dim, lo, [[x, '-=', y], [z, '=', y], [y, '/=', x]]), None]

    def layouts():
        ks = [family.make(d, family.FAM[d][2][0], acc) for d in (1, 2, 3) for acc in
              ([[family.FAM[d][1][0], '+=', ['*', family.FAM[d][1][1], ['s']]]],
               [[family.FAM[d][1][1], '=', family.FAM[d][1][5]], [['s'], '+=', family.FAM[d][1][2]]])]
        for vals in itertools.product(*LAYOUT.values()):
            lay = dict(zip(LAYOUT, vals))
            for k in ks:
                yield [k, lay]

    def types():
        for t in ('double', 'float', 'double _Complex', 'float _Complex'):
            for d in (1, 2, 3):
                for r in family.FAM[d][1]:
                    yield [family.make(d, family.FAM[d][2][0], [[family.FAM[d][1][0], '=', ['+', r, ['s']]]], type=t), None]

    def unary():
        pre = 'double a[N], b[N], c[N], s;\nfor(int i=0; i<N; ++i)\n  '
        for op, f in (('++', '+'), ('--', '-')):
            for pos in (0, 1):
                for operand, nm in (('b[i]', 'b'), ('s', 's'), ('c[i+1]', 'c')):
                    u = op + operand if pos == 0 else operand + op
                    yield [pre + 'a[i] = %s;\n' % u, sorted(['a', nm]), [nm], {f: 1}]
                    yield [pre + 'a[i] = %s * 2.0;\n' % u, sorted(['a', nm]), [nm], {f: 1, '*': 1}]
                    yield [pre + 'a[i] += %s;\n' % u, sorted(['a', nm]), sorted(['a', nm]), {'+': 1 + (f == '+'), **({'-': 1} if f == '-' else {})}]
                    yield [pre + 'a[i] = c[i] - (%s) - b[i];\n' % u, sorted(['a', nm]), sorted({'c', 'b', nm}),
                           {'-': 2 + (f == '-'), **({'+': 1} if f == '+' else {})}]
                    yield [pre + 'a[i] = -(%s);\n' % u, sorted(['a', nm]), [nm], {'-': 1 + (f == '-'), **({'+': 1} if f == '+' else {})}]
        for k in range(1, 5):
            yield [pre + 'a[i] = ' + ' + '.join(['-b[i]'] * k) + ';\n', ['a'], ['b'], {'-': k, **({'+': k - 1} if k > 1 else {})}]

    def descs():
        for d in (1, 2, 3):
            R = family.FAM[d][1]
            for lo in family.FAM[d][2]:
                for l, r in itertools.product(R, R):
                    yield [family.make(d, lo, [[l, '+=', ['*', r, R[0]]]]), None]
        names = ['N', 'E', 'S', 'I', 'Q', 'O', 'C', 'NX', 'N1', 'n_x', 'size', 'pi', 'beta', 'gamma', 'zeta', 'Ne', 'Le', 'Or', 'And', 'Si', 'test', 'diff',
                 'oo', 'GF', 'ff', 'sum', 'Max', 'Nx']
        for n in names:
            for d in (1, 2, 3):
                for r in family.FAM[d][1][:5]:
                    yield [family.make(d, family.FAM[d][2][0], [[family.FAM[d][1][0], '=', ['+', r, ['s']]]]), {'N': n}]
        for i in ('ii', 'idx', 'x', 'E', 'n', 'pi', 'jj', 'i1'):
            for d in (1, 2, 3):
                for r in family.FAM[d][1][:5]:
                    yield [family.make(d, family.FAM[d][2][0], [[family.FAM[d][1][0], '=', ['+', r, ['s']]]]), {'i': i}]

    return [
        Suite('literals', literals, ev_literal, chunk=8, bound='%d literal forms at every position' % len(LITERALS)),
        Suite('rejections', rejects, ev_reject, chunk=32, bound='every listed departure from the supported form at every nest position'),
        Suite('expressions', exprs, ev_kernel, chunk=32, bound='all expression trees up to %d leaves, unary minus at every position' % (4 if big else 3)),
        Suite('assignments', compound, ev_kernel, chunk=32, bound='all target/source access pairs x 5 assignment operators x 2 types x 1-3 loops'),
        Suite('two-statements', multi, ev_kernel, chunk=32, bound='all ordered access triples in two statements, every loop form'),
        Suite('layouts', layouts, ev_kernel, chunk=32, bound='every combination of 7 layout features on 6 kernels'),
        Suite('types', types, ev_kernel, chunk=32, bound='4 data types'),
        Suite('unary', unary, ev_unary, chunk=16, bound='++/-- before and after, every operand and context'),
        Suite('descriptions', descs, ev_desc, chunk=32, bound='all single-statement kernels, constant and index names colliding with symbols'),
    ]
