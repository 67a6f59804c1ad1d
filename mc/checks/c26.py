"""C26: detected pointer increments, decided on all short loop blocks over an alphabet of instructions.

Every block is parsed by the real parser and handed to the real detection. A reference interpreter executes the block
several times on symbolic (linear) register values and looks at how the address of each load and store moves from one
execution of the block to the next.
"""
import itertools
import os

from ..core import Suite, require

PROPERTY = 'C26'
ASSUMPTIONS = [
    'Roles of operands (source, destination) are those OSACA assigns; instructions it classifies wrongly (xchg, unary neg, SVE stores) are left out.',
    'Address arithmetic does not overflow, so 32-bit parts of a register move like the whole register.',
    'Steady state: the block has been executed a few times already.',
    'What is spilled to the stack is reloaded unchanged: other stores do not overlap the location.',
    'AT&T syntax on x86 (OSACA does not recognise loops in Intel syntax).',
]

# Effects, in execution order: ('set', register, {register: factor}, constant), ('any', register), and
# ('load'|'store', {register: factor}). Constant offsets of addresses do not matter.


def s(r, terms, k=0):
    return ('set', r, terms, k)


def inc(r, k):
    return s(r, {r: 1}, k)


def ld(**t):
    return ('load', t)


def st(**t):
    return ('store', t)


X86 = [
    # updates
    ('incq %rax', [inc('rax', 1)]), ('decq %rcx', [inc('rcx', -1)]), ('addq $8, %rax', [inc('rax', 8)]), ('addq $8, %rcx', [inc('rcx', 8)]),
    ('addq $1, %rcx', [inc('rcx', 1)]), ('subq $-128, %rax', [inc('rax', 128)]), ('subq $8, %rcx', [inc('rcx', -8)]), ('addq $0x10, %rbx', [inc('rbx', 16)]),
    ('addq $8, %rbx', [inc('rbx', 8)]),
    ('addl $1, %ecx', [inc('rcx', 1)]), ('incl %eax', [inc('rax', 1)]), ('addq %rdx, %rax', [s('rax', {'rax': 1, 'rdx': 1})]),
    ('addq %rdx, %rcx', [s('rcx', {'rcx': 1, 'rdx': 1})]), ('addq %rax, %rax', [s('rax', {'rax': 2})]), ('subq %rdx, %rcx', [s('rcx', {'rcx': 1, 'rdx': -1})]),
    ('addq $foo, %rax', [s('rax', {'rax': 1, 'foo': 1})]), ('movq %rdx, %rax', [s('rax', {'rdx': 1})]), ('movq %rax, %rdx', [s('rdx', {'rax': 1})]),
    ('movq %rcx, %rax', [s('rax', {'rcx': 1})]), ('movl %edx, %ecx', [s('rcx', {'rdx': 1})]), ('movq $5, %rcx', [s('rcx', {}, 5)]),
    ('xorl %ecx, %ecx', [s('rcx', {})]), ('leaq 8(%rax), %rax', [inc('rax', 8)]), ('leaq (%rax), %rax', [inc('rax', 0)]), ('leaq -8(%rcx), %rcx', [inc('rcx', -8)]),
    ('leaq 8(,%rax), %rax', [inc('rax', 8)]), ('leaq 8(,%rax,2), %rax', [s('rax', {'rax': 2}, 8)]), ('leaq 8(%rax), %rdx', [s('rdx', {'rax': 1}, 8)]),
    ('leaq 8(%rax,%rdx), %rax', [s('rax', {'rax': 1, 'rdx': 1}, 8)]), ('leaq (%rsi,%rcx,8), %rax', [s('rax', {'rsi': 1, 'rcx': 8})]),
    ('leaq foo(%rax), %rax', [s('rax', {'rax': 1, 'foo': 1})]), ('leaq foo(%rcx), %rax', [s('rax', {'rcx': 1, 'foo': 1})]), ('leaq 8(%rax,%rax), %rcx', [s('rcx', {'rax': 2}, 8)]),
    ('shlq $3, %rcx', [s('rcx', {'rcx': 8})]), ('imulq $3, %rax', [('any', 'rax')]), ('andq $-32, %rax', [('any', 'rax')]),
    ('movq (%rsi), %rax', [ld(rsi=1), ('any', 'rax')]), ('movq 8(%rsp), %rcx', [ld(rsp=1), s('rcx', {'stack8': 1})]), ('movslq %ecx, %rax', [s('rax', {'rcx': 1})]),
    ('popq %rax', [ld(rsp=1), inc('rsp', 8), ('any', 'rax'), ('any', 'stack8')]), ('pushq %rax', [inc('rsp', -8), st(rsp=1), ('any', 'stack8')]),
    # accesses
    ('movsd %xmm0, (%rax)', [st(rax=1)]), ('vmovupd %ymm0, 32(%rax)', [st(rax=1)]), ('movsd %xmm0, (%rbx)', [st(rbx=1)]), ('movsd %xmm0, (%rsi,%rcx,8)', [st(rsi=1, rcx=8)]),
    ('movsd %xmm0, 8(%rax,%rcx,8)', [st(rax=1, rcx=8)]), ('movsd %xmm0, (%rcx,%rax,4)', [st(rcx=1, rax=4)]), ('vmovupd %ymm0, (%rax,%rcx)', [st(rax=1, rcx=1)]),
    ('movsd %xmm0, (,%rcx,8)', [st(rcx=8)]), ('movsd %xmm0, (%rcx,%rcx,2)', [st(rcx=3)]), ('movsd %xmm0, foo(%rip)', [st()]), ('movsd %xmm0, 8(%rsp)', [st(rsp=1), ('any', 'stack8')]),
    ('movsd %xmm0, foo(,%rcx,8)', [st(rcx=8)]), ('movsd %xmm0, (%rdx)', [st(rdx=1)]),
    ('addl $1, (%rax)', [ld(rax=1), st(rax=1)]), ('addl %edx, (%rsi,%rcx,4)', [ld(rsi=1, rcx=4), st(rsi=1, rcx=4)]), ('incl (%rbx)', [ld(rbx=1), st(rbx=1)]),
    ('vmovntpd %ymm0, (%rsi,%rax)', [st(rsi=1, rax=1)]),
    ('movsd (%rax), %xmm1', [ld(rax=1)]), ('movsd (%rsi,%rcx,8), %xmm1', [ld(rsi=1, rcx=8)]), ('vmulsd (%rax,%rcx,8), %xmm0, %xmm1', [ld(rax=1, rcx=8)]),
    ('addsd 8(%rbx), %xmm0', [ld(rbx=1)]), ('movsd foo(%rip), %xmm1', [ld()]), ('movsd (,%rcx,8), %xmm1', [ld(rcx=8)]), ('cmpq (%rax), %rbx', [ld(rax=1)]),
    ('vfmadd231sd (%rsi,%rax), %xmm1, %xmm0', [ld(rsi=1, rax=1)]),
    # others
    ('vaddsd %xmm0, %xmm1, %xmm1', []), ('cmpq %rax, %rbx', []), ('# comment', []), ('.p2align 4', []), ('jne .L9', []),
]
X86_DETECTED = {'incq %rax', 'decq %rcx', 'addq $8, %rax', 'addq $8, %rcx', 'addq $1, %rcx', 'subq $-128, %rax', 'subq $8, %rcx', 'addq $0x10, %rbx', 'addq $8, %rbx',
                'leaq 8(%rax), %rax', 'leaq -8(%rcx), %rcx'}

A64 = [
    # updates
    ('add x0, x0, 8', [inc('x0', 8)]), ('add x0, x0, #16', [inc('x0', 16)]), ('adds x2, x2, 8', [inc('x2', 8)]), ('add x2, x2, 1', [inc('x2', 1)]),
    ('add w2, w2, 1', [inc('x2', 1)]), ('add x1, x1, 8', [inc('x1', 8)]), ('add x1, x1, #1, lsl #12', [inc('x1', 4096)]), ('add x0, x1, #8', [s('x0', {'x1': 1}, 8)]),
    ('sub x0, x0, #8', [inc('x0', -8)]), ('subs x2, x2, #1', [inc('x2', -1)]), ('sub x0, x0, x5', [s('x0', {'x0': 1, 'x5': -1})]),
    ('add x3, x1, x2', [s('x3', {'x1': 1, 'x2': 1})]), ('add x0, x5, x2', [s('x0', {'x5': 1, 'x2': 1})]), ('add x0, x2, x5', [s('x0', {'x5': 1, 'x2': 1})]),
    ('sub x0, x2, x5', [s('x0', {'x5': -1, 'x2': 1})]), ('sub x0, x5, x2', [s('x0', {'x5': 1, 'x2': -1})]), ('add x0, x0, x2', [s('x0', {'x0': 1, 'x2': 1})]),
    ('add x0, x2, x2', [s('x0', {'x2': 2})]), ('add x0, x5, x3', [s('x0', {'x5': 1, 'x3': 1})]),
    ('add x3, x6, x2', [s('x3', {'x6': 1, 'x2': 1})]), ('add x3, x5, x2, lsl 3', [s('x3', {'x5': 1, 'x2': 8})]), ('add x0, x5, w2, sxtw 3', [s('x0', {'x5': 1, 'x2': 8})]),
    ('sub x0, x5, x2, lsl #2', [s('x0', {'x5': 1, 'x2': -4})]),
    ('lsl x3, x2, 3', [s('x3', {'x2': 8})]), ('lsl x2, x2, 1', [s('x2', {'x2': 2})]), ('lsl x3, x0, 1', [s('x3', {'x0': 2})]), ('lsl x3, x2, x5', [('any', 'x3')]),
    ('mov x0, x5', [s('x0', {'x5': 1})]), ('mov x3, x2', [s('x3', {'x2': 1})]), ('mov x2, 0', [s('x2', {})]), ('madd x0, x1, x2, x3', [('any', 'x0')]),
    ('and x0, x0, #-16', [('any', 'x0')]), ('ldr x0, [x1]', [ld(x1=1), ('any', 'x0')]), ('ldr x2, [sp, 8]', [ld(sp=1), s('x2', {'stack8': 1})]), ('ldp x0, x3, [x5]', [ld(x5=1), ('any', 'x0'), ('any', 'x3')]),
    ('adrp x5, foo', [s('x5', {'foo': 1})]), ('add x0, x0, :lo12:foo', [s('x0', {'x0': 1, 'foo': 1})]), ('add x0, x5, :lo12:foo', [s('x0', {'x5': 1, 'foo': 1})]), ('incd x2', [('any', 'x2')]), ('sxtw x3, w2', [s('x3', {'x2': 1})]),
    # accesses
    ('str d0, [x0]', [st(x0=1)]), ('str d0, [x0, 8]', [st(x0=1)]), ('stur d0, [x1, -8]', [st(x1=1)]), ('str d0, [x3]', [st(x3=1)]), ('str d0, [x0, x2]', [st(x0=1, x2=1)]),
    ('str d0, [x1, x2, lsl 3]', [st(x1=1, x2=8)]), ('str d0, [x5, x2, lsl #3]', [st(x5=1, x2=8)]), ('str s0, [x6, x2, lsl 2]', [st(x6=1, x2=4)]), ('str d0, [x5, w2, sxtw 3]', [st(x5=1, x2=8)]),
    ('str d0, [x5, w2, uxtw 3]', [st(x5=1, x2=8)]), ('str d0, [x5, x3]', [st(x5=1, x3=1)]), ('str d0, [x2, x5]', [st(x5=1, x2=1)]), ('str d0, [x0], 8', [st(x0=1), inc('x0', 8)]),
    ('str d0, [x0, 8]!', [inc('x0', 8), st(x0=1)]), ('str d0, [x1, #-16]!', [inc('x1', -16), st(x1=1)]), ('stp q0, q1, [x1], 32', [st(x1=1), inc('x1', 32)]), ('str d0, [sp, 8]', [st(sp=1), ('any', 'stack8')]),
    ('str d0, [x5, :lo12:foo]', [st()]),
    ('ldr d1, [x0]', [ld(x0=1)]), ('ldr d1, [x1, 16]', [ld(x1=1)]), ('ldr d1, [x5, x2, lsl 3]', [ld(x5=1, x2=8)]), ('ldr d1, [x1], 8', [ld(x1=1), inc('x1', 8)]),
    ('ldr d1, [x2, 8]!', [inc('x2', 8), ld(x2=1)]), ('ldp d1, d2, [x3]', [ld(x3=1)]), ('ld1 {v0.2d}, [x0], x5', [ld(x0=1), s('x0', {'x0': 1, 'x5': 1})]),
    ('ldr d1, [x0, x1]', [ld(x0=1, x1=1)]), ('ldr d1, [sp, 8]', [ld(sp=1)]),
    # others
    ('fadd d0, d0, d1', []), ('cmp x0, x5', []), ('// comment', []), ('.p2align 4', []), ('b.ne .L9', []),
]
A64_DETECTED = {'add x0, x0, 8', 'add x0, x0, #16', 'adds x2, x2, 8', 'add x2, x2, 1', 'add x1, x1, 8', 'str d0, [x0], 8', 'str d0, [x0, 8]!', 'str d0, [x1, #-16]!',
                'stp q0, q1, [x1], 32', 'ldr d1, [x1], 8', 'ldr d1, [x2, 8]!'}

LIB = {'x86': (X86, X86_DETECTED, 'csx'), 'aarch64': (A64, A64_DETECTED, 'a64fx')}

# a smaller alphabet for longer blocks
SHORT = {
    'x86': ['addq $8, %rax', 'addq $1, %rcx', 'addq $8, %rcx', 'addq %rdx, %rcx', 'movq %rdx, %rax', 'movq %rax, %rdx', 'leaq 8(%rax), %rax', 'leaq (%rsi,%rcx,8), %rax', 'addl $1, %ecx',
            'movsd %xmm0, (%rax)', 'movsd %xmm0, (%rsi,%rcx,8)', 'movsd %xmm0, 8(%rax,%rcx,8)', 'movsd %xmm0, foo(%rip)', 'movsd %xmm0, (%rdx)', 'movsd (%rax), %xmm1', 'movsd (%rsi,%rcx,8), %xmm1'],
    'aarch64': ['add x0, x0, 8', 'add x2, x2, 1', 'adds x2, x2, 8', 'sub x0, x0, #8', 'add x3, x1, x2', 'add x3, x6, x2', 'add x0, x5, x3', 'sub x0, x5, x2', 'lsl x3, x2, 3', 'mov x3, x2',
                'str d0, [x0]', 'str d0, [x3]', 'str d0, [x5, x2, lsl #3]', 'str d0, [x0], 8', 'ldr d1, [x1], 8', 'ldr d1, [x5, x2, lsl 3]', 'ldp d1, d2, [x3]', 'str d0, [x5, x3]'],
}

_lines = {}


def lines(isa):
    """Lines of the library as parsed by the real code."""
    if isa not in _lines:
        from kerncraft import incore_model as im
        lib, _, arch = LIB[isa]
        got = im.parse_asm('.L9:\n' + ''.join('\t%s\n' % t for t, _ in lib), isa, arch)[1:]
        require(len(got) == len(lib), 'lines lost by the parser')
        _lines[isa] = got
    return _lines[isa]


class Symbolic:
    """Registers hold {symbol: factor} with the constant under 1."""

    def __init__(self):
        self.regs = {}
        self.fresh = 0

    def get(self, r):
        return self.regs.get(r) or {r: 1}

    def value(self, terms, k=0):
        v = {1: k}
        for r, f in terms.items():
            for sym, c in self.get(r).items():
                v[sym] = v.get(sym, 0) + f * c
        return v

    def execute(self, effects):
        """Addresses of the accesses of one execution of the block."""
        out = []
        for e in effects:
            if e[0] == 'set':
                self.regs[e[1]] = self.value(e[2], e[3])
            elif e[0] == 'any':
                self.fresh += 1
                self.regs[e[1]] = {('fresh', self.fresh): 1, 1: 0}
            else:
                out.append((e[0], self.value(e[1])))
        return out


def difference(a, b):
    d = {sym: b.get(sym, 0) - a.get(sym, 0) for sym in set(a) | set(b)}
    k = d.pop(1, 0)
    return k if not any(d.values()) else None


def advances(effects):
    """Kind and advance (None: not constant) of every access."""
    m = Symbolic()
    runs = [m.execute(effects) for _ in range(5)]
    res = []
    for n in range(len(runs[0])):
        d = [difference(runs[i][n][1], runs[i + 1][n][1]) for i in (2, 3)]
        res.append((runs[0][n][0], d[0] if d[0] == d[1] else None))
    return res


def expected(isa, block):
    """(allowed increments, must one be reported?)"""
    lib, detected, _ = LIB[isa]
    effects = [e for n in block for e in lib[n][1]]
    adv = advances(effects)
    moving = [d for k, d in adv if k == 'store' and d != 0] or [d for k, d in adv if k == 'load' and d != 0]
    if not moving or None in moving or len(set(moving)) != 1:
        return None, False
    # plain cases: registers are modified by at most one simple update
    touched = [e[1] for e in effects if e[0] in ('set', 'any')]
    plain = len(set(touched)) == len(touched) and all(lib[n][0] in detected for n in block if any(e[0] in ('set', 'any') for e in lib[n][1]))
    # accesses which do not move may hide the moving ones
    plain = plain and all(d == moving[0] for k, d in adv)
    return moving[0], plain


def check(isa, block, get, ctx):
    lib = LIB[isa][0]
    want, must = expected(isa, block)
    ls = lines(isa)
    got = get([ls[n] for n in block])
    ctx.step()
    ctx.state(isa, block)
    code = '; '.join(lib[n][0] for n in block)
    if got is not None:
        require(type(got) is int, code, 'increment is', repr(got))
        require(want is not None, code, '- reported', got, 'although the references move by', advances([e for n in block for e in lib[n][1]]))
        require(got == want, code, '- reported', got, 'instead of', want)
        ctx.count('reported')
    else:
        require(not must, code, '- nothing reported instead of', want)
        ctx.count('refused' if want is not None else 'undetermined')
    return got


def ev(case, ctx):
    from kerncraft import incore_model as im
    os.environ['HOME'] = '/nonexistent'     # no increments stored by the user
    isa = case['isa']
    get = im.ISA.get_isa(isa).get_pointer_increment
    names = [t for t, _ in LIB[isa][0]]
    alphabet = range(len(names)) if case['alphabet'] == 'all' else [names.index(t) for t in SHORT[isa]]
    out = set()
    for rest in itertools.product(alphabet, repeat=case['free']):
        out.add(check(isa, tuple(case['prefix']) + rest, get, ctx))
    ctx.trace()
    return '%s %s' % (isa, sorted(out, key=str))


def suites(tier):
    deep = tier == 'thorough'
    for isa in LIB:
        lines(isa)

    def short():
        for isa in LIB:
            for free in (0, 1, 2):
                yield {'isa': isa, 'alphabet': 'all', 'prefix': [], 'free': free}

    def three():
        for isa in LIB:
            for i in range(len(LIB[isa][0])):
                yield {'isa': isa, 'alphabet': 'all', 'prefix': [i], 'free': 2}

    def four():
        for isa in LIB:
            names = [t for t, _ in LIB[isa][0]]
            if deep:
                for i, j in itertools.product(range(len(names)), repeat=2):
                    yield {'isa': isa, 'alphabet': 'all', 'prefix': [i, j], 'free': 2}
            else:
                for t in SHORT[isa]:
                    yield {'isa': isa, 'alphabet': 'short', 'prefix': [names.index(t)], 'free': 3}

    def five():
        for isa in LIB:
            names = [t for t, _ in LIB[isa][0]]
            for t, u in itertools.product(SHORT[isa], repeat=2):
                yield {'isa': isa, 'alphabet': 'short', 'prefix': [names.index(t), names.index(u)], 'free': 3}
    res = [Suite('blocks up to 2', short, ev, chunk=1, timeout=600, bound='all blocks of up to 2 instructions of 76 (x86) and 74 (AArch64)'),
           Suite('blocks of 3', three, ev, chunk=2, timeout=600, bound='all blocks of 3 instructions'),
           Suite('blocks of 4', four, ev, chunk=2, timeout=1200, bound='all blocks of 4 instructions' + ('' if deep else ' of 16 and 18'))]
    if deep:
        res.append(Suite('blocks of 5', five, ev, chunk=2, timeout=1200, bound='all blocks of 5 instructions of 16 and 18'))
    return res
