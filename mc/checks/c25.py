"""C25: instrumented assembly, decided on all small assembly files composed of a library of code segments.

Every file is instrumented by the real code with every way to select a block and an increment; histories of stored
increments run in one home directory. The expected loops, metrics and increments come from the library and from a
plain text scanner, not from the parser.
"""
import io
import itertools
import os
import re
from unittest import mock

from ..core import Suite, require, scratch, quiet

PROPERTY = 'C25'
ASSUMPTIONS = [
    'Blank lines are not part of the program (the parser drops them).',
    'A loop is what OSACA calls a basic loop body: from a label up to the first branch to a label, if that branch goes back to it.',
    'AT&T syntax on x86.',
    'OSACA instruction databases are loaded once per process.',
]

# Segments: text with {n} for a number unique in the file, and the loops in it: (label, increment or None)
X86 = {
    'scalar': ('''.L{n}:
\tmovsd\t(%rax), %xmm0
\taddsd\t%xmm1, %xmm0
\tmovsd\t%xmm0, (%rax)
\taddq\t$8, %rax
\tcmpq\t%rax, %rdx
\tjne\t.L{n}
''', [('.L{n}', 8)]),
    'sse': ('''.L{n}:
\tmovupd\t(%rsi,%rcx,8), %xmm0
\tmulpd\t%xmm1, %xmm0
\tmovups\t%xmm0, (%rdi,%rcx,8)
\taddq\t$2, %rcx
\tcmpq\t%rcx, %rdx
\tja\t.L{n}
''', [('.L{n}', 16)]),
    'avx': ('''\tvzeroupper
.L{n}:
# unrolled
\tvmovupd\t(%rsi,%rax), %ymm0
\tvaddpd\t(%rdi,%rax), %ymm0, %ymm0
\tvmovupd\t%ymm0, (%rdi,%rax)
\tsubq\t$-32, %rax   # 32 bytes

\tcmpq\t%rax, %rdx
\tjne\t.L{n}
\tret
''', [('.L{n}', 32)]),
    'gather': ('''.L{n}:
\tmovslq\t(%rsi,%rax,4), %rcx
\tmovsd\t%xmm0, (%rdi,%rcx,8)
\tincq\t%rax
\tcmpq\t%rax, %rdx
\tjne\t.L{n}
''', [('.L{n}', None)]),
    'nested': ('''.L{n}0:
\txorl\t%eax, %eax
\tmovq\t%rbx, %rcx
\t.p2align 4
.L{n}1:
\tmovsd\t%xmm0, (%rax,%rcx)
\taddq\t$8, %rcx
\tcmpq\t%rcx, %rdx
\tjne\t.L{n}1
\taddq\t$1, %rsi
\tcmpq\t%rsi, %rdi
\tjne\t.L{n}0
''', [('.L{n}1', 8)]),
    'exit': ('''.L{n}0:
\tmovsd\t(%rax), %xmm0
\taddq\t$8, %rax
\tucomisd\t%xmm0, %xmm1
\tje\t.L{n}1
\tcmpq\t%rax, %rdx
\tjne\t.L{n}0
.L{n}1:
\tnop
''', []),
    'code': ('''\tmovl\t$5, %eax
\tjmp\t.L{n}
\t.align 8
.L{n}:
\tcall\tfoo
\taddq\t$8, %rsp
''', []),
    'same': ('''\tjmp .L{n}
.L{n}:
\tmovsd\t(%rax), %xmm0
\taddsd\t%xmm1, %xmm0
\tmovsd\t%xmm0, (%rax)
\tmovsd\t(%rax), %xmm0
\taddsd\t%xmm1, %xmm0
\tmovsd\t%xmm0, (%rax)
\taddq\t$8, %rax
\tcmpq\t%rax, %rdx
\tjne\t.L{n}
''', [('.L{n}', 8)]),
    'zmm': ('''.L{n}:
\tvmovupd\t(%rsi), %zmm0
\tvmovupd\t%zmm0, (%rdi)
\tvmovupd\t64(%rsi), %zmm1
\tvmovupd\t%zmm1, 64(%rdi)
\taddq\t$128, %rsi
\tleaq\t128(%rdi), %rdi
\tcmpq\t%rsi, %rdx
\tjne\t.L{n}
''', [('.L{n}', 128)]),
}
A64 = {
    'scalar': ('''.L{n}:
\tldr\td0, [x0]
\tfadd\td0, d0, d1
\tstr\td0, [x0], 8
\tcmp\tx0, x1
\tb.ne\t.L{n}
''', [('.L{n}', 8)]),
    'neon': ('''.L{n}:
\tldr\tq0, [x20, x4]
\tfadd\tv0.2d, v0.2d, v1.2d    // vector
\tstr\tq0, [x21, x4]
\tadd\tx4, x4, 16
\tcmp\tx4, x5

\tb.ne\t.L{n}
''', [('.L{n}', 16)]),
    'two': ('''\tmov\tx4, 0
.L{n}:
\tldp\tq0, q2, [x2], #32
\tfadd\tv0.2d, v0.2d, v1.2d
\tfadd\tv2.2d, v2.2d, v1.2d
\tstp\tq0, q2, [x3], #32
\tsubs\tx9, x9, #1
\tb.ne\t.L{n}
\tret
''', [('.L{n}', 32)]),
    'gather': ('''.L{n}:
\tldrsw\tx3, [x1], 4
\tstr\td0, [x2, x3, lsl 3]
\tcmp\tx1, x4
\tb.ne\t.L{n}
''', [('.L{n}', None)]),
    'nested': ('''.L{n}0:
\tmov\tx3, x8
// inner
.L{n}1:
\tstr\td0, [x3, #8]!
\tcmp\tx3, x4
\tb.ne\t.L{n}1
\tadd\tx6, x6, 1
\tcmp\tx6, x7
\tblt\t.L{n}0
''', [('.L{n}1', 8)]),
    'predicated': ('''.L{n}:
\tld1d\tz0.d, p0/z, [x0, x4, lsl 3]
\tfmul\tz0.d, z0.d, z1.d
\tb.none\t.L{n}x
\tstr\td0, [x1, x4, lsl 3]
\tadd\tx4, x4, 8
\tcmp\tx4, x5
\tb.ne\t.L{n}
.L{n}x:
\tnop
''', [('.L{n}', 64)]),
    'code': ('''\tbl\tfoo
\tb\t.L{n}
.L{n}:
\tmov\tx0, 1
''', []),
    'same': ('''\tb\t.L{n}
.L{n}:
\tldr\td0, [x0]
\tfadd\td0, d0, d1
\tldr\td0, [x0]
\tfadd\td0, d0, d1
\tstr\td0, [x0], 8
\tcmp\tx0, x1
\tb.ne\t.L{n}
''', [('.L{n}', 8)]),
}
HEAD = {'x86': '\t.file\t"k.c"\n\t.text\n\t.globl\tkernel\nkernel:\n\tpushq\t%rbp\n', 'aarch64': '\t.arch armv8-a\n\t.text\n\t.global\tkernel\nkernel:\n\tstp\tx29, x30, [sp, -16]!\n'}
TAIL = {'x86': '\tpopq\t%rbp\n\tret\n\t.size\tkernel, .-kernel\n', 'aarch64': '\tldp\tx29, x30, [sp], 16\n\tret\n\t.size\tkernel, .-kernel\n'}
LIB = {'x86': X86, 'aarch64': A64}
COMMENT = {'x86': '#', 'aarch64': '//'}


def compose(isa, names):
    """Source and loops: (label, lines, increment)."""
    text, loops = HEAD[isa], []
    for n, name in enumerate(names):
        seg, lo = LIB[isa][name]
        seg = seg.format(n=10 * (n + 1))
        text += seg
        for label, inc in lo:
            label = label.format(n=10 * (n + 1))
            lines = [l for l in seg.split('\n') if l.strip()]
            a = lines.index(label + ':')
            b = [i for i, l in enumerate(lines) if i > a and re.match(r'\t(j|b[.]?)[a-z.]*\s+%s$' % re.escape(label), l)][0]
            loops.append((label, lines[a:b + 1], inc))
    return text + TAIL[isa], loops


def instructions(isa, lines):
    for l in lines:
        l = l.split(COMMENT[isa])[0].strip()
        if l and not l.endswith(':') and not l.startswith('.'):
            p = l.split(None, 1)
            yield p[0], p[1] if len(p) > 1 else ''


def metric(isa, lines):
    ins = list(instructions(isa, lines))
    if isa == 'x86':
        packed = [m for m, o in ins if re.match(r'v?(movu|mul|add|sub|div|fmadd(132|213|231)?)h?p[ds]', m)]
        regs = {k: len({r for m, o in ins for r in re.findall(r'%(' + k + r'\d+)', o)}) for k in ('zmm', 'ymm', 'xmm')}
        return (len(packed), len([m for m in packed if m.startswith('v')]), regs['zmm'], regs['ymm'], regs['xmm'], len(ins))
    vec = sum(len(re.findall(r'\b[vz]\d+\.', o)) for m, o in ins)
    return (vec, sum(m in ('fmul', 'fdiv', 'fadd', 'fsub') for m, o in ins), sum(m in ('add', 'sub', 'mul') for m, o in ins), len(ins))


def best(isa, loops):
    ms = [metric(isa, l[1]) for l in loops]
    return ms.index(max(ms)) if ms else None


class Home:
    """Home directory for stored increments, and answers of the user."""

    def __init__(self, d):
        self.dir = d
        self.answers = []
        self.asked = 0

    def input(self, prompt=''):
        self.asked += 1
        require(self.answers, 'the user was asked:', prompt)
        return self.answers.pop(0)

    def run(self, isa, text, block='auto', increment='auto', answers=(), inplace=False):
        """(lines of block, increment, output), exception instead of these if refused."""
        from kerncraft import incore_model as im
        self.answers = list(answers)
        src, dst = os.path.join(self.dir, 'in.s'), os.path.join(self.dir, 'out.s')
        with open(src, 'w') as f:
            f.write(text)
        if os.path.exists(dst):
            os.unlink(dst)
        err = None
        with mock.patch.dict(os.environ, {'HOME': self.dir}), mock.patch('builtins.input', self.input), quiet():
            if inplace:
                dst = src
                with open(src, 'r+') as f:
                    try:
                        lines, inc = im.asm_instrumentation(f, f, block_selection=block, pointer_increment=increment, isa=isa)
                    except Exception as e:
                        err = e
            else:
                with open(src) as f, open(dst, 'w') as g:
                    try:
                        lines, inc = im.asm_instrumentation(f, g, block_selection=block, pointer_increment=increment, isa=isa)
                    except Exception as e:
                        err = e
        with open(src) as f:
            now = f.read()
        require(now == text or (inplace and err is None), 'source file was changed')
        if err is not None:
            require(isinstance(err, (ValueError, RuntimeError, LookupError)), 'instead of a refusal:', repr(err))
            if not inplace:
                require(not os.path.exists(dst) or os.path.getsize(dst) == 0, 'output left by refused instrumentation')
            return err
        with open(dst) as f:
            out = f.read()
        return [l.line for l in lines], inc, out


MARK = {
    'x86': ([['movl', '$111,', '%ebx'], ['.byte', '100'], ['.byte', '103'], ['.byte', '144']], [['movl', '$222,', '%ebx'], ['.byte', '100'], ['.byte', '103'], ['.byte', '144']]),
    'aarch64': ([['mov', 'x1,', '#111'], ['.byte', '213,3,32,31']], [['mov', 'x1,', '#222'], ['.byte', '213,3,32,31']]),
}


def check(isa, text, loops, n, increment, got):
    """Result is the original with loop n marked."""
    require(not isinstance(got, Exception), 'refused:', repr(got))
    lines, inc, out = got
    label, block, _ = loops[n]
    require(lines == block, 'block is', lines, 'instead of', block)
    require(type(inc) is int and inc == increment, 'increment of', label, 'is', inc, 'instead of', increment)
    orig = [l for l in text.split('\n') if l.strip()]
    res = out.split('\n')
    require(res[-1] == '', 'last line is not terminated')
    res = res[:-1]
    start = [i for i in range(len(orig)) if orig[i:i + len(block)] == block]
    require(len(start) == 1, 'library is ambiguous')
    a, b = start[0], start[0] + len(block)
    extra = len(res) - len(orig)
    c = COMMENT[isa]
    m1, m2 = MARK[isa]
    head, tail = res[:a], res[len(res) - (len(orig) - b):]
    require(head == orig[:a] and tail == orig[b:], 'lines outside of the loop are changed, moved or lost')
    inner = res[a:len(res) - (len(orig) - b)]
    k = [i for i in range(len(inner)) if inner[i:i + len(block)] == block]
    require(len(k) == 1, 'loop', label, 'is not kept in', inner)
    first, last = inner[:k[0]], inner[k[0] + len(block):]
    code = [[l.split(c)[0].split() for l in part if l.split(c)[0].split()] for part in (first, last)]
    require(code[0] == m1, 'start marker of', label, 'is', first)
    require(code[1] == m2, 'end marker of', label, 'is', last)
    require(extra == len(first) + len(last), 'lines added')
    found = re.findall(r'pointer_increment=([+-]?[0-9]+)\b', '\n'.join(first + last))
    require([int(x) for x in found] == [increment], 'recorded increments are', found, 'instead of', increment)
    require(any(re.search(r'#.*pointer_increment=%d\b' % increment if isa == 'x86' else r'//.*pointer_increment=%d\b' % increment, l) for l in first), 'increment is not next to the start marker')
    return out


def marked_section(isa, out, block):
    """What OSACA takes for the marked loop."""
    from osaca.parser import get_parser
    from osaca.semantics.marker_utils import reduce_to_section
    p = get_parser(isa, syntax='att') if isa == 'x86' else get_parser(isa)
    sec = [l.line for l in reduce_to_section(p.parse_file(out), p)]
    require([l for l in sec if 'pointer_increment=' not in l] == block, 'OSACA analyses', sec, 'instead of', block)


def ev_files(case, ctx):
    isa, names = case['isa'], case['names']
    text, loops = compose(isa, names)
    outcome = []
    with scratch() as d:
        home = Home(d)
        b = best(isa, loops)
        queries = [('auto', b, {})]
        if case['full'] == 1:
            queries += [(i, i if 0 <= i < len(loops) else None, {}) for i in range(-1, len(loops) + 1)]
            queries += [('auto', b, {'increment': 24})]
        if case['full'] == 2:
            queries += [(i, i if 0 <= i < len(loops) else None, {}) for i in range(-1, len(loops) + 1)]
            queries += [('manual', i, {'answers': ['nolabel', l[0]]}) for i, l in enumerate(loops)]
            queries += [('manual', b, {'answers': ['']})] if loops else []
            queries += [('auto', b, {'inplace': True}), ('auto', b, {'increment': 24}), ('auto', b, {'increment': -8}), (0, 0 if loops else None, {'increment': 24}),
                        ('auto', b, {'increment': 'auto_with_manual_fallback', 'answers': ['abc', '40']})]
            if b is not None:
                queries += [('auto', b, {'increment': 'manual', 'answers': ['48']})]
        for block, n, kw in queries:
            # nothing stored
            rc = os.path.join(d, '.kerncraft', 'increment_cache')
            if os.path.exists(rc):
                os.unlink(rc)
            want = kw.get('increment', 'auto')
            if n is not None and not isinstance(want, int):
                want = loops[n][2]
                if kw.get('increment') == 'manual':
                    want = 48
                elif kw.get('increment') == 'auto_with_manual_fallback' and want is None:
                    want = 40
            for repeat in range(2):
                if repeat and case['full'] < 2:
                    break
                got = home.run(isa, text, block=block, **kw)
                ctx.step()
                what = '%s %s %s' % (names, block, kw)
                if n is None or want is None:
                    require(isinstance(got, Exception), what, 'marked', got if isinstance(got, Exception) else got[:2])
                    outcome.append('refused')
                else:
                    try:
                        out = check(isa, text, loops, n, want, got)
                    except Exception as e:
                        e.args = (what + ': ' + str(e),)
                        raise
                    outcome.append('%d %d' % (n, want))
                    if repeat == 0:
                        marked_section(isa, out, loops[n][1])
            ctx.trace()
    ctx.state(isa, tuple(names))
    return ' '.join(outcome)


# ---- stored increments

def blocks(isa):
    """Files with similar loops: (name, text, increment detected)."""
    g = LIB[isa]['gather'][0]
    other = {'x86': ('incq\t%rax', 'incq\t%rax # next'), 'aarch64': ('x1, x4', 'x1, x5')}[isa]
    return {
        'g': (g.format(n=1), None),
        'label': (g.format(n=2), None),
        'line': (g.format(n=1).replace(*other), None),
        'longer': (g.format(n=1).replace('.L1:\n', '.L1:\n\tnop\n'), None),
        's': (LIB[isa]['scalar'][0].format(n=1), 8),
    }


def operations():
    ops = []
    for b in ('g', 'label', 'line', 'longer', 's'):
        ops.append((b, 'auto', None))
    for b, v in (('g', 16), ('g', -8), ('label', 24), ('line', 32), ('longer', 40), ('s', 48), ('g', 0)):
        ops.append((b, 'manual', str(v)))
    ops += [('g', 'fallback', '56'), ('label', 'fallback', '64'), ('s', 'fallback', None), ('s', 'manual', ''), ('g', 'write', '# note\n'), ('g', 'write', 'abc\n\n'), ('g', 'write', 'hash x\n'),
            ('g', 'write', 'hash 72 #by hand\n')]
    return ops


def ev_history(case, ctx):
    isa = case['isa']
    bl = blocks(isa)
    ops = operations()
    out = []
    for last in range(len(ops)) if case['open'] else [None]:
        seq = [ops[i] for i in case['prefix']] + ([ops[last]] if last is not None else [])
        with scratch() as d:
            home = Home(d)
            stored = {}
            for n, (b, how, v) in enumerate(seq):
                code, detected = bl[b]
                text = HEAD[isa] + code + TAIL[isa]
                lines = [l for l in code.split('\n') if l.strip()]
                loops = [(lines[0][:-1], lines, detected)]
                want = detected if detected is not None else stored.get(b)
                if how == 'write':
                    # the user follows the advice to add a line by hand
                    import hashlib
                    from kerncraft import incore_model as im
                    path = os.path.join(d, '.kerncraft', 'increment_cache')
                    if 'hash' in v:
                        err = Home(d)
                        os.makedirs(os.path.dirname(path), exist_ok=True)
                        if os.path.exists(path):
                            os.rename(path, path + '.bak')
                        e = err.run(isa, text)
                        require(isinstance(e, RuntimeError), 'not refused:', e)
                        if os.path.exists(path + '.bak'):
                            os.rename(path + '.bak', path)
                        m = re.search(r'increment_cache: (\S+) <', str(e))
                        require(m, 'no advice in', e)
                        if 'x' not in v:
                            stored[b] = 72
                        v = v.replace('hash', m.group(1))
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with open(path, 'a') as f:
                        f.write(v)
                    continue
                inc, answers = 'auto', []
                if how == 'manual':
                    inc, answers = 'manual', [v]
                    if v == '':
                        want = detected
                    else:
                        want = int(v)
                elif how == 'fallback':
                    inc = 'auto_with_manual_fallback'
                    if want is None:
                        answers, want = [v], int(v)
                        stored[b] = want
                got = home.run(isa, text, increment=inc, answers=answers)
                ctx.step()
                require(not home.answers, 'the user was not asked')
                what = '%s then %s: ' % (seq[:n], seq[n])
                if want is None:
                    require(isinstance(got, RuntimeError), what, 'not refused but', got)
                else:
                    try:
                        check(isa, text, loops, 0, want, got)
                    except Exception as e:
                        e.args = (what + str(e),)
                        raise
                if how == 'manual' and want:
                    stored[b] = want
                out.append(want)
            ctx.trace()
            ctx.state(isa, tuple(seq))
    return str(out)


def warm():
    """Keep OSACA's databases in memory."""
    from osaca.semantics import hw_model
    if not hasattr(hw_model.MachineModel, '_kept'):
        orig = hw_model.MachineModel._get_cached
        hw_model.MachineModel._kept = kept = {}

        def cached(self, filepath):
            if filepath not in kept:
                data = orig(self, filepath)
                if not data:
                    return data
                kept[filepath] = data
            return kept[filepath]
        hw_model.MachineModel._get_cached = cached
    from kerncraft import incore_model as im
    for isa in LIB:
        im.asm_instrumentation(io.StringIO(compose(isa, ['scalar'])[0]), isa=isa)


def suites(tier):
    deep = tier == 'thorough'
    warm()

    def small():
        for isa in LIB:
            for k in (0, 1, 2):
                for names in itertools.product(LIB[isa], repeat=k):
                    yield {'isa': isa, 'names': list(names), 'full': 2 if k < 2 or deep else 1}

    def three():
        for isa in LIB:
            for names in itertools.product(LIB[isa], repeat=3):
                yield {'isa': isa, 'names': list(names), 'full': int(deep)}

    def four():
        for isa in LIB:
            for names in itertools.product(LIB[isa], repeat=4):
                yield {'isa': isa, 'names': list(names), 'full': 0}

    def histories():
        ops = operations()
        for isa in LIB:
            for i in range(len(ops)):
                yield {'isa': isa, 'prefix': [i], 'open': True}
                if deep:
                    for j in range(len(ops)):
                        yield {'isa': isa, 'prefix': [i, j], 'open': True}
            if not deep:
                # auto after all pairs
                for i, j in itertools.product(range(5, len(ops)), repeat=2):
                    b = {ops[i][0], ops[j][0]}
                    for k in range(4):
                        if ops[k][0] in b:
                            yield {'isa': isa, 'prefix': [i, j, k], 'open': False}
    t = 1500
    res = [Suite('files of up to 2 segments', small, ev_files, chunk=2, timeout=t, bound='all files of up to 2 of 9 (x86) and 8 (AArch64) segments x block selections x increment modes (quick: fewer modes for 2 segments)'),
           Suite('files of 3 segments', three, ev_files, chunk=4, timeout=t, bound='all files of 3 segments, automatic selection' + (' and all others' if deep else '')),
           Suite('stored increments', histories, ev_history, chunk=4, timeout=t, bound='all histories of 2 (thorough: 3) of 20 operations on 5 similar loops; all detections after 2 changes')]
    if deep:
        res.append(Suite('files of 4 segments', four, ev_files, chunk=8, timeout=t, bound='all files of 4 segments, automatic selection'))
    return res
