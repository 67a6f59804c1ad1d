"""C20: ranges given for constants on the command line. All token strings up to a length, all small numeric parameters and all
short histories of command lines on one parser, against an independent hand-written reading of the documented format."""
import itertools
import math
import os
from fractions import Fraction

from ..core import REPO, Suite, require

PROPERTY = 'C20'
ASSUMPTIONS = ['documented format: start[-stop[:num[log[base]]]]; an inclusive range needs start <= stop, a spaced one at least two values, '
               'a logarithmic one positive ends and a base of at least 2',
               'interior values of a logarithmic range may differ by floating-point rounding at ties']

MACHINE = os.path.join(REPO, 'tests', 'test_files', 'SandyBridgeEP_E5-2680.yml')
CODE = os.path.join(REPO, 'tests', 'test_files', '2d-5pt.c')
FIX = ['-m', MACHINE, '-p', 'LC', CODE]


class Usage(Exception):
    pass


_parser = []


def new_parser():
    from kerncraft import kerncraft as kc
    p = kc.create_parser()

    def error(msg):
        raise Usage(msg)
    p.error = error
    return p


def parse(argv, parser=None):
    """define list, or None if refused with a usage error."""
    if parser is None:
        if not _parser:
            _parser.append(new_parser())
        parser = _parser[0]
    try:
        ns = parser.parse_args(argv + FIX)
    except Usage:
        return None
    ns.machine.close()
    ns.code_file.close()
    return [list(d) for d in ns.define]


# ------------------------------------------------------------------ reference
def number(s, i):
    j = i
    while j < len(s) and s[j] in '0123456789':
        j += 1
    return (int(s[i:j]) if j > i else None), j


def read(s):
    """(start, stop, num, base) or None if malformed."""
    start, i = number(s, 0)
    if start is None:
        return None
    if i == len(s):
        return start, None, None, None
    if s[i] != '-':
        return None
    stop, i = number(s, i + 1)
    if stop is None:
        return None
    if i == len(s):
        return start, stop, None, None
    if s[i] != ':':
        return None
    num, i = number(s, i + 1)
    if num is None:
        return None
    if i == len(s):
        return start, stop, num, None
    if s[i:i + 3] != 'log':
        return None
    base, i2 = number(s, i + 3)
    if i2 != len(s):
        return None
    return start, stop, num, 10 if base is None else base


def valid(r):
    start, stop, num, base = r
    if stop is None:
        return True
    if num is None:
        return start <= stop
    return num >= 2 and (base is None or (start >= 1 and stop >= 1 and base >= 2))


def judge(r, got):
    """Raise if the values are not those described by r."""
    start, stop, num, base = r
    require(all(type(v) is int for v in got), 'not integers', got)
    if stop is None:
        require(got == [start], r, 'gives', got)
    elif num is None:
        require(got == list(range(start, stop + 1)), r, 'gives', got)
    else:
        require(len(got) == num, r, 'gives', len(got), 'values', got)
        require(got[0] == start and got[-1] == stop, r, 'does not include both ends', got)
        for i, v in enumerate(got):
            if base is None:
                exact = start + Fraction(i * (stop - start), num - 1)
                require(abs(v - exact) <= Fraction(1, 2), r, 'value', i, 'is', v, 'instead of', float(exact))
            else:
                x = start * (stop / start) ** (i / (num - 1))
                require(abs(v - x) <= .5 + 1e-9 * x, r, 'value', i, 'is', v, 'instead of', x)


def check(s, ctx, leading=()):
    got = parse(list(leading) + ['-D', 'N', s])
    r = read(s)
    if r is None or not valid(r):
        require(got is None, repr(s), 'is malformed but gives', got)
        ctx.count('refused')
        return 'refused'
    require(got is not None, repr(s), 'is refused')
    require(len(got) == 1 and got[0][0] == 'N', 'definitions are', got)
    judge(r, got[0][1])
    ctx.count('accepted')
    return 'ok', len(got[0][1])


TOKENS = ['1', '30', '0', '-', ':', 'log', 'lo', 'g', ' ', '+', '.', 'x', '5e1']


def ev_strings(case, ctx):
    pre, n = case
    out = set()
    for rest in itertools.product(TOKENS, repeat=n):
        s = ''.join(pre) + ''.join(rest)
        out.add(check(s, ctx))
        ctx.step()
        ctx.trace()
        ctx.state(s)
    return tuple(sorted(map(str, out)))


def string_cases(tier):
    def it():
        yield [[], 0]
        for n in range(1, 6 if tier == 'quick' else 7):
            k = min(n, 2)
            for pre in itertools.product(TOKENS, repeat=k):
                yield [list(pre), n - k]
        # documented forms followed or preceded by anything short
        for good in ('7', '3-5', '3-50:4', '3-50:4log', '3-50:4log3'):
            for t in TOKENS + ['\n', '\t', '-', ':', '²', 'log2', ',', '_1', 'L', '\\', '%']:
                yield [[good, t], 0]
                yield [[t, good], 0]
                for t2 in TOKENS:
                    yield [[good, t, t2], 0]
                    yield [[t, good, t2], 0]
        for a, b in itertools.product(('3', '3-5', '3-50:4', '3-50:4log', '3-50:4log3'), repeat=2):
            yield [[a, b], 0]
            yield [[a, ' ', b], 0]
    return it


def ev_range(case, ctx):
    a, b, kind = case
    for num in range(0, 14):
        for base in ([None] if kind == 'lin' else ['', 0, 1, 2, 3, 7, 10, 16]):
            s = '%d-%d:%d' % (a, b, num) + ('' if base is None else 'log%s' % base)
            check(s, ctx)
            ctx.step()
            ctx.trace()
            ctx.state(s)
    check('%d-%d' % (a, b), ctx)
    check('%d' % a, ctx)
    return a == b, a < b


BIG = [10 ** k + d for k in (3, 6, 9, 12, 14, 15, 16, 17, 18, 21) for d in (-1, 0, 1, 7)] + [2 ** k + d for k in (31, 32, 53, 63, 64) for d in (-1, 0, 1)]


def range_cases(tier):
    m = 50 if tier == 'quick' else 120

    def it():
        for a in range(m):
            for b in range(m):
                yield [a, b, 'lin']
                yield [a, b, 'log']
    return it


def ev_big(case, ctx):
    a, b = case
    for num in (2, 3, 4, 5, 7, 11):
        for tail in ('', 'log', 'log2', 'log7', 'log1000'):
            check('%d-%d:%d%s' % (a, b, num, tail), ctx)
            ctx.step()
            ctx.trace()
    check('%d-%d' % (b - 3, b), ctx)
    check('0%d' % b, ctx)
    return b


# ------------------------------------------------------------------ histories of command lines on one parser
LINES = [[], ['-D', 'N', '5'], ['-D', 'N', '1-3', '-D', 'M', '7'], ['-D', 'N', '1-9:3', '--define', 'N', '4'], ['-D', '.', '10', '-v'],
         ['-D', 'N', '1-'], ['-D', 'N', '5', '-D', 'M', 'x'], ['-D', 'N'], ['--define', 'M', '2-4'], ['-D', 'N', '9-1']]


def ev_history(case, ctx):
    p = new_parser()
    out = []
    for n, i in enumerate(case):
        got = parse(LINES[i], p)
        want = []
        words = [w for w in LINES[i]]
        j = 0
        while j < len(words):
            if words[j] in ('-D', '--define'):
                r = read(words[j + 2]) if j + 2 < len(words) else None
                if r is None or not valid(r):
                    want = None
                    break
                want.append((words[j + 1], r))
                j += 3
            else:
                j += 1
        if want is None:
            require(got is None, 'line', LINES[i], 'is malformed but gives', got)
        else:
            require(got is not None, 'line', LINES[i], 'is refused')
            require([g[0] for g in got] == [w[0] for w in want], 'after', [LINES[c] for c in case[:n]], 'the line', LINES[i], 'defines', got)
            for g, (name, r) in zip(got, want):
                judge(r, g[1])
        out.append(got)
        ctx.step()
        ctx.state(tuple(case[:n + 1]))
    # results of earlier lines stay as they were
    p2 = [parse(LINES[i], new_parser()) for i in case]
    require(p2 == out, 'results changed by later lines', out, p2)
    return tuple(o is None for o in out)


def suites(tier):
    q = tier == 'quick'
    return [
        Suite('strings', string_cases(tier), ev_strings, timeout=600, chunk=2, bound='all strings of up to %d of 13 tokens; valid forms with any 1-2 tokens attached' % (5 if q else 6)),
        Suite('ranges', range_cases(tier), ev_range, chunk=8, bound='all start, stop < %d, 0-13 values, linear and 8 bases' % (50 if q else 120)),
        Suite('large', lambda: ([a, b] for a in (1, 2, 999) for b in BIG), ev_big, chunk=4, bound='ends up to 10^21'),
        Suite('history', lambda: (list(c) for n in range(1, 5 if q else 6) for c in itertools.product(range(len(LINES)), repeat=n)), ev_history,
              bound='all sequences of up to %d of 10 command lines on one parser' % (4 if q else 5)),
    ]
