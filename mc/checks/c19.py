"""C19: comment and directive stripping. Every text up to a length bound over a token alphabet, every switch
combination, against a C translation-phase scanner."""
import itertools
import re

from ..core import Suite, require, Skip

PROPERTY = 'C19'
ASSUMPTIONS = ['no string or character literals (documented: comment-like strings are treated as comments)',
               'a removed comment may leave white space behind (C treats it as one space); white space runs are not compared',
               'texts with an unterminated comment are not C and only have to be processed without hanging']


class Unterminated(Exception):
    pass


def strip_comments(t):
    out, i = [], 0
    while i < len(t):
        if t.startswith('//', i):
            j = t.find('\n', i)
            i = len(t) if j < 0 else j
            out.append(' ')
        elif t.startswith('/*', i):
            j = t.find('*/', i + 2)
            if j < 0:
                raise Unterminated()
            out.append(' ' + '\n' * t.count('\n', i, j))
            i = j + 2
        else:
            out.append(t[i])
            i += 1
    return ''.join(out)


def strip_lines(t, macros, pragmas):
    out, cont = [], None
    for l in t.split('\n'):
        s = l.strip()
        if cont is None:
            if s.startswith('#'):
                kind = 'p' if re.match(r'#\s*pragma\b', s) else 'm'
            else:
                kind = None
        else:
            kind = cont
        out.append('' if kind == 'm' and macros or kind == 'p' and pragmas else l)
        cont = kind if kind and s.endswith('\\') else None
    return '\n'.join(out)


def norm(t):
    return [' '.join(l.split()) for l in t.split('\n')]


def reference(t, comments, macros, pragmas):
    if comments:
        t = strip_comments(t)
    elif macros or pragmas:
        # directives and comments interleaved: only decided when no multi-line comment meets a directive
        bare = strip_comments(t)
        a = [l.strip().startswith('#') for l in t.split('\n')]
        b = [l.strip().startswith('#') for l in bare.split('\n')]
        if a != b or re.search(r'/\*[^\n]*(?!\*/)\n', t) and '#' in t:
            raise Skip('directive inside a kept comment')
    return strip_lines(t, macros, pragmas) if macros or pragmas else t


def ev(case, ctx):
    from kerncraft.pycparser_utils import clean_code
    text = ''.join(case[0])
    seen = []
    for comments, macros, pragmas in case[1]:
        got = clean_code(text, comments=comments, macros=macros, pragmas=pragmas)
        ctx.step()
        try:
            want = reference(text, comments, macros, pragmas)
        except Unterminated:
            continue
        except Skip:
            continue
        require(norm(got) == norm(want), 'clean_code(%r, comments=%s, macros=%s, pragmas=%s) gives %r, expected %r (up to white space)'
                % (text, comments, macros, pragmas, got, want))
        if not comments:
            require(got == want, 'clean_code(%r, macros=%s, pragmas=%s) changes other characters: %r' % (text, macros, pragmas, got))
        again = clean_code(got, comments=comments, macros=macros, pragmas=pragmas)
        ctx.step()
        require(again == got, 'stripping %r twice changes %r to %r' % (text, got, again))
        ctx.trace()
        ctx.state(text, comments, macros, pragmas)
        seen.append('\n'.join(norm(got)))
    return '|'.join(seen)


SW = [list(x) for x in itertools.product([True, False], repeat=3)]


def suites(tier):
    big = tier == 'thorough'
    L = 8 if big else 7

    def chars():
        for n in range(0, L + 1):
            for c in itertools.product('a/*\n ', repeat=n):
                s = ''.join(c)
                if n == L and not ('//' in s or '/*' in s):
                    continue
                yield [[s], [[True, False, False]]]

    toks = ['x', ' ', '\n', '/', '*', '//', '/*', '*/', '=', '**/', '\n#d\n']

    def tokens():
        for n in range(1, (7 if big else 6)):
            for c in itertools.product(toks, repeat=n):
                if not any(t in ('//', '/*') for t in c):
                    continue
                yield [list(c), [[True, False, False]] if n > 4 else [[True, False, False], [True, True, False]]]

    lines = ['a = 1;', '#define X 1', '  # define Y \\', '#pragma omp parallel', ' #pragma unroll \\', 'b', '// c',
             'a; /* x', 'y */ b;', '', '/* q */ c;', 'd // #define', '#include <x.h> // y', '# pragma once', '#endif /* z',
             'int/*t*/n;', '#define F(x) \\', '   (x)']

    def lseq():
        for n in range(1, (5 if big else 4)):
            for c in itertools.product(lines, repeat=n):
                bad = False
                for p, q in zip(c, c[1:]):
                    if p.endswith('\\') and q.strip().startswith('#'):
                        bad = True  # directive on a continuation line: not a directive, not decided here
                if bad:
                    continue
                yield [['\n'.join(c)], SW]
                if n < 4:
                    yield [['\n'.join(c) + '\n'], SW]

    return [
        Suite('characters', chars, ev, chunk=500, timeout=10, bound='all texts up to %d characters over {a,/,*,newline,space}' % L),
        Suite('tokens', tokens, ev, chunk=500, timeout=10, bound='all sequences of up to %d tokens' % (6 if big else 5)),
        Suite('lines', lseq, ev, chunk=50, timeout=10, bound='all sequences of up to %d lines x 8 switch combinations' % (4 if big else 3)),
    ]
