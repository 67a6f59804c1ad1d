"""C24: performance metrics evaluate to the formula written in the machine file.

All formulas of a set of shapes over a pool of counter names chosen to be confusable (prefixes and
suffixes of each other, differing in punctuation only, names looking like internal ones) are parsed
by the real code and evaluated with two valuations; an independent tokenizer and recursive descent
parser with exact arithmetic is the oracle. Sequences of metrics are parsed in one process and all
results judged at the end. All metrics of all machine files delivered are included.
"""
import glob
import itertools
import os
import re
from fractions import Fraction

from mc.core import Suite, require, Skip

PROPERTY = 'C24'
ASSUMPTIONS = [
    'counter references are NAME:REGISTERS[:PARAMETER[=VALUE]]... with upper case names, as in the '
    'machine files; formulas use + - * / ** parentheses, Max, Min, numbers and plain symbols',
    'valuations are non-zero and pairwise distinct, formulas dividing by zero are left out',
]
ROOT = os.environ.get('VERIF_REPO', '/repo')

COUNTERS = ['A:PMC0', 'A_A:PMC0', 'A:PMC01', 'A:PMC0:E', 'A:PMC0:E=0x1', 'A:PMC0:E=0x10:F',
            'A:PMC[0-1]', 'A:PMC[01]', 'A:PMC0|PMC1', 'A:PMC0PMC1', 'A_B:C', 'A:B', 'AA:B',
            'SYMA:PMC0', 'PERFCTR0:PMC0', 'A:PMC[0-1]:E_F=2', '2A:PMC0']
PLAIN = ['SYMA_PMC0', 'T_nOL', 'PERFCTR0', 'A']

TOKEN = re.compile(r'\s*(?:(?P<ref>[A-Z0-9_]+:(?:[A-Z0-9|]|\[[^\]]*\])+'
                   r'(?::[A-Za-z0-9_]+(?:=[A-Za-z0-9_]+)?)*)'
                   r'|(?P<num>\d+(?:\.\d*)?)(?![A-Za-z0-9_])|(?P<id>[A-Za-z_][A-Za-z0-9_]*)'
                   r'|(?P<op>\*\*|[-+*/(),]))')


def tokens(text):
    pos, out = 0, []
    text = text.strip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise SyntaxError('%r at %d' % (text, pos))
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out + [('end', '')]


def evaluate(text, value):
    """Value of the formula; value(kind, text) gives values of references and plain symbols."""
    toks = tokens(text)
    i = [0]

    def peek():
        return toks[i[0]]

    def take(v=None):
        t = toks[i[0]]
        if v is not None and t[1] != v:
            raise SyntaxError('expected %r, found %r' % (v, t))
        i[0] += 1
        return t

    def add():
        r = mul()
        while peek() in (('op', '+'), ('op', '-')):
            op = take()[1]
            b = mul()
            r = r + b if op == '+' else r - b
        return r

    def mul():
        r = unary()
        while peek() in (('op', '*'), ('op', '/')):
            op = take()[1]
            b = unary()
            r = r * b if op == '*' else r / b
        return r

    def unary():
        if peek() == ('op', '-'):
            take()
            return -unary()
        if peek() == ('op', '+'):
            take()
            return unary()
        return power()

    def power():
        b = atom()
        if peek() == ('op', '**'):
            take()
            e = unary()
            return b ** int(e)
        return b

    def atom():
        kind, t = take()
        if kind == 'op' and t == '(':
            r = add()
            take(')')
            return r
        if kind == 'num':
            return Fraction(t)
        if kind == 'id' and t in ('Max', 'Min'):
            take('(')
            args = [add()]
            while peek() == ('op', ','):
                take()
                args.append(add())
            take(')')
            return max(args) if t == 'Max' else min(args)
        if kind in ('id', 'ref'):
            return value(kind, t)
        raise SyntaxError('unexpected %r' % t)

    r = add()
    if peek()[0] != 'end':
        raise SyntaxError('trailing %r' % (peek(),))
    return r


def references(text):
    return list(dict.fromkeys(t for k, t in tokens(text) if k == 'ref'))


PRIMES = [3, 7, 13, 29, 53, 101, 211, 401, 809, 1601]


def valuation(which, names):
    """Distinct values for *names* in order."""
    vals = {}
    for i, n in enumerate(sorted(names)):
        p = PRIMES[i % len(PRIMES)] + (i // len(PRIMES)) * 4001
        vals[n] = Fraction(p) if which == 0 else Fraction(100003 + 17 * i * i, 1) / p
    return vals


def event_of(ref):
    parts = ref.split(':')
    return parts[0], parts[1], tuple(parts[2:])


def judge(text, expr, events, ctx):
    names = {t for k, t in tokens(text) if k in ('ref', 'id') and t not in ('Max', 'Min')}
    refs = set(references(text))
    used = {event_of(r): r for r in refs}
    for sym, ev in events.items():
        ev = (ev[0], ev[1], tuple(ev[2]))
        require(ev in used, 'metric', repr(text), 'gives event', ev, 'which it does not contain')
    require(len({(e[0], e[1], tuple(e[2])) for e in events.values()}) == len(events),
            'metric', repr(text), 'has two symbols for one event', events)
    for sym in expr.free_symbols:
        require(sym in events or sym.name in names - refs, 'metric', repr(text), 'contains',
                repr(sym.name), 'which is neither an event nor written there')
    for which in (0, 1):
        vals = valuation(which, names)
        try:
            exp = evaluate(text, lambda kind, t: vals[t])
        except ZeroDivisionError:
            raise Skip('division by zero')
        import sympy
        subs = {}
        for sym in expr.free_symbols:
            if sym in events:
                e = events[sym]
                v = vals[used[e[0], e[1], tuple(e[2])]]
            else:
                v = vals[sym.name]
            subs[sym] = sympy.Rational(v.numerator, v.denominator)
        got = expr.subs(subs)
        require(got.is_number, 'metric', repr(text), 'evaluates to', got)
        require(abs(float(got) - float(exp)) <= 1e-12 * max(1, abs(float(exp))),
                'metric', repr(text), 'evaluates to', float(got), 'instead of', float(exp),
                'with', {k: str(v) for k, v in vals.items()})
    # references not cancelling out must be measured: changing a value changes the result
    if len(refs) <= 4:
        base_v = valuation(1, names)
        base = evaluate(text, lambda kind, t: base_v[t])
        for r in refs:
            v2 = dict(base_v)
            v2[r] = v2[r] * 1000
            try:
                if evaluate(text, lambda kind, t: v2[t]) != base:
                    require(any(event_of(r) == (e[0], e[1], tuple(e[2]))
                                for e in events.values()), r, 'in', repr(text),
                            'is not recognised as an event')
            except ZeroDivisionError:
                pass


def run_history(texts, ctx):
    from sympy.core.cache import clear_cache
    from kerncraft.machinemodel import MachineModel
    clear_cache()
    got = [(t,) + tuple(MachineModel.parse_perfmetric(t)) for t in texts]
    ctx.step(len(texts))
    ctx.state(tuple(texts))
    for text, expr, events in got:
        judge(text, expr, events, ctx)


# --- shapes -------------------------------------------------------------------------------------
SHAPES1 = ['{0}', '2*{0}', '-{0}', '({0})/64', '{0}+{0}*2', 'Max({0},{0}+1)', '0.5*{0}+1']
SHAPES2 = ['{0}+{1}', '{0} + {1}', '{0}-{1}', '{0}*{1}', '{0}/{1}', 'Max({0},{1})',
           '3*({0}+{1})-{0}', '(Min({0}, {1}) + 2)/{1}', '{0}-{1}**2']
SHAPES3 = ['{0}+{1}*{2}', '({0} + {1}) * {2}', '{0}-({1}-{2})', 'Max({0}, {1}, {2})',
           '{0}/({1}+{2})', 'Max({0}+{1},{2})-{0}']


def shape_cases(tier):
    def cases():
        pool = COUNTERS + PLAIN
        for a in pool:
            yield {'names': [a], 'shapes': 1}
            for b in pool:
                yield {'names': [a, b], 'shapes': 2}
        tri = pool if tier != 'quick' else [COUNTERS[i] for i in (0, 1, 2, 3, 6, 8, 10, 11)] + \
            ['SYMA_PMC0']
        for a in tri:
            for b in tri:
                yield {'names': [a, b], 'third': tri, 'shapes': 3}
    return cases


def shape_eval(case, ctx):
    n = case['shapes']
    shapes = (SHAPES1, SHAPES2, SHAPES3)[n - 1]
    thirds = [[c] for c in case['third']] if n == 3 else [[]]
    done = 0
    for t in thirds:
        for s in shapes:
            try:
                run_history([s.format(*(case['names'] + t))], ctx)
                done += 1
            except Skip:
                pass
    if not done:
        raise Skip('division by zero')
    return 'shape %d' % n


def history_cases(tier):
    pool = COUNTERS + PLAIN[:2]

    def cases():
        for a in pool:
            for b in pool:
                yield {'first': a, 'second': b, 'deep': False}
        deep = COUNTERS[:6] + COUNTERS[10:13] + PLAIN[:1] if tier == 'quick' else pool
        for a in deep:
            for b in deep:
                yield {'first': a, 'second': b, 'deep': True, 'thirds': deep}
    return cases


def history_eval(case, ctx):
    a, b = case['first'], case['second']
    if not case['deep']:
        for s1 in ('{0}', '{0}*2+1'):
            for s2 in ('{1}', '{0}-2*{1}', '{1}/{0}'):
                run_history([s1.format(a, b), s2.format(a, b)], ctx)
    else:
        for c in case['thirds']:
            run_history([a + '+2', b + '*3', c + ' - 2*' + a], ctx)
            run_history([a, a + '-' + b + '*2', '%s+3*%s+5*%s' % (c, b, a)], ctx)
    return 'history'


def metrics_of(node, found):
    if isinstance(node, dict):
        for k, v in node.items():
            if k == 'performance counter metric' and v is not None:
                found.append(str(v))
            elif k == 'performance counter metrics' and v is not None:
                found += [str(m) for m in v.values() if m is not None]
            else:
                metrics_of(v, found)
    elif isinstance(node, (list, tuple)):
        for v in node:
            metrics_of(v, found)


def file_cases():
    for f in sorted(glob.glob(os.path.join(ROOT, 'examples/machine-files/*.yml')) +
                    glob.glob(os.path.join(ROOT, 'tests/test_files/*E*.yml'))):
        yield {'file': os.path.relpath(f, ROOT)}


def file_eval(case, ctx):
    from kerncraft.machinemodel import MachineModel
    m = MachineModel(os.path.join(ROOT, case['file']))
    found = []
    metrics_of(m._data, found)
    found = [f for f in found if 'REQUIRED' not in f]
    require(found, 'no metrics in', case['file'])
    run_history(found, ctx)
    return 'file'


BAD = ['A:PMC0 +', 'A:', ':PMC0', 'A:PMC0 B:PMC0', '~', None, 'A:PMC0, B:PMC0', 'Max(A:PMC0',
       'INFORMATION_REQUIRED Example:max(X__PMC2, Y__PMC3)', 'aA:PMC0', 'A:PMC0x']


def bad_cases():
    for b in BAD:
        yield {'metric': b}


def bad_eval(case, ctx):
    from kerncraft.machinemodel import MachineModel
    ctx.step(1)
    try:
        r = MachineModel.parse_perfmetric(case['metric'])
    except Exception:
        return 'refused'
    require(False, 'malformed metric', repr(case['metric']), 'is taken as', r)


def suites(tier):
    return [
        Suite('shapes', shape_cases(tier), shape_eval,
              bound='%d one-, %d two- and %d three-operand formulas over all names of a pool of %d '
                    '(triples: %s)' % (len(SHAPES1), len(SHAPES2), len(SHAPES3),
                                       len(COUNTERS + PLAIN),
                                       '9 names' if tier == 'quick' else 'all')),
        Suite('histories', history_cases(tier), history_eval,
              bound='all pairs and (subset in quick) triples of names in sequences of metrics '
                    'parsed in one process'),
        Suite('files', file_cases, file_eval, bound='all metrics of all machine files delivered'),
        Suite('malformed', bad_cases, bad_eval, bound='%d malformed metrics' % len(BAD)),
    ]
