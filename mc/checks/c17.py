"""C17: quantities with unit prefixes keep their value. Exhaustive operation histories over a value/prefix/unit
alphabet against exact rational arithmetic with the SI table."""
import io
import itertools
import math
from fractions import Fraction as F

from ..core import Suite, require, Violation, Skip

PROPERTY = 'C17'
ASSUMPTIONS = ['values are compared with a relative tolerance of 1e-9 (double arithmetic); printed values within the '
               'precision of the printed form (1 % or 0.005 units)',
               'a unit parsed from text does not itself begin with a prefix letter (the text form is ambiguous there)']
SI = {'': 0, 'k': 3, 'M': 6, 'G': 9, 'T': 12, 'P': 15, 'E': 18, 'Z': 21, 'Y': 24}
INF = float('inf')


def PU(*a):
    from kerncraft.prefixedunit import PrefixedUnit
    return PrefixedUnit(*a)


def exact(v, p):
    if v in (INF, -INF):
        return v
    return F(str(v)) * 10 ** SI[p]


def close(x, want, tol=1e-9):
    if want in (INF, -INF) or x in (INF, -INF):
        return x == want
    if isinstance(x, float) and math.isnan(x):
        return False
    return abs(F(x) - want) <= abs(want) * F(tol) + F(1, 10 ** 15)


def val(q):
    return float(q)


def check(q, v, u, what, tol=1e-9):
    require(close(val(q), v, tol), what, 'has value', val(q), 'expected', float(v), repr(q))
    require(q.unit == u, what, 'has unit', repr(q.unit), 'expected', repr(u))
    require(q.prefix in SI, what, 'has prefix', repr(q.prefix))
    require(close(q.value * 10.0 ** SI[q.prefix], v, tol), what, 'value and prefix', repr(q), 'do not stand for', float(v))


def near(r, want):
    if want in (INF, -INF):
        return r == want
    return abs(F(r) - want) <= max(F('0.0101') * abs(want), F('0.00501'))


def ev_text(case, ctx):
    """parse -> prefix changes -> print -> parse -> yaml"""
    vs, p, u = case
    v = exact(float(vs), p) if vs in ('inf',) else F(vs) * 10 ** SI[p]
    q = PU(('%s %s%s' % (vs, p, u)).strip() if u or p else vs + ' ')
    check(q, v, u, 'parsing %r' % ('%s %s%s' % (vs, p, u)))
    ctx.step()
    q3 = PU(float(vs), p, u)
    check(q3, v, u, 'three-argument form')
    if vs.lstrip('-').isdigit():
        qi = PU(int(vs), p, u)
        check(qi, v, u, 'three-argument form with an integer')
        require(isinstance(float(qi), float) and qi == q and float(qi * 1) == float(q), 'integer value', repr(qi))
        roundtrip(qi.reduced(), v, u, ctx)
    if u:
        check(PU(float(vs), p + u), v, u, 'two-argument form')
    require(q3 == q and not (q3 != q) and q3 <= q and q3 >= q and not q3 < q and not q3 > q,
            'equal quantities compare unequal', repr(q), repr(q3))
    for t in SI:
        w = q.with_prefix(t)
        check(w, v, u, 'with_prefix(%r) of %r' % (t, q))
        require(w.prefix == t, 'with_prefix(%r) gives prefix %r' % (t, w.prefix))
        ctx.step()
        roundtrip(w, v, u, ctx)
    check(q.reduced(), v, u, 'reduced() of %r' % q)
    roundtrip(q.reduced(), v, u, ctx)
    if v not in (INF, -INF):
        require(close(q.base_value(), v), 'base_value of', repr(q), q.base_value())
        require(abs(int(q) - v) <= 1 + abs(v) * F(1, 10 ** 9), 'int of', repr(q), int(q))
    ctx.state(str(v), u)
    return '%s %s' % (q, q.reduced().prefix)


def roundtrip(q, v, u, ctx):
    s = str(q)
    try:
        r = PU(s)
    except (AssertionError, ValueError) as e:
        raise Violation('printed form %r of %r cannot be read again: %s' % (s, q, e))
    ctx.step()
    require(near(float(r), v), 'printing', repr(q), 'as', repr(s), 'and reading gives', float(r), 'expected', float(v))
    require(r.unit == u, 'printing', repr(q), 'as', repr(s), 'and reading gives unit', repr(r.unit))


def rounding(x, digits):
    """(lower, upper) value of x rounded to digits places; ties either way"""
    y = x * 10 ** digits
    lo = y.__floor__()
    if y - lo < F(1, 2):
        return {F(lo) / 10 ** digits}
    if y - lo > F(1, 2):
        return {F(lo + 1) / 10 ** digits}
    return {F(lo) / 10 ** digits, F(lo + 1) / 10 ** digits}


def ev_prefix(case, ctx):
    """Choice of the prefix: the largest one which loses at most max_error when rounded and shows at least 0.9."""
    vs, p = case
    v = F(vs) * 10 ** SI[p]
    q = PU(float(vs), p, 'B')
    require(float(PU(float(v))) == float(v) and PU(float(v)).unit == '' and PU(float(v)).prefix == '', 'single number', repr(PU(float(v))))
    for err in (0.0, 0.001, 0.01, 0.1, 0.5):
        for digits in (0, 1, 2, 4):
            for lo in ('', 'k', 'G'):
                for hi in (None, '', 'k', 'M', 'T'):
                    sure, maybe = {lo}, {lo}
                    for t, e in SI.items():
                        if hi is not None and e > SI[hi] or e < SI[lo]:
                            continue
                        x = v / F(10) ** e
                        rs = rounding(x, digits)
                        lost = [abs(r - x) / x for r in rs]
                        tol = F(1, 10 ** 9)
                        if err and all(l <= F(str(err)) * (1 - tol) for l in lost) and min(rs) >= F('0.9') and x != F('0.9'):
                            sure.add(t)
                        if any(l <= F(str(err)) + tol for l in lost) and max(rs) >= F('0.9'):
                            maybe.add(t)
                    best = max(sure, key=lambda t: SI[t])
                    allowed = {t for t in maybe if SI[t] >= SI[best]}
                    got = q.good_prefix(err, digits, lo, hi)
                    require(got in allowed, 'good_prefix(%s, %s, %r, %r) of %r is' % (err, digits, lo, hi, q), repr(got), 'instead of', sorted(allowed))
                    ctx.step()
    require(q.good_prefix() == q.good_prefix(0.01, 2, '', None), 'defaults of good_prefix')
    require(q.reduced().prefix == q.good_prefix(0.0), 'reduced() has prefix', q.reduced().prefix)
    ctx.state(str(v))
    return q.good_prefix(), q.good_prefix(0.0)


def ev_yaml(case, ctx):
    import ruamel.yaml
    from kerncraft.prefixedunit import PrefixedUnit
    vs, p, u = case
    v = F(vs) * 10 ** SI[p]
    y = ruamel.yaml.YAML()
    y.register_class(PrefixedUnit)
    o = io.StringIO()
    y.dump({'a': [PU(float(vs), p, u)], 'b': PU(float(vs), p, u)}, o)
    d = y.load(o.getvalue())
    ctx.step(2)
    for q in (d['a'][0], d['b']):
        require(isinstance(q, PrefixedUnit), 'yaml round trip gives', type(q))
        require(near(float(q), v) and q.unit == u, 'yaml round trip of', vs, p, u, 'gives', repr(q), 'via', o.getvalue())
    # untagged scalars are recognised as quantities when the file says so
    d = y.load('x: !prefixed %s %s%s\n' % (vs, p, u) if u or p else 'x: !prefixed "%s "\n' % vs)
    require(close(float(d['x']), v) and d['x'].unit == u, 'yaml scalar', vs, p, u, 'gives', repr(d['x']))
    return repr(d['x'])


BIN = ['+', '-', '*', '/', '//', '%']


def apply_ref(op, a, b):
    """a=(value,unit), b=(value,unit or None). Returns (value, unit) or 'ValueError'; raises Skip out of domain."""
    (x, ux), (y, uy) = a, b
    plain = uy is None
    if op in '+-%' and len(op) == 1:
        if not plain and ux != uy:
            return 'ValueError'
        if op == '%':
            if y == 0:
                raise Skip('zero divisor')
            return (x - y * ((x / y).__floor__()), ux)
        return (x + y if op == '+' else x - y, ux)
    if op == '*':
        return (x * y, ux + ('' if plain else uy))
    if y == 0:
        raise Skip('zero divisor')
    u = ux + ('' if plain else '/' + uy)
    if op == '/':
        return (x / y, u)
    return (F((x / y).__floor__()), u)


def apply_impl(op, a, b):
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b,
            '//': lambda: a // b, '%': lambda: a % b}[op]()


def cmp_ok(op, q, want, ref_in, what):
    if op in ('//', '%'):
        x, y = ref_in
        require(q.unit == want[1], what, 'has unit', q.unit, 'expected', want[1])
        eps = (abs(x) + abs(y)) * F(1, 10 ** 9)
        r = F(float(q))
        if op == '%':
            # remainder: between 0 and y, and a whole number of y away from x (up to double rounding)
            k = round((x - r) / y)
            require(-eps <= r * (1 if y > 0 else -1) <= abs(y) + eps and abs(x - k * y - r) <= eps,
                    what, 'has value', float(q), 'expected', float(want[0]))
        else:
            require(-eps / abs(y) <= x / y - r <= 1 + eps / abs(y), what, 'has value', float(q), 'expected', float(want[0]))
            require(abs(r - round(r)) <= abs(r) * F(1, 10 ** 9), what, 'is not whole:', float(q))
    else:
        # sums of opposite sign may cancel: tolerance relative to the operands
        if op in '+-' and want[0] != 0:
            x, y = ref_in
            tol = (abs(x) + abs(y)) * F(1, 10 ** 9)
            require(abs(F(float(q)) - want[0]) <= tol, what, 'has value', float(q), 'expected', float(want[0]))
            require(q.unit == want[1], what, 'has unit', q.unit, 'expected', want[1])
        elif op in '+-':
            x, y = ref_in
            require(abs(float(q)) <= float(abs(x) + abs(y)) * 1e-9, what, 'has value', float(q), 'expected 0')
        else:
            check(q, want[0], want[1], what)


def exactly(x):
    return F(float(x)) == x


def ev_arith(case, ctx):
    """case: [operand, [op, operand], ...] applied left to right; operand [value, prefix, unit] or a plain number."""
    q, ref = PU(float(case[0][0]), case[0][1], case[0][2]), (exact(float(case[0][0]), case[0][1]), case[0][2])
    hist = repr(q)
    for op, o in case[1:]:
        if op == 'abs':
            q2, r2 = abs(q), (abs(ref[0]), ref[1])
            check(q2, r2[0], r2[1], 'abs(%s)' % hist)
        elif op in ('reduced', 'with'):
            q2 = q.reduced() if op == 'reduced' else q.with_prefix(o)
            r2 = ref
            check(q2, r2[0], r2[1], '%s of %s' % (op, hist))
        else:
            if isinstance(o, list):
                b, rb = PU(float(o[0]), o[1], o[2]), (exact(float(o[0]), o[1]), o[2])
            else:
                b, rb = o, (F(o), None)
            r2 = apply_ref(op, ref, rb)
            before = (q.value, q.prefix, q.unit)
            if r2 == 'ValueError':
                try:
                    got = apply_impl(op, q, b)
                except ValueError:
                    ctx.step()
                    return 'refused'
                raise Violation('%s %s %r of different units is accepted: %r' % (hist, op, b, got))
            q2 = apply_impl(op, q, b)
            cmp_ok(op, q2, r2, (ref[0], rb[0]), '%s %s %r' % (hist, op, b))
            require(before == (q.value, q.prefix, q.unit), 'operand changed by', op)
            if rb[1] is not None and exactly(ref[0]) and exactly(rb[0]) and \
                    exactly(F(q.value)) and F(q.value) * 10 ** SI[q.prefix] == ref[0]:
                x, y = ref[0], rb[0]
                require((q < b, q > b, q <= b, q >= b, q == b, q != b) ==
                        (x < y, x > y, x <= y, x >= y, x == y, x != y), 'comparison of', repr(q), 'and', repr(b))
        ctx.step()
        hist = '(%s %s %s)' % (hist, op, o)
        q, ref = q2, r2
        if op in '%+-':  # rounding was judged above: continue from the value of the implementation
            ref = (F(float(q)), ref[1])
        if op == '//':
            ref = (F(round(float(q))), ref[1])
        ctx.state(str(ref[0]), ref[1])
    return repr(q)


def suites(tier):
    big = tier == 'thorough'
    vals = ['0', '1', '2.5', '0.01', '0.5', '9.99', '12', '64', '100.25', '999', '999.99', '1000', '1024', '12345.678', '1000000',
            '123456789'] + (['0.001', '3', '7', '37', '450', '0.9', '0.89', '89.999', '10.005', '999999', '5e0'[:1],
                             '18446744073709551616'] if big else [])
    units = ['B', 'B/s', 'Hz', 'FLOP/s', 'It/s', 'cy/CL', '', 's', 'B/cy', 'CL'] + (['bit', 'FLOP/cy', 'x y'] if big else [])
    neg = ['-1', '-2.5', '-1000', '-12345.678', '-0.5']

    def text():
        for v in vals + neg:
            for p in SI:
                for u in units:
                    yield [v, p, u]
        for p in SI:
            for u in units:
                yield ['inf', p, u]

    def yaml_():
        for v in vals[:10]:
            for p in SI:
                for u in units[:6]:
                    yield [v, p, u]

    ov = ['0', '1', '2.5', '3', '1000', '64', '-2'] + (['0.5', '1000000', '7.25'] if big else [])
    op_ = ['', 'k', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y']
    ou = ['B', 's', 'kg', 'Mcell', '', 'Page']
    operands = [[v, p, u] for v in ov for p in op_ for u in ou]
    second = [[v, p, u] for v in ov for p in (op_ if big else ['', 'k', 'G', 'T', 'E']) for u in ['B', 's', 'kg', '']]

    def arith1():
        for a in operands:
            for op in ('abs', 'reduced'):
                yield [a, [op, None]]
            for t in op_:
                yield [a, ['with', t]]
            for op in BIN:
                for n in (1, 2, 1000, 0.5, -3):
                    yield [a, [op, n]]
        for a in operands:
            for b in second:
                for op in BIN:
                    if a[2] == b[2] or op in '*/+-%':
                        yield [a, [op, b]]

    small = [[v, p, u] for v in ('1', '3', '2.5') for p in ('', 'k', 'T') for u in ('B', 's')]
    ops2 = [[op, b] for op in BIN for b in small[::2] + [2, 1000]] + [['abs', None], ['reduced', None], ['with', 'M'], ['with', 'E']]

    def arith2():
        for n in ([2, 3] if big else [2]):
            for a in small:
                for ops in itertools.product(ops2 if n == 2 else ops2[::3], repeat=n):
                    yield [a] + [list(o) for o in ops]

    return [
        Suite('text', text, ev_text, chunk=40, bound='all value x prefix x unit texts of the alphabet, all prefix changes, print/parse'),
        Suite('prefix', lambda: ([v, p] for v in vals + ['0.95', '0.899', '0.905', '1.5', '3.14159', '950', '899', '905', '1004.9', '1005.1', '2000', '90500'] if F(v) > 0
                                 for p in SI), ev_prefix, chunk=4, bound='choice of the prefix for values x prefixes x 5 errors x 4 precisions x 3 lower x 5 upper limits'),
        Suite('yaml', yaml_, ev_yaml, chunk=20, bound='values x prefixes x units through the YAML form'),
        Suite('single-operations', arith1, ev_arith, chunk=500, bound='every operation on every pair of operands of the alphabet'),
        Suite('operation-histories', arith2, ev_arith, chunk=500, bound='all histories of %s operations' % ('2-3' if big else '2')),
    ]
