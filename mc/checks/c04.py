"""C04: kernel queries depend only on the constants currently set. Every history of constant definitions, state
resets and queries up to a depth, on one and on two interleaved kernel objects."""
import io
import itertools

from ..core import Suite, Violation, require
from .. import family, kern
from . import c06

PROPERTY = 'C04'
ASSUMPTIONS = ['constants are set through set_constant / clear_state, the public interface']

K2 = family.build({'a': ['M', 'N'], 'b': ['N', 'M+3'], 'c': ['N+M']}, ['s'], [['j', 1, 'M-1', 1], ['i', 1, 'N-1', 2]],
                  [[['a', ['j', 'i']], '+=', ['+', ['a', ['j-1', 'i']], ['*', ['s'], ['b', ['i', 'j']]]]],
                   [['c', ['i+M']], '=', ['c', ['i']]]])
K1 = family.build({'a': ['N'], 'b': ['2*N']}, [], [['i', 2, 'N-1', 3]], [[['b', ['2*i']], '=', ['+', ['a', ['i-2']], ['a', ['i+1']]]]],
                  type='float')
KERNELS = {'two': K2, 'one': K1}


def Q():
    from kerncraft.kernel import symbol_pos_int
    n, m = symbol_pos_int('N'), symbol_pos_int('M')

    def out(f):
        s = io.StringIO()
        f(output_file=s)
        return s.getvalue()

    def its(k, **kw):
        r = k.compile_global_offsets(**kw)
        return [(sorted(map(int, x['load'])), sorted(map(int, x['store']))) for x in r]

    def idx(k, g):
        return sorted((str(s), str(v)) for s, v in k.global_iterator_to_indices(g).items())

    def back(k):
        return str(k.indices_to_global_iterator({symbol_pos_int(l['index']): l['start'] + l['increment']
                                                 for l in k.get_loop_stack(subs_consts=True)}))

    return [
        ('subs_consts', lambda k: [str(k.subs_consts(e)) for e in (n, m, n * m + 1, 2 * n - 3)]),
        ('array_sizes', lambda k: [sorted((a, str(v)) for a, v in k.array_sizes(in_bytes=b, subs_consts=c).items())
                                   for b in (False, True) for c in (False, True)]),
        ('iteration_length', lambda k: [str(k.iteration_length(d)) for d in (None, 0, -1)]),
        ('loop_stack', lambda k: [[sorted((a, str(b)) for a, b in l.items()) for l in k.get_loop_stack(subs_consts=s)]
                                  for s in (True, False)]),
        ('max_global_iteration', lambda k: str(k.max_global_iteration())),
        ('to_indices', lambda k: [idx(k, g) for g in (0, 1, 5)]),
        ('global_iterator', lambda k: [str(k.subs_consts(k.global_iterator())), str(k.global_iterator())]),
        ('from_indices', back),
        ('offsets', lambda k: its(k, iteration=0) + its(k, iteration=range(0, 2), spacing=64)),
        ('offsets_last', lambda k: its(k, iteration=int(k.max_global_iteration()))),
        ('distances', lambda k: [sorted((v, sorted(str(k.subs_consts(e)) for e in l))
                                        for v, l in k.compile_sympy_accesses().items()), sorted(k.compile_relative_distances())]),
        ('bytes_per_iteration', lambda k: str(k.bytes_per_iteration)),
        ('reports', lambda k: out(k.print_constants_info) + str(sorted(out(k.print_kernel_info))) + out(k.print_variables_info)),
        ('constants', lambda k: [(str(a), b) for a, b in k.constants.items()]),
    ]


def ask(q, kc):
    try:
        return repr(q(kc))
    except Exception as e:
        return 'raises ' + type(e).__name__


_fresh = {}


def fresh(kname, consts, qn, q):
    key = (kname, tuple(sorted(consts.items())), qn)
    if key not in _fresh:
        _fresh[key] = ask(q, kern.kernel_code(KERNELS[kname], dict(sorted(consts.items()))))
    return _fresh[key]


def numbers(kname, consts):
    """Independent answers for complete sets of constants."""
    k = KERNELS[kname]
    its = list(kern.indices(k, consts))
    ref = c06.reference(k, consts, 64)
    sizes = {}
    for a, dims in k['arrays'].items():
        n = 1
        for d in dims:
            n *= kern.ev(d, consts)
        sizes[a] = n * kern.ESIZE[k.get('type', 'double')]
    return its, ref, sizes


_num = {}


def evh(case, ctx):
    kname, hist = case
    qs = Q()
    byname = dict(qs)
    kcs = [kern.kernel_code(KERNELS[kname]), None]
    cur = [{}, {}]
    for op in hist:
        o = 0
        if op[0] == 'B':
            o, op = 1, op[1:]
            if kcs[1] is None:
                kcs[1] = kern.kernel_code(KERNELS[kname])
        ctx.step()
        if op[0] == 'set':
            kcs[o].set_constant(op[1], op[2])
            cur[o][op[1]] = op[2]
        elif op[0] == 'clear':
            kcs[o].asm_block, kcs[o].pointer_increment = 7, 24
            kcs[o].clear_state()
            cur[o] = {}
            require(kcs[o].asm_block is None and kcs[o].pointer_increment is None and not kcs[o].constants,
                    'clearing the state keeps', kcs[o].asm_block, kcs[o].pointer_increment, kcs[o].constants)
        elif op[0] == 'bad':
            for n, v in (('N', 3.0), ('N', '4'), (5, 4), ('M', None)):
                try:
                    kcs[o].set_constant(n, v)
                except AssertionError:
                    continue
                raise Violation('constant %r = %r accepted' % (n, v))
        else:
            ask(byname[op[1]], kcs[o])
    for o in (0, 1):
        if kcs[o] is None:
            continue
        for qn, q in qs:
            got, want = ask(q, kcs[o]), fresh(kname, cur[o], qn, q)
            ctx.step()
            require(got == want, 'query', qn, 'after', hist, 'answers', got[:300], 'a new kernel', want[:300])
        if 'N' in cur[o] and ('M' in cur[o] or kname == 'one'):
            key = (kname, tuple(sorted(cur[o].items())))
            if key not in _num:
                _num[key] = numbers(kname, cur[o])
            its, ref, sizes = _num[key]
            kc = kcs[o]
            require(int(kc.iteration_length()) == len(its), 'iteration count', kc.iteration_length(), 'expected', len(its))
            require({a: int(b) for a, b in kc.array_sizes(in_bytes=True, subs_consts=True).items()} == sizes, 'array sizes')
            require(c06.rows(kc.compile_global_offsets(iteration=range(0, len(its)))) == ref, 'addresses differ from direct execution')
        ctx.state(kname, str(sorted(cur[o].items())), str(hist[-1:]))
    ctx.trace()
    return str(cur)


def suites(tier):
    big = tier == 'thorough'
    SETS = [['set', 'N', 8], ['set', 'N', 11], ['set', 'M', 7], ['set', 'M', 9]]
    qn = [['q', n] for n, _ in _names()]

    def single():
        for kname in ('two', 'one'):
            alpha = SETS + [['clear'], ['bad']] + qn
            for d in range(1, 4):
                for h in itertools.product(alpha, repeat=d):
                    if d == 3 and not big and kname == 'one' and h[0][0] == 'q':
                        continue
                    yield [kname, list(h)]

    def deep():
        alpha = SETS + [['clear']] + [['q', n] for n in ('offsets', 'iteration_length', 'array_sizes')]
        for h in itertools.product(alpha, repeat=5 if big else 4):
            yield ['two', list(h)]

    def pairs():
        base = SETS[:3] + [['clear'], ['q', 'offsets'], ['q', 'global_iterator']]
        alpha = base + [['B'] + x for x in base]
        for h in itertools.product(alpha, repeat=4 if big else 3):
            if any(x[0] == 'B' for x in h) and any(x[0] != 'B' for x in h):
                yield ['two', list(h)]

    return [
        Suite('histories', single, evh, chunk=32, bound='all histories up to 3 operations over 20 operations, 2 kernels'),
        Suite('deep', deep, evh, chunk=64, bound='all histories of %d operations over 8 operations' % (5 if big else 4)),
        Suite('two-objects', pairs, evh, chunk=32, bound='all interleaved histories of two kernel objects, %d operations' % (4 if big else 3)),
    ]


def _names():
    return [(n, None) for n in ('subs_consts', 'array_sizes', 'iteration_length', 'loop_stack', 'max_global_iteration', 'to_indices',
                                'global_iterator', 'from_indices', 'offsets', 'offsets_last', 'distances', 'bytes_per_iteration',
                                'reports', 'constants')]
