"""C06: address streams. Every kernel of the enumerated families, every iteration, against direct execution of the
loop nest over arrays laid out by the documented rule."""
import itertools

from ..core import Suite, Skip, Violation, require
from .. import family, kern

PROPERTY = 'C06'
ASSUMPTIONS = ['syntactically equal subscripts denote one access (documented: accesses are sets)',
               'array sizes, subscripts and loop bounds are affine in constants and loop indices']


def reference(k, consts, cl, spacing=0, picks=None):
    es = kern.ESIZE[k.get('type', 'double')]
    base, pos = {}, 0
    for n in sorted(k['arrays']):
        base[n] = pos
        size = es
        for d in k['arrays'][n]:
            size *= kern.ev(d, consts)
        size += spacing
        pos += (size + cl - 1) // cl * cl
    idx = [l[0] for l in k['loops']]

    def moving(l):
        if len(l) == 1:
            return False
        # depends on a loop index after flattening
        pts = [dict(consts, **{i: v for i, v in zip(idx, vs)}) for vs in itertools.product((3, 5), repeat=len(idx))]
        return len({flat(l, p) for p in pts}) > 1

    def flat(l, env):
        dims = [kern.ev(d, env) for d in k['arrays'][l[0]]]
        o = 0
        for d, e in zip(dims, l[1]):
            o = o * d + kern.ev(e, env)
        return o

    loads, stores = family.accesses(k)
    loads = [l for l in family.distinct(loads) if moving(l)]
    stores = [l for l in family.distinct(stores) if moving(l)]
    out = []
    for it in (kern.indices(k, consts) if picks is None else picks):
        env = dict(consts, **it)
        out.append((sorted(base[l[0]] + flat(l, env) * es for l in loads),
                    sorted(base[l[0]] + flat(l, env) * es for l in stores)))
    return out


def rows(o):
    return [(sorted(int(x) for x in r['load']), sorted(int(x) for x in r['store'])) for r in o]


def ev(case, ctx):
    k, consts, cl = case
    from kerncraft.prefixedunit import PrefixedUnit
    kc = kern.kernel_code(k, consts, kern.machine(**{'cacheline size': PrefixedUnit(cl, 'B')}))
    compare(kc, k, consts, cl, ctx, full=True)
    return str(reference(k, consts, cl)[-1])


def compare(kc, k, consts, cl, ctx, full=False):
    want = reference(k, consts, cl)
    n = len(want)
    if n == 0 or (not want[0][0] and not want[0][1]):
        raise Skip('no moving accesses')
    got = rows(kc.compile_global_offsets(iteration=range(0, n)))
    ctx.step(n)
    require(len(got) == n, 'range of', n, 'iterations gives', len(got))
    for g in range(n):
        require(got[g] == want[g], 'iteration', g, 'touches (loads, stores)', got[g], 'expected', want[g])
        ctx.state(str(want[g]))
    if not full:
        return
    for g in sorted({0, 1, n // 3, n - 1}):
        if g < n:
            require(rows(kc.compile_global_offsets(iteration=g)) == [want[g]], 'single iteration', g, 'differs')
    sel = [n - 1, 0, n // 2]
    require(rows(kc.compile_global_offsets(iteration=sel)) == [want[g] for g in sel], 'list of iterations', sel, 'differs')
    require(rows(kc.compile_global_offsets(iteration=tuple(sel))) == [want[g] for g in sel], 'tuple of iterations differs')
    a, st = n // 4, 3
    require(rows(kc.compile_global_offsets(iteration=range(a, n, st))) == want[a:n:st], 'strided range differs')
    require(rows(kc.compile_global_offsets()) == want[:1], 'default iteration is not the first one')
    for sp in (8, 100):
        w = reference(k, consts, cl, sp)
        require(rows(kc.compile_global_offsets(iteration=range(0, n), spacing=sp)) == w, 'spacing', sp, 'differs')
    for bad in (n, [0, n], range(n - 1, n + 2)):
        try:
            r = kc.compile_global_offsets(iteration=bad)
        except Exception:
            continue
        raise Violation('iterations %s beyond the last one (%d) give %s' % (bad, n - 1, rows(r)))
    ctx.step(12)


def ev_large(case, ctx):
    """Huge arrays: selected iterations only, mixed-radix decoding as oracle."""
    k, consts = case
    ranges = [range(kern.ev(a, consts), kern.ev(b, consts), int(s)) for _, a, b, s in k['loops']]
    n = 1
    for r in ranges:
        n *= len(r)
    gits = [g for g in sorted({0, 1, 2, len(ranges[-1]) - 1, len(ranges[-1]), len(ranges[-1]) + 1, n // 3, n // 2, n - 2, n - 1}) if g < n]
    picks = []
    for g in gits:
        d = {}
        for l, r in reversed(list(zip(k['loops'], ranges))):
            g, q = divmod(g, len(r))
            d[l[0]] = r[q]
        picks.append(d)
    kc = kern.kernel_code(k, consts)
    want = reference(k, consts, 64, picks=picks)
    got = rows(kc.compile_global_offsets(iteration=gits))
    ctx.step(len(gits))
    for g, w, h in zip(gits, want, got):
        require(w == h, 'iteration', g, 'of', n, 'touches', h, 'expected', w)
    require(rows(kc.compile_global_offsets(iteration=range(n - 3, n))) ==
            rows(kc.compile_global_offsets(iteration=[n - 3, n - 2, n - 1])), 'last iterations as range and list differ')
    return str(want[-1])


def ev_desc(case, ctx):
    k, consts, cl = case
    from kerncraft.kernel import KernelDescription
    from kerncraft.prefixedunit import PrefixedUnit
    m = kern.machine(**{'cacheline size': PrefixedUnit(cl, 'B')})
    kd = KernelDescription(kern.description(with_lists(k)), machine=m)
    for c, v in consts.items():
        kd.set_constant(c, v)
    compare(kd, k, consts, cl, ctx)


def with_lists(k):
    loads, stores = family.accesses(k)
    d = dict(k)
    for nm, ls in (('loads', loads), ('stores', stores)):
        o = {}
        for l in family.distinct(ls):
            o.setdefault(l[0], []).append(l[1] if len(l) > 1 else None)
        d[nm] = o
    d['flops'] = family.flops(k)
    return d


def suites(tier):
    big = tier == 'thorough'

    def fam(dim, nload, types, loops=None, cls=(64,)):
        def gen():
            for k in family.kernels(dim, nload, ('=',) if not big else ('=', '+='), loops, types):
                for c in family.CONSTS[dim][:2 if big else 1]:
                    for cl in cls:
                        yield [k, c, cl]
        return gen

    def two_stmts():
        for dim in (1, 2):
            R = family.FAM[dim][1]
            for lo in family.FAM[dim][2]:
                for x, y in itertools.permutations(R, 2):
                    yield [family.make(dim, lo, [[x, '=', y], [y, '+=', R[0]]], type='float'), family.CONSTS[dim][1], 128]

    def large():
        big_ = {2: [{'M': 300007, 'N': 500009}, {'M': 5, 'N': 2 ** 31 + 11}], 3: [{'M': 4001, 'N': 5003, 'L': 6007}],
                1: [{'N': 2 ** 33 + 5}]}
        for dim in (1, 2, 3):
            R = family.FAM[dim][1]
            for lo in family.FAM[dim][2]:
                for c in big_[dim]:
                    for r in R:
                        if r != ['s']:
                            yield [family.make(dim, lo, [[r, '=', ['+', R[0], R[1]]]]), c]

    def lengths():
        for n in range(3, 700 if big else 220):
            k = family.make(2, family.L2[0], [[['a', ['j', 'i']], '=', ['a', ['j-1', 'i']]]])
            yield [k, {'M': 4, 'N': n}, 64]

    return [
        Suite('lengths', lengths, ev, chunk=4, bound='every row length from 3 to %d' % (699 if big else 219)),
        Suite('large', large, ev_large, chunk=2, bound='address spaces up to 2^37 B, every access form, 10 selected iterations'),
        Suite('one-loop', fam(1, 2, ('double', 'float'), None, (64, 32)), ev, chunk=4,
              bound='all statements over 10 access forms, 3 loop forms, 2 types, 2 line sizes'),
        Suite('two-loops', fam(2, 2 if big else 1, ('double', 'float') if big else ('double',)), ev, chunk=4,
              bound='all statements over 13 access forms, 3 loop nests'),
        Suite('three-loops', fam(3, 2 if big else 1, ('double',)), ev, chunk=4, bound='all statements over 10 access forms, 2 loop nests'),
        Suite('two-statements', two_stmts, ev, chunk=4, bound='all ordered pairs of access forms in two statements'),
        Suite('descriptions', fam(2, 1, ('float',)), ev_desc, chunk=4, bound='the same kernels given as descriptions'),
    ]
