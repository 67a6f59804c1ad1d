"""C09: layer conditions. Exhaustive families of kernels; every option and every evaluated prediction, at every constant
around each switching point, against reuse distances and byte requirements computed numerically."""
import itertools

from ..core import Suite, Skip, Violation, require, scratch
from .. import family, kern
from . import c06, c11

PROPERTY = 'C09'
ASSUMPTIONS = ['reading and writing the same element are two accesses (at distance zero)',
               'distances are ordered as documented: by degree and coefficients, all constants standing for the same large value',
               'an array set exactly as large as the cache may be judged either way (strict comparison documented by the tests)',
               'dimensions are large compared to the offsets in subscripts']

BIGX = 10 ** 7
POOL = {
    1: (['i', 'N'], {'a': ['N'], 'b': ['N'], 'u': ['N+5']},
        [['a', ['i']], ['a', ['i-1']], ['a', ['i+1']], ['a', ['i+2']], ['a', ['i-3']], ['b', ['i']], ['b', ['i-2']], ['u', ['i+4']], ['s']],
        [['i', 3, 'N-3', 1]], ['N']),
    2: (['j', 'i'], {'a': ['M', 'N'], 'b': ['M', 'N'], 'v': ['N'], 'w': ['M'], 'l': ['M*N']},
        [['a', ['j', 'i']], ['a', ['j-1', 'i']], ['a', ['j+1', 'i']], ['a', ['j', 'i+1']], ['a', ['j', 'i-2']], ['a', ['j+2', 'i-1']],
         ['b', ['j', 'i']], ['b', ['j-1', 'i']], ['v', ['i']], ['v', ['i+1']], ['l', ['j*N+i']], ['s']],
        [['j', 2, 'M-2', 1], ['i', 2, 'N-2', 1]], ['M', 'N']),
    3: (['k', 'j', 'i'], {'a': ['M', 'N', 'N'], 'b': ['M', 'N', 'N'], 'p': ['N', 'N'], 'z': ['N'], 'q': ['4', 'M', 'N', 'N']},
        [['a', ['k', 'j', 'i']], ['a', ['k-1', 'j', 'i']], ['a', ['k+1', 'j', 'i']], ['a', ['k', 'j-1', 'i']], ['a', ['k', 'j+1', 'i']],
         ['a', ['k', 'j', 'i+1']], ['b', ['k', 'j', 'i']], ['b', ['k+1', 'j-1', 'i']], ['p', ['j', 'i']], ['p', ['j+1', 'i']], ['z', ['i']],
         ['q', ['0', 'k', 'j', 'i']], ['q', ['3', 'k', 'j', 'i']]],
        [['k', 2, 'M-2', 1], ['j', 2, 'N-2', 1], ['i', 2, 'N-2', 1]], ['M', 'N']),
}


def make(dim, lhs, rhs, **kw):
    _, A, R, loops, _ = POOL[dim]
    tree = rhs[0]
    for r in rhs[1:]:
        tree = ['+', tree, r]
    acc = [[lhs, '=', tree]]
    u = family.used(acc)
    return family.build({n: A[n] for n in A if n in u}, ['s'] if 's' in u else [], kw.pop('loops', loops), acc, **kw)


def flat(k, l, env):
    o = 0
    for d, e in zip(k['arrays'][l[0]], l[1]):
        o = o * kern.ev(d, env) + kern.ev(e, env)
    return o


class Ref:
    def __init__(self, k, inner):
        self.k, self.es = k, kern.ESIZE[k.get('type', 'double')]
        loads, stores = family.accesses(k)
        idx = {l[0]: 10 for l in k['loops']}
        self.groups = []
        big = dict(idx, M=BIGX, N=BIGX, L=BIGX)
        for n in sorted(k['arrays']):
            ls = [l for l in family.distinct(loads) + family.distinct(stores) if l[0] == n]
            mv = [l for l in ls if any(inner in str(e) for e in l[1])]
            if mv:
                if len(mv) != len(ls):
                    raise Skip('array with and without the inner index')
                ls = sorted(ls, key=lambda l: -flat(k, l, big))
                self.groups.append(ls)
        self.stores = [l for l in family.distinct(stores) if any(l in g for g in self.groups)]
        self.idx = idx
        self.rank = self.dist(dict(M=BIGX, N=BIGX, L=BIGX))
        self.n = len(self.rank)

    def dist(self, consts):
        env = dict(self.idx, **consts)
        out = []
        for g in self.groups:
            o = [flat(self.k, l, env) for l in g]
            out += [x - y for x, y in zip(o, o[1:])] + [None]
        return out

    def total(self, consts):
        t = 0
        for n, dims in self.k['arrays'].items():
            s = self.es
            for d in dims:
                s *= kern.ev(d, consts)
            t += s
        return t

    def requirement(self, tailrank, tail, consts):
        d = self.dist(consts)
        hit = [x for x, r in zip(d, self.rank) if r is not None and r <= tailrank]
        return (sum(hit) + tail * (self.n - len(hit))) * self.es, len(hit)

    def best(self, consts, size):
        """(misses, ambiguous)"""
        if self.total(consts) < size:
            return {0}
        b = self.n
        d = self.dist(consts)
        for x, r in zip(d, self.rank):
            if r is not None:
                need, hits = self.requirement(r, x, consts)
                if need <= size:
                    b = min(b, self.n - hits)
        return {b, 0} if self.total(consts) == size else {b}


def holds(cond, consts):
    import sympy
    if cond is True or cond is False:
        return bool(cond)
    r = cond.subs({s: consts[s.name] for s in cond.free_symbols})
    require(r in (sympy.true, sympy.false), 'condition', cond, 'has no truth value for', consts)
    return bool(r)


def num(e, consts):
    if hasattr(e, 'subs'):
        e = e.subs({s: consts[s.name] for s in e.free_symbols})
    return int(e)


def scan_points(ref, sizes, names):
    """Constants around every switching point of every reference option, plus small and large values."""
    pts = []
    for fixed in ([16], [40]) if len(names) > 1 else ([None],):
        for var in names:
            others = {n: fixed[0] for n in names if n != var}
            sigs = {}

            def sig(v):
                if v not in sigs:
                    c = dict(others, **{var: v})
                    sigs[v] = tuple(tuple(sorted(ref.best(c, s))) for s in sizes) + tuple(
                        ref.requirement(r, x, c)[0] <= s for s in sizes for x, r in zip(ref.dist(c), ref.rank) if r is not None)
                return sigs[v]
            flips = [8]
            todo = [(8, 6000)]
            while todo:     # requirements grow with every constant: no change between equal signatures
                lo, hi = todo.pop()
                if sig(lo) == sig(hi):
                    continue
                if hi - lo == 1:
                    flips += [lo, hi]
                    continue
                todo += [(lo, (lo + hi) // 2), ((lo + hi) // 2, hi)]
            pts += [dict(others, **{var: w}) for w in sorted(set(flips))]
            pts.append(dict(others, **{var: 10 ** 6}))
    if not names:
        pts = [{}]
    out = []
    for p in pts:
        if p not in out:
            out.append(p)
    return out


def kernel(k, mach, how, d):
    from kerncraft.kernel import KernelDescription
    if how == 'desc':
        return KernelDescription(kern.description(c06.with_lists(k)), machine=mach)
    import os
    fn = os.path.join(d, 'k.c')
    with open(fn, 'w') as f:
        f.write(kern.c_source(k))
    return kern.kernel_code(kern.c_source(k), None, mach, fn)


MACH = {'two': ([(4, 2, 1, 'LRU', True, True), (16, 4, 1, 'LRU', True, True)], 8, 'chain'),
        'three': ([(2, 8, 1, 'LRU', True, True), (8, 8, 2, 'LRU', True, True), (32, 8, 4, 'LRU', True, True)], 4, 'chain')}


def ev(case, ctx):
    k, mname, cores, how, maxpts = case
    from kerncraft.cacheprediction import LayerConditionPredictor
    from kerncraft.machinemodel import MachineModel
    names = sorted({n for dims in k['arrays'].values() for d in dims for n in 'MN' if n in d})
    inner = k['loops'][-1][0]
    ref = Ref(k, inner)
    if not ref.groups:
        raise Skip('no moving accesses')
    data = c11.synth(*MACH[mname])
    mach = MachineModel(machine_yaml=data)
    exp = c11.expected(data, cores)
    sizes = [v['sets'] * v['ways'] * v['cl_size'] for _, v in sorted(exp.items())]
    with scratch() as d:
        kc = kernel(k, mach, how, d)
        res = LayerConditionPredictor(kc, mach, cores, symbolic=True).results
    require(len(res['cache']) == len(sizes), 'number of levels', len(res['cache']))
    import sympy
    pts = scan_points(ref, sizes, names)
    dist = [x for x in res['distances']]
    for c in (pts[0], pts[-1]):
        want = sorted((x for x in ref.dist(c) if x is not None), reverse=True)
        require(sorted((num(x, c) for x in dist if x is not sympy.oo), reverse=True) == want and
                sum(x is sympy.oo for x in dist) == len(ref.groups), 'distances', dist, 'expected', want, 'at', c)
    ranks = [num(x, dict(M=BIGX, N=BIGX, L=BIGX)) if x is not sympy.oo else float('inf') for x in dist]
    require(ranks == sorted(ranks, reverse=True), 'distances are not sorted:', dist)
    for opts, size in zip(res['cache'], sizes):
        for o in opts:
            require(o['hits'] + o['misses'] == ref.n, 'hits and misses', o, 'do not add up to', ref.n, 'accesses')
        for c in pts:
            ctx.step()
            for o in opts:
                h = holds(o['condition'], c)
                if o['misses'] == 0 and o['tail'] is sympy.oo:
                    t = ref.total(c)
                    require(t == size or h == (t < size), 'condition', o['condition'], 'at', c, 'is', h, 'but the arrays need', t,
                            'bytes of', size)
                elif o['hits'] == 0 and o['tail'] == 0 and o['condition'] is True:
                    pass
                else:
                    rk = num(o['tail'], dict(M=BIGX, N=BIGX, L=BIGX)) / ref.es
                    need, hits = ref.requirement(rk, num(o['tail'], c) // ref.es, c)
                    require(hits == o['hits'], 'option', o, 'expected hits', hits)
                    require(h == (need <= size), 'condition', o['condition'], 'at', c, 'is', h, 'but the reuse needs', need, 'bytes of', size)
            got = min([o['misses'] for o in opts if holds(o['condition'], c)], default=None)
            require(got in ref.best(c, size), 'best option at', c, 'has', got, 'misses, expected', ref.best(c, size))
    # evaluated predictions
    step = max(1, len(pts) // maxpts)
    for c in pts[::step] + [pts[-1]]:
        with scratch() as d:
            kc = kernel(k, mach, how, d)
            for n, v in c.items():
                kc.set_constant(n, v)
            p = LayerConditionPredictor(kc, mach, cores)
        miss = [o['misses'] for o in p.results['cache']]
        for m, s in zip(miss, sizes):
            require(m in ref.best(c, s), 'misses', miss, 'at', c, 'expected', [ref.best(c, s) for s in sizes], 'cache sizes', sizes)
        o = sorted(zip(sizes, miss))
        require(all(a[0] == b[0] or a[1] >= b[1] for a, b in zip(o, o[1:])), 'larger caches miss more:', o)
        hits = [ref.n - m for m in miss]
        require(list(p.get_misses()) == miss + [0], 'get_misses', p.get_misses())
        require(list(p.get_hits()) == hits + [miss[-1]], 'get_hits', p.get_hits())
        require(list(p.get_loads())[1:] == miss and len(p.get_loads()) == len(sizes) + 1, 'get_loads', p.get_loads())
        ev_ = list(p.get_evicts())
        require(ev_[-1] == 0 and len(ev_) == len(sizes) + 1 and list(p.get_stores())[1:] == ev_[:-1], 'stores and evicts of levels differ')
        if len(ref.stores) <= 1:
            for e, s in zip(ev_, sizes):
                t = ref.total(c)
                require(t == s or e == (0 if t < s else len(ref.stores)), 'evicts', ev_, 'at', c, 'arrays need', t, 'bytes of', s)
        ctx.step(len(sizes))
        ctx.state(str(miss), str(k['stmts']), cores)
    ctx.trace(len(pts))
    return str(miss) + str(dist)


def ev_model(case, ctx):
    """The LC model gives the layer conditions for the requested cores, and reports them."""
    import io
    import re
    k, mname, cores, verbose = case
    from kerncraft.cacheprediction import LayerConditionPredictor
    from kerncraft.machinemodel import MachineModel
    from kerncraft.models import LC
    data = c11.synth(*MACH[mname])
    exp = [v['sets'] * v['ways'] * v['cl_size'] for _, v in sorted(c11.expected(data, cores or 1).items())]
    mach = MachineModel(machine_yaml=data)

    class Args:
        pass
    Args.cores, Args.verbose = cores, verbose
    with scratch() as d:
        kc = kernel(k, mach, 'desc', d)
        want = LayerConditionPredictor(kc, MachineModel(machine_yaml=data), cores or 1, symbolic=True).results
        m = LC(kernel(k, mach, 'desc', d), mach, Args if cores else None, None)
        m.analyze()
        require(str(m.results['cache']) == str(want['cache']), 'LC model gives', m.results['cache'], 'instead of', want['cache'], 'for', cores, 'cores')
        out = io.StringIO()
        m.report(output_file=out)
    text = out.getvalue()
    blocks = re.split(r'Layer conditions for (\w+) cache with (\d+) KB:\n', text)
    require(len(blocks) == 1 + 3 * len(exp), 'report', text)
    require(verbose > 2 or not blocks[0], 'report', text)
    for n, (opts, size) in enumerate(zip(want['cache'], exp)):
        name, kb, body = blocks[1 + 3 * n:4 + 3 * n]
        require(name == 'L%d' % (n + 1) and int(kb) == size // 1024, 'level', name, kb, 'instead of', size)
        lines = [l for l in body.split('\n') if l.strip()]
        require(lines[0].split() == ['condition', 'misses', 'hits'], 'header', lines[0])
        got = [(' '.join(l.split()[:-2]), l.split()[-2], l.split()[-1]) for l in lines[1:]]
        require(got == [(' '.join(repr(o['condition']).split()), str(o['misses']), str(o['hits'])) for o in opts], 'level', name, 'is reported as', got, 'for', opts)
        ctx.step()
    ctx.state(str(k['stmts']), mname, cores)
    return text[:200]


def ev_refuse(case, ctx):
    k, how = case
    from kerncraft.cacheprediction import LayerConditionPredictor
    from kerncraft.machinemodel import MachineModel
    mach = MachineModel(machine_yaml=c11.synth(*MACH['two']))
    with scratch() as d:
        kc = kernel(k, mach, how, d)
        for sym in (True, False):
            for n, v in (('M', 30), ('N', 40)):
                kc.set_constant(n, v)
            try:
                r = LayerConditionPredictor(kc, mach, 1, symbolic=sym).results
            except Exception:
                continue
            raise Violation('kernel outside of the preconditions gives ' + str(r['cache'])[:300])
    return 'refused'


def suites(tier):
    big = tier == 'thorough'

    def plain(dim, nr, types=('double',), machs=(('two', 1),), how='desc', maxpts=4):
        def gen():
            R = POOL[dim][2]
            for n in range(1, nr + 1):
                for rhs in itertools.combinations(R, n):
                    for lhs in R:
                        for t in types:
                            for m, c in machs:
                                yield [make(dim, lhs, rhs, type=t), m, c, how, maxpts]
        return gen

    def constant_sizes():
        for n in (4, 16, 40, 90, 300):
            arr = {'a': [str(n), str(n)], 'b': ['N', str(n)]}
            for lhs in (['b', ['j', 'i']], ['a', ['j', 'i']]):
                for r in (['a', ['j-1', 'i']], ['a', ['j', 'i+1']], ['b', ['j+1', 'i']]):
                    acc = [[lhs, '=', ['+', r, ['a', ['j+1', 'i']]]]]
                    u = family.used(acc)
                    for m, c in (('two', 1), ('three', 4)):
                        yield [family.build({x: arr[x] for x in arr if x in u}, [], [['j', 1, str(n - 1), 1], ['i', 1, str(n - 1), 1]], acc),
                               m, c, 'desc', 4]

    def refused():
        good = {1: ['a', ['i']], 2: ['a', ['j', 'i']], 3: ['a', ['k', 'j', 'i']]}
        bad = {1: [['a', ['2*i']], ['a', ['N-i']], ['b', ['3*i+1']], ['a', ['N*i']], ['a', ['i*i']]],
               2: [['b', ['i', 'j']], ['a', ['i', 'j']], ['a', ['j', '2*i']], ['a', ['i', 'i']], ['v', ['i+j']], ['v', ['i*j']],
                   ['a', ['j', 'N-i']], ['l', ['i*N+j']], ['b', ['j', '2*i+1']], ['a', ['i+j', 'i']], ['w', ['2*i']]],
               3: [['a', ['j', 'k', 'i']], ['a', ['k', 'i', 'j']], ['p', ['i', 'j']], ['p', ['k', 'i']], ['z', ['i+k']], ['a', ['k', 'j', '2*i']],
                   ['a', ['i', 'i', 'i']]]}
        for dim in (1, 2, 3):
            for b in bad[dim]:
                g = good[dim]
                for lhs, rhs in ((g, [b]), (b, [g]), (b, [b]), (g, [g, b]), (g, [b, g]), (['s'], [b])):
                    if b == ['p', ['k', 'i']] and dim == 3:
                        pass
                    for how in ('desc', 'code'):
                        yield [make(dim, lhs, rhs), how]
            L = POOL[dim][3]
            for n in range(dim):
                for st in (2, 3):
                    loops = [list(l) for l in L]
                    loops[n][3] = st
                    for lhs in (good[dim], ['s']):
                        for how in ('desc', 'code'):
                            yield [make(dim, lhs, [good[dim]], loops=loops), how]

    ms = (('two', 1), ('three', 1), ('three', 4))
    return [
        Suite('refused', refused, ev_refuse, chunk=4, bound='27 violating references in every position, steps 2 and 3 on every loop'),
        Suite('one-loop', plain(1, 4 if big else 2, ('double', 'float'), ms if big else ms[:1]), ev, chunk=4,
              bound='all target/source combinations of 9 references, <=2 (thorough 4) sources'),
        Suite('two-loops', plain(2, 3 if big else 2, ('float', 'double') if big else ('double',), ms if big else ms[2:], maxpts=4 if big else 2), ev, chunk=4,
              bound='all target/source combinations of 12 references, <=2 (3) sources'),
        Suite('three-loops', plain(3, 2 if big else 1), ev, chunk=4,
              bound='all target/source combinations of 13 references, 1 (2) sources'),
        Suite('three-loops-stencils', lambda: ([make(3, POOL[3][2][6], list(r), type='float'), 'three', 2, 'desc', 3]
                                               for n in (3, 4, 5, 6) for r in itertools.combinations(POOL[3][2][:6], n)), ev, chunk=2,
              bound='all stencils of 3 to 6 of six neighbours'),
        Suite('code', plain(2, 1, ('double',), ms[2:], 'code', 2), ev, chunk=4, bound='all single-source kernels from C files'),
        Suite('model', lambda: ([make(2, POOL[2][2][6], list(r), type='double'), m, c, v] for n in (1, 2) for r in itertools.combinations(POOL[2][2][:6], n)
                                for m in sorted(MACH) for c in (0, 1, 2, 3, 4, 6, 8) if c <= MACH[m][1] for v in ((0, 3) if big else (c % 2 * 3,))), ev_model, chunk=4,
              bound='LC model and its report for 1-8 cores'),
        Suite('constant-sizes', constant_sizes, ev, chunk=2, bound='arrays of fixed size around the cache sizes'),
    ]
