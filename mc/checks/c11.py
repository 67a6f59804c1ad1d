"""C11: the cache hierarchy of a machine. Every history (bounded length) of asking for hierarchies with core counts and
using them, on shipped and enumerated synthetic machine descriptions, against the hierarchy derived from the data."""
import copy
import glob
import itertools
import os

from ..core import REPO, Suite, require
from .. import kern

PROPERTY = 'C11'
ASSUMPTIONS = ['the share of one core of a level is the number of sets divided (rounding down) by the number of active cores '
               'that use the same instance of the level: min(cores, cores per group, cores per NUMA domain)',
               'at least one set remains for each core']

DEFAULTS = {'replacement_policy': 'LRU', 'write_back': True, 'write_allocate': True, 'write_combining': False}


def expected(data, cores):
    out = {}
    for c in data['memory hierarchy']:
        if 'cache per group' not in c:
            continue
        g = c['cache per group']
        share = max(1, min(cores, int(c['cores per group']), int(data['cores per NUMA domain'])))
        d = {k: g.get(k, v) for k, v in DEFAULTS.items()}
        d.update(sets=int(g['sets']) // share, ways=int(g['ways']), cl_size=int(g['cl_size']))
        for l in ('load_from', 'store_to', 'victims_to'):
            d[l] = g.get(l)
        out[c['level']] = d
    return out


def describe(sim):
    seen, todo = {}, [sim.first_level]
    while todo:
        c = todo.pop()
        if c is None or c.name in seen:
            continue
        b = c.backend
        seen[c.name] = {'replacement_policy': c.replacement_policy, 'write_back': bool(c.write_back),
                        'write_allocate': bool(c.write_allocate), 'write_combining': bool(c.write_combining),
                        'sets': c.sets, 'ways': c.ways, 'cl_size': c.cl_size}
        require(b.replacement_policy_id == c.replacement_policy_enum[c.replacement_policy], 'policy of the simulator differs')
        for l in ('load_from', 'store_to', 'victims_to'):
            t = getattr(c, l)
            seen[c.name][l] = t.name if t is not None else None
            bt = getattr(b, l)
            require((bt.name if bt is not None else None) == seen[c.name][l], 'simulator link', l, 'of', c.name, 'is wrong')
            todo.append(t)
    return seen


def clean(sim):
    for s in sim.stats():
        for k, v in s.items():
            require(k == 'name' or v == 0, 'statistics not clean:', s)
    tot = 0
    for c in sim.levels(with_mem=False):
        require(not list(c.backend.cached), 'level', c.name, 'is not empty')
        tot += c.sets * c.ways
    require(sim.count_invalid_entries() == tot, 'not all entries are invalid')


def use(sim, n):
    """Deterministic stream with reuse and stores; returns all statistics."""
    es = 8
    offs = []
    for i in range(n):
        offs.append(((i * 8, i * 8 + 4096, (i * 72) % 3000), (20000 + i * 8, (i * 136) % 2500)))
    sim.loadstore(offs, length=es)
    return [dict(s) for s in sim.stats()]


def snapshot(d):
    return repr(d)


def load(m):
    from kerncraft.machinemodel import MachineModel
    if m[0] == 'file':
        return MachineModel(os.path.join(REPO, 'examples/machine-files', m[1]))
    return MachineModel(machine_yaml=synth(*m[1:]))


def synth(levels, numa, link):
    from kerncraft.prefixedunit import PrefixedUnit as PU
    mh = []
    for n, (sets, ways, cpg, pol, wb, wa) in enumerate(levels):
        g = {'sets': sets, 'ways': ways, 'cl_size': PU(64, 'B'), 'replacement_policy': pol, 'write_back': wb, 'write_allocate': wa}
        if n + 1 < len(levels):
            nxt = 'L%d' % (n + 2)
            if link == 'victim' and n + 2 == len(levels):
                g['victims_to'] = nxt
                g['load_from'] = None
            else:
                g['load_from'], g['store_to'] = nxt, nxt
        mh.append({'level': 'L%d' % (n + 1), 'cache per group': g, 'cores per group': cpg, 'size per group': PU(sets * ways * 64, 'B')})
    mh.append({'level': 'MEM', 'cores per group': 8, 'size per group': None})
    return kern.machine_data(**{'memory hierarchy': mh, 'cores per NUMA domain': numa, 'cores per socket': 8})


def strip_none(d):
    return {k: {a: b for a, b in v.items() if not (a in ('load_from', 'store_to', 'victims_to') and b is None)} for k, v in d.items()}


def ev_history(case, ctx):
    m, hist, n = case
    mach = load(m)
    for c in mach['memory hierarchy']:
        if 'cache per group' in c:
            for l in ('load_from', 'store_to', 'victims_to'):
                if c['cache per group'].get(l, 0) is None:
                    del c['cache per group'][l]
    before = snapshot(mach._data)
    want = {c: strip_none(expected(mach._data, c)) for c, _ in hist}
    ref = {}
    for cores, used in hist:
        sim = mach.get_cachesim(cores)
        got = strip_none(describe(sim))
        require(got == want[cores], 'hierarchy for', cores, 'cores is', got, 'expected', want[cores])
        clean(sim)
        require(sim.main_memory.last_level_load.load_from is None, 'memory is connected to the wrong level')
        one = strip_none(expected(mach._data, 1))
        for c in mach['memory hierarchy']:
            if 'cache per group' in c and c['cores per group'] == 1:
                require(got[c['level']] == one[c['level']], 'private level', c['level'], 'was changed')
        if used:
            st = use(sim, n)
            if cores not in ref:
                ref[cores] = use(load(m).get_cachesim(cores), n)
            require(st == ref[cores], 'statistics after earlier use differ from those of a new machine object')
        ctx.step()
        ctx.state(str(m), cores)
    require(snapshot(mach._data) == before, 'the machine description was changed')
    return str([sorted(w.items()) for w in want.values()])


def suites(tier):
    big = tier == 'thorough'

    def histories(cores, depth):
        ops = [[c, u] for c in cores for u in (0, 1)]
        for d in range(1, depth + 1):
            yield from ([list(x) for x in h] for h in itertools.product(ops, repeat=d))

    def synthetic():
        lv = [[(4, 2, 1, 'LRU', True, True), (16, 4, c2, p, wb, wa)] for c2 in (1, 2, 4) for p in ('LRU', 'FIFO')
              for wb, wa in ((True, True), (False, False))]
        lv += [[(4, 2, 1, 'LRU', True, True), (8, 4, 1, 'LRU', True, True), (24, 8, c3, 'LRU', True, True)] for c3 in (1, 3, 4, 8)]
        lv += [[(4, 2, 2, 'LRU', True, True), (8, 4, 4, 'LRU', True, True), (64, 8, 8, 'LRU', True, True)]]
        for levels in lv:
            for numa in (1, 2, 4, 8):
                for link in ('chain', 'victim'):
                    for h in histories((1, 2, 3, 8) if big else (1, 2, 8), 3 if big else 2):
                        yield [['synth', levels, numa, link], h, 200]

    def files():
        for f in sorted(glob.glob(os.path.join(REPO, 'examples/machine-files/*.yml'))):
            m = ['file', os.path.basename(f)]
            for cores in range(1, 41):
                yield [m, [[cores, 0]], 0]
            for h in histories((1, 2, 5) if not big else (1, 2, 3, 7, 16), 2):
                yield [m, h, 2000]

    return [Suite('synthetic-machines', synthetic, ev_history, chunk=16,
                  bound='17 hierarchies x 4 NUMA sizes x chained/victim, all histories of <=2 (thorough 3) requests over 3 (4) core '
                        'counts, each with or without use'),
            Suite('shipped-machines', files, ev_history, chunk=20,
                  bound='every shipped machine file, 1..40 cores, all histories of 2 requests')]
