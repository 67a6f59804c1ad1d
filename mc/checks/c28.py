"""C28: independence of machine objects. All bounded histories of loading, changing, updating, using, saving and re-reading
two machine objects; after every step each object must equal an isolated one that saw only its own operations."""
import collections
import copy
import glob
import itertools
import os

from ..core import REPO, Suite, require, scratch
from .. import kern, sysfake
from . import c11

PROPERTY = 'C28'
ASSUMPTIONS = ['host tools (likwid-topology, likwid-bench, machine-state.sh) are replaced by deterministic stand-ins',
               'files are changed only between, not during, operations']


def norm(d):
    """Comparable form: types matter up to dict/ordered dict, order of ordered dicts is kept."""
    from kerncraft.prefixedunit import PrefixedUnit as PU
    if isinstance(d, dict):
        items = [(norm(k), norm(v)) for k, v in d.items()]
        return ('map', tuple(items) if isinstance(d, collections.OrderedDict) else tuple(sorted(items, key=repr)))
    if isinstance(d, (list, tuple)):
        return ('seq', tuple(norm(x) for x in d))
    if isinstance(d, PU):
        return ('unit', float(d.value), d.prefix, d.unit)
    if isinstance(d, float):
        return ('float', d)
    if isinstance(d, bool) or d is None:
        return ('const', d)
    if isinstance(d, int):
        return ('int', int(d))
    return ('str', str(d))


def data(variant):
    d = c11.synth(*[([(4, 2, 1, 'LRU', True, True), (16, 4, 2, 'LRU', True, True)], 2, 'chain'),
                    ([(8, 2, 1, 'LRU', True, True)], 4, 'chain')][variant])
    from kerncraft.prefixedunit import PrefixedUnit as PU
    for c in d['memory hierarchy']:
        if 'cache per group' in c:
            for l in ('load_from', 'store_to'):
                if c['cache per group'].get(l, 0) is None:
                    del c['cache per group'][l]
    d['model name'] = 'machine %d' % variant
    d['threads per core'] = 1
    d['cores per socket'] = 2
    d['transparent hugepage'] = 'madvise'
    lv = [c['level'] for c in d['memory hierarchy']]
    d['benchmarks'] = {
        'kernels': {'load': {'read streams': {'streams': 1, 'bytes': PU(8, 'B')}, 'read+write streams': {'streams': 0, 'bytes': PU(0, 'B')},
                             'write streams': {'streams': 0, 'bytes': PU(0, 'B')}, 'FLOPs per iteration': 0},
                    'copy': {'read streams': {'streams': 1, 'bytes': PU(8, 'B')}, 'read+write streams': {'streams': 0, 'bytes': PU(0, 'B')},
                             'write streams': {'streams': 1, 'bytes': PU(8, 'B')}, 'FLOPs per iteration': 0}},
        'measurements': {l: {1: {'threads per core': 1, 'cores': [1, 2], 'threads': [1, 2],
                                 'total size': [PU(11, 'kB'), PU(22, 'kB')], 'size per core': [PU(11, 'kB')] * 2,
                                 'size per thread': [PU(11, 'kB')] * 2,
                                 'results': {k: [PU(10 + variant + n, 'GB/s'), PU(20 + n, 'GB/s')] for k in ('load', 'copy')},
                                 'stats': {k: [[PU(10, 'GB/s')] * 10] * 2 for k in ('load', 'copy')}}} for n, l in enumerate(lv)}}
    return d


def write(path, d):
    from kerncraft.machinemodel import MachineModel
    MachineModel(machine_yaml=d).dump(path)


def queries(m):
    """Answers a user gets from the object (must not change it)."""
    out = [m.get_identifier() if m._path is None else os.path.basename(m._path)]
    for l in range(len(m['memory hierarchy'])):
        for r, w in ((1, 0), (1, 1), (3, 1)):
            try:
                bw, k = m.get_bandwidth(l, r, w, 1)
                out.append((float(bw), k))
            except Exception as e:
                out.append(type(e).__name__)
    for c in (1, 2):
        try:
            out.append(sorted((k, sorted((a, str(b)) for a, b in v.items())) for k, v in c11.describe(m.get_cachesim(c)).items()))
        except Exception as e:
            out.append(type(e).__name__)
    for x in ('A:PMC0 + B:PMC[0-3]', 'max(A:PMC0, C_D:MBOX0)'):
        e, ev = m.parse_perfmetric(x)
        out.append(sorted((str(k), v) for k, v in ev.items()))
    try:
        out.append(m.get_compiler('gcc', None))
    except Exception as e:
        out.append(type(e).__name__)
    out.append(m.get_incore_model())
    try:
        out.append(m.current_system())
    except Exception as e:
        out.append(type(e).__name__ + str(e))
    return repr(out)


OPS = ('load-f', 'load-g', 'load-d', 'new', 'poke', 'poke-list', 'readouts', 'hierarchy', 'bench', 'use', 'dump-f', 'dump-g')


def apply(op, m, files, system, mach=None):
    """Apply an operation to a machine object (or create one); returns the object."""
    from kerncraft.machinemodel import MachineModel
    if op == 'load-f':
        return MachineModel(files['f'])
    if op == 'load-g':
        return MachineModel(files['g'])
    if op == 'load-d':
        return MachineModel(machine_yaml=files['d'])
    if op == 'new':
        return MachineModel()
    if m is None:
        return None
    if op == 'poke':
        m['FLOPs per cycle']['DP']['total'] = 99
        m['benchmarks']['kernels']['load']['read streams']['streams'] = 7
    elif op == 'poke-list':
        m['memory hierarchy'][0]['cores per group'] = 2
        m['memory hierarchy'][-1]['upstream throughput'] = ['x']
    elif op == 'readouts':
        m.update(readouts=True, memory_hierarchy=False, benchmarks=False, machine_state=False)
    elif op == 'hierarchy':
        m.update(readouts=False, memory_hierarchy=True, benchmarks=False, machine_state=True)
    elif op == 'bench':
        m._path = files['h']
        m.update(readouts=False, memory_hierarchy=False, benchmarks=True, machine_state=False)
    elif op == 'use':
        queries(m)
    elif op.startswith('dump'):
        m.dump(files[op[-1]])
    return m


def ev(case, ctx):
    """case: list of [slot, op]"""
    from kerncraft.machinemodel import MachineModel
    with scratch() as d:
        sysA = sysfake.System(cps=2, caches=((16, 2), (128, 1)))
        files = {'f': os.path.join(d, 'f.yml'), 'g': os.path.join(d, 'g.yml'), 'h': os.path.join(d, 'h.yml'), 'd': data(1)}
        content = {'f': data(0), 'g': data(1), 'd': data(1)}
        MachineModel._loaded_machine_yaml.clear() if hasattr(MachineModel, '_loaded_machine_yaml') else None
        with sysA.active():
            for x in 'fg':
                write(files[x], content[x])
            slots, want = {}, {}
            for s, op in case:
                m = slots.get(s)
                try:
                    r, err = apply(op, m, files, sysA), None
                except Exception as e:
                    r, err = m, type(e).__name__
                # isolated reference
                iso, ierr = None, None
                keep = {n: copy.deepcopy(v) for n, v in want.items()}
                if op.startswith('load'):
                    want[s] = copy.deepcopy(content[op[-1]])
                elif op == 'new':
                    want[s] = copy.deepcopy(MachineModel()._data)
                elif s in want:
                    sysfake.clear()
                    iso = MachineModel(machine_yaml=copy.deepcopy(want[s]))
                    try:
                        apply(op, iso, dict(files, f=os.path.join(d, 'x.yml'), g=os.path.join(d, 'x.yml'), h=os.path.join(d, 'x.yml')), sysA)
                    except Exception as e:
                        ierr = type(e).__name__
                    want[s] = copy.deepcopy(iso._data)
                    if op.startswith('dump') and err is None:
                        content[op[-1]] = copy.deepcopy(want[s])
                require(err == ierr, 'operation', op, 'on slot', s, 'ends with', err, 'but alone with', ierr)
                slots[s] = r
                ctx.step()
                for t, w in want.items():
                    require(norm(slots[t]._data) == norm(w), 'after', s, op, 'object', t, 'differs from an isolated one:',
                            first_diff(slots[t]._data, w))
                require(norm(files['d']) == norm(content['d']), 'the data passed by the caller was changed by', op)
            answers = []
            for t in sorted(want):
                a = queries(slots[t])
                sysfake.clear()
                iso = MachineModel(machine_yaml=copy.deepcopy(want[t]))
                iso._path = slots[t]._path
                require(a == queries(iso), 'answers of object', t, 'differ from those of an isolated one')
                require(norm(slots[t]._data) == norm(want[t]), 'asking changed the data:', first_diff(slots[t]._data, want[t]))
                answers.append(a)
                ctx.state(a)
            for x in 'fg':
                require(norm(MachineModel(files[x])._data) == norm(content[x]), 'file', x, 'read again differs:',
                        first_diff(MachineModel(files[x])._data, content[x]))
    return str(answers)


def first_diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return '%s/%s only in one' % (path, k)
            if norm(a[k]) != norm(b[k]):
                return first_diff(a[k], b[k], '%s/%s' % (path, k))
        return path + ' order'
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if norm(x) != norm(y):
                return first_diff(x, y, '%s/%d' % (path, i))
    return '%s: %r vs %r' % (path, a, b)


def ev_round(case, ctx):
    """Dump and load again."""
    from kerncraft.machinemodel import MachineModel
    with scratch() as d:
        f = os.path.join(d, 'out.yml')
        if case[0] == 'file':
            m = MachineModel(os.path.join(REPO, 'examples/machine-files', case[1]))
            before = norm(m._data)
        else:
            dd = data(0)
            put(dd, case[1], value(case[2]))
            m = MachineModel(machine_yaml=dd)
            before = norm(m._data)
            require(before == norm(dd), 'content given differs')
        for n in range(2):
            s = m.dump(f)
            with open(f) as fp:
                require(fp.read() == s, 'returned text is not the text written')
            m2 = MachineModel(f)
            require(norm(m2._data) == before, 'read again:', first_diff(m2._data, m._data))
            require(norm(m._data) == before, 'writing changed the data')
            require('out.yml' in m2.get_identifier(), 'identifier', m2.get_identifier())
            m = m2
            ctx.step(2)
        x, y = (MachineModel(machine_yaml=copy.deepcopy(m2._data)) for _ in range(2))
        require(x.get_identifier() == y.get_identifier(), 'identifiers of equal data differ')
        y._data['model name'] = 'other'
        z = MachineModel(machine_yaml=y._data)
        require(x.get_identifier() != z.get_identifier(), 'identifiers of different data are equal')
    return str(case)


PLACES = [['clock'], ['memory hierarchy', 0, 'size per group'], ['benchmarks', 'measurements', 'L1', 1, 'results', 'load', 1], ['machine state']]


def value(v):
    from kerncraft.prefixedunit import PrefixedUnit as PU
    return PU(*v[1:]) if isinstance(v, list) and v and v[0] == 'PU' else v


def put(d, path, v):
    for p in path[:-1]:
        d = d[p]
    d[path[-1]] = v


def suites(tier):
    big = tier == 'thorough'

    def histories():
        first = ['load-f', 'load-g', 'load-d', 'new']
        second = ['load-f', 'load-d', 'new'] if not big else first
        rest = [op for op in OPS if op not in first]
        for a in first:
            for b in second:
                for x in rest:
                    yield [['a', a], ['b', b], ['a', x]]
                    yield [['a', a], ['a', x], ['b', b]]
                for x, y in itertools.product(rest, repeat=2):
                    if 'bench' in (x, y) and 'use' in (x, y) and not big:
                        continue
                    yield [['a', a], ['b', b], ['a', x], ['b', y]]
                    if big:
                        yield [['a', a], ['a', x], ['b', b], ['b', y]]
                        yield [['a', a], ['a', x], ['a', y], ['b', b]]

    def reload():
        for x in ('poke', 'poke-list', 'readouts', 'hierarchy', 'bench'):
            for f in 'fg':
                for g in 'fg':
                    yield [['a', 'load-' + f], ['a', x], ['a', 'dump-' + g], ['b', 'load-' + f], ['c', 'load-' + g]]
                    yield [['a', 'load-' + f], ['b', 'load-' + g], ['b', x], ['b', 'dump-' + f], ['a', 'load-' + f], ['a', x]]
                yield [['a', 'load-' + f], ['a', 'dump-' + f], ['a', x], ['b', 'load-' + f], ['a', 'dump-' + f], ['b', 'load-' + f]]

    def values():
        nums = [0.0, 1.0, 0.5, 2.2, 9.99, 12.345, 64.0, 100.0, 999.0, 1000.0, 1234.5678, 99999.99, 0.001, 1e-7, 123456789.125, 1e20, 2.0 / 3]
        vals = [['PU', n, p, u] for n in nums for p in ('', 'k', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y') for u in ('B', 'B/s', 'Hz', 'cy/CL')]
        vals += [0, 1, -3, 2.5, 1e100, 1e-9, True, False, None, '', 'x', 'a: b', '- a', '# no', 'two\nlines\n', 'tab\tand  spaces   here', 'a' * 300,
                 'long ' * 60, "quote ' and \" here", 'yes', 'null', '1', '1.5', '0x10', '64 B', '2.20 GHz', '~', 'ü€', [], {}, [1, ['a', 2]], ' lead',
                 'trail ', '\n\n x', '%', '@a', '&b', '*c', '!d', '{e}', '[f]', 'line1\n  line2\n\nline4']
        for p in PLACES:
            for v in vals:
                yield ['value', p, v]
        for f in sorted(glob.glob(os.path.join(REPO, 'examples/machine-files/*.yml'))):
            yield ['file', os.path.basename(f)]

    return [
        Suite('save-and-load', values, ev_round, chunk=8, bound='%d quantities and 38 other values at 4 places, every shipped machine file' % (17 * 36)),
        Suite('histories', histories, ev, chunk=4, bound='all histories of creating two objects in 4 ways and 1-2 of 8 operations on them'),
        Suite('reload', reload, ev, chunk=2, bound='all load/change/save/load combinations over two files'),
    ]
