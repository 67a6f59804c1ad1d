"""Small loop kernels as data: rendering to C, to a YAML-like description, and direct interpretation."""
import itertools
import operator
import os

from .core import REPO

ESIZE = {'double': 8, 'float': 4}

_machines = {}


def machine_data(**over):
    """A small synthetic machine description (fresh dict on every call)."""
    from kerncraft.prefixedunit import PrefixedUnit as PU
    d = {
        'kerncraft version': _version(), 'model type': 'synthetic', 'model name': 'synthetic',
        'sockets': 1, 'cores per socket': 4, 'threads per core': 1, 'NUMA domains per socket': 1,
        'cores per NUMA domain': 4, 'clock': PU(2.0, 'GHz'), 'isa': 'x86',
        'FLOPs per cycle': {'SP': {'total': 16, 'ADD': 8, 'MUL': 8}, 'DP': {'total': 8, 'ADD': 4, 'MUL': 4}},
        'in-core model': {'OSACA': 'SNB'},
        'compiler': {'gcc': '-O2 -fopenmp'},
        'cacheline size': PU(64, 'B'),
        'overlapping model': {'ports': {'OSACA': ['0', '1', '5']}, 'performance counter metric': 'A:PMC0'},
        'non-overlapping model': {'ports': {'OSACA': ['2D', '3D']}, 'performance counter metric': 'B:PMC1'},
        'memory hierarchy': [],
        'benchmarks': {'kernels': {}, 'measurements': {}},
    }
    d.update(over)
    return d


def _version():
    import kerncraft
    return kerncraft.__version__


def machine(**over):
    from kerncraft.machinemodel import MachineModel
    return MachineModel(machine_yaml=machine_data(**over))


def c_source(k):
    """Render a kernel dict to C.

    k: {'type','arrays':{name:[dim exprs]},'scalars':[...],'loops':[[idx,start,stop,step]],'stmts':[[lhs,op,rhs]]}
    lhs/rhs are C expression strings.
    """
    t = k.get('type', 'double')
    out = []
    for n, dims in k.get('arrays', {}).items():
        out.append('%s %s%s;' % (t, n, ''.join('[%s]' % d for d in dims)))
    for n in k.get('scalars', []):
        out.append('%s %s;' % (t, n))
    ind = ''
    for idx, a, b, s in k['loops']:
        if s == 1:
            nxt = k.get('incr', '++{i}').format(i=idx)
        else:
            nxt = '%s+=%s' % (idx, s)
        out.append('%sfor(%s %s=%s; %s<%s; %s) {' % (ind, k.get('itype', 'int'), idx, a, idx, b, nxt))
        ind += '  '
    for lhs, op, rhs in k['stmts']:
        out.append('%s%s %s %s;' % (ind, lhs, op, rhs))
    for _ in k['loops']:
        ind = ind[:-2]
        out.append(ind + '}')
    return '\n'.join(out) + '\n'


def ev(expr, env):
    return eval(str(expr), {'__builtins__': {}}, env)


def indices(k, consts):
    """All loop index dictionaries in execution order."""
    def rec(loops, env):
        if not loops:
            yield {l[0]: env[l[0]] for l in k['loops']}
            return
        (idx, a, b, s), rest = loops[0], loops[1:]
        for v in range(ev(a, env), ev(b, env), int(s)):
            e = dict(env)
            e[idx] = v
            yield from rec(rest, e)
    yield from rec(k['loops'], dict(consts))


def kernel_code(k, consts=None, mach=None, filename=None):
    from kerncraft.kernel import KernelCode
    src = k if isinstance(k, str) else c_source(k)
    kc = KernelCode(src, machine=mach if mach is not None else machine(), filename=filename)
    for n, v in (consts or {}).items():
        kc.set_constant(n, v)
    return kc


def description(k):
    """The documented YAML form of the same kernel. Needs k['loads'], k['stores']: {name: [[idx exprs] or None]}."""
    t = k.get('type', 'double')
    arrays = {n: {'type': (t,), 'dimension': [str(d) for d in dims]} for n, dims in k.get('arrays', {}).items()}
    for n in k.get('scalars', []):
        arrays[n] = {'type': (t,), 'dimension': None}
    return {
        'loops': [{'index': i, 'start': a, 'stop': b if isinstance(b, int) else str(b), 'step': s}
                  for i, a, b, s in k['loops']],
        'arrays': arrays,
        'data sources': k['loads'],
        'data destinations': k['stores'],
        'flops': k.get('flops', {}),
    }
