"""Enumerated families of loop kernels with a structured access description.

A kernel dict has, besides the C rendering keys of kern.c_source, a list 'acc' of statements:
  [lhs, op, tree] with lhs/leaf = [name, [index exprs]] or [name] (scalar), tree = leaf | number-string |
  ['+', l, r] ... | ['neg', x]
"""
import itertools

from . import kern


def leaf_c(l):
    return l[0] + ''.join('[%s]' % e for e in (l[1] if len(l) > 1 else []))


def is_leaf(t):
    return isinstance(t, list) and t[0] not in ('+', '-', '*', '/', 'neg', 'paren')


def tree_c(t):
    if isinstance(t, str):
        return t
    if is_leaf(t):
        return leaf_c(t)
    if t[0] == 'neg':
        return '-(' + tree_c(t[1]) + ')' if not is_leaf(t[1]) else '-' + tree_c(t[1])

    def sub(x, right):
        s = tree_c(x)
        return '(' + s + ')' if isinstance(x, list) and not is_leaf(x) else s
    return '%s %s %s' % (sub(t[1], 0), t[0], sub(t[2], 1))


def build(arrays, scalars, loops, acc, **kw):
    k = {'arrays': arrays, 'scalars': scalars, 'loops': loops, 'acc': acc,
         'stmts': [[leaf_c(l), op, tree_c(t)] for l, op, t in acc]}
    k.update(kw)
    return k


def leaves(t):
    if isinstance(t, str):
        return []
    if is_leaf(t):
        return [t]
    return [x for s in t[1:] for x in leaves(s)]


def ops(t):
    if isinstance(t, str) or is_leaf(t):
        return []
    return [{'neg': '-'}.get(t[0], t[0])] + [x for s in t[1:] for x in ops(s)]


def accesses(k):
    """(loads, stores): lists of leaves in program text order (with repetitions)."""
    loads, stores = [], []
    for l, op, t in k['acc']:
        if op != '=':
            loads.append(l)
        loads += leaves(t)
        stores.append(l)
    return loads, stores


def flops(k):
    c = {}
    for l, op, t in k['acc']:
        for o in ([op[0]] if op != '=' else []) + ops(t):
            c[o] = c.get(o, 0) + 1
    return c


GENERIC = {'i': 100003, 'j': 200017, 'k': 300029, 'N': 1000003, 'M': 2000029, 'L': 3000017, 'x': 401, 's': 0}


def key(l):
    """Canonical identity of an access: name and generic values of its subscripts."""
    return (l[0],) + ((tuple(kern.ev(e, GENERIC) for e in l[1]),) if len(l) > 1 else (None,))


def distinct(ls):
    seen, out = set(), []
    for l in ls:
        if key(l) not in seen:
            seen.add(key(l))
            out.append(l)
    return out


A1 = {'a': ['N'], 'b': ['N+1'], 'c': ['2*N+9']}
R1 = [['a', ['i']], ['a', ['i-1']], ['a', ['i+1']], ['b', ['i']], ['c', ['2*i']], ['c', ['i+N']], ['a', ['0']], ['b', ['N-1']],
      ['b', ['N-i']], ['s']]
L1 = [[['i', 1, 'N-1', 1]], [['i', 1, 'N-1', 2]], [['i', 2, 'N-2', 3]]]

A2 = {'a': ['M', 'N'], 'b': ['N', 'M+3'], 'v': ['N'], 'w': ['M'], 'lin': ['M*N']}
R2 = [['a', ['j', 'i']], ['a', ['j-1', 'i']], ['a', ['j', 'i+1']], ['a', ['j+1', 'i-1']], ['b', ['i', 'j']], ['v', ['i']],
      ['w', ['j']], ['lin', ['j*N+i']], ['a', ['0', 'i']], ['a', ['j', '0']], ['v', ['0']], ['s'], ['lin', ['(j+1)*N+i-1']]]
L2 = [[['j', 1, 'M-1', 1], ['i', 1, 'N-1', 1]], [['j', 1, 'M-1', 2], ['i', 1, 'N-1', 3]], [['i', 1, 'N-1', 1], ['j', 1, 'M-1', 1]]]

A3 = {'a': ['M', 'N', 'L'], 'q': ['3', 'M', 'N', 'L'], 'p': ['N', 'L'], 'z': ['L']}
R3 = [['a', ['k', 'j', 'i']], ['a', ['k-1', 'j', 'i']], ['a', ['k', 'j+1', 'i']], ['a', ['k', 'j', 'i-1']], ['q', ['0', 'k', 'j', 'i']],
      ['q', ['2', 'k', 'j+1', 'i']], ['p', ['j', 'i']], ['z', ['i']], ['z', ['k']], ['s']]
L3 = [[['k', 1, 'M-1', 1], ['j', 1, 'N-1', 1], ['i', 1, 'L-1', 1]], [['k', 1, 'M-1', 2], ['j', 1, 'N-1', 1], ['i', 1, 'L-1', 3]]]

FAM = {1: (A1, R1, L1), 2: (A2, R2, L2), 3: (A3, R3, L3)}
CONSTS = {1: [{'N': 9}, {'N': 12}], 2: [{'M': 5, 'N': 6}, {'M': 7, 'N': 5}], 3: [{'M': 4, 'N': 5, 'L': 6}, {'M': 5, 'N': 4, 'L': 7}]}


def used(acc):
    names = []
    for l, op, t in acc:
        for x in [l] + leaves(t):
            if x[0] not in names:
                names.append(x[0])
    return names


def make(dim, loops, acc, **kw):
    A = FAM[dim][0]
    u = used(acc)
    return build({n: A[n] for n in A if n in u}, ['s'] if 's' in u else [], loops, acc, **kw)


def kernels(dim, nload=2, ops_=('=', '+='), loops=None, types=('double', 'float')):
    """All single-statement kernels lhs op r1 [+ r2]; every loop variant."""
    A, R, L = FAM[dim]
    for t in types:
        for lo in (loops or L):
            for lhs in R:
                for op in ops_:
                    for n in range(1, nload + 1):
                        for rs in itertools.combinations(R, n):
                            tree = rs[0] if n == 1 else ['+', rs[0], rs[1]]
                            if n == 3:
                                tree = ['+', ['*', rs[0], rs[1]], rs[2]]
                            yield make(dim, lo, [[lhs, op, tree]], type=t)
