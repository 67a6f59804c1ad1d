"""Interpreter for the C subset in generated kernels, recording every memory access."""
import math
import re

from pycparser import c_ast, c_parser


class CError(Exception):
    pass


def fdiv(a, b):
    """IEEE division."""
    if b == 0:
        return float('nan') if a == 0 or a != a else math.copysign(float('inf'), a) * math.copysign(1, b)
    return a / b


class Ptr:
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name, self.off = name, off


def parse(text):
    text = '\n'.join('' if l.lstrip().startswith('#include') else l for l in text.split('\n'))
    text = re.sub(r'//[^\n]*', '', text)
    return c_parser.CParser().parse(text)


class Interp:
    """mem: {array: list of values}; cells: {scalar cell: value}. trace gets ('R'|'W', array, index)."""

    def __init__(self, mem, cells):
        self.mem, self.cells, self.trace, self.env, self.steps = mem, cells, [], {}, 0

    def call(self, func, args):
        """func: FuncDef; args: {parameter name: int | Ptr}"""
        self.env = dict(args)
        self.block(func.body)

    # -- lvalues
    def place(self, n):
        if isinstance(n, c_ast.ID):
            if n.name not in self.env:
                raise CError('undeclared ' + n.name)
            return ('var', n.name)
        if isinstance(n, c_ast.ArrayRef):
            b = self.ev(n.name)
            if not isinstance(b, Ptr):
                raise CError('subscripted non-pointer')
            i = self.ev(n.subscript)
            if not isinstance(i, int):
                raise CError('subscript is not an integer')
            return ('mem', b.name, b.off + i)
        if isinstance(n, c_ast.UnaryOp) and n.op == '*':
            b = self.ev(n.expr)
            if not isinstance(b, Ptr):
                raise CError('dereferenced non-pointer')
            return ('mem', b.name, b.off)
        raise CError('no lvalue ' + type(n).__name__)

    def load(self, p):
        if p[0] == 'var':
            return self.env[p[1]]
        if p[1] in self.cells:
            if p[2] != 0:
                raise CError('scalar accessed at offset')
            return self.cells[p[1]]
        self.trace.append(('R', p[1], p[2]))
        a = self.mem[p[1]]
        if not 0 <= p[2] < len(a):
            raise CError('read outside of %s: %d not in 0..%d' % (p[1], p[2], len(a) - 1))
        return a[p[2]]

    def store(self, p, v):
        if p[0] == 'var':
            self.env[p[1]] = v
            return
        if p[1] in self.cells:
            self.cells[p[1]] = v
            return
        self.trace.append(('W', p[1], p[2]))
        a = self.mem[p[1]]
        if not 0 <= p[2] < len(a):
            raise CError('write outside of %s: %d not in 0..%d' % (p[1], p[2], len(a) - 1))
        a[p[2]] = v

    def binop(self, op, a, b):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            return fdiv(a, b)
        if op == '<':
            return int(a < b)
        if op == '<=':
            return int(a <= b)
        raise CError('operator ' + op)

    def ev(self, n):
        t = type(n)
        if t is c_ast.Constant:
            if n.type in ('int', 'long int', 'unsigned int'):
                return int(n.value, 0)
            return float(n.value.rstrip('fFlL'))
        if t in (c_ast.ID, c_ast.ArrayRef):
            return self.load(self.place(n))
        if t is c_ast.BinaryOp:
            return self.binop(n.op, self.ev(n.left), self.ev(n.right))
        if t is c_ast.UnaryOp:
            if n.op == '*':
                return self.load(self.place(n))
            if n.op == '-':
                return -self.ev(n.expr)
            if n.op in ('++', '--', 'p++', 'p--'):
                p = self.place(n.expr)
                v = self.load(p)
                w = v + (1 if '+' in n.op else -1)
                self.store(p, w)
                return v if n.op[0] == 'p' else w
        if t is c_ast.Assignment:
            v = self.ev(n.rvalue)
            p = self.place(n.lvalue)
            if n.op != '=':
                v = self.binop(n.op[:-1], self.load(p), v)
            self.store(p, v)
            return v
        raise CError('expression ' + t.__name__)

    def block(self, n):
        if n is None:
            return
        t = type(n)
        self.steps += 1
        if self.steps > 200000:
            raise CError('does not terminate')
        if t is c_ast.Compound:
            for s in n.block_items or []:
                self.block(s)
        elif t is c_ast.Decl:
            self.env[n.name] = None if n.init is None else self.ev(n.init)
        elif t is c_ast.DeclList:
            for s in n.decls:
                self.block(s)
        elif t is c_ast.For:
            self.block(n.init) if isinstance(n.init, (c_ast.DeclList, c_ast.Decl)) else (n.init is not None and self.ev(n.init))
            while self.ev(n.cond):
                self.block(n.stmt)
                self.ev(n.next)
                self.steps += 1
                if self.steps > 200000:
                    raise CError('does not terminate')
        elif t in (c_ast.Pragma, c_ast.EmptyStatement):
            pass
        elif t is c_ast.FuncCall and n.name.name == 'swap':
            a, b = [x.name for x in n.args.exprs]
            self.env[a], self.env[b] = self.env[b], self.env[a]
        else:
            self.ev(n)
