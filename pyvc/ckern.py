"""The C kernels of the code under contract, executed symbolically from the text handed to op2.Kernel on every run,
and the loop over the mesh (gather through the real maps, run, write back) that op2.par_loop performs around them.

The parser covers the C subset of such kernels (functions of pointer arguments; int/double scalars and local arrays; for, while, if;
assignments; arithmetic, comparisons, ?:; calls of math functions); anything else raises Unsupported (no verdict).
Machine arithmetic: int is unbounded, double is real.  Array indices are checked against the true sizes of the arguments."""
import math
import re
from types import SimpleNamespace
import numpy
import z3
import firedrake as fd
from . import core
from .core import Sym, SBool, Unsupported, is_sym

TOK = re.compile(r'''\s*(?:(//[^\n]*|/\*.*?\*/)|(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d+)[fFuUlL]*|([A-Za-z_]\w*)|(\+\+|--|\+=|-=|\*=|/=|%=|<=|>=|==|!=|&&|\|\||[-+*/%<>=!?:;,(){}\[\]&|]))''', re.S)
TYPES = {'int', 'double', 'float', 'unsigned', 'const', 'long', 'size_t', 'PetscScalar', 'PetscInt', 'PetscReal', 'short', 'char', 'int32_t', 'int64_t', 'restrict', '__restrict__', 'static', 'inline'}
INTS = {'int', 'unsigned', 'long', 'size_t', 'PetscInt', 'short', 'char', 'int32_t', 'int64_t'}


class Violation(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    s = re.sub(r'^\s*#.*$', '', s, flags=re.M)
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('C token: ' + s[i:i+20])
        i = m.end()
        if m.group(1):
            continue
        if m.group(2):
            t = m.group(2)
            out.append(('num', float(t) if any(c in t for c in '.eE') else int(t)))
        elif m.group(3):
            out.append(('id', m.group(3)))
        else:
            out.append(('op', m.group(4)))
    return out


class Parser:
    def __init__(self, s):
        self.t, self.i = tokens(s), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', None)

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('op', 'id'):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise Unsupported('C: expected %r, got %r' % (v, self.peek()))

    def ident(self):
        k, v = self.next()
        if k != 'id':
            raise Unsupported('C: name expected, got %r' % (v,))
        return v

    def is_type(self):
        return self.peek()[0] == 'id' and self.peek()[1] in TYPES

    def type(self):
        ty = []
        while self.is_type():
            ty.append(self.next()[1])
        k = 'int' if any(x in INTS for x in ty) else 'double'
        stars = 0
        while self.acc('*'):
            stars += 1
            while self.is_type():
                self.next()
        return k, stars

    def unit(self):
        fs = {}
        while self.peek()[0] != 'eof':
            if self.acc('void'):
                pass
            else:
                while self.is_type():
                    self.next()
                self.acc('void')
            name = self.ident()
            self.exp('(')
            args = []
            while not self.acc(')'):
                ty = self.type()
                nm = self.ident()
                if self.acc('['):
                    if self.peek()[0] == 'num':
                        self.next()
                    self.exp(']')
                    ty = (ty[0], 1)
                args.append((ty, nm))
                self.acc(',')
            fs[name] = (args, self.block())
        return fs

    def block(self):
        self.exp('{')
        out = []
        while not self.acc('}'):
            out.append(self.stmt())
        return ('block', out)

    def stmt(self):
        v = self.peek()[1]
        if v == '{':
            return self.block()
        if self.acc(';'):
            return ('block', [])
        if self.peek()[0] == 'id' and v == 'for':
            self.next()
            self.exp('(')
            init = ('block', []) if self.acc(';') else self.simple()
            cond = ('num', 1) if self.peek()[1] == ';' else self.expr()
            self.exp(';')
            step = ('block', []) if self.peek()[1] == ')' else self.assign()
            self.exp(')')
            return ('for', init, cond, step, self.stmt())
        if self.peek()[0] == 'id' and v == 'while':
            self.next()
            self.exp('(')
            c = self.expr()
            self.exp(')')
            return ('for', ('block', []), c, ('block', []), self.stmt())
        if self.peek()[0] == 'id' and v == 'if':
            self.next()
            self.exp('(')
            c = self.expr()
            self.exp(')')
            a = self.stmt()
            b = self.stmt() if self.acc('else') else ('block', [])
            return ('if', c, a, b)
        if self.peek()[0] == 'id' and v in ('break', 'continue', 'return'):
            self.next()
            if self.peek()[1] != ';':
                raise Unsupported('C: return value')
            self.exp(';')
            return (v,)
        return self.simple()

    def simple(self):
        if self.is_type():
            base, stars = self.type()
            if stars:
                raise Unsupported('C: local pointer')
            out = []
            while True:
                nm = self.ident()
                if self.acc('['):
                    n = self.expr()
                    self.exp(']')
                    init = None
                    if self.acc('='):
                        self.exp('{')
                        init = []
                        while not self.acc('}'):
                            init.append(self.expr())
                            self.acc(',')
                    out.append(('array', base, nm, n, init))
                else:
                    out.append(('decl', base, nm, self.expr() if self.acc('=') else None))
                if self.acc(';'):
                    return ('seq', out)
                self.exp(',')
        s = self.assign()
        self.exp(';')
        return s

    def assign(self):
        if self.peek()[1] in ('++', '--'):
            op = self.next()[1]
            return ('assign', op[0] + '=', self.postfix(), ('num', 1))
        lhs = self.expr()
        op = self.peek()[1]
        if op in ('++', '--'):
            self.next()
            return ('assign', op[0] + '=', lhs, ('num', 1))
        if op in ('=', '+=', '-=', '*=', '/=', '%='):
            self.next()
            s = ('assign', op, lhs, self.expr())
            if self.acc(','):
                return ('seq', [s, self.assign()])
            return s
        if lhs[0] == 'call':
            raise Unsupported('C: call for its effect')
        return ('expr', lhs)

    def expr(self):
        c = self.binary(0)
        if self.acc('?'):
            a = self.expr()
            self.exp(':')
            return ('cond', c, a, self.expr())
        return c

    LEV = [('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='), ('+', '-'), ('*', '/', '%')]

    def binary(self, k):
        if k == len(self.LEV):
            return self.unary()
        a = self.binary(k + 1)
        while self.peek()[0] == 'op' and self.peek()[1] in self.LEV[k]:
            op = self.next()[1]
            a = ('bin', op, a, self.binary(k + 1))
        return a

    def unary(self):
        if self.acc('-'):
            return ('neg', self.unary())
        if self.acc('+'):
            return self.unary()
        if self.acc('!'):
            return ('not', self.unary())
        if self.acc('*'):
            return ('idx', self.unary(), ('num', 0))
        if self.peek()[1] == '(' and self.peek(1)[0] == 'id' and self.peek(1)[1] in TYPES:
            self.next()
            ty = self.type()
            self.exp(')')
            return ('cast', ty[0], self.unary())
        return self.postfix()

    def postfix(self):
        k, v = self.next()
        if k == 'num':
            e = ('num', v)
        elif v == '(':
            e = self.expr()
            self.exp(')')
        elif k == 'id':
            if self.acc('('):
                args = []
                while not self.acc(')'):
                    args.append(self.expr())
                    self.acc(',')
                e = ('call', v, args)
            else:
                e = ('var', v)
        else:
            raise Unsupported('C: %r' % (v,))
        while self.acc('['):
            e = ('idx', e, self.expr())
            self.exp(']')
        return e


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    pass


def trunc(x):
    if is_sym(x):
        if x.is_int:
            return x
        return core.ite(x >= 0, x.__floor__(), -((-x).__floor__()))
    return int(math.trunc(x))


def c_round(x):
    if is_sym(x):
        return core.ite(x >= 0, (x + 0.5).__floor__(), -((-x + 0.5).__floor__()))
    return float(math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1))


def dbl(x):
    return x if is_sym(x) else float(x) if not isinstance(x, bool) else float(int(x))


def _m(name):
    f = getattr(math, name)
    return lambda *a: core.uf(name, *a) if any(is_sym(x) for x in a) else f(*a)


def _pw(x, y):
    return core.power(x, y) if is_sym(x) or is_sym(y) else float(x) ** float(y)


FUN = {'fmin': lambda a, b: extremum(False, dbl(a), dbl(b)), 'fmax': lambda a, b: extremum(True, dbl(a), dbl(b)), 'fabs': lambda a: core.max_(a, -a) if is_sym(a) else abs(float(a)), 'round': c_round,
       'floor': lambda a: a.__floor__() if is_sym(a) else float(math.floor(a)), 'ceil': lambda a: a.__ceil__() if is_sym(a) else float(math.ceil(a)),
       'pow': _pw, 'sqrt': lambda a: core.sqrt(a) if is_sym(a) else math.sqrt(a), 'exp': _m('exp'), 'log': _m('log'), 'sin': _m('sin'), 'cos': _m('cos'), 'acos': _m('acos'),
       'abs': lambda a: core.max_(a, -a) if is_sym(a) else abs(a)}


class Run:
    """executes one function of a kernel on buffers (python lists)"""
    def __init__(self, code, name):
        self.fs = Parser(code).unit()
        if name not in self.fs:
            raise Unsupported('C: kernel function %s missing' % name)
        self.args, self.body = self.fs[name]

    def __call__(self, *bufs):
        if len(bufs) != len(self.args):
            raise Violation('kernel has %d arguments, loop passes %d' % (len(self.args), len(bufs)))
        self.env = [{}]
        for (ty, nm), b in zip(self.args, bufs):
            if not ty[1]:
                raise Unsupported('C: scalar argument')
            self.env[0][nm] = [ty[0], b]
        self.steps = 0
        try:
            self.run(self.body)
        except Ret:
            pass

    def look(self, nm):
        for e in reversed(self.env):
            if nm in e:
                return e[nm]
        raise Unsupported('C: unknown name ' + nm)

    def conv(self, ty, x):
        if isinstance(x, (SBool, bool)):
            x = 1 if bool(x) else 0
        return trunc(x) if ty == 'int' else dbl(x)

    def run(self, s):
        k = s[0]
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('C: too many steps')
        if k in ('block', 'seq'):
            if k == 'block':
                self.env.append({})
            try:
                for x in s[1]:
                    self.run(x)
            finally:
                if k == 'block':
                    self.env.pop()
        elif k == 'decl':
            self.env[-1][s[2]] = [s[1], None if s[3] is None else self.conv(s[1], self.ev(s[3]))]
        elif k == 'array':
            n = self.ev(s[3])
            if is_sym(n):
                raise Unsupported('C: array of symbolic size')
            b = [None] * int(n)
            if s[4] is not None:
                for i in range(int(n)):
                    b[i] = self.conv(s[1], self.ev(s[4][i])) if i < len(s[4]) else self.conv(s[1], 0)
            self.env[-1][s[2]] = [s[1], b]
        elif k == 'for':
            self.env.append({})
            try:
                self.run(s[1])
                while bool(self.ev(s[2])):
                    try:
                        self.run(s[4])
                    except Brk:
                        break
                    except Cont:
                        pass
                    self.run(s[3])
            finally:
                self.env.pop()
        elif k == 'if':
            self.run(s[2] if bool(self.ev(s[1])) else s[3])
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cont()
        elif k == 'return':
            raise Ret()
        elif k == 'expr':
            self.ev(s[1])
        elif k == 'assign':
            _, op, lhs, rhs = s
            r = self.ev(rhs)
            if op != '=':
                r = self.bin(op[0], self.ev(lhs), r)
            if lhs[0] == 'var':
                c = self.look(lhs[1])
                if isinstance(c[1], list):
                    raise Unsupported('C: assignment to an array')
                c[1] = self.conv(c[0], r)
            elif lhs[0] == 'idx' and lhs[1][0] == 'var':
                c = self.look(lhs[1][1])
                i = self.index(c, lhs[2], lhs[1][1])
                if is_sym(i):
                    raise Unsupported('C: write at a symbolic index')
                c[1][i] = self.conv(c[0], r)
            else:
                raise Unsupported('C: assignment target')
        else:
            raise Unsupported('C: statement ' + k)

    def index(self, c, e, nm):
        i = self.ev(e)
        if not isinstance(c[1], list):
            raise Unsupported('C: index into a scalar')
        if isinstance(i, float):
            raise Unsupported('C: real index')
        n = len(c[1])
        if is_sym(i):
            self.bounds.append((nm, i, n))
        elif not 0 <= i < n:
            raise Violation('%s[%d] out of range (size %d)' % (nm, i, n))
        return i

    bounds = []

    def bin(self, op, a, b):
        for x in (a, b):
            if x is None:
                raise Violation('unset variable read')
        a, b = [(1 if bool(x) else 0) if isinstance(x, (SBool, bool)) else x for x in (a, b)]
        ints = all((isinstance(x, int) or is_sym(x) and x.is_int) for x in (a, b))
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if ints:
                if is_sym(a) or is_sym(b):
                    raise Unsupported('C: symbolic integer division')
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            a, b = dbl(a), dbl(b)
            if not is_sym(b) and b == 0.0:
                if is_sym(a):
                    raise Violation('division by zero')
                with numpy.errstate(all='ignore'):
                    return float(numpy.float64(a) / numpy.float64(b))
            return a / b
        if op == '%':
            if is_sym(a) or is_sym(b):
                raise Unsupported('C: symbolic remainder')
            return int(math.fmod(a, b))
        raise Unsupported('C: operator ' + op)

    def ev(self, e):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'var':
            c = self.look(e[1])
            if c[1] is None:
                raise Violation('unset variable %s read' % e[1])
            return c[1]
        if k == 'idx':
            if e[1][0] != 'var':
                raise Unsupported('C: nested index')
            c = self.look(e[1][1])
            i = self.index(c, e[2], e[1][1])
            if is_sym(i):
                r = c[1][0]
                for j in range(1, len(c[1])):
                    r = r if (not is_sym(r) and not is_sym(c[1][j]) and r == c[1][j]) else core.ite(i == j, c[1][j], r)
                return r
            x = c[1][i]
            if x is None:
                raise Violation('unset entry %s[%d] read' % (e[1][1], i))
            return x
        if k == 'neg':
            return -self.ev(e[1])
        if k == 'not':
            return not bool(self.ev(e[1]))
        if k == 'cast':
            return self.conv(e[1], self.ev(e[2]))
        if k == 'cond':
            return self.ev(e[2]) if bool(self.ev(e[1])) else self.ev(e[3])
        if k == 'call':
            if e[1] not in FUN:
                raise Unsupported('C: function ' + e[1])
            return FUN[e[1]](*[self.ev(a) for a in e[2]])
        if k == 'bin':
            op = e[1]
            if op == '&&':
                return bool(self.ev(e[2])) and bool(self.ev(e[3]))
            if op == '||':
                return bool(self.ev(e[2])) or bool(self.ev(e[3]))
            a, b = self.ev(e[2]), self.ev(e[3])
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
            return self.bin(op, a, b)
        raise Unsupported('C: expression ' + k)


class Ext(Sym):
    """maximum or minimum of a set of values, kept as the set (members are identified by their ring normal form)"""
    def __init__(self, mx, m):
        self.mx, self.m = mx, m
        self._e = None

    @property
    def e(self):
        if self._e is None:
            x = core.eng().fresh_real('ext')
            ms = [core.zreal(y) for y in self.m.values()]
            core.eng().define(z3.Or([x.e == y for y in ms]), *[(x.e >= y if self.mx else x.e <= y) for y in ms])
            self._e = x.e
        return self._e

    def keys(self):
        return frozenset(self.m)


def _key(x):
    return z3.simplify(core.zreal(x), som=True, sort_sums=True).sexpr() if is_sym(x) else repr(float(x))


def extremum(mx, *a):
    """max / min, as a set when a member is symbolic"""
    if len(a) == 1:
        return a[0]
    if not any(is_sym(x) for x in a) or any(core._isinf(x) for x in a):
        return (core.max_ if mx else core.min_)(*a)
    m = {}
    for x in a:
        if isinstance(x, Ext) and x.mx == mx:
            m.update(x.m)
        else:
            m[_key(x)] = x
    return list(m.values())[0] if len(m) == 1 else Ext(mx, m)


def same(v, a, b):
    """equality of two values that may be kept as sets"""
    if isinstance(a, Ext) and isinstance(b, Ext) and a.mx == b.mx and a.keys() == b.keys():
        return True
    return v.eq(a, b)


# ------------------------------------------------------------------ fields and loops

class GDat:
    """values of a field: entries x block"""
    def __init__(self, a, name=''):
        self.a, self.name = a, name

    def __call__(self, access, map_=None):
        return Arg(self, access, map_)

    @property
    def data(self):
        return self.a[:, 0] if self.a.shape[1] == 1 else self.a
    data_with_halos = data_ro = data_ro_with_halos = data


class Arg:
    def __init__(self, data, access, map_=None):
        self.data, self.access, self.map_ = data, access, map_


class Lin:
    """pointwise combination of fields of one space"""
    def __init__(self, fs, a):
        self.fs, self.a = fs, a

    def _op(self, x, f):
        if isinstance(x, (GF, Lin)):
            if x.fs != self.fs:
                raise Unsupported('fields of different spaces combined')
            x = x.a
        elif isinstance(x, fd.Constant):
            x = float(x)
        elif not (is_sym(x) or isinstance(x, (int, float, numpy.ndarray, numpy.number))):
            raise Unsupported('operand of a field')
        if is_sym(x):
            b = numpy.empty_like(self.a)
            b[:] = x
            x = b
        return Lin(self.fs, f(self.a, x))

    def __add__(self, x): return self._op(x, lambda a, b: a + b)
    def __sub__(self, x): return self._op(x, lambda a, b: a - b)
    def __mul__(self, x): return self._op(x, lambda a, b: a * b)
    def __truediv__(self, x): return self._op(x, lambda a, b: a / b)
    def __rmul__(self, x): return self._op(x, lambda a, b: b * a)
    def __radd__(self, x): return self._op(x, lambda a, b: b + a)
    def __rsub__(self, x): return self._op(x, lambda a, b: b - a)
    def __neg__(self): return self._op(-1.0, lambda a, b: a * b)


class GF(fd.Function):
    """a Function on a real function space whose values are symbolic"""
    def __init__(self, fs, values=None, name=None, **k):
        fd.Function.__init__(self, fs, name=name)
        n = fs.cell_node_map().toset.total_size
        a = numpy.empty((n, fs.block_size), dtype=object)
        a[:] = 0.0
        if values is not None:
            a[:] = numpy.asarray(values, dtype=object).reshape(n, fs.block_size)
        self.__dict__['_gd'] = GDat(a, name or '')

    @property
    def dat(self): return self.__dict__['_gd']

    @property
    def a(self): return self.__dict__['_gd'].a

    @property
    def fs(self): return self.function_space()

    def assign(self, x, **k):
        if isinstance(x, (GF, Lin)):
            if x.fs != self.fs:
                raise Unsupported('assignment between spaces')
            self.a[:] = x.a
        elif isinstance(x, fd.Function):
            self.a[:] = x.dat.data_ro.reshape(self.a.shape)
        elif isinstance(x, fd.Constant):
            self.a[:] = float(x)
        elif is_sym(x) or isinstance(x, (int, float)):
            self.a[:] = x
        else:
            raise Unsupported('assignment of an expression')
        return self

    def copy(self, deepcopy=False): return GF(self.fs, self.a.copy(), self.name())
    def _l(self): return Lin(self.fs, self.a.copy())

    def _bin(self, x, nm):
        if isinstance(x, (GF, Lin, int, float, fd.Constant)) or is_sym(x):
            return getattr(self._l(), nm)(x)
        return getattr(fd.Function, nm)(self, x)

    def __add__(self, x): return self._bin(x, '__add__')
    def __sub__(self, x): return self._bin(x, '__sub__')
    def __mul__(self, x): return self._bin(x, '__mul__')
    def __truediv__(self, x): return self._bin(x, '__truediv__')
    def __radd__(self, x): return self._bin(x, '__radd__')
    def __rsub__(self, x): return self._bin(x, '__rsub__')
    def __rmul__(self, x): return self._bin(x, '__rmul__')
    def __neg__(self): return -self._l()
    def __iadd__(self, x): return self.assign(self._l() + x)
    def __isub__(self, x): return self.assign(self._l() - x)
    def __imul__(self, x): return self.assign(self._l() * x)
    def __itruediv__(self, x): return self.assign(self._l() / x)


def values(v, pre, fs, **k):
    n = fs.cell_node_map().toset.total_size
    return [v.real('%s%d' % (pre, i), **k) for i in range(n * fs.block_size)]


class GhostOp2:
    """op2 with op2.Kernel / op2.par_loop interpreted; everything else is the real module"""
    def __init__(self, v, generic=False, choose=None, kw=None):
        """generic: run the kernel once, on a cell of any mesh (arbitrary values of the nodes), and record it in `cells`;
        choose(data) supplies the values of arguments that are no fields; kw(data, i) gives the range of the i-th value"""
        from pyop2 import op2
        self._v, self._op2 = v, op2
        self.loops, self.cells, self.generic, self.choose, self.kw = [], [], generic, choose, kw or (lambda d, i: {})

    def __getattr__(self, k):
        return getattr(self._op2, k)

    def Kernel(self, code, name, **k):
        return (code, name)

    def par_loop(self, kernel, iterset, *args, iteration_region=None, **k):
        op2, v = self._op2, self._v
        if k:
            raise Unsupported('par_loop option')
        run = Run(*kernel)
        run.bounds = []
        layers = getattr(iterset, 'layers', None)
        ext = hasattr(iterset, '_extruded') and iterset._extruded
        if ext:
            if numpy.ndim(layers) and numpy.size(layers) > 1:
                raise Unsupported('variable layers')
            nl = int(numpy.ravel(layers)[0]) - 1
            lay = range(nl)
            if iteration_region == op2.ON_TOP:
                lay = [nl - 1]
            elif iteration_region == op2.ON_BOTTOM:
                lay = [0]
            elif iteration_region not in (None, op2.ALL):
                raise Unsupported('iteration region')
        else:
            if iteration_region not in (None, op2.ALL):
                raise Unsupported('iteration region')
            lay = [0]
        self.loops.append((kernel, iterset, args, iteration_region))
        if self.generic:
            return self._generic(run, kernel, iterset, args, iteration_region)
        try:
            for n in range(iterset.total_size):
                for l in lay:
                    bufs, back = [], []
                    for a in args:
                        d = a.data
                        vals = d.a if isinstance(d, GDat) else None
                        m = getattr(a, 'map_', None)
                        glob = vals is None and isinstance(d, op2.Global)
                        if glob:
                            arr = numpy.ravel(d.data_ro)
                            bufs.append([x.item() for x in arr])
                            continue
                        if vals is None:
                            vals = d.data_ro_with_halos
                            vals = vals.reshape(vals.shape[0], -1)
                            if a.access is not op2.READ:
                                raise Unsupported('real field written')
                        if m is None:
                            rows = [n]
                        else:
                            rows = list(map(int, m.values_with_halo[n]))
                            off = m.offset
                            if ext and off is not None:
                                rows = [r + l * int(o) for r, o in zip(rows, off)]
                        zero = a.access in (op2.WRITE, op2.INC)
                        buf = [0.0 if zero else (x.item() if hasattr(x, 'item') else x) for r in rows for x in vals[r]]
                        if a.access is op2.READ:
                            orig = list(buf)
                            back.append((a, rows, vals, buf, orig))
                        else:
                            back.append((a, rows, vals, buf, None))
                        bufs.append(buf)
                    run(*bufs)
                    for a, rows, vals, buf, orig in back:
                        nb = vals.shape[1]
                        if orig is not None:
                            if any(x is not y for x, y in zip(orig, buf)):
                                raise Violation('argument declared READ is written')
                            continue
                        for i, r in enumerate(rows):
                            for j in range(nb):
                                x = buf[i * nb + j]
                                if a.access is op2.MAX:
                                    x = extremum(True, vals[r, j], x)
                                elif a.access is op2.MIN:
                                    x = extremum(False, vals[r, j], x)
                                elif a.access is op2.INC:
                                    x = vals[r, j] + x
                                vals[r, j] = x
        except Violation as ex:
            v.check('kernel %s: arguments and memory accesses agree' % kernel[1], False, str(ex))
            raise core.PathEnd('kernel')
        for nm, i, n in run.bounds:
            v.check('kernel index in range', v.all([i >= 0, i < n]), nm)
        v.check('kernel %s: arguments and memory accesses agree' % kernel[1], True)

    def _generic(self, run, kernel, iterset, args, region):
        op2, v = self._op2, self._v
        recs, bufs, seen = [], [], []
        for a in args:
            d, m = a.data, getattr(a, 'map_', None)
            if isinstance(d, op2.Global):
                bufs.append([x.item() for x in numpy.ravel(d.data_ro)])
                recs.append(None)
                continue
            if m is None:
                if self.choose is None or a.access is not op2.READ:
                    raise Unsupported('direct argument')
                bufs.append(list(self.choose(d)))
                recs.append(None)
                continue
            nb = d.a.shape[1] if isinstance(d, GDat) else int(numpy.prod(d.data_ro.shape[1:], dtype=int))
            if any(x is d for x, w in seen if w or a.access is not op2.READ):
                raise Unsupported('field read and written in one loop')
            seen.append((d, a.access is not op2.READ))
            k = len(recs) + 100 * len(self.cells)
            b = [0.0] * (m.arity * nb) if a.access in (op2.WRITE, op2.INC) else [v.real('cell%d_%d' % (k, i), **self.kw(d, i)) for i in range(m.arity * nb)]
            recs.append(SimpleNamespace(data=d, access=a.access, map=m, nb=nb, before=list(b), after=b))
            bufs.append(b)
        try:
            run(*bufs)
            for r in recs:
                if r and r.access is op2.READ and any(x is not y for x, y in zip(r.before, r.after)):
                    raise Violation('argument declared READ is written')
        except Violation as ex:
            v.check('kernel %s: arguments and memory accesses agree' % kernel[1], False, str(ex))
            raise core.PathEnd('kernel')
        for nm, i, n in run.bounds:
            v.check('kernel index in range', v.all([i >= 0, i < n]), nm)
        v.check('kernel %s: arguments and memory accesses agree' % kernel[1], True)
        self.cells.append(SimpleNamespace(args=recs, set=iterset, region=region))

    def cell(self, k, data):
        """record of the argument with these data in the k-th loop"""
        r = [x for x in self.cells[k].args if x and x.data is data]
        if len(r) != 1:
            raise Unsupported('argument of the loop')
        return r[0]
