"""Import-time loop-cut transform.  For the listed functions every while/for gets hooks; without an active specification
they are pass-through (so the real loop runs unchanged)."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys
from . import core
from .core import Sym, SBool, PathEnd, Unsupported
import z3

TRANSFORM = {}    # module -> set of qualnames ('*' for all)
SPECS = {}        # (qualname, kind, ordinal) -> LoopSpec, active during a contract


DROPPED = set()   # Houdini: candidate relations on locals found not inductive
CHANGED = [False]
DEBUG = bool(__import__("os").environ.get("PYVC_VERBOSE"))


class LoopSpec:
    """inv(L) -> [(name, cond)], L: dict of the locals; havoc(name, old) -> new value; state(L): havoc of heap state;
    variant(L): non-negative-when-continuing measure that must decrease by at least `step`."""
    def __init__(self, inv, v, havoc=None, state=None, keep=(), on_iter=None, cands=None):
        """cands(x, x0, L) -> [(label, cond)]: candidate relations tried for every numeric local assigned in the loop (x0: value at
        loop entry); the ones that are not established/preserved are dropped until a fixpoint (Houdini), so the invariant
        does not depend on the names of locals."""
        self.inv, self.v, self.havoc_fn, self.state, self.keep, self.on_iter, self.cands = inv, v, havoc, state, keep, on_iter, cands


class Loop:
    def __init__(self, id_, spec, L):
        self.id, self.spec, self.n = id_, spec, 0
        if spec is not None:
            core.eng().loop_hits[id_] = True
            for name, c in spec.inv(L):
                spec.v.check('loop %s: invariant established: %s' % (id_, name), c)
        self.entry = {}
        self.L0 = dict(L)

    def _cands(self, L):
        for nm, x0 in self.entry.items():
            x = L.get(nm)
            if not isinstance(x, (int, float, Sym)) or isinstance(x, bool):
                continue
            for label, c in self.spec.cands(x, x0, L):
                k = (self.id, nm, label)
                if k not in DROPPED:
                    yield k, c

    def havoc(self, name, old):
        s = self.spec
        if s is None or name in s.keep:
            return old
        self.entry[name] = old
        if s.havoc_fn is not None:
            r = s.havoc_fn(name, old)
            if r is not None:
                return r
        e = core.eng()
        if isinstance(old, bool) or isinstance(old, SBool):
            return SBool(z3.Bool(e.fresh_name('hv_' + name)))
        if isinstance(old, int) or isinstance(old, Sym) and old.is_int:
            return e.fresh_int('hv_' + name)
        if isinstance(old, (float, Sym)):
            return e.fresh_real('hv_' + name)
        return Opaque(name)

    def head(self, L):
        s = self.spec
        if s is None:
            return True
        if self.n == 0:
            self.n = 1
            if s.cands is not None:
                self._drop(self.L0)
            if s.state is not None:
                s.state(L)
            for name, c in s.inv(L):
                s.v.assume(c)
            if s.cands is not None:
                for k, c in self._cands(L):
                    s.v.assume(c)
            s.v.feasible()
            if s.on_iter is not None:
                s.on_iter(L)
            return True
        for name, c in s.inv(L):
            s.v.check('loop %s: invariant preserved: %s' % (self.id, name), c)
        if s.cands is not None:
            self._drop(L)
        raise PathEnd()

    def _drop(self, L):
        e = core.eng()
        for k, c in list(self._cands(L)):
            if isinstance(c, SBool):
                ok = e.quiet_prove(c.e)
            else:
                ok = bool(c)
            if not ok:
                DROPPED.add(k)
                if DEBUG:
                    print('dropped', k, c)
                CHANGED[0] = True


class Opaque:
    """value of a havocked local of unknown type: any use makes the contract undecided"""
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def __getattr__(self, k):
        raise Unsupported('use of havocked local %r' % object.__getattribute__(self, '_n'))

    def _bad(self, *a):
        raise Unsupported('use of havocked local')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __iter__ = __len__ = __getitem__ = __call__ = __bool__ = __float__ = _bad


def loop(id_, L):
    spec = SPECS.get(id_)
    if spec is not None and core.ENG is None:
        spec = None
    return Loop(id_, spec, L)


class _T(ast.NodeTransformer):
    def __init__(self, qual, names):
        self.qual, self.names = qual, names
        self.stack = []
        self.fn = None
        self.count = {}

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        outer = self.fn
        self.stack.append(n.name)
        q = '.'.join(self.stack)
        if outer is None and ('*' in self.names or q in self.names):
            self.fn = q
            self.count = {}
            n.body = self.block(n.body)
            self.fn = None
        elif outer is None:
            self.generic_visit(n)
        self.stack.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)) \
                        and not isinstance(s, (ast.While,)):
                    setattr(s, f, self.block(b))
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    h.body = self.block(h.body)
            if isinstance(s, ast.While):
                k = self.count.get('while', 0)
                self.count['while'] = k + 1
                s.body = self.block(s.body)
                out.extend(self.while_(s, (self.fn, 'while', k)))
            else:
                out.append(s)
        return out

    def while_(self, s, id_):
        var = '_pv_l%d' % id_[2]
        names = sorted({x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        names = [x for x in names if not x.startswith('_pv_')]
        pre = ast.parse('%s = _pv_.loop(%r, locals())' % (var, id_)).body
        for nm in names:
            pre += ast.parse('try:\n    %s = %s.havoc(%r, %s)\nexcept NameError:\n    pass' % (nm, var, nm, nm)).body
        head = ast.parse('%s.head(locals())' % var, mode='eval').body
        s.test = ast.BoolOp(ast.And(), [head, s.test])
        for p in pre:
            ast.copy_location(p, s)
            for x in ast.walk(p):
                ast.copy_location(x, s)
        ast.copy_location(s.test, s)
        return pre + [s]


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        if self.name in TRANSFORM:
            tree = _T(self.name, TRANSFORM[self.name]).visit(tree)
            ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__['_pv_'] = sys.modules[__name__]
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.startswith('thetis.') and name in TRANSFORM:
            for p in path or []:
                f = '%s/%s.py' % (p, name.rsplit('.', 1)[1])
                try:
                    open(f).close()
                except OSError:
                    continue
                return importlib.util.spec_from_loader(name, Loader(name, f), origin=f)
        return None


def install():
    sys.meta_path.insert(0, Finder())
