"""Exact decision of equalities between rational functions over atoms (sum-of-monomials normal form, Fraction
coefficients).  Atoms are variables and non-polynomial subterms; square roots s (s*s = x) and rational roots are reduced.
Sound: only answers True when numerator(lhs - rhs) normalises to zero; denominators are separately proved non-zero (or the
division is total in the logic on both sides identically, in which case z3's own semantics is weaker: we then only claim the
identity where all denominators are non-zero, which is the definedness domain of the program)."""
from fractions import Fraction
import time
import z3

DEFS_SQRT = {}
DEFS_ROOT = {}
MAXTERMS = 6000
DEADLINE = [None]
LIMIT = 20


class TooBig(Exception):
    pass


def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def pmul(p, q):
    if len(p) * len(q) > 400000 or (DEADLINE[0] and time.time() > DEADLINE[0]):
        raise TooBig()
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            mn = mmul(m, n)
            v = r.get(mn, 0) + a * b
            if v == 0:
                r.pop(mn, None)
            else:
                r[mn] = v
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


class Norm:
    def __init__(self):
        self.cache = {}
        self.atoms = {}
        self.keep = []

    def atom(self, e):
        k = e.sexpr() if e.num_args() == 0 else z3.simplify(e, som=True).sexpr()
        self.atoms[k] = e
        return {((k, 1),): Fraction(1)}, ONE

    def nf(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i]
        r = self._nf(e)
        self.cache[i] = r
        self.keep.append(e)
        return r

    def _nf(self, e):
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): f} if f else {}), ONE
        if z3.is_int_value(e):
            f = Fraction(e.as_long())
            return ({(): f} if f else {}), ONE
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            n, d = self.nf(ch[0])
            for c in ch[1:]:
                n2, d2 = self.nf(c)
                s = 1 if k == z3.Z3_OP_ADD else -1
                if d == d2:
                    n = padd(n, n2, s)
                else:
                    n, d = padd(pmul(n, d2), pmul(n2, d), s), pmul(d, d2)
                n, d = self.cancel(n, d)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.nf(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            n, d = self.nf(ch[0])
            for c in ch[1:]:
                n2, d2 = self.nf(c)
                n, d = pmul(n, n2), pmul(d, d2)
                n, d = self.cancel(n, d)
            return self.red(n), self.red(d)
        if k == z3.Z3_OP_DIV:
            n, d = self.nf(ch[0])
            n2, d2 = self.nf(ch[1])
            if not n2:
                return self.atom(e)
            return self.cancel(self.red(pmul(n, d2)), self.red(pmul(d, n2)))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            p = ch[1].numerator_as_long()
            if 0 < p <= 12:
                n, d = self.nf(ch[0])
                rn, rd = n, d
                for _ in range(p - 1):
                    rn, rd = pmul(rn, n), pmul(rd, d)
                return self.red(rn), self.red(rd)
        if k == z3.Z3_OP_TO_REAL:
            return self.nf(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED and ch:
            # congruence: normalise arguments
            key = e.decl().name() + '(' + ','.join(self.canon(c) for c in ch) + ')'
            self.atoms[key] = e
            return {((key, 1),): Fraction(1)}, ONE
        if k == z3.Z3_OP_ITE:
            c = ch[0]
            key = 'ite(%s,%s,%s)' % (self.canonb(c), self.canon(ch[1]), self.canon(ch[2]))
            return {((key, 1),): Fraction(1)}, ONE
        return self.atom(e)

    def canonb(self, c):
        if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) \
                and z3.is_arith(c.arg(0)):
            k = c.decl().kind()
            a, b = c.arg(0), c.arg(1)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
                k = {z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
            return '%d[%s]' % (k, self.canon(a - b))
        return z3.simplify(c).sexpr()

    def canon(self, e):
        if not z3.is_arith(e):
            return z3.simplify(e).sexpr()
        n, d = self.nf(e)
        lead = None
        if d:
            lead = d[sorted(d)[0]]
            if lead != 1:
                n = {m: c / lead for m, c in n.items()}
                d = {m: c / lead for m, c in d.items()}
        return repr(sorted(n.items())) + '/' + repr(sorted(d.items()))

    def cancel(self, n, d):
        """cancel common monomial factor and identical polynomials"""
        if not n:
            return {}, ONE
        if n == d:
            return ONE, ONE
        if len(d) == 1:
            (dm, dc), = d.items()
            if dm:
                g = dict(dm)
                for m in n:
                    md = dict(m)
                    for a in list(g):
                        g[a] = min(g[a], md.get(a, 0))
                        if g[a] == 0:
                            del g[a]
                    if not g:
                        break
                if g:
                    def sub(m):
                        x = dict(m)
                        for a, e in g.items():
                            x[a] -= e
                        return tuple(sorted((a, e) for a, e in x.items() if e))
                    n = {sub(m): c for m, c in n.items()}
                    d = {sub(dm): dc}
            (dm, dc), = d.items()
            if not dm and dc != 1:
                n = {m: c / dc for m, c in n.items()}
                d = ONE
        return n, d

    def red(self, p):
        """reduce powers of sqrt / root atoms"""
        again = True
        while again:
            again = False
            for m in list(p):
                for a, e in m:
                    deg, x = None, None
                    if a in DEFS_SQRT and e >= 2:
                        deg, x = 2, DEFS_SQRT[a]
                    elif a in DEFS_ROOT and e >= DEFS_ROOT[a][0]:
                        deg, x = DEFS_ROOT[a]
                    if deg:
                        c = p.pop(m)
                        rest = tuple(sorted((b, f) if b != a else (b, f - deg) for b, f in m if b != a or f > deg))
                        n, d = self.nf(x)
                        if d != ONE:
                            if len(d) == 1 and () in d:
                                n = {k: v / d[()] for k, v in n.items()}
                            else:
                                p[m] = c
                                continue
                        p = padd(p, pmul({rest: c}, n))
                        again = True
                        break
                if again:
                    break
        return p


def key(e):
    """canonical text of a real term (equal texts: equal values), or its plain text when normalising is too costly"""
    DEADLINE[0] = time.time() + 2
    try:
        return Norm().canon(e)
    except (TooBig, RecursionError, z3.Z3Exception):
        return z3.simplify(e).sexpr()
    finally:
        DEADLINE[0] = None


def signkey(e):
    """(key, flip): terms whose signs agree (up to the factor flip) get equal keys; key '0' for the zero polynomial"""
    DEADLINE[0] = time.time() + 4
    try:
        n, d = Norm().nf(e)
        if not n:
            return '0', 1
        ld = d[sorted(d)[0]]
        ln = n[sorted(n)[0]] / ld
        f = 1 if ln > 0 else -1
        n = {m: c / (abs(ln) * f * ld) for m, c in n.items()}
        d = {m: c / ld for m, c in d.items()}
        return repr(sorted(n.items())) + '/' + repr(sorted(d.items())), f
    except (TooBig, RecursionError, z3.Z3Exception):
        return z3.simplify(e).sexpr(), 1
    finally:
        DEADLINE[0] = None


def prove(cond):
    """True if cond is (a conjunction of) equalities that normalise to 0 = 0"""
    DEADLINE[0] = time.time() + LIMIT
    try:
        return _prove(cond)
    except (TooBig, RecursionError, z3.Z3Exception):
        return False
    finally:
        DEADLINE[0] = None


def _prove(c):
    if z3.is_and(c):
        return all(_prove(x) for x in c.children())
    if z3.is_true(c):
        return True
    if z3.is_eq(c) and z3.is_arith(c.arg(0)):
        N = Norm()
        n1, d1 = N.nf(c.arg(0))
        n2, d2 = N.nf(c.arg(1))
        if d1 == d2:
            diff = padd(n1, n2, -1)
        else:
            diff = padd(pmul(n1, d2), pmul(n2, d1), -1)
        diff = N.red(diff)
        return not diff
    return False
