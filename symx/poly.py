"""Polynomial normal form of real terms, used where quotients and roots are variables.

A term becomes a map from monomials to rational coefficients; the squares of root variables
are replaced by what is under the root, and a variable times its reciprocal by one.  Terms
equal under these rules become the same term, so that functions applied to them are the
same application and equalities between them need no search."""
from fractions import Fraction

import z3

from .core import Unsupported, rv

MAX = 20000


class TooLarge(Unsupported):
    pass


def _mulmono(a, b):
    d = dict(a)
    for v, n in b:
        d[v] = d.get(v, 0) + n
    return tuple(sorted(d.items()))


def _add(p, q, f=1):
    for m, c in q.items():
        s = p.get(m, 0) + f * c
        if s:
            p[m] = s
        else:
            p.pop(m, None)
    return p


TINY = Fraction(1, 10 ** 12)


def near(p, q):
    for m in p.keys() | q.keys():
        a, b = p.get(m, 0), q.get(m, 0)
        if a != b and abs(a - b) > TINY * max(abs(a), abs(b)):
            return False
    return True


class Polys:
    """Normal forms within one path."""

    def __init__(self):
        self.atoms = {}             # id -> term
        self.square = {}            # id of a root variable -> polynomial under the root
        self.inverse = {}           # id of a variable -> id of its reciprocal
        self.roots = {}             # polynomial (frozen) -> id of its root variable
        self.cache = {}
        self.points = {}            # function -> [(polynomial, term)] it was applied to

    def point(self, name, e):
        """The argument term for a function: the one it already has for this polynomial."""
        try:
            p = self.of(e)
        except TooLarge:
            return z3.simplify(e, som=True)
        for q, t in self.points.setdefault(name, []):
            if near(p, q):
                return t
        t = self.term(p)
        self.points[name].append((p, t))
        return t

    def freeze(self, p):
        return frozenset(p.items())

    def atom(self, e):
        self.atoms[e.get_id()] = e
        return {((e.get_id(), 1),): Fraction(1)}

    def mul(self, p, q):
        if len(p) * len(q) > MAX:
            raise TooLarge()
        out = {}
        for a, x in p.items():
            for b, y in q.items():
                m = _mulmono(a, b)
                s = out.get(m, 0) + x * y
                if s:
                    out[m] = s
                else:
                    out.pop(m, None)
        return self.reduce(out)

    def reduce(self, p):
        """All rules, until none applies."""
        out, todo = {}, list(p.items())
        while todo:
            m, c = todo.pop()
            new = self._rule(m)
            if new is None:
                x = out.get(m, 0) + c
                if x:
                    out[m] = x
                else:
                    del out[m]
                continue
            rest, repl = new
            if repl is None:
                todo.append((rest, c))
            else:
                todo.extend((_mulmono(rest, k), c * x) for k, x in repl.items())
            if len(todo) > MAX:
                raise TooLarge()
        return out

    def _rule(self, m):
        d = dict(m)
        for v, n in m:
            w = self.inverse.get(v)
            if w is not None and w in d:
                k = min(n, d[w])
                d[v] -= k
                d[w] -= k
                return tuple(sorted((a, b) for a, b in d.items() if b)), None
            if n >= 2 and v in self.square:
                d[v] -= 2
                return tuple(sorted((a, b) for a, b in d.items() if b)), self.square[v]
        return None

    def of(self, e):
        hit = self.cache.get(e.get_id())
        if hit is not None:
            return hit[1]
        p = self._of(e)
        self.cache[e.get_id()] = (e, p)
        return p

    def _of(self, e):
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return {(): f} if f else {}
        if z3.is_int_value(e):
            f = Fraction(e.as_long())
            return {(): f} if f else {}
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_TO_REAL:
                inner = e.arg(0)
                if z3.is_int_value(inner):
                    return self._of(inner)
                return self.atom(e)
            if k == z3.Z3_OP_ADD:
                out = {}
                for a in e.children():
                    _add(out, self.of(a))
                return out
            if k == z3.Z3_OP_SUB:
                ch = e.children()
                out = dict(self.of(ch[0]))
                for a in ch[1:]:
                    _add(out, self.of(a), -1)
                return out
            if k == z3.Z3_OP_UMINUS:
                return {m: -c for m, c in self.of(e.arg(0)).items()}
            if k == z3.Z3_OP_MUL:
                out = {(): Fraction(1)}
                for a in e.children():
                    out = self.mul(out, self.of(a))
                return out
            if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
                f = e.arg(1).as_fraction()
                if f.denominator == 1 and 0 <= f.numerator <= 8:
                    out = {(): Fraction(1)}
                    for _ in range(f.numerator):
                        out = self.mul(out, self.of(e.arg(0)))
                    return out
        return self.atom(e)

    def term(self, p):
        """The term of a polynomial: the same one for the same polynomial."""
        out = []
        for m in sorted(p):
            f = [self.atoms[v] for v, n in m for _ in range(n)]
            c = p[m]
            if not f:
                out.append(rv(c))
                continue
            t = f[0]
            for x in f[1:]:
                t = t * x
            out.append(t if c == 1 else rv(c) * t)
        if not out:
            return z3.RealVal(0)
        return out[0] if len(out) == 1 else z3.Sum(*out)

    def same(self, x, y):
        """Equal as polynomials, coefficients up to the rounding of constants."""
        try:
            p, q = self.of(x), self.of(y)
        except TooLarge:
            return False
        return near(p, q)

    def canon(self, e):
        try:
            return self.term(self.of(e))
        except TooLarge:
            return z3.simplify(e, som=True)

    # ------------------------------------------------------------ new variables
    def root(self, arg, var):
        p = self.of(arg)
        self.atom(var)
        self.square[var.get_id()] = p
        self.roots[self.freeze(p)] = var

    def squared(self, var, p, *atoms):
        """var * var is p."""
        for v in (var,) + atoms:
            self.atoms[v.get_id()] = v
        self.square[var.get_id()] = p
        self.cache.clear()

    def known_root(self, arg):
        return self.roots.get(self.freeze(self.of(arg)))

    def reciprocal(self, ex, y):
        """1 / y, a polynomial in reciprocals of variables or of whole sums."""
        p = self.of(y)
        if len(p) == 1:
            (m, c), = p.items()
            t = rv(1 / c)
            for v, n in m:
                i = self.inverse_of(ex, self.atoms[v])
                for _ in range(n):
                    t = t * i
            return t
        root = self.roots.get(self.freeze(p))
        if root is not None:
            i = self.inverse_of(ex, root)
            return i * i
        # up to its leading coefficient, so that y and -y have the same variable
        lead = p[min(p)]
        q = {m: c / lead for m, c in p.items()}
        key = self.freeze(q)
        r = ex.recips.get(key)
        if r is None:
            r = ex.aux_real("recip")
            ex.recips[key] = r
            ex.add(r * self.term(q) == 1)
        return rv(1 / lead) * r

    def inverse_of(self, ex, var):
        k = var.get_id()
        if k not in self.inverse:
            r = ex.aux_real("recip")
            self.atoms[r.get_id()] = r
            self.inverse[k], self.inverse[r.get_id()] = r.get_id(), k
            self.atoms[k] = var
            ex.add(r * var == 1)
            self.cache.clear()
        return self.atoms[self.inverse[k]]
