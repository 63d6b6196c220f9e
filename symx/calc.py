"""Exact normal forms and derivatives of terms: polynomials over variables, square roots, logarithms and inverses."""
from fractions import Fraction

from . import core as C
from .core import z3

ONE = ()


class Unsupported(Exception):
    pass


class Field:
    """Polynomials are dicts {monomial: Fraction}; a monomial is a sorted tuple of (generator, exponent), exponents may be negative."""

    def __init__(self, path):
        self.path, self.memo, self.rads, self.args = path, {}, {}, {}

    # polynomials
    def const(self, c):
        return {ONE: Fraction(c)} if c else {}

    def gen(self, g):
        return {((g, 1),): Fraction(1)}

    def add(self, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                e = dict(m)
                for g, k in n:
                    e[g] = e.get(g, 0) + k
                t = tuple(sorted((g, k) for g, k in e.items() if k))
                v = r.get(t, 0) + c * d
                if v:
                    r[t] = v
                else:
                    r.pop(t, None)
        return r

    def inv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((g, -k) for g, k in m): 1 / c}
        if not p:
            raise Unsupported("division by zero")
        return {((self.key("inv", p), 1),): Fraction(1)}

    def key(self, kind, p):
        k = "%s(%s)" % (kind, sorted((repr(m), str(c)) for m, c in p.items()))
        self.args[k] = (kind, p)
        return k

    # terms
    def poly(self, e):
        if C.is_sym(e):
            e = C.zr(e)
        elif not z3.is_expr(e):
            return self.const(e if isinstance(e, Fraction) else C.frac(float(e)))
        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = (e, self._poly(e))
        return self.memo[k][1]

    def _poly(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return self.const(Fraction(str(e)))
        d, kids = e.decl(), e.children()
        k = d.kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in kids:
                r = self.add(r, self.poly(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(kids[0])
            for x in kids[1:]:
                r = self.add(r, self.poly(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add({}, self.poly(kids[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for x in kids:
                r = self.mul(r, self.poly(x))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.poly(kids[0]), self.inv(self.poly(kids[1])))
        if k == z3.Z3_OP_ITE:
            if self.path.check(z3.Not(kids[0])) == z3.unsat:
                return self.poly(kids[1])
            if self.path.check(kids[0]) == z3.unsat:
                return self.poly(kids[2])
            return self.poly(kids[1] if self.path.branch(kids[0]) else kids[2])  # forks
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(kids[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(kids[1]):
            n = int(str(kids[1]))
            b = self.poly(kids[0])
            r = self.const(1)
            for _ in range(abs(n)):
                r = self.mul(r, b)
            return r if n >= 0 else self.inv(r)
        if k == z3.Z3_OP_UNINTERPRETED:
            if not kids:
                n = str(e)
                if n in self.path.sqrt_rads:
                    return self.gen(self.key("sqrt", self.poly(self.path.sqrt_rads[n])))
                return self.gen(n)
            return self.gen(self.key(d.name(), self.poly(kids[0])))
        raise Unsupported(str(d))

    # derivatives
    def diff(self, p, var):
        r = {}
        for m, c in p.items():
            for i, (g, k) in enumerate(m):
                rest = {tuple(m[:i] + m[i + 1:]): c * k}
                if k != 1:
                    rest = self.mul(rest, {((g, k - 1),): Fraction(1)})
                dg = self.dgen(g, var)
                if dg:
                    r = self.add(r, self.mul(rest, dg))
        return r

    def dgen(self, g, var):
        if g == var:
            return self.const(1)
        if g not in self.args:
            return {}
        kind, p = self.args[g]
        dp = self.diff(p, var)
        if not dp:
            return {}
        if kind == "sqrt":
            return self.mul(dp, {((g, -1),): Fraction(1, 2)})
        if kind == "log":
            return self.mul(dp, self.inv(p))
        if kind == "exp":
            return self.mul(dp, self.gen(g))
        if kind == "inv":
            return self.mul(dp, {((g, 2),): Fraction(-1)})
        raise Unsupported(kind)

    def zero(self, p):
        """Is p identically zero where the square roots and inverses are positive/defined?  Clears denominators, reduces s^2 to its radicand."""
        for _ in range(60):
            low = {}
            for m in p:
                for g, k in m:
                    low[g] = min(low.get(g, 0), k)
            neg = tuple(sorted((g, -k) for g, k in low.items() if k < 0))
            if neg:
                p = self.mul(p, {neg: Fraction(1)})
            r, changed = {}, False
            for m, c in p.items():
                t = {m: c}
                for g, k in m:
                    if g in self.args and self.args[g][0] == "sqrt" and k >= 2:
                        t = self.mul({tuple(x for x in m if x[0] != g): c}, self.args[g][1])
                        if k > 2:
                            t = self.mul(t, {((g, k - 2),): Fraction(1)})
                        changed = True
                        break
                r = self.add(r, t)
            invs = [g for m in r for g, k in m if g in self.args and self.args[g][0] == "inv"]
            if invs and not changed:  # multiply by the inverted polynomial
                g = invs[0]
                q = self.args[g][1]
                out = {}
                for m, c in r.items():
                    k = dict(m).get(g, 0)
                    t = {tuple(x for x in m if x[0] != g): c}
                    top = max(dict(n).get(g, 0) for n in r)
                    for _ in range(top - k):
                        t = self.mul(t, q)
                    out = self.add(out, t)
                r, changed = out, True
            p = r
            if not changed:
                return not p
        raise Unsupported("no normal form")
