"""Sparse multivariate Laurent polynomials over Q with rewriting rules.

A monomial is a sorted tuple of (variable id, exponent); a polynomial is a dict
monomial -> int or Fraction.  Rules (leading monomial -> polynomial) come only from
equations that *define* a symbol (c*c = 1 - s*s, n*n = x*x+y*y+z*z, R orthonormal, ...),
so normalising is a sound simplification of terms before they reach the SMT solver.
"""
from fractions import Fraction
import math


def nice(x):
    """Exact value of a Python/numpy number; floats a rounding error away from a
    simple rational are taken to be that rational (reals-for-floats assumption)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise ValueError("non finite constant %r" % x)
    if x == int(x) and abs(x) < 1e15:
        return int(x)
    if abs(x) < 1e-15:
        return 0
    f = Fraction(repr(x))
    if f.denominator > 10 ** 9:
        g = f.limit_denominator(10 ** 6)
        if abs(g - f) <= abs(f) * Fraction(1, 10 ** 15) * 2:
            f = g
    return f.numerator if f.denominator == 1 else f


class Ring(object):
    def __init__(self):
        self.names = []
        self.rules = {}          # var id -> list of (lm tuple, poly)
        self.nrules = 0
        self._nf = {}
        self._mm = {}

    def var(self, name):
        self.names.append(name)
        return len(self.names) - 1

    # -- monomials -----------------------------------------------------
    @staticmethod
    def mmul(a, b):
        if not a:
            return b
        if not b:
            return a
        r = []
        i = j = 0
        la, lb = len(a), len(b)
        while i < la and j < lb:
            va, ea = a[i]
            vb, eb = b[j]
            if va == vb:
                if ea + eb:
                    r.append((va, ea + eb))
                i += 1
                j += 1
            elif va < vb:
                r.append(a[i])
                i += 1
            else:
                r.append(b[j])
                j += 1
        if i < la:
            r.extend(a[i:])
        if j < lb:
            r.extend(b[j:])
        return tuple(r)

    def add_rule(self, lm, poly):
        self.rules.setdefault(lm[0][0], []).append((lm, dict(poly)))
        self.nrules += 1
        self._nf.clear()
        self._mm.clear()

    def _match(self, m):
        rules = self.rules
        d = None
        for v, e in m:
            if e > 0 and v in rules:
                if d is None:
                    d = dict(m)
                for lm, p in rules[v]:
                    for lv, le in lm:
                        if d.get(lv, 0) < le:
                            break
                    else:
                        return lm, p
        return None

    def nf_mono(self, m):
        """Normal form of a monomial: tuple of (mono, coef)."""
        r = self._nf.get(m)
        if r is not None:
            return r
        hit = self._match(m)
        if hit is None:
            r = ((m, 1),)
        else:
            lm, p = hit
            rest = self.mmul(m, tuple((v, -e) for v, e in lm))
            acc = {}
            for pm, pc in p.items():
                for mm, c in self.nf_mono(self.mmul(rest, pm)):
                    c = acc.get(mm, 0) + c * pc
                    if c:
                        acc[mm] = c
                    else:
                        acc.pop(mm, None)
            r = tuple(acc.items())
        self._nf[m] = r
        return r

    # -- polynomials ---------------------------------------------------
    def nf(self, p):
        acc = {}
        for m, c in p.items():
            for mm, k in self.nf_mono(m):
                v = acc.get(mm, 0) + c * k
                if v:
                    acc[mm] = v
                else:
                    acc.pop(mm, None)
        return acc

    @staticmethod
    def add(p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def scale(p, k):
        if not k:
            return {}
        return {m: c * k for m, c in p.items()}

    def mul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                return self.scale(q, c)
        mm = self._mm
        acc = {}
        get = acc.get
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                key = (m1, m2)
                r = mm.get(key)
                if r is None:
                    r = self.nf_mono(self.mmul(m1, m2))
                    mm[key] = r
                c = c1 * c2
                for m, k in r:
                    acc[m] = get(m, 0) + c * k
        if len(mm) > 2000000:
            mm.clear()
        return {m: v for m, v in acc.items() if v}
