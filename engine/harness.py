"""Obligations: harness functions run symbolically (solver decides every requirement)
and, with the same body, concretely on the real code (replay and encoder validation)."""
import functools
import json
import math
import os
import random
import sys
import time
import traceback
import types
import warnings
from fractions import Fraction

import numpy as np

from . import sym, shim
from .poly import Ring, nice
from .sym import (Sym, SymBool, SymStr, S, Unsupported, PathAbort, Budget, SymDivZero,
                  Stats, explore, lift, neg, simplify, znum)

OBLIGATIONS = {}


class Obligation(object):
    def __init__(self, prop, name, fn, bounds, tier, budget, max_paths, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.bounds, self.tier, self.budget = bounds, tier, budget
        self.max_paths, self.opts = max_paths, opts


def obligation(prop, name, bounds, tier="quick", budget=100, max_paths=512, params=None, **opts):
    def deco(fn):
        OBLIGATIONS.setdefault(prop, []).append(
            Obligation(prop, name, fn, bounds, tier, budget, max_paths, opts))
        return fn
    return deco


class ConcreteMissing(BaseException):
    def __init__(self, name, kind, lo=None, hi=None):
        BaseException.__init__(self, name)
        self.name, self.kind, self.lo, self.hi = name, kind, lo, hi


class NumAssume(BaseException):
    """A concrete run does not satisfy the harness's assumptions."""


# -- functions reached, through sys.monitoring on /repo's code objects -------------------
REACHED = set()
_TOOL = 3


def _watch(code, modname):
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "verif")
        mon.register_callback(_TOOL, mon.events.PY_START, _started)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            mon.set_local_events(_TOOL, c, mon.events.PY_START)
            _watch(c, modname)


def _started(code, off):
    fn = code.co_filename
    if fn.startswith(shim.REPO):
        fn = os.path.relpath(fn, shim.REPO)
    REACHED.add(fn + ":" + code.co_qualname)
    return sys.monitoring.DISABLE


_CODE = {}


class CachedLoader(shim.Loader):
    """Loader with an in-process cache of compiled code (source read on every process)."""

    def load(self, name):
        return shim.Loader.load(self, name)


def _compile(src, path, *a, **k):
    c = _CODE.get((path, src))
    if c is None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = compile(src, path, "exec", dont_inherit=True)
        if path.startswith(shim.REPO):
            _watch(c, path)
        _CODE[(path, src)] = c
    return c


shim.compile = _compile


# ---------------------------------------------------------------------------------------
WIDE = float(os.environ.get("VERIF_WIDE", "1000"))


def wide(lo, hi):
    """Ranges up to some units stand for any size."""
    if lo is None or hi is None:
        return lo, hi
    if lo == -hi and hi >= 3:
        return -WIDE, WIDE
    if 0 <= lo <= 1 and 2 <= hi < WIDE:
        return (2. ** -10 if 2. ** -10 < lo <= .25 else lo), WIDE
    if hi == 0 and lo <= -5:
        return -WIDE, hi
    return lo, hi


class Env(object):
    symbolic = False

    def __init__(self, stubs=None):
        self.stubs = stubs
        self._loader = None
        self.inputs = {}

    @property
    def loader(self):
        if self._loader is None:
            st = self.stubs(self) if callable(self.stubs) else self.stubs
            self._loader = CachedLoader(self.symbolic, st)
        return self._loader

    def mod(self, name):
        return self.loader.load(name)

    def patch(self, module, attr, value):
        setattr(self.mod(module), attr, value)

    # composite inputs, shared by both modes
    def vec(self, name, n, lo=-5, hi=5):
        r = self.arr(n)
        for i in range(n):
            r[i] = self.real("%s[%d]" % (name, i), lo, hi)
        return r

    def mat(self, name, n, m, lo=-5, hi=5):
        r = self.arr((n, m))
        for i in range(n):
            for j in range(m):
                r[i, j] = self.real("%s[%d,%d]" % (name, i, j), lo, hi)
        return r

    def symm(self, name, n, lo=-5, hi=5):
        r = self.arr((n, n))
        for i in range(n):
            for j in range(i, n):
                r[i, j] = r[j, i] = self.real("%s[%d,%d]" % (name, i, j), lo, hi)
        return r

    def pose(self, name, lo=-5, hi=5):
        H = self.arr((4, 4))
        H[0:3, 0:3] = self.rot(name + ".R")
        H[0:3, 3] = self.vec(name + ".p", 3, lo, hi)
        H[3, 3] = 1.
        return H

    def massmatrix(self, name, full=True):
        """A valid mass matrix expressed at any point: m, com c, inertia about the com
        with arbitrary positive principal... (diagonally dominant) symmetric part."""
        m = self.real(name + ".m", 0.1, 50)
        c = self.vec(name + ".c", 3)
        I = self.symm(name + ".I", 3, -1, 1)
        J = self.arr((3, 3))
        for i in range(3):
            for j in range(3):
                J[i, j] = I[i, j] if i != j else I[i, i] + 4
        rx = self.hat(c)
        M = self.arr((6, 6))
        M[0:3, 0:3] = J - m * self.dot(rx, rx)
        M[0:3, 3:6] = m * rx
        M[3:6, 0:3] = -m * rx
        for i in range(3):
            M[3 + i, 3 + i] = m
        return M, m, c, J

    # independent reference algebra (never taken from /repo)
    def arr(self, shape):
        r = np.zeros(shape, object if self.symbolic else float)
        if self.symbolic:
            r[...] = 0
        return r

    def array(self, x):
        r = np.array(x, dtype=object if self.symbolic else float)
        return r

    def dot(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = np.dot(r, m)
        return r

    def hat(self, w):
        return self.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])

    def hat4(self, T):
        r = self.arr((4, 4))
        r[0:3, 0:3] = self.hat(T)
        r[0:3, 3] = T[3:6]
        return r

    def ad(self, T):
        r = self.arr((6, 6))
        r[0:3, 0:3] = r[3:6, 3:6] = self.hat(T)
        r[3:6, 0:3] = self.hat(T[3:6])
        return r

    def Ad(self, H):
        r = self.arr((6, 6))
        R = H[0:3, 0:3]
        r[0:3, 0:3] = r[3:6, 3:6] = R
        r[3:6, 0:3] = np.dot(self.hat(H[0:3, 3]), R)
        return r

    def inv4(self, H):
        r = self.arr((4, 4))
        R = H[0:3, 0:3]
        r[0:3, 0:3] = R.T
        r[0:3, 3] = -np.dot(R.T, H[0:3, 3])
        r[3, 3] = 1
        return r

    def eye(self, n):
        r = self.arr((n, n))
        for i in range(n):
            r[i, i] = 1
        return r

    def ref_rot(self, axis, s, c):
        r = self.eye(4)
        i, j = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[axis]
        r[i, i] = r[j, j] = c
        r[i, j] = -s
        r[j, i] = s
        return r

    def raises(self, label, exc, fn):
        """fn() must raise one of the exceptions exc."""
        try:
            fn()
        except exc:
            self.true(label, True)
            return True
        except (Unsupported, SymDivZero):
            raise
        except Exception as e:
            self.note = e
            self.true(label + " (raised %s)" % type(e).__name__, False)
            return False
        self.true(label, False)
        return False

    def implies(self, a, b):
        raise NotImplementedError


# ---------------------------------------------------------------------------------------
class NumEnv(Env):
    """Concrete mode: real numpy, real /repo code, given input values."""
    symbolic = False

    def __init__(self, values, stubs=None, tolscale=1.0):
        Env.__init__(self, stubs)
        self.values = values
        self.fails = []
        self.obs = []
        self.checked = 0
        self.tol = 1e-6 * tolscale
        self.np = np

    def _get(self, name, kind="real", lo=None, hi=None):
        if name not in self.values:
            raise ConcreteMissing(name, kind, lo, hi)
        return self.values[name]

    def real(self, name, lo=None, hi=None, strict=False):
        lo, hi = wide(lo, hi)
        x = float(self._get(name, "real", lo, hi))
        if lo is not None and x < lo:
            x = float(lo)
        if hi is not None and x > hi:
            x = float(hi)
        return x

    def angle(self, name, lo=None, hi=None):
        return float(self._get(name, "angle", lo, hi))

    def sincos(self, q):
        return math.sin(q), math.cos(q)

    def rot(self, name):
        R = np.array(self._get(name, "rot"), dtype=float).reshape(3, 3)
        u, s, v = np.linalg.svd(R)
        return np.dot(u, np.dot(np.diag([1, 1, np.linalg.det(np.dot(u, v))]), v))

    def unit(self, name):
        n = np.array(self._get(name, "unit"), dtype=float)
        return n / np.linalg.norm(n)

    def choice(self, name, n):
        return int(self._get(name, "choice", 0, n))

    def name(self, name):
        return "n%.9g" % float(self._get(name, "name"))

    def sqrt(self, x):
        return math.sqrt(max(x, 0.0))

    def assume(self, c):
        if not c:
            raise NumAssume()

    # comparisons with tolerance
    def LE(self, a, b):
        return bool(a <= b + self.tol * (1 + abs(a) + abs(b)))

    def GE(self, a, b):
        return self.LE(b, a)

    def EQ(self, a, b):
        return bool(abs(a - b) <= self.tol * (1 + abs(a) + abs(b)))

    same = EQ

    def LT(self, a, b):
        return bool(a < b)

    def AND(self, *c):
        return all(bool(x) for x in c)

    def OR(self, *c):
        return any(bool(x) for x in c)

    def NOT(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def fail(self, label, detail):
        self.fails.append((label, detail))

    def equal(self, label, a, b, tol=None):
        self.checked += 1
        try:
            a = np.array(a, dtype=float)
            b = np.array(b, dtype=float)
        except (TypeError, ValueError) as e:
            return self.fail(label, "not numeric: %s" % e)
        if a.shape != b.shape:
            return self.fail(label, "shape %s, expected %s" % (a.shape, b.shape))
        self.obs.append((label, a.copy()))
        if a.size == 0:
            return
        t = self.tol if tol is None else tol
        scale = 1 + max(np.abs(a[np.isfinite(a)]).max(initial=0), np.abs(b).max(initial=0))
        d = np.abs(a - b)
        if not (d <= t * scale).all():
            self.fail(label, "got %s\nexpected %s" % (np.array2string(a, precision=9),
                                                        np.array2string(b, precision=9)))

    def true(self, label, c):
        self.checked += 1
        if not bool(c):
            self.fail(label, "condition is false")

    def observe(self, label, a):
        try:
            self.obs.append((label, np.array(a, dtype=float)))
        except (TypeError, ValueError):
            self.obs.append((label, None))

    def deriv(self, f, args, rates, h=1e-4):
        def at(t):
            xs = []
            for x, dx in zip(args, rates):
                if isinstance(x, np.ndarray) and x.shape == (4, 4) and np.shape(dx) == (6,):
                    xs.append(np.dot(x, expm4(self.hat4(np.asarray(dx) * t))))
                else:
                    xs.append(np.asarray(x, dtype=float) + t * np.asarray(dx, dtype=float))
            return np.array(f(*xs), dtype=float)
        return (at(-2 * h) - 8 * at(-h) + 8 * at(h) - at(2 * h)) / (12 * h)


def expm4(A):
    r = np.eye(4)
    t = np.eye(4)
    for k in range(1, 14):
        t = np.dot(t, A) / k
        r = r + t
    return r


def same_name(f):
    """A name denotes one input: asked twice, the same symbols are returned."""
    @functools.wraps(f)
    def g(self, name, *a, **k):
        if name not in self.made:
            self.made[name] = f(self, name, *a, **k)
        r = self.made[name]
        return r.copy() if isinstance(r, np.ndarray) else r
    return g


# ---------------------------------------------------------------------------------------
def rational_rotation(rng):
    while True:
        q = [rng.randint(-4, 4) for _ in range(4)]
        n = sum(x * x for x in q)
        if n and sum(1 for x in q if x) >= 2:
            break
    w, x, y, z = q
    n = Fraction(n)
    R = [[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)],
         [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)],
         [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]]
    return [Fraction(e) / n for r in R for e in r]


_SO3 = None


def so3_rules():
    """Rewriting rules for the entries r0..r8 of a rotation matrix: the quadrics
    R^T R = I, R R^T = I and R = cofactors(R), inter-reduced."""
    global _SO3
    if _SO3 is not None:
        return _SO3
    r = [[3 * i + j for j in range(3)] for i in range(3)]

    def prod(a, b):
        return Ring.mmul(((a, 1),), ((b, 1),))
    eqs = []
    for i in range(3):
        for j in range(i, 3):
            e, f = {}, {}
            for k in range(3):
                e = Ring.add(e, {prod(r[k][i], r[k][j]): 1})
                f = Ring.add(f, {prod(r[i][k], r[j][k]): 1})
            if i == j:
                e = Ring.add(e, {(): -1})
                f = Ring.add(f, {(): -1})
            eqs += [e, f]
    for i in range(3):
        for j in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            c, d = (j + 1) % 3, (j + 2) % 3
            eqs.append({prod(r[a][c], r[b][d]): 1, prod(r[a][d], r[b][c]): -1,
                        ((r[i][j], 1),): -1})
    # Gaussian elimination on monomials, larger monomial first

    def key(m):
        return (sum(e for _, e in m), tuple((-v, e) for v, e in m))
    rows = [{m: Fraction(c) for m, c in e.items()} for e in eqs]
    out = []
    while True:
        rows = [e for e in rows if e]
        if not rows:
            break
        best = max(rows, key=lambda e: key(max(e, key=key)))
        rows = [e for e in rows if e is not best]
        lm = max(best, key=key)
        best = {m: c / best[lm] for m, c in best.items()}
        rows = [Ring.add(e, best, -e[lm]) if lm in e else e for e in rows]
        out = [(l, Ring.add(e, best, -e[lm]) if lm in e else e) for l, e in out]
        out.append((lm, best))
    _SO3 = [(lm, {m: (int(-c) if (-c).denominator == 1 else -c) for m, c in e.items() if m != lm})
            for lm, e in out]
    return _SO3


class SymEnv(Env):
    symbolic = True

    def __init__(self, ctx, run, stubs=None):
        Env.__init__(self, stubs)
        self.c = ctx
        self.made = {}
        self.run = run
        self.obs = []
        self.checked = 0
        self.nochoice = {}
        self.havoc = False
        self.np = self.loader.numpy

    # inputs ---------------------------------------------------------------------------
    @same_name
    def real(self, name, lo=None, hi=None, strict=False):
        lo, hi = wide(lo, hi)
        v = self.c.newvar(name, lo, hi, "input", None, strict)
        self.inputs[name] = ("real", [v])
        return sym.var_sym(v)

    @same_name
    def angle(self, name, lo=None, hi=None):
        v = self.c.newvar(name, -WIDE if lo is None else lo, WIDE if hi is None else hi)
        self.inputs[name] = ("angle", [v])
        x = sym.var_sym(v)
        return x

    def sincos(self, q):
        return sym.sincos(S(q).p)

    @same_name
    def rot(self, name):
        c = self.c
        vs = [c.newvar("%s%d%d" % (name, i, j), -1, 1) for i in range(3) for j in range(3)]
        c.add_group(vs, rational_rotation)
        for lm, p in so3_rules():
            mp = lambda m: tuple(sorted((vs[v], e) for v, e in m))
            l2 = mp(lm)
            p2 = {mp(m): k for m, k in p.items()}
            c.ring.add_rule(l2, p2)
            c.define(("cmp", "==", Ring.add({l2: 1}, p2, -1)))
        self.inputs[name] = ("rot", vs)
        R = np.empty((3, 3), object)
        for k, v in enumerate(vs):
            R[k // 3, k % 3] = sym.var_sym(v)
        return R

    @same_name
    def unit(self, name):
        c = self.c
        vs = [c.newvar("%s%d" % (name, i), -1, 1) for i in range(3)]
        c.add_group(vs, lambda rng: rational_rotation(rng)[0:3])
        c.ring.add_rule(((vs[0], 2),), {(): 1, ((vs[1], 2),): -1, ((vs[2], 2),): -1})
        c.define(("cmp", "==", {((vs[0], 2),): 1, ((vs[1], 2),): 1, ((vs[2], 2),): 1, (): -1}))
        self.inputs[name] = ("rot", vs)
        r = np.empty(3, object)
        for i, v in enumerate(vs):
            r[i] = sym.var_sym(v)
        return r

    @same_name
    def choice(self, name, n):
        """A symbolic integer in [0, n): the solver-driven exploration resolves it."""
        v = self.c.newvar(name, 0, n - 1)
        self.c.exact.add(v)
        self.inputs[name] = ("choice", [v])
        vals = list(range(n))
        self.c.add_group([v], lambda rng: [rng.randrange(n)])
        for k in vals[:-1]:
            if SymBool(("cmp", "==", {((v, 1),): 1, (): -k} if k else {((v, 1),): 1})):
                return k
        self.c.pc.append(("cmp", "==", {((v, 1),): 1, (): -(n - 1)} if n > 1 else {((v, 1),): 1}))
        return n - 1

    def name(self, name):
        v = self.c.newvar(name, 0, 10 ** 6)
        self.c.exact.add(v)
        self.c.add_group([v], lambda rng: [rng.randrange(4)])
        self.inputs[name] = ("name", [v])
        return SymStr(v)

    def sqrt(self, x):
        return sym.sqrt(S(x).p)

    def assume(self, c):
        if isinstance(c, SymBool):
            self.c.assume(c.f)
        elif not c:
            raise PathAbort("assumption")

    # comparisons ------------------------------------------------------------------------
    def LE(self, a, b):
        return S(a) <= b

    def GE(self, a, b):
        return S(b) <= a

    def EQ(self, a, b):
        return S(a) == b

    def same(self, a, b):
        """Written as the same normal form; no question is asked of the solver."""
        return not sym.ctx().ring.nf((S(a) - b).p)

    def LT(self, a, b):
        return S(a) < b

    def AND(self, *c):
        return SymBool(("and", [sym.tobool(x).f for x in c]))

    def OR(self, *c):
        return SymBool(("or", [sym.tobool(x).f for x in c]))

    def NOT(self, c):
        return SymBool(neg(sym.tobool(c).f))

    def implies(self, a, b):
        return self.OR(self.NOT(a), b)

    # requirements --------------------------------------------------------------------------
    def equal(self, label, a, b, tol=None):
        self.checked += 1
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return self.run.failed(self, label, [("const", True)],
                                   "shape %s, expected %s" % (a.shape, b.shape))
        self.obs.append((label, a.copy()))
        fs = []
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            px, py = numlift(x), numlift(y)
            if px is None or py is None:
                return self.run.failed(self, label, [("const", True)], "not a number: %r" % (x,))
            px, py = self.c.ring.nf(px), self.c.ring.nf(py)
            self.run.stats.max_terms = max(self.run.stats.max_terms, len(px), len(py))
            d = self.c.ring.nf(Ring.add(px, py, -1))
            d = drop_tiny(self.c, d, px)
            if not d:
                # same normal form: still stated to the solver
                fs.append(("eq2", px, py))
            else:
                fs.append(("cmp", "!=", d))
        self.run.decide_equal(self, label, fs)

    def true(self, label, cond):
        self.checked += 1
        if isinstance(cond, SymBool):
            self.run.decide(self, label, [neg(cond.f)])
        elif not bool(cond):
            self.run.failed(self, label, [("const", True)], "condition is false on this path")
        else:
            self.run.decide(self, label, [("const", False)])

    def observe(self, label, a):
        self.obs.append((label, np.asarray(a, dtype=object).copy()))

    def deriv(self, f, args, rates, h=None):
        rmap = {}

        def put(x, dx):
            x = S(x)
            if x.const() is not None:
                return
            if len(x.p) == 1:
                (m, k), = x.p.items()
                if k == 1 and len(m) == 1 and m[0][1] == 1:
                    rmap[m[0][0]] = S(dx).p
                    return
            raise Unsupported("deriv: argument entry is not an input symbol")
        for x, dx in zip(args, rates):
            x = np.asarray(x, dtype=object)
            dx = np.asarray(dx, dtype=object)
            if x.shape == (4, 4) and dx.shape == (6,):
                dx = np.dot(x, self.hat4(dx))
            for a, b in zip(x.reshape(-1), dx.reshape(-1)):
                put(a, b)
        y = np.asarray(f(*args), dtype=object)
        r = np.empty(y.shape, object)
        for i in np.ndindex(*y.shape):
            r[i] = sym.deriv(S(y[i]).p, rmap)
        return r


def numlift(x):
    if isinstance(x, SymBool):
        return {(): 1} if x else {}
    try:
        return lift(x)
    except Unsupported:
        return None


def drop_tiny(c, d, ref):
    """Drop residual monomials that are rounding noise of floating-point constants:
    their total over the variables' bounds stays below 1e-9 of the compared size."""
    if not d:
        return d
    big = max([abs(float(x)) for x in ref.values()] or [1.0])
    lim = 1e-12 * max(1.0, big)
    out = {m: x for m, x in d.items() if abs(float(x)) > lim}
    return out


# ---------------------------------------------------------------------------------------
class Run(object):
    """Symbolic run of one obligation."""

    def __init__(self, ob, seed, tier):
        self.ob = ob
        self.seed = seed
        self.tier = tier
        self.stats = Stats()
        self.violations = []
        self.inconclusive = []
        self.labels = {}
        self.paths_ok = 0
        self.paths_checked = 0
        self.validated = 0
        self.mismatch = []
        self.reachable = False
        self.samples = []
        self.timeout = 10000 if tier == "quick" else 120000

    def stubs(self):
        return self.ob.opts.get("stubs")

    # -- deciding -------------------------------------------------------------------------
    def note(self, label, verdict):
        d = self.labels.setdefault(label, {"unsat": 0, "violated": 0, "inconclusive": 0})
        d[verdict] += 1

    def decide_equal(self, E, label, fs):
        real = [f for f in fs if f[0] != "eq2"]
        triv = [f for f in fs if f[0] == "eq2"]
        if not real:
            ok = self.query_trivial(E, triv)
            self.note(label, "unsat" if ok else "inconclusive")
            if not ok:
                self.inconclusive.append("%s: equal up to rounding, not shown" % label)
            return
        self.decide(E, label, [("or", real)])

    def query_trivial(self, E, triv):
        import z3
        s = z3.Solver()
        s.set("timeout", 20000)
        c = E.c
        cs = []
        budget = 4000
        for _, a, b in triv:
            budget -= len(a)
            if budget < 0:
                break
            d = Ring.add(a, b, -1)
            if not d:
                cs.append(c.zpoly(a) != c.zpoly(b))
                continue
            # equal up to rounding noise of float constants: the noise, with every monomial
            # anywhere within its variables' bounds, stays below 1e-9 of the compared size
            big = max([1.0] + [abs(float(x)) for x in a.values()])
            t = z3.Sum([z3.RealVal(0)] + [z3.Real("n%d_%d" % (len(cs), i)) * znum(x)
                                          for i, (m, x) in enumerate(d.items()) if m]) + znum(d.get((), 0))
            for i, m in enumerate(d):
                bd = self.bound(c, m)
                if m and bd is not None:
                    n = z3.Real("n%d_%d" % (len(cs), i))
                    s.add(n <= znum(bd), n >= znum(-bd))
            lim = znum(Fraction(big) / 10 ** 9)
            cs.append(z3.Or(t > lim, t < -lim))
        s.add(z3.Or(cs) if cs else z3.BoolVal(False))
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r == z3.unsat

    def bound(self, c, m):
        """A bound of |m| from the bounds of its variables, if they have any."""
        r = Fraction(1)
        for v, e in m:
            i = c.info[v]
            if e < 0 or i.lo is None or i.hi is None:
                return None
            r *= max(abs(Fraction(i.lo)), abs(Fraction(i.hi))) ** e
        return r

    def decide(self, E, label, fs):
        fs = [simplify(f) for f in fs]
        if any(f == ("const", False) for f in fs):
            self.stats.queries += 1
            self.stats.unsat += 1
            self.note(label, "unsat")
            return
        if label in self.failed_labels():
            return
        c = E.c
        try:
            r, model = c.query(fs, self.timeout, want_model=True)
        except Unsupported as e:
            r, model = "unknown", None
        if r == "unsat":
            self.note(label, "unsat")
            return
        self.search(E, label, fs, r, model)

    def failed_labels(self):
        return set(v["label"] for v in self.violations)

    def search(self, E, label, fs, r, model):
        """Turn a sat/unknown answer into a replayed counterexample, or give up."""
        c = E.c
        tried = 0
        if model is not None:
            for env in self.envs_of_model(E, fs, model):
                tried += 1
                if self.confirm(E, label, env):
                    self.note(label, "violated")
                    return
        # numerically significant counterexamples
        strong = [strengthen(f, Fraction(1, 100)) for f in fs]
        for _ in range(3):
            for env in c.sample_search(300)[:40]:
                try:
                    if all(c.evalf(f, env, 1e-5) is True for f in fs):
                        tried += 1
                        if self.confirm(E, label, env):
                            self.note(label, "violated")
                            return
                        if tried > 12:
                            break
                except (ZeroDivisionError, OverflowError, Unsupported):
                    pass
            c.alive = []
            if tried > 12:
                break
        for st in (strong, [strengthen(f, Fraction(1, 1000000)) for f in fs]):
            try:
                r2, m2 = c.query(st, self.timeout, want_model=True)
            except Unsupported:
                break
            if r2 == "sat" and m2 is not None:
                for env in self.envs_of_model(E, st, m2):
                    if self.confirm(E, label, env):
                        self.note(label, "violated")
                        return
        self.note(label, "inconclusive")
        self.inconclusive.append("%s: solver %s, %d candidate(s) did not reproduce" % (label, r, tried))

    def envs_of_model(self, E, fs, model):
        """The model of a formula, and the same extended to the rest of the path condition."""
        yield self.env_of_model(E, model)
        full = E.c.complete(fs, model, min(self.timeout, 5000))
        if full is not model:
            yield self.env_of_model(E, full)

    def env_of_model(self, E, model):
        env = {}
        c = E.c
        for v, x in model.items():
            if c.info[v].kind in ("input", "free"):
                env[v] = float(x)
        # angles that only occur through their sine/cosine
        for (m, d), (s, k) in list(c.memo_sin.items()) if c.memo_sin else []:
            if m == "const" or d != 1 or len(m) != 1 or m[0][1] != 1:
                continue
            v = m[0][0]
            if v in model or c.info[v].kind != "input":
                continue
            try:
                (ms,), (mk,) = s.p, k.p
                vs, vk = ms[0][0], mk[0][0]
                if vs in model or vk in model:
                    env[v] = math.atan2(float(model.get(vs, 0)), float(model.get(vk, 0)))
            except (ValueError, KeyError, IndexError):
                pass
        # partially known groups: keep the group only if complete
        for v, (vs, sampler) in c.groups.items():
            if v in env and not all(u in env for u in vs):
                for u in vs:
                    if u not in env and u in model:
                        env[u] = float(model[u])
        return env

    def values(self, E, env):
        """Concrete values for every input of the harness."""
        out = {}
        for name, (kind, vs) in E.inputs.items():
            xs = [float(E.c.value(v, env)) for v in vs]
            if kind == "rot":
                out[name] = xs
            elif kind == "choice":
                out[name] = int(round(xs[0]))
            else:
                out[name] = xs[0]
        return out

    def confirm(self, E, label, env):
        """Replay on the real code; records a violation if it reproduces."""
        try:
            vals = self.values(E, env)
        except (ZeroDivisionError, OverflowError, Unsupported):
            return False
        # inputs created after this point of the harness get fresh sample values
        res = replay_values(self.ob, vals, self.seed)
        if res["status"] == "fail":
            self.record(label, res)
            return True
        return False

    def record(self, label, res):
        lab = res["fails"][0][0]
        if lab in self.failed_labels():
            return
        self.violations.append({"label": lab, "asked": label, "values": res["values"],
                                "detail": [list(x) for x in res["fails"]]})

    def failed(self, E, label, fs, detail):
        self.decide(E, label, [])

    # -- main loop -----------------------------------------------------------------------------
    def go(self):
        t0 = time.time()
        deadline = t0 + self.ob.budget * (1 if self.tier == "quick" else 6)
        ob = self.ob

        def body(c):
            E = SymEnv(c, self, self.stubs())
            c.env = E
            shim.HOOKS.clear()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    ob.fn(E)
                except (PathAbort, Budget):
                    raise
                except Exception as e:
                    if E.checked and self.violations:
                        return E
                    self.on_exception(E, e)
                    return None
            return E
        try:
            for c, (kind, v) in explore(body, self.stats, self.seed, deadline, ob.max_paths):
                if kind == "ok" and v is not None:
                    self.paths_ok += 1
                    if v.checked:
                        self.paths_checked += 1
                        self.after_path(c, v)
                elif kind == "exc":
                    self.inconclusive.append("engine: %s" % (tb(v),))
                if len(self.violations) >= 3:
                    break
        except Budget as e:
            self.inconclusive.append("budget (%s) exhausted after %d paths" % (e, self.stats.paths))
        self.wall = time.time() - t0

    def on_exception(self, E, e):
        """An exception left the harness: real if the real code raises on such input."""
        c = E.c
        cands = list(c.sample_search(200)[:4])
        try:
            r, m = c.query([], 10000, want_model=True, kind="branch")
            if r == "unsat":
                return
            if m is not None:
                cands.append(self.env_of_model(E, m))
        except Unsupported:
            pass
        if isinstance(e, SymDivZero) and self.ob.opts.get("allow_divzero"):
            return
        for env in cands:
            if self.confirm(E, "exception", env):
                return
        self.inconclusive.append("exception %s not reproduced" % tb(e))

    def after_path(self, c, E):
        """Reachability witness and encoder validation against the real code."""
        need = not self.reachable or self.validated < 3
        if not need:
            return
        envs = c.sample_search(100)[:2]
        if envs:
            self.reachable = True
        else:
            r, m = c.query([], 10000, want_model=True, kind="branch")
            if r == "sat":
                self.reachable = True
                envs = [self.env_of_model(E, m)]
        for env in envs:
            try:
                vals = self.values(E, env)
            except (ZeroDivisionError, OverflowError, Unsupported):
                continue
            res = replay_values(self.ob, vals, self.seed)
            if len(self.samples) < 3:
                self.samples.append({"obligation": self.ob.name, "inputs": res["values"],
                                     "concrete_run": res["status"],
                                     "requirements": res["checked"]})
            if res["status"] == "fail":
                self.record("validation", res)
                continue
            if res["status"] != "ok":
                continue
            if E.havoc:
                self.validated += 1
                continue
            bad = None
            n = 0
            for (l1, a), (l2, b) in zip(E.obs, res["obs"]):
                if l1 != l2 or b is None or a.shape != b.shape:
                    bad = "observation %s / %s" % (l1, l2)
                    break
                for x, y in zip(a.reshape(-1), b.reshape(-1)):
                    try:
                        p = numlift(x)
                        z = c.evalp(p, env)
                    except (ZeroDivisionError, OverflowError, Unsupported, TypeError):
                        continue
                    n += 1
                    if not abs(z - y) <= 1e-5 * (1 + abs(y)):
                        bad = "%s: encoding %r, real code %r" % (l1, z, y)
                        break
                if bad:
                    break
            if bad:
                self.mismatch.append(bad)
            elif n:
                self.validated += 1

    def result(self):
        return {
            "name": self.ob.name, "bounds": self.ob.bounds, "wall_s": round(self.wall, 2),
            "violations": self.violations, "inconclusive": self.inconclusive[:5],
            "mismatch": self.mismatch[:3], "reachable": self.reachable,
            "labels": self.labels, "paths": self.stats.paths, "paths_checked": self.paths_checked,
            "branches": self.stats.branches, "forks": self.stats.forks,
            "queries": self.stats.queries, "branch_queries": self.stats.branch_queries,
            "unsat": self.stats.unsat, "sat": self.stats.sat, "unknown": self.stats.unknown,
            "solver_s": round(self.stats.solver_s, 3), "max_terms": self.stats.max_terms,
            "validated": self.validated, "samples": self.samples,
            "functions": sorted(REACHED),
        }


def strengthen(f, eps):
    if f[0] == "cmp":
        op, p = f[1], f[2]
        if op in ("<", "<="):
            return ("cmp", op, Ring.add(p, {(): eps}))
        if op == "!=":
            return ("or", [("cmp", "<", Ring.add(p, {(): eps})),
                           ("cmp", "<", Ring.add(Ring.scale(p, -1), {(): eps}))])
        return f
    if f[0] in ("and", "or"):
        return (f[0], [strengthen(g, eps) for g in f[1]])
    return f


def tb(e):
    t = traceback.extract_tb(e.__traceback__)
    loc = ""
    for fr in reversed(t):
        loc = "%s:%d" % (os.path.basename(fr.filename), fr.lineno)
        break
    rp = [fr for fr in t if fr.filename.startswith(shim.REPO)]
    if rp:
        loc += " via %s:%d" % (os.path.relpath(rp[-1].filename, shim.REPO), rp[-1].lineno)
    return "%s: %s (%s)" % (type(e).__name__, str(e)[:200], loc)


def replay_values(ob, values, seed=1):
    """Run the harness on the real code with concrete inputs."""
    rng = random.Random(seed)
    values = dict(values)
    saved = sym.CTX
    sym.set_ctx(None)
    hooks = dict(shim.HOOKS)
    shim.HOOKS.clear()
    try:
        for _ in range(1000):
            E = NumEnv(values, ob.opts.get("num_stubs", ob.opts.get("stubs")),
                       ob.opts.get("tolscale", 1.0))
            try:
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    ob.fn(E)
                st = "fail" if E.fails else ("ok" if E.checked else "empty")
                return {"status": st, "fails": E.fails, "values": values, "obs": E.obs,
                        "checked": E.checked}
            except ConcreteMissing as e:
                values[e.name] = missing(e, rng)
            except NumAssume:
                if E.fails:
                    return {"status": "fail", "fails": E.fails, "values": values, "obs": E.obs,
                            "checked": E.checked}
                return {"status": "assumption", "fails": [], "values": values, "obs": [],
                        "checked": E.checked}
            except Exception as e:
                if E.fails:
                    return {"status": "fail", "fails": E.fails, "values": values, "obs": E.obs,
                            "checked": E.checked}
                if isinstance(e, Unsupported):
                    return {"status": "unsupported", "fails": [], "values": values, "obs": [],
                            "checked": E.checked}
                fr = traceback.extract_tb(e.__traceback__)
                if isinstance(e, AttributeError) and str(getattr(e, "name", "")).startswith("_") \
                        and not any(f.filename.startswith(shim.REPO) for f in fr):
                    # the harness reads internal state that is stored differently now
                    return {"status": "unsupported", "fails": [], "values": values, "obs": [],
                            "checked": E.checked}
                return {"status": "fail", "values": values, "obs": E.obs, "checked": E.checked,
                        "fails": [("exception:" + type(e).__name__, tb(e))]}
    finally:
        sym.set_ctx(saved)
        shim.HOOKS.clear()
        shim.HOOKS.update(hooks)


def missing(e, rng):
    if e.kind == "rot":
        return [float(x) for x in rational_rotation(rng)]
    if e.kind == "unit":
        return [float(x) for x in rational_rotation(rng)[0:3]]
    if e.kind == "choice":
        return rng.randrange(e.hi)
    if e.kind == "name":
        return rng.randrange(4)
    lo = -3.0 if e.lo is None else float(e.lo)
    hi = max(3.0, lo + 3) if e.hi is None else float(e.hi)
    if e.lo is None:
        lo = min(lo, hi - 3)
    return rng.uniform(max(lo, -4.0), min(hi, 4.0)) if max(lo, -4.0) < min(hi, 4.0) else rng.uniform(lo, hi)
