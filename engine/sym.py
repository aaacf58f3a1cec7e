"""Symbolic reals/booleans/strings and path exploration for executing Python code
symbolically.  One Ctx per path; branches on symbolic booleans are resolved by the
SMT solver (feasibility) and by re-execution with a recorded decision prefix."""
from fractions import Fraction
import itertools
import math
import random
import time

import numpy as np
import z3
from z3 import z3core as zc

from .poly import Ring, nice


class Unsupported(Exception):
    """The encoder cannot express this operation."""


class PathAbort(BaseException):
    """Path cut (infeasible or assumption violated)."""


class Budget(BaseException):
    """Obligation ran out of its time/path budget."""


class SymDivZero(ArithmeticError):
    """Division by a quantity that can be zero (numpy: inf/nan)."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside symbolic execution")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class VarInfo(object):
    __slots__ = ("name", "lo", "hi", "kind", "data", "strict")

    def __init__(self, name, lo, hi, kind, data, strict=False):
        self.name, self.lo, self.hi = name, lo, hi
        self.kind, self.data, self.strict = kind, data, strict


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.branch_queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.max_terms = 0


_NUM = {}


def znum(c):
    r = _NUM.get(c)
    if r is None:
        r = _NUM[c] = z3.RealVal(str(Fraction(c)))
    return r


def zarr(ts):
    return (zc.Ast * len(ts))(*[t.ast for t in ts])


class Ctx(object):
    def __init__(self, decisions, stats, rng, nsamples=6):
        self.ring = Ring()
        self.info = []
        self.zvars = {}
        self.zterms = {}
        self.zmono = {}
        self.pc = []              # list of Formula (assumptions + branch conditions)
        self.extra = []           # defining equations, as Formula
        self.decisions = list(decisions)
        self.pos = 0
        self.alternatives = []    # decision prefixes to explore
        self.stats = stats
        self.exact = set()        # integer-valued inputs, compared exactly
        self.groups = {}          # var id -> (var ids, sampler)
        self.memo_sin = {}
        self.memo_sqrt = {}
        self.words, self.read = {}, {}
        self.memo_inv = {}
        self.byname = {}
        self.samples = []
        self.nsamples = nsamples
        self.rng = rng
        self.deadline = None
        self.notes = []
        self.branch_timeout = 2000
        self.alive = None

    # -- variables -------------------------------------------------------
    def newvar(self, name, lo=None, hi=None, kind="input", data=None, strict=False):
        base = name
        k = 1
        while name in self.byname:
            k += 1
            name = "%s#%d" % (base, k)
        v = self.ring.var(name)
        self.byname[name] = v
        self.info.append(VarInfo(name, lo, hi, kind, data, strict))
        return v

    def zvar(self, v):
        z = self.zvars.get(v)
        if z is None:
            z = z3.Real("v%d_%s" % (v, self.info[v].name))
            self.zvars[v] = z
        return z

    def define(self, f):
        self.extra.append(f)

    # -- numeric evaluation (probes) ---------------------------------------
    def add_group(self, vs, sampler):
        """Input variables that must be sampled together (e.g. a rotation matrix)."""
        for v in vs:
            self.groups[v] = (vs, sampler)

    def value(self, v, env):
        x = env.get(v)
        if x is not None:
            return x
        i = self.info[v]
        k = i.kind
        if v in self.groups:
            vs, sampler = self.groups[v]
            for u, y in zip(vs, sampler(self.rng)):
                env.setdefault(u, y)
            return env[v]
        if k in ("input", "free"):
            lo = -3.0 if i.lo is None else float(i.lo)
            hi = 3.0 if i.hi is None else float(i.hi)
            if i.lo is None and hi < lo:
                lo = hi - 3
            if i.hi is None and hi < lo:
                hi = lo + 3
            # ranges of any size are sampled where floats are accurate
            if lo <= -100 and hi > -8:
                lo = -8.0
            if hi >= 100 and lo < 8:
                hi = 8.0
            if self.rng.random() < .5:
                lo, hi = max(lo, -4.0), min(hi, 4.0) if min(hi, 4.0) > max(lo, -4.0) else hi
            x = self.rng.uniform(lo, hi)
            if i.strict and x == lo:
                x = (lo + hi) / 2
        elif k == "sin":
            x = math.sin(self.evalp(i.data, env))
        elif k == "cos":
            x = math.cos(self.evalp(i.data, env))
        elif k == "sqrt":
            y = self.evalp(i.data, env)
            x = math.sqrt(max(y, 0.0))
        elif k == "eqpoly":
            x = self.evalp(i.data, env)
        elif k == "atan2":
            x = math.atan2(self.evalp(i.data[0], env), self.evalp(i.data[1], env))
        elif k == "func":
            x = i.data(lambda p: self.evalp(p, env))
        else:
            raise Unsupported("numeric value of %s" % i.name)
        env[v] = x
        return x

    def evalp(self, p, env):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for v, e in m:
                y = self.value(v, env)
                if e < 0 and y == 0:
                    raise ZeroDivisionError
                x *= y ** e
            t += x
        return t

    def evalf(self, f, env, margin=1e-7):
        """True/False if the formula clearly holds/fails at env, None if too close."""
        k = f[0]
        if k == "const":
            return f[1]
        if k == "cmp":
            x = self.evalp(f[2], env)
            s = 1.0
            op = f[1]
            if abs(x) < margin * s:
                if x == 0 and all(v in self.exact for m in f[2] for v, _ in m):
                    return op in ("<=", "==")
                return None
            if op == "<" or op == "<=":
                return x < 0
            if op == "==":
                return False
            return True
        if k == "not":
            r = self.evalf(f[1], env, margin)
            return None if r is None else not r
        rs = [self.evalf(g, env, margin) for g in f[1]]
        if k == "and":
            if any(r is False for r in rs):
                return False
            return None if any(r is None for r in rs) else True
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False

    # -- z3 ------------------------------------------------------------------
    def zpoly(self, p):
        """The polynomial as a Z3 term (built through the C interface, which is much faster
        than the overloaded operators)."""
        if not p:
            return z3.RealVal(0)
        ctx = z3.main_ctx()
        ref = ctx.ref()
        ts = []
        for m, c in p.items():
            t = self.zterms.get((m, c))
            if t is None:
                fs = [] if c == 1 and m else [znum(c)]
                for v, e in m:
                    z = self.zvar(v) if e > 0 else self.zinv(v)
                    fs.extend([z] * abs(e))
                t = fs[0] if len(fs) == 1 else z3.ArithRef(zc.Z3_mk_mul(ref, len(fs), zarr(fs)), ctx)
                self.zterms[(m, c)] = t
            ts.append(t)
        return ts[0] if len(ts) == 1 else z3.ArithRef(zc.Z3_mk_add(ref, len(ts), zarr(ts)), ctx)

    def zinv(self, v):
        key = ("inv", v)
        z = self.zvars.get(key)
        if z is None:
            z = z3.Real("i%d_%s" % (v, self.info[v].name))
            self.zvars[key] = z
        return z

    def zpoly_lin(self, p):
        """p with every nonlinear monomial abstracted by one fresh variable."""
        if not p:
            return z3.RealVal(0)
        ctx = z3.main_ctx()
        ref = ctx.ref()
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(znum(c))
                continue
            if len(m) == 1 and m[0][1] == 1:
                z = self.zvar(m[0][0])
            else:
                z = self.zmono.get(m)
                if z is None:
                    z = self.zmono[m] = z3.Real("m%d" % len(self.zmono))
            fs = [znum(c), z]
            ts.append(z3.ArithRef(zc.Z3_mk_mul(ref, 2, zarr(fs)), ctx))
        return ts[0] if len(ts) == 1 else z3.ArithRef(zc.Z3_mk_add(ref, len(ts), zarr(ts)), ctx)

    def zform(self, f, lin=False):
        k = f[0]
        if k == "const":
            return z3.BoolVal(f[1])
        if lin:
            if k == "cmp":
                p = f[2]
                l = min(p)
                q, flip = (Ring.scale(p, -1), True) if p[l] < 0 else (p, False)
                t = self.zpoly_lin(q)
                z = z3.RealVal(0)
                if f[1] == "<":
                    return t > z if flip else t < z
                if f[1] == "<=":
                    return t >= z if flip else t <= z
                return t == z if f[1] == "==" else t != z
            if k == "not":
                return z3.Not(self.zform(f[1], True))
            gs = [self.zform(g, True) for g in f[1]]
            return z3.And(gs) if k == "and" else z3.Or(gs)
        if k == "cmp":
            op, p = f[1], f[2]
            pos = {m: c for m, c in p.items() if c > 0}
            neg = {m: -c for m, c in p.items() if c < 0}
            a, b = self.zpoly(pos), self.zpoly(neg)
            return {"<": lambda: a < b, "<=": lambda: a <= b,
                    "==": lambda: a == b, "!=": lambda: a != b}[op]()
        if k == "not":
            return z3.Not(self.zform(f[1]))
        if k == "and":
            return z3.And([self.zform(g) for g in f[1]])
        return z3.Or([self.zform(g) for g in f[1]])

    def fvars(self, f, acc):
        k = f[0]
        if k == "cmp":
            for m in f[2]:
                for v, _ in m:
                    acc.add(v)
        elif k == "not":
            self.fvars(f[1], acc)
        elif k in ("and", "or"):
            for g in f[1]:
                self.fvars(g, acc)
        return acc

    def closure(self, fs):
        """Formulas needed with fs: the connected part of pc and definitions."""
        vs = set()
        for f in fs:
            self.fvars(f, vs)
        if not fs:
            for f in self.pc:
                self.fvars(f, vs)
        pool = [(g, self.fvars(g, set())) for g in self.pc + self.extra]
        used = [False] * len(pool)
        out = []
        changed = True
        while changed:
            changed = False
            for i, (g, gv) in enumerate(pool):
                if not used[i] and (gv & vs or not gv):
                    used[i] = True
                    out.append(g)
                    if not gv <= vs:
                        vs |= gv
                        changed = True
        return out, vs

    def bounds(self, vs):
        cs = []
        for v in sorted(vs):
            i = self.info[v]
            z = self.zvar(v)
            if i.lo is not None:
                lo = z3.RealVal(str(Fraction(nice(i.lo))))
                cs.append(z > lo if i.strict else z >= lo)
            if i.hi is not None:
                cs.append(z <= z3.RealVal(str(Fraction(nice(i.hi)))))
        return cs

    def invs(self):
        return [self.zvars[("inv", k[1])] * self.zvar(k[1]) == 1
                for k in list(self.zvars) if isinstance(k, tuple)]

    def query(self, fs, timeout, want_model=False, fixed=None, kind="query"):
        """Check satisfiability of pc /\\ definitions /\\ fs."""
        self.check_deadline()
        ctxf, vs = self.closure(fs)
        if fs and not fixed:
            # stage 1: monomials abstracted (linear arithmetic); unsat carries over
            s = z3.SolverFor("QF_LRA")
            s.set("timeout", int(min(timeout, 3000)))
            s.add(*[self.zform(f, True) for f in fs + ctxf])
            s.add(*self.bounds(vs))
            for m, z in self.zmono.items():
                iv = mono_interval(m)
                if iv is None:
                    continue
                lo, st, hi = iv
                s.add(z > _zr(lo) if st and lo == 0 else z >= _zr(lo))
                if hi is not None:
                    s.add(z <= _zr(hi))
            t = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t
            if r == z3.unsat:
                if kind == "query":
                    self.stats.queries += 1
                    self.stats.unsat += 1
                else:
                    self.stats.branch_queries += 1
                return "unsat", None
        s = z3.Solver()
        if self.deadline is not None:
            timeout = max(200, min(timeout, int(1000 * (self.deadline - time.time()))))
        s.set("timeout", int(timeout))
        s.set("random_seed", 1)
        cs = [self.zform(f) for f in fs] + [self.zform(f) for f in ctxf]
        cs += self.bounds(vs)
        cs += self.invs()
        if fixed:
            for v, x in fixed.items():
                if v in vs:
                    cs.append(self.zvar(v) == z3.RealVal(str(Fraction(x))))
        s.add(*cs)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        dt = time.time() - t
        st = self.stats
        st.solver_s += dt
        if kind == "query":
            st.queries += 1
            if r == z3.unsat:
                st.unsat += 1
            elif r == z3.sat:
                st.sat += 1
            else:
                st.unknown += 1
        else:
            st.branch_queries += 1
        model = None
        if r == z3.sat and want_model:
            m = s.model()
            model = {}
            for v in vs:
                try:
                    x = m.eval(self.zvar(v), model_completion=True)
                    model[v] = _znum(x)
                except Exception:
                    pass
        return str(r), model

    def complete(self, fs, model, timeout):
        """Extend a model of fs to the part of the path condition that shares nothing with fs."""
        ctxf, vs = self.closure(fs)
        used = set(id(g) for g in ctxf)
        rest = [g for g in self.pc + self.extra if id(g) not in used]
        todo = [(g, self.fvars(g, set())) for g in rest]
        if not any(gv for _, gv in todo):
            return model
        out = dict(model)
        while todo:
            # one connected part at a time
            part, pv = [todo[0][0]], set(todo[0][1])
            todo = todo[1:]
            grown = True
            while grown:
                grown = False
                for t in list(todo):
                    if t[1] & pv:
                        part.append(t[0])
                        pv |= t[1]
                        todo.remove(t)
                        grown = True
            if pv & vs or not any(self.info[v].kind in ("input", "free") for v in pv):
                continue
            s = z3.Solver()
            s.set("timeout", int(timeout))
            s.set("random_seed", 1)
            s.add(*[self.zform(f) for f in part])
            s.add(*self.bounds(pv))
            s.add(*self.invs())
            t = time.time()
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.stats.solver_s += time.time() - t
            self.stats.branch_queries += 1
            if r != z3.sat:
                continue
            m = s.model()
            for v in pv:
                try:
                    out[v] = _znum(m.eval(self.zvar(v), model_completion=True))
                except Exception:
                    pass
        return out

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time")

    # -- samples satisfying the path condition ----------------------------------
    def new_sample(self):
        return {}

    def live_samples(self):
        """Concrete points that clearly satisfy the current path condition."""
        if self.alive is None:
            self.alive = [(self.new_sample(), 0) for _ in range(self.nsamples)]
        out = []
        keep = []
        for env, n in self.alive:
            ok = True
            while n < len(self.pc):
                try:
                    r = self.evalf(self.pc[n], env)
                except (ZeroDivisionError, OverflowError, Unsupported):
                    r = None
                if r is not True:
                    ok = False
                    break
                n += 1
            if ok:
                keep.append((env, n))
                out.append(env)
        self.alive = keep
        return out

    def sample_search(self, tries=200):
        """Look for further points satisfying the path condition."""
        self.live_samples()
        for _ in range(tries):
            if len(self.alive) >= self.nsamples:
                break
            env = self.new_sample()
            ok = True
            for f in self.pc:
                try:
                    if self.evalf(f, env) is not True:
                        ok = False
                        break
                except (ZeroDivisionError, OverflowError, Unsupported):
                    ok = False
                    break
            if ok:
                self.alive.append((env, len(self.pc)))
        return [e for e, _ in self.alive]

    def feasible(self, f):
        for env in self.live_samples():
            try:
                if self.evalf(f, env) is True:
                    return True
            except (ZeroDivisionError, OverflowError, Unsupported):
                pass
        r, _ = self.query([f], self.branch_timeout, kind="branch")
        return r != "unsat"

    def branch(self, f):
        f = simplify(f)
        if f[0] == "const":
            return f[1]
        self.check_deadline()
        self.stats.branches += 1
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            nf = neg(f)
            t = self.feasible(f)
            if not t:
                d = False
            else:
                d = True
                if self.feasible(nf):
                    self.stats.forks += 1
                    self.alternatives.append(self.decisions[:self.pos] + [False])
            self.decisions.append(d)
        self.pos += 1
        self.pc.append(f if d else neg(f))
        return d

    def assume(self, f):
        f = simplify(f)
        if f[0] == "const":
            if not f[1]:
                raise PathAbort("assumption false")
            return
        self.pc.append(f)


def _zr(x):
    return z3.RealVal(str(Fraction(x)))


def _znum(x):
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(x):
        return x.as_long()
    raise Unsupported("model value %s" % x)


# -- formulas --------------------------------------------------------------------
def neg(f):
    k = f[0]
    if k == "const":
        return ("const", not f[1])
    if k == "not":
        return f[1]
    if k == "cmp":
        op, p = f[1], f[2]
        if op == "==":
            return ("cmp", "!=", p)
        if op == "!=":
            return ("cmp", "==", p)
        q = Ring.scale(p, -1)
        return ("cmp", "<=" if op == "<" else "<", q)
    if k == "and":
        return ("or", [neg(g) for g in f[1]])
    return ("and", [neg(g) for g in f[1]])


def simplify(f):
    k = f[0]
    if k == "cmp":
        c = ctx()
        p = c.ring.nf(f[2])
        if not p:
            return ("const", f[1] in ("<=", "=="))
        if len(p) == 1 and () in p:
            x = p[()]
            return ("const", {"<": x < 0, "<=": x <= 0, "==": x == 0, "!=": x != 0}[f[1]])
        s = sign_by_bounds(p)
        op = f[1]
        if s is not None:
            lo, lostrict, hi, histrict = s
            if lo is not None and (lo > 0 or (lo == 0 and lostrict)):
                return ("const", op == "!=")
            if hi is not None and (hi < 0 or (hi == 0 and histrict)):
                return ("const", op != "==")
            if lo is not None and lo >= 0 and op == "<":
                return ("const", False)
            if hi is not None and hi <= 0 and op == "<=":
                return ("const", True)
        return ("cmp", op, p)
    if k == "not":
        return neg(simplify(f[1]))
    if k in ("and", "or"):
        gs = []
        for g in f[1]:
            g = simplify(g)
            if g[0] == "const":
                if g[1] == (k == "or"):
                    return g
                continue
            gs.append(g)
        if not gs:
            return ("const", k == "and")
        if len(gs) == 1:
            return gs[0]
        return (k, gs)
    return f


def mono_interval(m):
    c = CTX
    lo, hi = Fraction(1), Fraction(1)
    strict = True   # strictly away from zero on the zero side
    for v, e in m:
        i = c.info[v]
        a = None if i.lo is None else Fraction(nice(i.lo))
        b = None if i.hi is None else Fraction(nice(i.hi))
        if a is not None and a >= 0:
            st = i.strict or a > 0
            if e < 0:
                if not st:
                    return None
                na = None if b is None else (Fraction(1) / b ** (-e))
                nb = None if a == 0 else Fraction(1) / a ** (-e)
                a2, b2 = (na if na is not None else Fraction(0)), nb
            else:
                a2, b2 = a ** e, None if b is None else b ** e
            # multiply (lo,hi) by [a2,b2], a2>=0
            if lo is not None and lo >= 0:
                lo = lo * a2
                hi = None if (hi is None or b2 is None) else hi * b2
            else:
                return None
            strict = strict and st
        elif e > 0 and e % 2 == 0:
            mx = None
            if a is not None and b is not None:
                mx = max(abs(a), abs(b)) ** e
            lo = Fraction(0)
            hi = None if (hi is None or mx is None) else hi * mx
            strict = False
        else:
            return None
    return lo, strict, hi


def sign_by_bounds(p):
    """Cheap interval sign analysis over monomials with nonnegative values."""
    lo, hi = Fraction(0), Fraction(0)
    los = his = False
    for m, c in p.items():
        if not m:
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        r = mono_interval(m)
        if r is None:
            return None
        a, st, b = r
        if c > 0:
            lo = None if lo is None else lo + c * a
            los = los or (st and a == 0) 
            hi = None if (hi is None or b is None) else hi + c * b
        else:
            hi = None if hi is None else hi + c * a
            his = his or (st and a == 0)
            lo = None if (lo is None or b is None) else lo + c * b
    return lo, los, hi, his


class SymBool(object):
    __slots__ = ("f",)
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ctx().branch(self.f)

    def __and__(self, o):
        return SymBool(("and", [self.f, tobool(o).f]))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(("or", [self.f, tobool(o).f]))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(neg(self.f))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        return NotImplemented
    __hash__ = None

    def logical_not(self):
        return ~self

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def all(self):
        return self

    any = all


def tobool(x):
    if isinstance(x, SymBool):
        return x
    return SymBool(("const", bool(x)))


def lift(x):
    """Poly of a number-like, or None."""
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, (bool, np.bool_)):
        return {(): 1} if x else {}
    if isinstance(x, (int, float, Fraction, np.integer, np.floating)):
        try:
            c = nice(x.item() if isinstance(x, np.generic) else x)
        except ValueError:
            raise Unsupported("non-finite constant mixed with a symbolic value")
        return {(): c} if c else {}
    return None


class Sym(object):
    """A symbolic real: polynomial in normal form over the current context."""
    __slots__ = ("p",)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__":
            return NotImplemented
        xs = []
        for x in inputs:
            if isinstance(x, Sym):
                y = np.empty((), object)
                y[()] = x
                x = y
            elif isinstance(x, np.ndarray) and x.dtype.kind in "fiu":
                x = x.astype(object)
            xs.append(x)
        return ufunc(*xs, **kw)

    def const(self):
        p = self.p
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        return None

    # arithmetic
    def __add__(self, o):
        q = lift(o)
        if q is None:
            return NotImplemented
        return Sym(Ring.add(self.p, q))
    __radd__ = __add__

    def __sub__(self, o):
        q = lift(o)
        if q is None:
            return NotImplemented
        return Sym(Ring.add(self.p, q, -1))

    def __rsub__(self, o):
        q = lift(o)
        if q is None:
            return NotImplemented
        return Sym(Ring.add(q, self.p, -1))

    def __mul__(self, o):
        q = lift(o)
        if q is None:
            return NotImplemented
        c = ctx()
        r = c.ring.mul(self.p, q)
        if len(r) > 500:
            c.check_deadline()
            if len(r) > 60000:
                raise Unsupported("term blow-up (%d monomials)" % len(r))
        return Sym(r)
    __rmul__ = __mul__

    def __neg__(self):
        return Sym(Ring.scale(self.p, -1))

    def __pos__(self):
        return self

    def __truediv__(self, o):
        q = lift(o)
        if q is None:
            return NotImplemented
        return divide(self.p, q)

    def __rtruediv__(self, o):
        q = lift(o)
        if q is None:
            return NotImplemented
        return divide(q, self.p)

    def __pow__(self, e, mod=None):
        if isinstance(e, Sym):
            k = e.const()
            if k is None:
                raise Unsupported("symbolic exponent")
            e = k
        e = nice(e)
        if isinstance(e, Fraction):
            if e == Fraction(1, 2):
                return self.sqrt()
            if e == Fraction(-1, 2):
                return 1 / self.sqrt()
            if e.denominator == 2:
                return self.sqrt() ** e.numerator
            raise Unsupported("fractional power")
        if e < 0:
            return 1 / (self ** (-e))
        r = Sym({(): 1})
        for _ in range(e):
            r = r * self
        return r

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __floor__(self):
        """Resolved by branching over the integers allowed by the bounds of the inputs."""
        k = self.const()
        if k is not None:
            return Fraction(k).__floor__()
        lo = hi = Fraction(0)
        for m, c in self.p.items():
            if not m:
                a = b = Fraction(1)
            elif len(m) == 1 and m[0][1] == 1:
                i = CTX.info[m[0][0]]
                if i.lo is None or i.hi is None:
                    raise Unsupported("floor of an unbounded value")
                a, b = Fraction(nice(i.lo)), Fraction(nice(i.hi))
            else:
                raise Unsupported("floor of a nonlinear value")
            c = Fraction(c)
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        lo, hi = lo.__floor__(), hi.__floor__()
        if hi - lo > 64:
            raise Unsupported("floor over a wide range")
        for n in range(lo, hi):
            if self < n + 1:
                return n
        return hi

    def __ceil__(self):
        return -((-self).__floor__())

    def __round__(self, n=None):
        if n is None:
            return (self + Fraction(1, 2)).__floor__()
        return rounded(self.p, n)

    def __floordiv__(self, o):
        if isinstance(o, Sym):
            o = o.const()
            if o is None:
                raise Unsupported("division by a symbolic value, rounded")
        return (self / o).__floor__()

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        raise Unsupported("modulo by a symbolic value")
    __rfloordiv__ = __rmod__

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    # comparisons
    def _cmp(self, op, q):
        return SymBool(simplify(("cmp", op, q)))

    def __lt__(self, o):
        q = lift(o)
        if q is None:
            if isinstance(o, float):
                return o > 0
            return NotImplemented
        return self._cmp("<", Ring.add(self.p, q, -1))

    def __le__(self, o):
        q = lift(o)
        if q is None:
            return NotImplemented
        return self._cmp("<=", Ring.add(self.p, q, -1))

    def __gt__(self, o):
        q = lift(o)
        if q is None:
            return NotImplemented
        return self._cmp("<", Ring.add(q, self.p, -1))

    def __ge__(self, o):
        q = lift(o)
        if q is None:
            return NotImplemented
        return self._cmp("<=", Ring.add(q, self.p, -1))

    def __eq__(self, o):
        try:
            q = lift(o)
        except Unsupported:
            return False
        if q is None:
            return NotImplemented
        return self._cmp("==", Ring.add(self.p, q, -1))

    def __ne__(self, o):
        try:
            q = lift(o)
        except Unsupported:
            return True
        if q is None:
            return NotImplemented
        return self._cmp("!=", Ring.add(self.p, q, -1))

    def __hash__(self):
        k = self.const()
        if k is not None:
            return hash(k)
        return 7919

    def __bool__(self):
        return bool(self != 0)

    def __abs__(self):
        k = self.const()
        if k is not None:
            return Sym(lift(abs(k)))
        if self >= 0:
            return self
        return -self

    def __float__(self):
        k = self.const()
        if k is not None:
            return float(k)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        k = self.const()
        if k is not None:
            return int(k)
        return self.__floor__() if self >= 0 else -((-self).__floor__())

    def __index__(self):
        k = self.const()
        if k is not None and isinstance(k, int):
            return k
        raise TypeError("symbolic value used as an index")

    def __repr__(self):
        return "Sym(%s)" % show(self.p)

    def __str__(self):
        """A word standing for the decimal expansion; float() reads it back."""
        k = self.const()
        if k is not None:
            return str(float(k))
        p = ctx().ring.nf(self.p)
        w = "~%d~" % ctx().words.setdefault(frozenset(p.items()), len(ctx().words))
        ctx().read[w] = p
        return w

    def __format__(self, spec):
        if spec and self.const() is not None:
            return format(float(self.const()), spec)
        if spec:
            if spec[0] != "." or spec[-1] != "f":
                raise Unsupported("format %r of a symbolic value" % spec)
            return str(rounded(self.p, int(spec[1:-1])))
        return str(self)

    # numpy hooks for object arrays
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def copy(self):
        return self

    def sin(self):
        return sincos(self.p)[0]

    def cos(self):
        return sincos(self.p)[1]

    def tan(self):
        s, c = sincos(self.p)
        return s / c

    def sqrt(self):
        return sqrt(self.p)

    def fabs(self):
        return abs(self)

    absolute = fabs

    def square(self):
        return self * self

    def arctan2(self, x):
        return atan2(self, x)

    def sign(self):
        if self > 0:
            return Sym({(): 1})
        if self < 0:
            return Sym({(): -1})
        return Sym({})

    def isfinite(self):
        return True

    def isnan(self):
        return False


def show(p, limit=6):
    c = CTX
    ts = []
    for m, k in list(p.items())[:limit]:
        ns = "*".join("%s%s" % (c.info[v].name if c else v, "" if e == 1 else "^%d" % e)
                      for v, e in m)
        ts.append(("%s*%s" % (k, ns)) if ns and k != 1 else (ns or str(k)))
    if len(p) > limit:
        ts.append("... %d terms" % len(p))
    return " + ".join(ts) or "0"


def S(x):
    return x if isinstance(x, Sym) else Sym(lift(x))


# -- derived symbols ----------------------------------------------------------------
def var_sym(v):
    return Sym({((v, 1),): 1})


def mono_nonzero(m):
    c = CTX
    for v, e in m:
        if e < 0:
            continue
        i = c.info[v]
        if i.lo is not None and (i.lo > 0 or (i.lo == 0 and i.strict)):
            continue
        if i.hi is not None and i.hi < 0:
            continue
        return False
    return True


def divide(num, den):
    c = ctx()
    num = c.ring.nf(num)
    den = c.ring.nf(den)
    if not den:
        raise SymDivZero("division by zero")
    if len(den) == 1:
        (m, k), = den.items()
        if m and not mono_nonzero(m):
            if SymBool(("cmp", "==", den)):
                raise SymDivZero("division by zero")
        q = {tuple((v, -e) for v, e in m): Fraction(1, 1) / k}
        return Sym(c.ring.mul(num, q))
    # num = k * den exactly?
    if len(num) == len(den):
        m0 = next(iter(den))
        if m0 in num:
            k = Fraction(num[m0]) / den[m0]
            if all(num.get(m) == k * x for m, x in den.items()):
                if SymBool(("cmp", "==", den)):
                    raise SymDivZero("division by zero")
                return Sym({(): k})
    D, k = named(den)
    if SymBool(("cmp", "==", D.p)):
        raise SymDivZero("division by zero")
    (m,) = D.p
    return Sym(c.ring.mul(num, {tuple((v, -e) for v, e in m): Fraction(1) / k}))


def lead(p):
    """Leading monomial: highest weighted degree, ties to the older variable."""
    c = CTX

    def key(m):
        w = sum(c.weight(v) * e for v, e in m)
        return (w, tuple((-v, e) for v, e in m))
    return max(p, key=key)


def _weight(self, v):
    i = self.info[v]
    if i.kind in ("sqrt", "eqpoly"):
        d = i.data
        w = max([sum(self.weight(u) * e for u, e in m) for m in d] or [0])
        return max(w / 2.0 if i.kind == "sqrt" else w, 0.0) or 0.5
    return 1.0


Ctx.weight = _weight


def orient(c, p, repl):
    """Add the rewriting rule LM(p) -> repl - (p - LM) for the definition p == repl.

    Only monomials with nonnegative exponents whose variables carry no negative power
    elsewhere are eligible."""
    cand = [m for m in p if m and all(e > 0 for _, e in m)]
    if not cand:
        return False
    lm = None
    # prefer pure powers of an input variable
    pure = [m for m in cand if len(m) == 1 and c.info[m[0][0]].kind in ("input", "free")]
    l = lead(p)
    if l in cand:
        lm = l
    if pure:
        wl = sum(c.weight(v) * e for v, e in l)
        pure = [m for m in pure if sum(c.weight(v) * e for v, e in m) >= wl]
        if pure:
            lm = min(pure, key=lambda m: m[0][0])
    if lm is None:
        return False
    # the leading monomial must not divide another monomial of p
    for m in p:
        if m != lm:
            d = dict(m)
            if all(d.get(v, 0) >= e for v, e in lm):
                return False
    k = Fraction(p[lm])
    rest = {m: -Fraction(x) / k for m, x in p.items() if m != lm}
    rest = Ring.add(rest, repl, 1 / k)
    c.ring.add_rule(lm, {m: (x.numerator if x.denominator == 1 else x)
                         for m, x in ((m, Fraction(x)) for m, x in rest.items())})
    return True


def named(p):
    """(variable D as Sym, scale k) with p == k*D."""
    c = ctx()
    l = lead(p)
    k = Fraction(p[l])
    q = {m: Fraction(x) / k for m, x in p.items()}
    q = {m: (x.numerator if x.denominator == 1 else x) for m, x in q.items()}
    key = frozenset(q.items())
    v = c.memo_inv.get(key)
    if v is None:
        s = sign_by_bounds(q)
        lo = None
        strict = False
        if s is not None and s[0] is not None and s[0] >= 0:
            lo = 0
            strict = s[0] > 0 or s[1]
        v = c.newvar("D%d" % len(c.memo_inv), lo, None, "eqpoly", q, strict)
        c.memo_inv[key] = v
        c.define(("cmp", "==", Ring.add(q, {((v, 1),): 1}, -1)))
        orient(c, q, {((v, 1),): 1})
    return var_sym(v), k


def _isqrt(f):
    f = Fraction(f)
    if f < 0:
        return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        r = Fraction(a, b)
        return r.numerator if r.denominator == 1 else r
    return None


def poly_root(p):
    """q with q*q == p as polynomials over Q, or None."""
    if not 3 <= len(p) <= 60 or any(e < 0 for m in p for _, e in m):
        return None
    vs = sorted(set(v for m in p for v, _ in m))
    ix = {v: i for i, v in enumerate(vs)}

    def key(m):
        t = [0] * len(vs)
        for v, e in m:
            t[ix[v]] = e
        return (sum(t), t)
    l = max(p, key=key)
    k = _isqrt(Fraction(p[l]))
    if k is None or any(e % 2 for _, e in l):
        return None
    lq = tuple((v, e // 2) for v, e in l)
    q = {lq: k}
    inv = tuple((v, -e) for v, e in lq)
    r = Ring.add(p, {l: Fraction(p[l])}, -1)
    for _ in range(20):
        if not r:
            return {m: (x.numerator if Fraction(x).denominator == 1 else x) for m, x in q.items()}
        m = max(r, key=key)
        t = Ring.mmul(m, inv)
        if any(e < 0 for _, e in t):
            return None
        x = Fraction(r[m]) / (2 * k)
        # r -= 2 x t q + x^2 t^2
        d = {}
        for mq, c in q.items():
            mm = Ring.mmul(mq, t)
            d[mm] = d.get(mm, 0) + 2 * x * c
        mm = Ring.mmul(t, t)
        d[mm] = d.get(mm, 0) + x * x
        r = Ring.add(r, d, -1)
        if t in q:
            return None
        q[t] = x
    return None


def sqrt(p, nonneg=False):
    c = ctx()
    p = c.ring.nf(p)
    if not p:
        return Sym({})
    if len(p) == 1:
        (m, k), = p.items()
        r = _isqrt(k)
        if not m and r is not None:
            return Sym({(): r})
        if not m and k < 0:
            raise SymDivZero("sqrt of a negative constant")
        if r is not None and all(e % 2 == 0 for _, e in m):
            ok = True
            for v, e in m:
                i = c.info[v]
                if i.lo is None or i.lo < 0:
                    ok = False
            if ok:
                return Sym({tuple((v, e // 2) for v, e in m): r})
            # |x| by case split
            res = Sym({(): r})
            for v, e in m:
                x = Sym({((v, e // 2),): 1})
                if (e // 2) % 2:
                    x = abs(x)
                res = res * x
            return res
    # common monomial factor with even exponents over nonnegative variables
    common = None
    for m in p:
        d = {v: e for v, e in m if c.info[v].lo is not None and c.info[v].lo >= 0}
        if common is None:
            common = d
        else:
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common:
            break
    if common:
        common = {v: e - (e % 2) for v, e in common.items() if e - (e % 2)}
        if common:
            cm = tuple(sorted(common.items()))
            inv = {tuple((v, -e) for v, e in cm): 1}
            rest = c.ring.mul(p, inv)
            if rest != p:
                return Sym(c.ring.mul(sqrt(rest, nonneg).p,
                                      {tuple((v, e // 2) for v, e in cm): 1}))
    key = frozenset(p.items())
    v = c.memo_sqrt.get(key)
    if v is not None:
        return var_sym(v)
    root = poly_root(p)
    if root is not None:
        return abs(Sym(root))
    if not nonneg and len(p) > 1:
        if SymBool(("cmp", "<", p)):
            raise SymDivZero("sqrt of a negative value")
    v = c.newvar("n%d" % len(c.memo_sqrt), 0, None, "sqrt", p)
    c.memo_sqrt[key] = v
    n2 = {((v, 2),): 1}
    c.define(("cmp", "==", Ring.add(p, n2, -1)))
    if not orient(c, p, n2):
        c.ring.add_rule(((v, 2),), p)
    return var_sym(v)


def norm_bounds(r, ys):
    """A norm is at least as large as the bounds of any single-variable entry."""
    c = ctx()
    if len(r.p) != 1 or list(r.p.values()) != [1]:
        return
    (m,) = r.p
    if len(m) != 1 or m[0][1] != 1 or c.info[m[0][0]].kind != "sqrt":
        return
    i = c.info[m[0][0]]
    for y in ys:
        if isinstance(y, Sym) and len(y.p) == 1:
            (n,), (k,) = y.p.keys(), y.p.values()
            if len(n) == 1 and n[0][1] == 1:
                j = c.info[n[0][0]]
                lo, hi = (j.lo, j.hi) if k > 0 else (j.hi, j.lo)
                b = max([k * x for x in (lo,) if x is not None] + [-k * x for x in (hi,) if x is not None] + [0])
                if b > i.lo:
                    i.lo = b
                    c.define(("cmp", "<=", {m: -1, (): b}))


def read(word):
    """The value a word of Sym.__str__ stands for, or None."""
    p = CTX.read.get(word.strip()) if CTX is not None else None
    return None if p is None else Sym(p)


def rounded(p, n):
    """Any value within half a unit of the n-th decimal (the same one every time)."""
    c = ctx()
    p = c.ring.nf(p)
    k = Sym(p).const()
    if k is not None:
        return Sym(lift(round(Fraction(k), n)))
    key = ("round", n, frozenset(p.items()))
    v = c.memo_sqrt.get(key)
    if v is None:
        v = c.newvar("rounded%d" % len(c.memo_sqrt), None, None, "func",
                     lambda ev: round(ev(p), n))
        c.memo_sqrt[key] = v
        h = Fraction(1, 2 * 10 ** n)
        d = Ring.add({((v, 1),): 1}, p, -1)
        c.define(("cmp", "<=", Ring.add(d, {(): -h})))
        c.define(("cmp", "<=", Ring.add(Ring.scale(d, -1), {(): -h})))
    return var_sym(v)


PI = math.pi


def sincos(p):
    c = ctx()
    p = c.ring.nf(p)
    s, k = Sym({}), Sym({(): 1})      # sin, cos of the running sum
    items = sorted(p.items(), key=lambda t: t[0])
    for m, coef in items:
        coef = Fraction(coef)
        if not m:
            a, b = const_sincos(c, coef)
        else:
            n, d = coef.numerator, coef.denominator
            a1, b1 = atom_sincos(c, m, d)
            if n < 0:
                a1, n = -a1, -n
            if n > 8:
                raise Unsupported("sin/cos of a large multiple")
            a, b = Sym({}), Sym({(): 1})
            for _ in range(n):
                a, b = a * b1 + b * a1, b * b1 - a * a1
        s, k = s * b + k * a, k * b - s * a
    return s, k


def const_sincos(c, x):
    f = float(x)
    q = f / (PI / 2)
    if abs(q - round(q)) < 1e-12:
        return {0: (S(0), S(1)), 1: (S(1), S(0)), 2: (S(0), S(-1)),
                3: (S(-1), S(0))}[round(q) % 4]
    key = ("const", x)
    r = c.memo_sin.get(key)
    if r is None:
        w = Fraction(1, 10 ** 12)
        cs, sn = Fraction(math.cos(f)), Fraction(math.sin(f))
        vc = c.newvar("cosk", cs - w, cs + w, "func", lambda ev: math.cos(f))
        vs = c.newvar("sink", sn - w, sn + w, "func", lambda ev: math.sin(f))
        c.ring.add_rule(((vc, 2),), {(): 1, ((vs, 2),): -1})
        c.define(("cmp", "==", {((vc, 2),): 1, ((vs, 2),): 1, (): -1}))
        r = c.memo_sin[key] = (var_sym(vs), var_sym(vc))
    return r


def atom_sincos(c, m, d):
    key = (m, d)
    r = c.memo_sin.get(key)
    if r is None:
        base = {m: Fraction(1, d)}
        nm = "*".join(c.info[v].name + ("" if e == 1 else "^%d" % e) for v, e in m)
        if d != 1:
            nm += "/%d" % d
        vc = c.newvar("cos(%s)" % nm, -1, 1, "cos", base)
        vs = c.newvar("sin(%s)" % nm, -1, 1, "sin", base)
        c.ring.add_rule(((vc, 2),), {(): 1, ((vs, 2),): -1})
        c.define(("cmp", "==", {((vc, 2),): 1, ((vs, 2),): 1, (): -1}))
        r = c.memo_sin[key] = (var_sym(vs), var_sym(vc))
    return r


def atan2(y, x):
    """Angle symbol t with r*sin t = y, r*cos t = x, r = hypot(x, y)."""
    c = ctx()
    y, x = S(y), S(x)
    ky, kx = y.const(), x.const()
    if ky is not None and kx is not None:
        f = math.atan2(float(ky), float(kx))
        return Sym(lift(f))
    r = sqrt((x * x + y * y).p, nonneg=True)
    if r == 0:
        return Sym({})
    v = c.newvar("ang", Fraction(-PI), Fraction(PI), "atan2", (y.p, x.p))
    c.memo_sin[(((v, 1),), 1)] = (y / r, x / r)
    t = {((v, 1),): 1}
    nt = {((v, 1),): -1}
    ny = Ring.scale(y.p, -1)
    c.define(("or", [("cmp", "<=", y.p), ("cmp", "<", nt)]))
    c.define(("or", [("cmp", "<=", ny), ("cmp", "<", t)]))
    c.define(("or", [("cmp", "!=", y.p), ("cmp", "<", x.p), ("cmp", "==", t)]))
    return var_sym(v)


# -- formal derivative ------------------------------------------------------------------
def deriv(p, rates):
    """Time derivative of a polynomial; rates: var id -> poly (absent: constant)."""
    c = ctx()
    p = c.ring.nf(p)
    memo = {}

    def dvar(v):
        if v in rates:
            return rates[v]
        if v in memo:
            return memo[v]
        i = c.info[v]
        k = i.kind
        if k in ("input", "free"):
            r = {}
        elif k == "sin":
            r = c.ring.mul(dp(i.data), cosof(i.data))
        elif k == "cos":
            r = Ring.scale(c.ring.mul(dp(i.data), sinof(i.data)), -1)
        elif k == "sqrt":
            d = dp(i.data)
            r = c.ring.mul(d, {((v, -1),): Fraction(1, 2)}) if d else {}
        elif k == "eqpoly":
            r = dp(i.data)
        elif k == "atan2":
            y, x = i.data
            dy, dx = dp(y), dp(x)
            if not dy and not dx:
                r = {}
            else:
                n = Ring.add(c.ring.mul(dy, x), c.ring.mul(y, dx), -1)
                r2 = Ring.add(c.ring.mul(x, x), c.ring.mul(y, y))
                r = divide(n, r2).p
        elif k == "func":
            r = {}
        else:
            raise Unsupported("derivative of %s" % i.name)
        memo[v] = r
        return r

    def sinof(q):
        return sincos(q)[0].p

    def cosof(q):
        return sincos(q)[1].p

    def dp(q):
        acc = {}
        for m, k in q.items():
            for v, e in m:
                d = dvar(v)
                if d:
                    rest = Ring.mmul(m, ((v, -1),))
                    acc = Ring.add(acc, c.ring.mul({rest: k * e}, d))
        return acc
    return Sym(c.ring.nf(dp(p)))


class SymStr(str):
    """A string about which only equality is known (uninterpreted name)."""
    def __new__(cls, v):
        o = str.__new__(cls, "name%d" % v)
        o.v = v
        return o

    def _eqf(self, o):
        if isinstance(o, SymStr):
            if o.v == self.v:
                return True
            return SymBool(("cmp", "==", {((self.v, 1),): 1, ((o.v, 1),): -1}))
        return False

    def __eq__(self, o):
        return bool(self._eqf(o))

    def __ne__(self, o):
        return not bool(self._eqf(o))

    def __hash__(self):
        return 11


def explore(fn, stats, seed, deadline, max_paths=512):
    """Run fn(ctx) on every feasible path; yields (ctx, outcome) where outcome is
    ('ok', value) or ('exc', exception)."""
    work = [[]]
    while work:
        dec = work.pop()
        if stats.paths >= max_paths:
            raise Budget("paths")
        c = Ctx(dec, stats, random.Random(seed))
        c.deadline = deadline
        set_ctx(c)
        try:
            try:
                v = fn(c)
                out = ("ok", v)
            except PathAbort:
                out = ("abort", None)
            except Exception as e:
                out = ("exc", e)
            stats.paths += 1
            yield c, out
        finally:
            set_ctx(None)
        work.extend(c.alternatives)
