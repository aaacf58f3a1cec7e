"""numpy/math stand-ins used while /repo's source is executed symbolically, and the
loader that compiles /repo's current source against them.

Arrays stay real numpy arrays (dtype object); only constructors, transcendental
functions and numpy.linalg are replaced."""
import builtins
import itertools
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import Sym, SymBool, S, Unsupported, lift
from .poly import Ring

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------------------- helpers
def hassym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(hassym(y) for y in x)
    return False


def O(a):
    """Force object dtype for numeric arrays (so symbolic entries may be stored)."""
    if isinstance(a, np.ndarray) and a.dtype != object and a.dtype.kind in "fiu":
        r = np.empty(a.shape, object)
        if a.size:
            flat = a.reshape(-1).tolist()
            rf = r.reshape(-1)
            for i, x in enumerate(flat):
                rf[i] = x
        return r
    return a


def ew1(name, fsym, fnum):
    def f(x, *a, **k):
        if isinstance(x, Sym):
            return fsym(x)
        if hassym(x):
            arr = np.asarray(x, dtype=object)
            r = np.empty(arr.shape, object)
            for i in np.ndindex(*arr.shape):
                y = arr[i]
                r[i] = fsym(y) if isinstance(y, Sym) else fnum(y)
            return r
        return fnum(x)
    f.__name__ = name
    return f


def _num_sin(x):
    return getattr(np, "sin")(x)


def norm(x, ord=None, axis=None, **k):
    a = np.asarray(x)
    if a.dtype != object:
        return np.linalg.norm(a, ord=ord, axis=axis, **k)
    if axis is not None:
        return np.apply_along_axis(lambda v: norm(v, ord), axis, a)
    if ord not in (None, 2, "fro") or (ord == 2 and a.ndim > 1):
        raise Unsupported("norm ord=%r" % (ord,))
    t = Sym({})
    for y in a.reshape(-1):
        y = boolnum(y)
        t = t + S(y) * y
    r = sym.sqrt(t.p, nonneg=True)
    sym.norm_bounds(r, a.reshape(-1))
    return simp_num(r)


def boolnum(y):
    if isinstance(y, SymBool):
        return 1 if y else 0
    return y


def simp_num(s):
    return s


def isconst(a):
    for y in np.asarray(a, dtype=object).reshape(-1):
        if isinstance(y, Sym) and y.const() is None:
            return False
    return True


def tofrac(y):
    if isinstance(y, Sym):
        return Fraction(y.const())
    return Fraction(sym.nice(y))


def det(a):
    a = np.asarray(a)
    if a.dtype != object:
        return np.linalg.det(a)
    n = a.shape[0]
    if a.shape != (n, n):
        raise np.linalg.LinAlgError("not square")
    return _det([list(r) for r in a])


def _iszero(x):
    if isinstance(x, Sym):
        return not sym.ctx().ring.nf(x.p)
    return x == 0


def _det(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    # expand along the row/column with most zeros
    best = max(range(n), key=lambda i: sum(_iszero(x) for x in m[i]))
    t = 0
    for j in range(n):
        x = m[best][j]
        if _iszero(x):
            continue
        minor = [r[:j] + r[j + 1:] for i, r in enumerate(m) if i != best]
        d = x * _det(minor)
        t = t + d if (best + j) % 2 == 0 else t - d
    return t


def inv(a):
    a = np.asarray(a)
    if a.dtype != object:
        return O(np.linalg.inv(a))
    n = a.shape[0]
    if a.ndim != 2 or a.shape != (n, n):
        raise np.linalg.LinAlgError("not square")
    if n == 0:
        return a.copy()
    return _inv(a)


def blocks(a):
    """Connected index blocks of a square matrix (permutation to block diagonal)."""
    n = a.shape[0]
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and not _iszero(a[i, j]):
                comp[find(i)] = find(j)
    r = {}
    for i in range(n):
        r.setdefault(find(i), []).append(i)
    return list(r.values())


def _inv(a):
    n = a.shape[0]
    bl = blocks(a)
    if len(bl) > 1:
        r = np.zeros((n, n), object)
        for b in bl:
            ib = _inv(a[np.ix_(b, b)])
            for i, p in enumerate(b):
                for j, q in enumerate(b):
                    r[p, q] = ib[i, j]
        return r
    if isconst(a):
        return _inv_const(a)
    if n == 1:
        r = np.empty((1, 1), object)
        r[0, 0] = 1 / S(a[0, 0])
        return r
    if n == 4 and _iszero(a[3, 3] - 1) and all(_iszero(a[3, i]) for i in range(3)):
        r = np.zeros((4, 4), object)            # affine map
        r[0:3, 0:3] = _inv(a[0:3, 0:3])
        r[0:3, 3] = -np.dot(r[0:3, 0:3], a[0:3, 3])
        r[3, 3] = 1
        return r
    if _orthogonal(a):
        return a.T.copy()
    if n <= 3:
        m = [list(r) for r in a]
        d = S(_det(m))
        r = np.empty((n, n), object)
        for i in range(n):
            for j in range(n):
                minor = [x[:i] + x[i + 1:] for k, x in enumerate(m) if k != j]
                co = S(_det(minor))
                r[i, j] = (co if (i + j) % 2 == 0 else -co) / d
        return r
    return _gauss(a, np.eye(n, dtype=object))


def _orthogonal(a):
    n = a.shape[0]
    if n > 6:
        return False
    for i in range(n):
        for j in range(i, n):
            if not _iszero(sum((S(x) * y for x, y in zip(a[:, i], a[:, j])), Sym({})) - int(i == j)):
                return False
    return True


def _inv_const(a):
    n = a.shape[0]
    m = [[tofrac(a[i, j]) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)]
         for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if m[p][c] == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [x / d for x in m[c]]
        for r in range(n):
            if r != c and m[r][c]:
                k = m[r][c]
                m[r] = [x - k * y for x, y in zip(m[r], m[c])]
    out = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            out[i, j] = Sym(lift(m[i][n + j]))
    return out


def _gauss(a, b):
    n = a.shape[0]
    a = a.copy()
    b = b.copy()
    for c in range(n):
        # choose a pivot that is provably non zero if possible
        piv = None
        for r in range(c, n):
            if not _iszero(a[r, c]):
                x = a[r, c]
                if not isinstance(x, Sym) or x.const() is not None or len(x.p) == 1:
                    piv = r
                    break
                if piv is None:
                    piv = r
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if piv != c:
            a[[c, piv]] = a[[piv, c]]
            b[[c, piv]] = b[[piv, c]]
        d = S(a[c, c])
        for j in range(n):
            a[c, j] = S(a[c, j]) / d
        for j in range(b.shape[1]):
            b[c, j] = S(b[c, j]) / d
        for r in range(n):
            if r != c and not _iszero(a[r, c]):
                k = a[r, c]
                for j in range(n):
                    a[r, j] = a[r, j] - k * a[c, j]
                for j in range(b.shape[1]):
                    b[r, j] = b[r, j] - k * b[c, j]
    return b


def solve(a, b):
    if not hassym(a) and not hassym(b):
        return O(np.linalg.solve(a, b))
    return np.dot(inv(O(np.asarray(a))), O(np.asarray(b)))


def pinv(a, *args, **k):
    if not hassym(a):
        return O(np.linalg.pinv(a, *args, **k))
    a = np.asarray(a)
    rc = args[0] if args else k.get("rcond", k.get("rtol"))
    if rc is not None and not (isinstance(rc, (int, float)) and 0 <= rc <= 1e-12):
        # singular values may be left out
        if not isconst(a) or hassym(rc):
            raise Unsupported("pinv with a cutoff")
        f = np.array([[float(tofrac(x)) for x in r] for r in a])
        sv = np.linalg.svd(f, compute_uv=False)
        if ((sv <= rc * sv[0]) & (sv > 1e-13 * sv[0])).any():
            return O(np.linalg.pinv(f, rc))
    if a.ndim == 2 and a.shape[0] == a.shape[1]:
        if isconst(a) and tofrac(det(a)) == 0:
            return _pinv_const(a)
        return inv(a)       # equal for nonsingular matrices
    raise Unsupported("pinv of a rectangular symbolic matrix")


def _pinv_const(a):
    """Exact pseudo-inverse of a constant matrix, A = C R with R its reduced row echelon form."""
    n, m = a.shape
    r = [[tofrac(a[i, j]) for j in range(m)] for i in range(n)]
    piv, k = [], 0
    for j in range(m):
        p = next((i for i in range(k, n) if r[i][j]), None)
        if p is None:
            continue
        r[k], r[p] = r[p], r[k]
        r[k] = [x / r[k][j] for x in r[k]]
        for i in range(n):
            if i != k and r[i][j]:
                r[i] = [x - r[i][j] * y for x, y in zip(r[i], r[k])]
        piv.append(j)
        k += 1
    if not piv:
        return O(np.zeros((m, n)))
    C = O(np.array([[S(tofrac(a[i, j])) for j in piv] for i in range(n)], dtype=object))
    R = O(np.array([[S(x) for x in r[i]] for i in range(k)], dtype=object))
    left = np.dot(R.T, inv(np.dot(R, R.T)))
    return np.dot(left, np.dot(inv(np.dot(C.T, C)), C.T))


class SignOnly(object):
    """Stands for an eigenvalue of a symmetric matrix: as many of them are greater than t as
    there are positive pivots in L D L^T of the matrix less t (Sylvester's law of inertia)."""
    def __init__(self, of, k):
        self.of, self.k = of, k

    def _d(self, t):
        if isinstance(t, (SignOnly, np.ndarray, complex)):
            raise Unsupported("eigenvalue compared with a %s" % type(t).__name__)
        return self.of.pivots(t)[self.k]

    def __ge__(self, o):
        return self._d(o) >= 0

    def __gt__(self, o):
        return self._d(o) > 0

    def __le__(self, o):
        return self._d(o) <= 0

    def __lt__(self, o):
        return self._d(o) < 0

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


class Spectrum(object):
    def __init__(self, a):
        self.a, self.memo = a, []

    def pivots(self, t):
        for u, p in self.memo:
            if u is t or (isinstance(t, (int, float)) and isinstance(u, (int, float)) and u == t):
                return p
        p = self.ldl(t)
        self.memo.append((t, p))
        return p

    def ldl(self, t):
        a = self.a
        if not (isinstance(t, (int, float)) and t == 0):
            a = a.copy()
            for i in range(a.shape[0]):
                a[i, i] = S(a[i, i]) - t
        out = []
        for b in blocks(a):
            m = a[np.ix_(b, b)].copy()
            left = list(range(len(b)))
            while left:
                # symmetric pivoting: monomial pivots first
                c = min(left, key=lambda i: (len(S(m[i, i]).p) or 10 ** 6, i))
                left.remove(c)
                d = S(m[c, c])
                out.append(d)
                if all(_iszero(m[r, c]) for r in left):
                    continue
                if _iszero(d):
                    raise Unsupported("zero pivot")
                for r in left:
                    if _iszero(m[r, c]):
                        continue
                    f = m[r, c] / d
                    for j in left:
                        m[r, j] = m[r, j] - f * m[c, j]
        return out


def eigvals(a):
    hook = HOOKS.get("eigvals")
    if hook is not None:
        return hook(a)
    if not hassym(a):
        return np.linalg.eigvals(np.asarray(a, dtype=float))
    a = np.asarray(a)
    n = a.shape[0]
    if isconst(a):
        f = np.array([[float(tofrac(a[i, j])) for j in range(n)] for i in range(n)])
        return np.linalg.eigvals(f)
    for i in range(n):
        for j in range(i):
            if not _iszero(S(a[i, j]) - a[j, i]):
                raise Unsupported("eigenvalues of a non symmetric symbolic matrix")
    sp = Spectrum(a)
    sp.pivots(0)
    out = np.empty(n, object)
    for k in range(n):
        out[k] = SignOnly(sp, k)
    return out


def eigvalsh(a, *x, **k):
    return eigvals(a)


def eig(a):
    hook = HOOKS.get("eig")
    if hook is not None:
        return hook(a)
    if hassym(a):
        if isconst(a):
            n = len(a)
            f = np.array([[float(tofrac(a[i, j])) for j in range(n)] for i in range(n)])
            w, v = np.linalg.eig(f)
            return O(w), O(v)
        raise Unsupported("eig of a symbolic matrix")
    return np.linalg.eig(a)


def eigh(a, *x, **k):
    hook = HOOKS.get("eigh")
    if hook is not None:
        return hook(a)
    return eig(a)


def qr(a, mode="reduced"):
    """Gram-Schmidt; LAPACK's columns may differ in sign (harnesses must not rely on it)."""
    if not hassym(a):
        return tuple(O(x) for x in np.linalg.qr(a, mode))
    a = np.asarray(a)
    n = a.shape[1]
    if isconst(a):
        f = np.array([[float(tofrac(a[i, j])) for j in range(n)] for i in range(len(a))])
        return tuple(O(x) for x in np.linalg.qr(f, mode))
    q = []
    r = np.zeros((n, n), object)
    for j in range(n):
        v = a[:, j]
        for i, u in enumerate(q):
            r[i, j] = np.dot(u, a[:, j])
            v = v - r[i, j] * u
        r[j, j] = norm(v)
        q.append(v / r[j, j])
    return np.array(q, dtype=object).T, r


HOOKS = {}


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not hassym(a) and not hassym(b):
        return np.allclose(a, b, rtol, atol, equal_nan)
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    fs = []
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        d = S(x) - y
        if _iszero(d):
            continue
        bound = abs(S(y)) * rtol + atol
        fs.append((d <= bound).f)
        fs.append((-d <= bound).f)
    return bool(SymBool(("and", fs)))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not hassym(a) and not hassym(b):
        return np.isclose(a, b, rtol, atol, equal_nan)
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    r = np.empty(a.shape, bool)
    for i in np.ndindex(*a.shape):
        r[i] = allclose(a[i], b[i], rtol, atol)
    return r if r.shape else bool(r)


def array(x, dtype=None, **k):
    if dtype in (float, np.float64, "float", "d", "float64", complex):
        k.pop("subok", None)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array(x, dtype=object, **k)
        try:
            return O(np.array(x, dtype=float, **k))
        except (TypeError, ValueError, Unsupported):
            return np.array(x, dtype=object, **k)
    r = np.array(x, dtype=dtype, **k) if dtype is not None else np.array(x, **k)
    if dtype is None and r.dtype != object and r.dtype.kind == "f":
        return O(r)
    if dtype is None and r.dtype == object and r.ndim and not isinstance(x, np.ndarray):
        _ragged(r)
    return r


def _ragged(r):
    for y in r.reshape(-1):
        if isinstance(y, (list, np.ndarray)):
            raise ValueError("setting an array element with a sequence (ragged)")


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    return array(x, dtype, **k)


def mk(f):
    def g(*a, **k):
        dt = k.get("dtype")
        if dt in (float, np.float64, "float", "d"):
            k = dict(k)
            del k["dtype"]
        r = f(*a, **k)
        # single precision stays: numbers written there are rounded, which the replay shows
        return O(r) if isinstance(r, np.ndarray) and r.dtype.kind == "f" and r.itemsize >= 8 else r
    g.__name__ = getattr(f, "__name__", "f")
    return g


def zeros_like(a, dtype=None, **k):
    r = np.zeros_like(a, dtype=dtype, **k)
    if r.dtype == object:
        r[...] = 0.
        return r
    return O(r) if r.dtype.kind == "f" and r.itemsize >= 8 else r


def clip(a, a_min=None, a_max=None, **k):
    if not (hassym(a) or hassym(a_min) or hassym(a_max)):
        return np.clip(a, a_min, a_max, **k)
    a = np.asarray(a)
    r = np.empty(a.shape, object)
    lo = None if a_min is None else np.broadcast_to(np.asarray(a_min, dtype=object), a.shape)
    hi = None if a_max is None else np.broadcast_to(np.asarray(a_max, dtype=object), a.shape)
    for i in np.ndindex(*a.shape):
        x = a[i]
        if lo is not None and x < lo[i]:
            x = lo[i]
        if hi is not None and x > hi[i]:
            x = hi[i]
        r[i] = x
    return r[()] if r.ndim == 0 else r


def cross(a, b, *x, **k):
    if x or k or not (hassym(a) or hassym(b)):
        return np.cross(a, b, *x, **k)
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    if a.shape[-1] != 3:
        return np.cross(a, b)
    r = np.empty(a.shape, object)
    for i in range(3):
        j, l = (i + 1) % 3, (i + 2) % 3
        r[..., i] = a[..., j] * b[..., l] - a[..., l] * b[..., j]
    return r


def ew2(name, f, real):
    def g(a, b, *x, **k):
        if not hassym(a) and not hassym(b):
            return real(a, b, *x, **k)
        if not isinstance(a, (np.ndarray, list, tuple)) and \
                not isinstance(b, (np.ndarray, list, tuple)):
            return f(a, b)
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        r = np.empty(a.shape, object)
        for i in np.ndindex(*a.shape):
            r[i] = f(a[i], b[i])
        return r
    g.__name__ = name
    return g


def _sign(x):
    x = S(x)
    if x > 0:
        return 1.
    if x < 0:
        return -1.
    return 0.


def _dot(a, b, out=None):
    # numpy's object dot over an empty inner dimension is well defined as zeros
    r = np.dot(a, b)
    if isinstance(r, np.ndarray) and r.dtype == object and r.size:
        A = np.asarray(a)
        if A.ndim and A.shape[-1] == 0:
            r[...] = 0.
    if r is None:
        r = 0.
    return r


def einsum(spec, *ops, **k):
    return np.einsum(spec, *[O(np.asarray(o)) for o in ops], optimize=False)


def cholesky(a, **k):
    if not hassym(a):
        return O(np.linalg.cholesky(a))
    a = np.asarray(a)
    n = len(a)
    l = np.zeros((n, n), object)
    for j in range(n):
        l[j, j] = sym.sqrt((S(a[j, j]) - sum((l[j, k] * l[j, k] for k in range(j)), Sym({}))).p)
        for i in range(j + 1, n):
            l[i, j] = (a[i, j] - sum((l[i, k] * l[j, k] for k in range(j)), Sym({}))) / l[j, j]
    return l


def lstsq(a, b, rcond=None):
    if not hassym(a) and not hassym(b):
        return np.linalg.lstsq(a, b, rcond=rcond)
    a = np.asarray(a)
    return solve(a, b), np.array([]), a.shape[1], None


def _acos(x):
    x = S(x)
    return sym.atan2(sym.sqrt((1 - x * x).p), x)


def _asin(x):
    x = S(x)
    return sym.atan2(x, sym.sqrt((1 - x * x).p))


def _copysign(a, b):
    return abs(a) if b >= 0 else -abs(a)


def _isclose_math(a, b, rel_tol=1e-9, abs_tol=0.0):
    big = max(abs(a), abs(b))
    return abs(a - b) <= max(rel_tol * big, abs_tol)


def _pow(a, b):
    return a ** (int(b) if b == int(b) else b)


def word(x):
    """The text of an entry of an array; float() reads it back exactly."""
    if isinstance(x, Fraction) and float(x) != x:
        w = "~%s~" % str(x).replace("/", "|")
        sym.ctx().read[w] = Sym({(): x}).p
        return w
    return str(float(x)) if isinstance(x, Fraction) else str(x)


np.set_printoptions(formatter={"object": word})      # str() of arrays of symbolic values


def array2string(a, *args, **kw):
    if not hassym(a):
        return np.array2string(a, *args, **kw)
    kw = dict((k, v) for k, v in kw.items() if k in ("max_line_width", "separator", "prefix", "threshold", "suffix"))
    if args:
        kw["max_line_width"] = args[0]
    return np.array2string(np.asarray(a, dtype=object), formatter={"object": word}, **kw)


def make_numpy():
    n = types.ModuleType("numpy")
    la = types.ModuleType("numpy.linalg")
    for k in ("norm", "det", "inv", "solve", "pinv", "eigvals", "eigvalsh", "eig", "eigh", "qr", "cholesky", "lstsq"):
        setattr(la, k, globals()[k])
    la.__getattr__ = lambda k: getattr(np.linalg, k)
    n.linalg = la
    n.array, n.asarray, n.zeros_like = array, asarray, zeros_like
    n.asfarray = n.ascontiguousarray = n.asanyarray = asarray
    for k in ("zeros", "ones", "eye", "identity", "full", "empty", "diag", "tri", "linspace",
              "ones_like", "empty_like", "diagflat"):
        setattr(n, k, mk(getattr(np, k)))
    n.empty = lambda shape, *a, **k: n.zeros(shape)
    n.allclose, n.isclose, n.clip, n.cross = allclose, isclose, clip, cross
    n.sin = ew1("sin", lambda x: x.sin(), np.sin)
    n.cos = ew1("cos", lambda x: x.cos(), np.cos)
    n.tan = ew1("tan", lambda x: x.tan(), np.tan)
    n.sqrt = ew1("sqrt", lambda x: x.sqrt(), np.sqrt)
    n.abs = n.absolute = n.fabs = ew1("abs", abs, np.abs)
    n.sign = ew1("sign", _sign, np.sign)
    n.square = ew1("square", lambda x: x * x, np.square)
    n.floor = ew1("floor", lambda x: x.__floor__(), np.floor)
    n.ceil = ew1("ceil", lambda x: x.__ceil__(), np.ceil)
    n.isnan = ew1("isnan", lambda x: False, np.isnan)
    n.isfinite = ew1("isfinite", lambda x: True, np.isfinite)
    n.arctan2 = ew2("arctan2", sym.atan2, np.arctan2)
    n.arccos = n.acos = ew1("arccos", _acos, np.arccos)
    n.arcsin = n.asin = ew1("arcsin", _asin, np.arcsin)
    n.arctan = n.atan = ew1("arctan", lambda x: sym.atan2(x, 1), np.arctan)
    n.atan2 = n.arctan2
    n.deg2rad = n.radians = ew1("radians", lambda x: x * (math.pi / 180), np.radians)
    n.rad2deg = n.degrees = ew1("degrees", lambda x: x * (180 / math.pi), np.degrees)
    n.copysign = ew2("copysign", _copysign, np.copysign)
    n.heaviside = ew2("heaviside", lambda x, h: 0. if x < 0 else 1. if x > 0 else h, np.heaviside)
    n.float_power = ew2("float_power", _pow, np.float_power)
    n.power = ew2("power", _pow, np.power)
    n.isscalar = lambda x: isinstance(x, Sym) or np.isscalar(x)
    n.hypot = ew2("hypot", lambda a, b: sym.sqrt((S(a) * a + S(b) * b).p, True), np.hypot)
    n.minimum = ew2("minimum", lambda a, b: a if a <= b else b, np.minimum)
    n.maximum = ew2("maximum", lambda a, b: a if a >= b else b, np.maximum)
    n.float64 = n.float_ = n.double = _float
    n.dot = _dot
    n.einsum = einsum
    n.array2string = array2string
    n.core = types.ModuleType("numpy.core")
    n.core.array2string = array2string
    n.core.__getattr__ = lambda k: getattr(np.core, k)
    n.__getattr__ = lambda k: getattr(np, k)
    n.__path__ = []
    return n, la


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class _float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return x.reshape(-1)[0]
        if isinstance(x, str):
            r = sym.read(x)
            if r is not None:
                return r
        return float(x)


def make_math():
    m = types.ModuleType("math")
    for k in ("sin", "cos", "tan", "sqrt", "atan2", "fabs", "hypot"):
        f = getattr(math, k)

        def g(*a, _f=f, _k=k):
            if not any(isinstance(x, Sym) for x in a):
                return _f(*a)
            if _k == "atan2":
                return sym.atan2(*a)
            if _k == "fabs":
                return abs(a[0])
            if _k == "hypot":
                return sym.sqrt(sum((S(x) * x for x in a), Sym({})).p, True)
            return getattr(a[0], _k)()
        setattr(m, k, g)
    def wrap(name, f):
        real = getattr(math, name)
        setattr(m, name, lambda *a, **k: f(*a, **k) if any(map(hassym, a)) else real(*a, **k))
    wrap("acos", _acos)
    wrap("asin", _asin)
    wrap("atan", lambda x: sym.atan2(x, 1))
    wrap("fsum", lambda x: sum(x))
    wrap("copysign", _copysign)
    wrap("isclose", _isclose_math)
    wrap("pow", _pow)
    wrap("radians", lambda x: x * (math.pi / 180))
    wrap("degrees", lambda x: x * (180 / math.pi))
    wrap("isfinite", lambda x: True)
    wrap("isnan", lambda x: False)
    wrap("isinf", lambda x: False)
    m.__getattr__ = lambda k: getattr(math, k)
    return m


# ------------------------------------------------------------------------------- loader
class Loader(object):
    """Loads arboris.* from REPO's current source.  symbolic=True substitutes numpy and
    math; `stubs` maps module names to stand-in modules (environment stubs)."""

    def __init__(self, symbolic, stubs=None):
        self.symbolic = symbolic
        self.modules = {}
        self.overrides = dict(stubs or {})
        if symbolic:
            n, la = make_numpy()
            self.numpy = n
            self.overrides.setdefault("numpy", n)
            self.overrides.setdefault("numpy.linalg", la)
            self.overrides.setdefault("math", make_math())
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        if symbolic:
            self.builtins["float"] = _float

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent = None
        if "." in name:
            pn, leaf = name.rsplit(".", 1)
            parent = self.load(pn)
            m = self.modules.get(name)
            if m is not None:
                return m
        path, pkg = self.path(name)
        if path is None:
            raise ImportError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        try:
            src = b""
            if not (pkg and not os.path.exists(path)):      # a plain folder
                with open(path, "rb") as f:
                    src = f.read()
            code = compile(src, path, "exec", dont_inherit=True)
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            parts = parts[:len(parts) - (level - 1)]
            name = ".".join(parts + ([name] if name else []))
        root = name.split(".")[0]
        if name in self.overrides or root in self.overrides:
            if name in self.overrides:
                m = self.overrides[name]
            else:
                m = self.overrides[root]
                for x in name.split(".")[1:]:
                    m = getattr(m, x)
            if fromlist:
                return m
            return self.overrides.get(root, m)
        if root == "arboris":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f) and self.path(name + "." + f)[0]:
                        self.load(name + "." + f)
                return m
            return self.load(root)
        return builtins.__import__(name, globals, locals, fromlist, level)
