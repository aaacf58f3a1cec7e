#!/usr/bin/env python3
"""Self-test of the symbolic numpy: each expression is run on symbols and, with sampled values,
on real numpy; the two must agree.  (Development aid: python3 tools/shimtest.py [filter])"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from engine import harness
from engine.harness import obligation

EXPR = """
np.cross(a,b)|np.vstack((a,b))|np.hstack((a,b))|np.concatenate((a,b))|np.column_stack((a,b))|np.block([[A,np.zeros((3,1))],[np.zeros((1,3)),1.]])
A@B|a@b|A@a|np.matmul(A,B)|np.inner(a,b)|np.outer(a,b)|np.vdot(a,b)|np.tensordot(A,B,1)|np.einsum('ij,j->i',A,a)|np.einsum('ij,jk,kl->il',A,B,A)
np.trace(A)|A.trace()|np.where(a>b,a,b)|np.where(True,a,b)|np.clip(a,-1,1)|a.clip(-1,1)|np.maximum(a,b)|np.minimum(a,0.)|np.maximum(a[0],b[0])|max(a)|min(a)|a.max()|a.min()|np.max(a)|np.min(a)|np.amax(np.abs(a))
np.argmin(a)|np.argmax(a)|a.argmin()|a.argmax()|np.argsort(a)|np.sort(a)|a.argsort()|sorted(a)|np.argsort(np.abs(a))
np.sum(a)|a.sum()|sum(a)|np.sum(A,axis=0)|A.sum(axis=1)|np.prod(a)|np.mean(a)|a.mean()|np.cumsum(a)|np.any(a>0)|np.all(a>0)|(a>0).any()|(a>0).all()|any(a>0)|all(x>0 for x in a)|np.logical_and(a>0,b>0)|np.logical_or(a>0,b>0)|np.logical_not(a>0)|(a>0)&(b>0)|(a>0)|((a>0)|(b>0))|~(a>0)
np.count_nonzero(a>0)|np.nonzero(a>0)[0]|np.flatnonzero(a>0)|a[a>0]|a[np.logical_and(a>0,b>0)]|np.argwhere(a>0)|np.where(a>0)[0]
np.zeros_like(a)|np.ones_like(a)|np.full_like(a,2.)|np.empty((2,0))|np.identity(3)*a|np.eye(3)+A|np.diag(a)|np.diag(A)|A.diagonal()|np.diagflat(a)|np.tile(a,2)|np.repeat(a,2)|np.kron(A,np.eye(2))|np.roll(a,1)|np.flip(a)|a[::-1]|np.transpose(A)|A.transpose()|A.T|np.swapaxes(A,0,1)
np.reshape(A,9)|A.reshape(-1)|A.ravel()|A.flatten()|np.ravel(A)|np.squeeze(A[0:1])|np.expand_dims(a,0)|a[None,:]|a[:,np.newaxis]|np.atleast_2d(a)|np.append(a,b)|np.insert(a,0,1.)|np.delete(a,1)|np.stack((a,b))|np.array([a,b])|np.array([*a,1.])|np.r_[a,1.]|np.c_[a,b]|np.asarray([a[0],1])|np.array(a,dtype=float)|np.array(a,float)|a.astype(float)|np.float64(a[0])|float(a[0])|np.copy(a)|a.copy()|a.tolist()|list(a)
np.linalg.norm(a)|np.linalg.norm(A)|np.linalg.norm(A,axis=1)|np.linalg.det(A)|np.linalg.inv(P)|np.linalg.solve(P,a)|np.linalg.pinv(P)|np.linalg.lstsq(P,a,rcond=None)[0]|np.linalg.matrix_power(A,2)|np.linalg.multi_dot([A,B,A])|np.linalg.cholesky(P)
np.sqrt(a*a+1)|np.hypot(a[0],a[1])|np.square(a)|np.power(a,2)|a**2|a**2.|np.abs(a)|abs(a)|np.absolute(a)|np.fabs(a)|np.sign(a)|np.negative(a)|np.add(a,b)|np.subtract(a,b)|np.multiply(a,b)|np.divide(a,2.)|np.true_divide(a,b*b+1)|np.reciprocal(a*a+1)|-a|+a|a/2|a//1|np.dot(A,a)|A.dot(a)|np.add.reduce(a)
np.isclose(a[0],b[0])|np.allclose(a,b)|np.array_equal(a,b)|np.array_equal(a,a)|(a==b)|(a==b).all()|(a!=b)|np.equal(a,b)|np.less(a,b)|np.greater_equal(a,b)|np.isscalar(a[0])|np.isfinite(a)|np.isnan(a)
np.shape(A)|np.ndim(A)|np.size(A)|len(a)|A.shape|np.ix_([0,1],[2])[0]|A[np.ix_([0,1],[0,2])]|A[[0,1,2],[0,1,2]]|A[1:,::2]|np.take(a,[0,2])|np.triu(A)|np.tril(A)|np.fill_diagonal(A.copy(),0)|np.split(np.concatenate((a,b)),2)[0]|np.array_split(a,2)[0]
np.sin(a[0])|np.cos(a)|np.arctan2(a[0],b[0])|np.tan(a[0])|np.arctan(a[0])|np.arccos(a[0]/6)|np.arcsin(a[0]/6)|np.deg2rad(a)|np.radians(a[0])|np.exp(0.)|np.pi*a|np.sinc(0.)
np.nan_to_num(a)|np.round(1.4)|np.floor(a[0])|np.ceil(a[0])|int(a[0])|round(1.2)|divmod(a[0],2)[0]|a[0]%2|np.mod(a[0],2.)|np.floor_divide(a[0],2)|np.fmod(5.,3.)|np.heaviside(a,0.)|np.interp(1.,[0,2],[a[0],a[1]])|np.polyval([1.,2.],a[0])|np.vectorize(lambda x:x*2)(a)|np.apply_along_axis(lambda x:x*2,0,a)|np.fromiter((x for x in a),float)|np.fromfunction(lambda i,j:i+j,(2,2))|np.broadcast_to(a,(2,3))|np.linspace(0,1,3)*a|np.arange(3)*a|np.ones(3)*a|np.full(3,a[0])|np.full((2,2),1.)
math.sqrt(a[0]*a[0]+1)|math.sin(a[0])|math.atan2(a[0],b[0])|math.hypot(a[0],b[0])|math.fabs(a[0])|math.fsum(a)|math.copysign(1.,a[0])|math.floor(a[0])|math.isclose(a[0],b[0])|math.pi*a|math.radians(a[0])|np.copysign(1.,a[0])|math.pow(a[0],2)|np.float_power(a,2)|pow(a[0],2)|isinstance(a[0],float)|'%g'%1.|bool(a[0])|a.any()|a.all()|not a[0]
np.lib.stride_tricks.as_strided is not None|np.s_[0:2]==slice(0,2)|np.zeros(3).fill(1)|np.putmask(a.copy(),a>0,0.)|np.select([a>0],[a],0.)|np.piecewise|np.choose(1,[a,b])|np.compress([True,False,True],a)|np.extract(a>0,a)|np.subtract.outer(a,b)|np.multiply.outer(a,b)|np.add.outer(a,b)|np.nansum(a)|np.cumprod(a)|np.diff(a)|np.gradient is not None|np.moveaxis(A,0,1)|np.rot90(A)|np.triu_indices(3)[0]|np.diag_indices(3)[0]|np.unravel_index(3,(2,2))[0]|np.ndindex(2).__next__()|np.bmat is not None|np.ptp(a)|np.median(np.array([1.,2.,3.]))
""".strip().replace("\n", "|")


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            depth += 1
        if ch in ")]}":
            depth -= 1
        if ch == "|" and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return [x for x in out if x.strip()]


def main():
    flt = sys.argv[1] if len(sys.argv) > 1 else ""
    bad = 0
    for k, src in enumerate(split(EXPR)):
        if flt not in src:
            continue
        code = compile(src, "<expr>", "eval")

        def fn(E, code=code):
            n = E.loader.overrides.get("numpy", harness.np)
            m = E.loader.overrides.get("math", harness.math)
            d = dict(np=n, math=m, a=E.array(E.vec("a", 3)), b=E.array(E.vec("b", 3)),
                     A=E.array(E.mat("A", 3, 3)), B=E.array(E.mat("B", 3, 3)))
            d["P"] = E.dot(d["A"], d["A"].T) + E.eye(3)
            d["__builtins__"] = E.loader.builtins
            r = eval(code, d)
            E.true("ran", True)
            E.observe("value", r if r is not None else 0)
        ob = harness.Obligation("SHIM", src, fn, "", "quick", 20, 64, {})
        run = harness.Run(ob, 1, "quick")
        try:
            run.go()
            r = run.result()
            ok = not r["violations"] and not r["inconclusive"] and not r["mismatch"] and r["validated"]
            msg = (r["violations"] or r["inconclusive"] or r["mismatch"] or ["not validated"])[0] if not ok else ""
        except BaseException as e:
            ok, msg = False, "CRASH %s %s" % (type(e).__name__, e)
        if not ok:
            bad += 1
            print("%-55s %s" % (src, str(msg)[:170]))
    print("failing:", bad)


main()
