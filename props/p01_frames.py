"""P01 Displacement algebra: homogeneous matrices and adjoints."""
from engine.harness import obligation

HG = "arboris.homogeneousmatrix"
TW = "arboris.twistvector"


@obligation("P01", "rotations", "all angles; all 8 constructors")
def rotations(E):
    Hg = E.mod(HG)
    z, y, x = E.angle("z"), E.angle("y"), E.angle("x")
    ref = {}
    for n, a in (("x", x), ("y", y), ("z", z)):
        s, c = E.sincos(a)
        ref[n] = E.ref_rot(n, s, c)
    E.equal("rotx", Hg.rotx(x), ref["x"])
    E.equal("roty", Hg.roty(y), ref["y"])
    E.equal("rotz", Hg.rotz(z), ref["z"])
    E.equal("rotzyx", Hg.rotzyx(z, y, x), E.dot(ref["z"], ref["y"], ref["x"]))
    E.equal("rotzy", Hg.rotzy(z, y), E.dot(ref["z"], ref["y"]))
    E.equal("rotzx", Hg.rotzx(z, x), E.dot(ref["z"], ref["x"]))
    E.equal("rotyx", Hg.rotyx(y, x), E.dot(ref["y"], ref["x"]))
    t = E.vec("t", 3)
    T = E.eye(4)
    T[0:3, 3] = t
    E.equal("transl", Hg.transl(t[0], t[1], t[2]), T)


@obligation("P01", "inverse", "any pose (R in SO(3), |p_i|<=1000)")
def inverse(E):
    Hg = E.mod(HG)
    H = E.pose("H")
    G = E.pose("G")
    E.true("accepted", Hg.ishomogeneousmatrix(H))
    keep = E.array(H)
    E.equal("inv left", E.dot(Hg.inv(H), H), E.eye(4))
    E.equal("inv right", E.dot(H, Hg.inv(H)), E.eye(4))
    E.equal("inv product", Hg.inv(E.dot(H, G)), E.dot(Hg.inv(G), Hg.inv(H)))
    E.equal("adjoint product", Hg.adjoint(E.dot(H, G)), E.dot(Hg.adjoint(H), Hg.adjoint(G)))
    E.equal("iadjoint", E.dot(Hg.iadjoint(H), Hg.adjoint(H)), E.eye(6))
    E.equal("adjoint", Hg.adjoint(H), E.Ad(H))
    E.equal("argument untouched", H, keep)


@obligation("P01", "points_and_vectors", "any two poses, any point/vector with |x_i|<=1000")
def points(E):
    Hg = E.mod(HG)
    H = E.pose("H")
    G = E.pose("G")
    p, v = E.vec("p", 3), E.vec("v", 3)
    E.equal("pdot", Hg.pdot(H, p), E.dot(H[0:3, 0:3], p) + H[0:3, 3])
    E.equal("vdot", Hg.vdot(H, v), E.dot(H[0:3, 0:3], v))
    E.equal("pdot composes", Hg.pdot(E.dot(H, G), p), Hg.pdot(H, Hg.pdot(G, p)))
    E.equal("pdot inverse", Hg.pdot(Hg.inv(H), Hg.pdot(H, p)), p)
    w = Hg.vdot(H, v)
    E.equal("vdot isometry", E.dot(w, w), E.dot(v, v))


@obligation("P01", "adjoint_on_twists", "any pose, any two twists with |x_i|<=1000")
def twists(E):
    Hg, Tw = E.mod(HG), E.mod(TW)
    H = E.pose("H")
    T, U = E.vec("T", 6), E.vec("U", 6)
    E.equal("adjoint conjugates", E.dot(H, E.hat4(T), E.inv4(H)), E.hat4(E.dot(Hg.adjoint(H), T)))
    a, b = E.hat4(T), E.hat4(U)
    E.equal("adjacency is the bracket", E.hat4(E.dot(Tw.adjacency(T), U)),
            E.dot(a, b) - E.dot(b, a))
    E.equal("dAdjoint is the derivative", Hg.dAdjoint(Hg.adjoint(H), T),
            E.deriv(lambda X: E.Ad(X), [H], [T]))


@obligation("P01", "rejection", "4x4 matrices scaled by 1+d, |d|>=1e-8, reflected, or with a changed last row")
def rejection(E):
    Hg = E.mod(HG)
    H = E.pose("H")
    d = E.real("d", -0.5, 0.5)
    E.assume(E.OR(d >= 1e-8, d <= -1e-8))
    fns = [lambda m: Hg.inv(m), lambda m: Hg.adjoint(m), lambda m: Hg.pdot(m, m[0:3, 3]),
           lambda m: Hg.vdot(m, m[0:3, 3]), lambda m: Hg.iadjoint(m),
           lambda m: Hg.rotzyx_angles(m)]
    which = E.choice("which", 3)
    B = E.array(H)
    if which == 0:
        B[0, 0:3] = B[0, 0:3] * (1 + d)
    elif which == 2:                    # a reflection
        B[E.choice("row", 3), 0:3] *= -1
    else:
        B[3, E.choice("col", 4)] += d
    E.true("not homogeneous", not Hg.ishomogeneousmatrix(B))
    for k, f in enumerate(fns):
        E.raises("refused %d" % k, AssertionError, lambda: f(B))


@obligation("P01", "recognition", "any 4x4 matrix with last row 0 0 0 1 and rotation part |a|<=2")
def recognition(E):
    Hg = E.mod(HG)
    A = E.mat("A", 3, 3, -2, 2)
    B = E.eye(4)
    B[0:3, 0:3] = A
    B[0:3, 3] = E.vec("p", 3)
    det = sum(A[0, i] * (A[1, (i + 1) % 3] * A[2, (i + 2) % 3] - A[1, (i + 2) % 3] * A[2, (i + 1) % 3])
              for i in range(3))
    if Hg.ishomogeneousmatrix(B):
        E.true("determinant one", E.AND(E.LE(det, 1 + 1e-8), E.GE(det, 1 - 1e-8)))
    else:
        E.true("determinant not one", E.OR(E.GE(det, 1 + 1e-12), E.LE(det, 1 - 1e-12)))


@obligation("P01", "minute", "displacements with a quarter, 3-4-5 or no rotation and a translation of the order of 2^-24 or 2^-38, "
            "points as minute")
def minute(E):
    Hg = E.mod(HG)
    f = [2.**-24, 2.**-38][E.choice("size", 2)]
    c, s = [(1, 0), (0, 1), (0.6, 0.8)][E.choice("turn", 3)]
    H = E.eye(4)
    H[0:3, 0:3] = E.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    R = E.array(H[0:3, 0:3])
    u, q = E.vec("u", 3, -1, 1), E.vec("q", 3, -1, 1)
    H[0:3, 3] = f * u
    g = 1 / f
    E.equal("inverse", Hg.inv(H)[0:3, 3] * g, -E.dot(R.T, u))
    E.equal("its rotation", Hg.inv(H)[0:3, 0:3], R.T)
    E.equal("adjoint", Hg.adjoint(H)[3:6, 0:3] * g, E.dot(E.hat(u), R))
    E.equal("inverse adjoint", Hg.iadjoint(H)[3:6, 0:3] * g, -E.dot(R.T, E.hat(u)))
    E.equal("point", Hg.pdot(H, f * q) * g, E.dot(R, q) + u)
    E.equal("vector", Hg.vdot(H, f * q) * g, E.dot(R, q))
    E.equal("translation", Hg.transl(f * u[0], f * u[1], f * u[2])[0:3, 3] * g, u)
    T = E.array(list(f * u) + list(f * q))
    A = E.mod("arboris.twistvector").adjacency(T)
    E.equal("adjacency", A * g, E.ad(T * g))
