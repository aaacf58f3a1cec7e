"""P10 Mass matrices."""
from engine.harness import obligation
import numpy as np
from engine import shim
from ._common import CORE

MM = "arboris.massmatrix"


def diag(E, d):
    M = E.arr((len(d), len(d)))
    for i, x in enumerate(d):
        M[i, i] = x
    return M


@obligation("P10", "shape_formulas", "any dimensions and mass in (0, 10]")
def shapes(E):
    mm = E.mod(MM)
    sh, core = E.mod("arboris.shapes"), E.mod(CORE)
    x, y, z = [E.real(n, 0, 10, strict=True) for n in "xyz"]
    m = E.real("m", 0, 10, strict=True)
    r, L = E.real("r", 0, 10, strict=True), E.real("L", 0, 10, strict=True)
    # second moments of the uniform solids: int s^2 dm along each axis
    bx = [m * x * x / 3, m * y * y / 3, m * z * z / 3]
    el = [m * x * x / 5, m * y * y / 5, m * z * z / 5]
    cy = [m * r * r / 4, m * r * r / 4, m * L * L / 12]
    sp = [m * r * r / 5] * 3
    for name, M, s in (("box", mm.box((x, y, z), m), bx),
                       ("ellipsoid", mm.ellipsoid((x, y, z), m), el),
                       ("cylinder", mm.cylinder(L, r, m), cy),
                       ("sphere", mm.sphere(r, m), sp)):
        I = [s[1] + s[2], s[0] + s[2], s[0] + s[1]]
        E.equal(name, M, diag(E, I + [m, m, m]))
        E.true(name + " is a mass matrix", mm.ismassmatrix(M))


@obligation("P10", "transport", "any valid mass matrix, any pose, any twist with |x_i|<=1000",
            stubs=None)
def transport(E):
    mm = E.mod(MM)
    E.patch(MM, "ismassmatrix", lambda M, semi=False: True)
    M, m, c, I = E.massmatrix("M")
    H, T = E.pose("H"), E.vec("T", 6)
    M2 = mm.transport(M, H)
    A = E.Ad(H)
    E.equal("congruence", M2, E.dot(A.T, M, A))
    # physical meaning: same mass, inertia and centre of mass seen from the new frame
    E.equal("same mass", M2[3:6, 3:6], m * E.eye(3))
    R, p = H[0:3, 0:3], H[0:3, 3]
    c2 = E.dot(R.T, c - p)
    E.equal("same centre of mass", M2[0:3, 3:6], m * E.hat(c2))
    E.equal("same central inertia", M2[0:3, 0:3] + m * E.dot(E.hat(c2), E.hat(c2)),
            E.dot(R.T, I, R))


@obligation("P10", "transport_group", "diagonal mass matrices, any two poses")
def transport_group(E):
    mm = E.mod(MM)
    E.patch(MM, "ismassmatrix", lambda M, semi=False: True)
    d = [E.real("I%d" % i, 0.1, 5) for i in range(3)]
    m = E.real("m", 0.1, 5)
    M = diag(E, d + [m, m, m])
    H, G = E.pose("H"), E.pose("G")
    E.equal("composes", mm.transport(mm.transport(M, H), G), mm.transport(M, E.dot(H, G)))
    E.equal("undone by the inverse", mm.transport(mm.transport(M, H), E.inv4(H)), M)


@obligation("P10", "recognition", "inertia diag(I1,I2,I3) about the com (|I|<=5), mass |m|<=1000, com offset "
            "up to 1 along one axis; changed symmetric/translational entries by 0.1..1")
def recognition(E):
    mm = E.mod(MM)
    d = [E.real("I%d" % i, -5, 5) for i in range(3)]
    m = E.real("m", -5, 5)
    x = E.real("c", -1, 1)
    c = E.arr(3)
    c[E.choice("axis", 3)] = x
    for y in d + [m]:
        E.assume(E.OR(y >= 1e-3, y <= -1e-3))
    rx = E.hat(c)
    M = E.arr((6, 6))
    M[0:3, 0:3] = diag(E, d) - m * E.dot(rx, rx)
    M[0:3, 3:6] = m * rx
    M[3:6, 0:3] = -m * rx
    M[3:6, 3:6] = m * E.eye(3)
    k = E.choice("change", 4)
    if k == 0:
        good = E.AND(*[y > 0 for y in d + [m]])
        r = mm.ismassmatrix(M)
        E.true("accepted exactly when positive definite", E.OR(E.AND(r, good), E.NOT(E.OR(r, good))))
        r = mm.ismassmatrix(M, True)
        E.true("semi accepted exactly when positive definite",
               E.OR(E.AND(r, good), E.NOT(E.OR(r, good))))
    else:
        e = E.real("e", 0.1, 1)
        if k == 1:
            M[0, 1] += e
        elif k == 2:
            M[4, 4] += e
        else:
            M[3, 4] += e
            M[4, 3] += e
        E.true("refused", not mm.ismassmatrix(M))
        E.true("refused as semidefinite", not mm.ismassmatrix(M, True))
        E.raises("a body refuses it", AssertionError, lambda: E.mod(CORE).Body(mass=M))


@obligation("P10", "light", "diagonal mass matrices with entries between 2^-30 and 1 (dust to bodies)")
def light(E):
    mm = E.mod(MM)
    d = [E.real("I%d" % i, 2.0 ** -30, 1) for i in range(3)]
    m = E.real("m", 2.0 ** -30, 1)
    M = diag(E, d + [m, m, m])
    E.true("definite", mm.ismassmatrix(M))
    E.true("semidefinite", mm.ismassmatrix(M, True))
    E.equal("of a body", E.mod(CORE).Body(mass=M).mass, M)


@obligation("P10", "massless", "the zero matrix and mass matrices with zero inertia along axes")
def massless(E):
    mm = E.mod(MM)
    Z = E.arr((6, 6))
    E.true("zero matrix is semidefinite", mm.ismassmatrix(Z, True))
    E.true("zero matrix is not definite", not mm.ismassmatrix(Z))
    b = E.mod(CORE).Body()
    E.equal("default mass", b.mass, Z)
    E.equal("default viscosity", b.viscosity, Z)
    E.true("wrong shape", not mm.ismassmatrix(E.eye(4)))


def principal(E, lam, V, W):
    """V: orthonormal eigenvectors (what eigh gives), W: unit eigenvectors (all eig gives)."""
    mm = E.mod(MM)
    m = E.real("m", 0.1, 10)
    c = E.vec("c", 3, -2, 2)
    I = E.dot(V, diag(E, lam), V.T)
    rx = E.hat(c)
    M = E.arr((6, 6))
    M[0:3, 0:3] = I - m * E.dot(rx, rx)
    M[0:3, 3:6] = m * rx
    M[3:6, 0:3] = -m * rx
    M[3:6, 3:6] = m * E.eye(3)
    E.patch(MM, "ismassmatrix", lambda M, semi=False: True)

    def contract(X):
        def f(A, *a, **k):
            E.equal("decomposition of the central inertia", A, I)
            return E.array(lam), E.array(X)
        return f
    shim.HOOKS["eig"] = contract(W)
    shim.HOOKS["eigh"] = contract(V)
    H = mm.principalframe(M)
    # eigenvectors are only defined up to sign and order: H itself is not compared
    E.havoc = True
    Rh = H[0:3, 0:3]
    E.equal("origin at the centre of mass", H[0:3, 3], c)
    E.equal("last row", H[3, :], E.array([0, 0, 0, 1]))
    E.equal("rotation", E.dot(Rh.T, Rh), E.eye(3))
    E.equal("right handed", E.dot(E.hat(Rh[:, 0]), Rh[:, 1]), Rh[:, 2])
    D = E.dot(Rh.T, I, Rh)
    E.equal("principal axes", E.array([D[0, 1], D[0, 2], D[1, 2]]), E.arr(3))


@obligation("P10", "principal_frame", "any mass, com, inertia with any principal moments and axes; "
            "eigendecomposition by its contract (orthonormal, either handedness)")
def principal_any(E):
    R = E.rot("R")
    lam = [E.real("l%d" % i, 0.5, 5) for i in range(3)]
    V = E.array(R)
    if E.choice("flip", 2):
        V[:, 0] = -V[:, 0]
    principal(E, lam, V, V)


@obligation("P10", "principal_frame_repeated", "two equal principal moments; a general eigensolver "
            "(eig) may return any unit vectors of the eigenspace, a symmetric one (eigh) orthonormal ones")
def principal_repeated(E):
    V = E.array(E.rot("R"))
    l0, l2 = E.real("l0", 0.5, 5), E.real("l2", 0.5, 5)
    W = E.array(V)
    W[:, 0] = (3 * V[:, 0] + 4 * V[:, 1]) / 5
    principal(E, [l0, l0, l2], V, W)


@obligation("P10", "principal_frame_one_axis", "central inertia turned about one axis, by a right, a 3-4-5 or no angle; two equal moments, "
            "three or different ones; centre of mass anywhere in a box of 2: the real eigensolver", max_paths=400)
def principal_one_axis(E):
    mm = E.mod(MM)
    k = E.choice("axis", 3)
    c, s = [(0.6, 0.8), (-0.8, 0.6), (0., 1.), (1., 0.)][E.choice("angle", 4)]
    V = np.eye(3)
    a, b = (k + 1) % 3, (k + 2) % 3
    V[a, a], V[a, b], V[b, a], V[b, b] = c, -s, s, c
    lam = [(2., 2., 3.), (2., 3., 2.), (3., 2., 2.), (2., 2.5, 3.), (2., 2., 2.), (3., 2.5, 2.)][E.choice("moments", 6)]
    I = V.dot(np.diag(lam)).dot(V.T)
    I = (I + I.T) / 2
    o = [(0., 0., 0.), (0.5, -1., 0.25)][E.choice("com", 2)]
    m = 2.
    rx = np.array([[0, -o[2], o[1]], [o[2], 0, -o[0]], [-o[1], o[0], 0]])
    M = np.zeros((6, 6))
    M[0:3, 0:3] = I - m * rx.dot(rx)
    M[0:3, 3:6] = m * rx
    M[3:6, 0:3] = -m * rx
    M[3:6, 3:6] = m * np.eye(3)
    H = mm.principalframe(E.array(M))
    Rh = H[0:3, 0:3]
    E.equal("origin at the centre of mass", H[0:3, 3], E.array(list(o)))
    E.equal("rotation", E.dot(Rh.T, Rh), E.eye(3))
    E.equal("right handed", E.dot(E.hat(Rh[:, 0]), Rh[:, 1]), Rh[:, 2])
    D = E.dot(Rh.T, E.array(I), Rh)
    E.equal("principal axes", E.array([D[0, 1], D[0, 2], D[1, 2]]), E.arr(3))
