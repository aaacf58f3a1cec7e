"""P03 Twist exponential."""
from engine.harness import obligation

TW = "arboris.twistvector"


@obligation("P03", "flow", "any twist with |T_i|<=1000 and angular rate above the 1e-3 switch")
def flow(E):
    Tw = E.mod(TW)
    T = E.vec("T", 6)
    E.assume(E.dot(T[0:3], T[0:3]) >= 1.1e-6)
    H = Tw.exp(T)
    R = H[0:3, 0:3]
    E.equal("orthogonal", E.dot(R.T, R), E.eye(3))
    E.equal("right handed", E.dot(E.hat(R[:, 0]), R[:, 1]), R[:, 2])
    E.equal("last row", H[3, :], E.array([0, 0, 0, 1]))
    # T is fixed by the motion it generates, and the motion solves H' = H T^
    E.equal("axis fixed", E.dot(E.Ad(H), T), T)
    E.equal("solves the flow equation", E.deriv(lambda X: Tw.exp(X), [T], [T]), E.dot(H, E.hat4(T)))


@obligation("P03", "group", "any twist with |T_i|<=1000 and angular rate above the 1e-3 switch")
def group(E):
    Tw = E.mod(TW)
    T = E.vec("T", 6)
    E.assume(E.dot(T[0:3], T[0:3]) >= 1.1e-6)
    H = Tw.exp(T)
    E.equal("inverse", Tw.exp(-T), E.inv4(H))
    E.equal("double", Tw.exp(2 * T), E.dot(H, H))
    E.equal("triple", Tw.exp(3 * T), E.dot(H, H, H))


@obligation("P03", "screw", "rotation by any angle about each axis, with motion along it")
def screw(E):
    Tw = E.mod(TW)
    a = E.real("a", 0.0011, 5)
    E.assume(E.GE(a, 0.0011))
    v = E.vec("v", 3)
    k = E.choice("axis", 3)
    s, c = E.sincos(a)
    T = E.arr(6)
    T[k] = a
    T[3 + k] = v[k]
    R = E.ref_rot("xyz"[k], s, c)
    R[k, 3] = v[k]
    E.equal("exp", Tw.exp(T), R)


@obligation("P03", "small_rates", "angular rate below the 1e-3 switch, |v_i|<=1000, error 1e-9 in position and 1e-12 in rotation")
def small(E):
    Tw = E.mod(TW)
    u = E.vec("u", 3, -0.5, 0.5)
    v = E.vec("v", 3)
    w = u * 0.001
    T = E.arr(6)
    T[0:3] = w
    T[3:6] = v
    H = Tw.exp(T)
    S = E.eye(4)
    A = E.hat4(T)
    S = S + A + E.dot(A, A) / 2 + E.dot(A, A, A) / 6
    for i in range(3):
        for j in range(4):
            d = H[i, j] - S[i, j]
            b = 1e-12 if j < 3 else 1e-9
            E.true("close to the series", E.AND(d <= b, d >= -b))
    E.equal("last row", H[3, :], E.array([0, 0, 0, 1]))
    R = H[0:3, 0:3]
    D = E.dot(R.T, R) - E.eye(3)
    for i in range(3):
        for j in range(i, 3):
            E.true("orthogonal to 1e-12", E.AND(D[i, j] <= 1e-12, D[i, j] >= -1e-12))


@obligation("P03", "translation", "zero angular rate, any v")
def translation(E):
    Tw = E.mod(TW)
    v = E.vec("v", 3)
    T = E.arr(6)
    T[3:6] = v
    H = E.eye(4)
    H[0:3, 3] = v
    E.equal("exp of a pure translation", Tw.exp(T), H)
