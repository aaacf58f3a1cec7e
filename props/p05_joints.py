"""P05 Joint kinematics: pose, jacobian and its derivative agree."""
from engine.harness import obligation
from ._common import JOINTS

SPEC = {   # class -> elementary motions, in the documented order
    "RzRyRxJoint": "zyx", "RzRyJoint": "zy", "RzRxJoint": "zx", "RyRxJoint": "yx",
    "RzJoint": "z", "RyJoint": "y", "RxJoint": "x",
    "TxTyTzJoint": "XYZ", "TzJoint": "Z", "TyJoint": "Y", "TxJoint": "X",
}


def reference(E, spec, q):
    H = E.eye(4)
    for a, x in zip(spec, q):
        if a in "xyz":
            s, c = E.sincos(x)
            K = E.ref_rot(a, s, c)
        else:
            K = E.eye(4)
            K["XYZ".index(a), 3] = x
        H = E.dot(H, K)
    return H


def make(name):
    def run(E):
        spec = SPEC[name]
        n = len(spec)
        cls = getattr(E.mod(JOINTS), name)
        q = E.arr(n)
        for i in range(n):
            q[i] = E.angle("q%d" % i) if spec[i] in "xyz" else E.real("q%d" % i, -1000, 1000)
        v = E.vec("v", n)
        j = cls(gpos=q, gvel=v)
        E.true("ndof", j.ndof == n)
        H = j.pose
        E.equal("pose", H, reference(E, spec, q))
        E.equal("ipose", j.ipose, E.inv4(H))
        E.equal("jacobian is the velocity map",
                E.dot(H, E.hat4(E.dot(j.jacobian, v))),
                E.deriv(lambda x: reference(E, spec, x), [q], [v]))
        E.equal("twist", j.twist, E.dot(j.jacobian, v))
        E.equal("djacobian is the derivative", j.djacobian,
                E.deriv(lambda x: cls(gpos=x).jacobian, [q], [v]))
        E.equal("idadjoint is the derivative", j.idadjoint,
                E.deriv(lambda x: E.Ad(E.inv4(reference(E, spec, x))), [q], [v]))
        E.equal("dadjoint is the derivative", j.dadjoint,
                E.deriv(lambda x: E.Ad(reference(E, spec, x)), [q], [v]))
        d = cls()
        E.equal("default pose", d.pose, E.eye(4))
        E.equal("default velocity", d.gvel, E.arr(n))
    return run


for _n in SPEC:
    obligation("P05", _n, "any angles; |translation|, |rate| <= 1000")(make(_n))


@obligation("P05", "FreeJoint", "any pose, any twist with |x_i|<=1000")
def free(E):
    cls = E.mod(JOINTS).FreeJoint
    H, T = E.pose("H"), E.vec("T", 6)
    j = cls(gpos=H, gvel=T)
    E.true("ndof", j.ndof == 6)
    E.equal("pose", j.pose, H)
    E.equal("ipose", j.ipose, E.inv4(H))
    E.equal("twist", j.twist, T)
    E.equal("jacobian is the velocity map", E.dot(H, E.hat4(E.dot(j.jacobian, T))),
            E.deriv(lambda X: cls(gpos=X).pose, [H], [T]))
    E.equal("djacobian", j.djacobian, E.arr((6, 6)))
    E.equal("idadjoint is the derivative", j.idadjoint,
            E.deriv(lambda X: E.Ad(E.inv4(X)), [H], [T]))
    P = j.pose
    P[0, 3] += 1
    T2 = j.twist
    T2[0] += 1
    E.equal("pose is a copy", j.pose, H)
    E.equal("twist is a copy", j.twist, T)
    E.equal("default pose", cls().pose, E.eye(4))


@obligation("P05", "FixedJoint", "the only state")
def fixed(E):
    j = E.mod(JOINTS).FixedJoint()
    E.true("ndof", j.ndof == 0)
    E.equal("pose", j.pose, E.eye(4))
    E.equal("twist", j.twist, E.arr(6))
    E.equal("jacobian", j.jacobian, E.arr((6, 0)))
    E.equal("djacobian", j.djacobian, E.arr((6, 0)))
    E.equal("idadjoint", j.idadjoint, E.arr((6, 6)))
    j.integrate(E.arr(0), E.real("dt", 0.001, 1))
    E.equal("pose after a step", j.pose, E.eye(4))


@obligation("P05", "shared_numbers", "two joints of any one class built from the same arrays, which are changed afterwards, one of them "
            "integrated; any numbers")
def shared(E):
    jm = E.mod(JOINTS)
    name = sorted(SPEC)[E.choice("class", len(SPEC))]
    cls, n = getattr(jm, name), len(SPEC[name])
    # small angles are not needed: no sine is taken
    q, v = E.vec("q", n, -3, 3), E.vec("v", n, -3, 3)
    q0, v0 = E.array(q), E.array(v)
    a, b = cls(q, v), cls(q, v)
    g = E.vec("g", n, -3, 3)
    g0 = E.array(g)
    a.integrate(g, 0.5)
    E.equal("integrated", a.gpos, q0 + g0 / 2)
    E.equal("velocity of the integrated one", a.gvel, g0)
    E.equal("the other stays", E.array([b.gpos, b.gvel]), E.array([q0, v0]))
    E.equal("the numbers given stay", E.array([q, v]), E.array([q0, v0]))
    q[:] = 7
    v[:] = 7
    E.equal("joints keep their own numbers", E.array([b.gpos, b.gvel]), E.array([q0, v0]))
    E.equal("positions too", a.gpos, q0 + g0 / 2)
    H, T = E.pose("H"), E.vec("T", 6)
    H0, T0 = E.array(H), E.array(T)
    c, d = jm.FreeJoint(H, T), jm.FreeJoint(H, T)
    c.integrate(E.arr(6), 0.5)
    H[0:3, 3] = 7
    T[:] = 7
    E.equal("free joints keep their own pose", E.array([c.pose, d.pose]), E.array([H0, H0]))
    E.equal("and twist", d.twist, T0)
