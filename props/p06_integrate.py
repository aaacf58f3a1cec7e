"""P06 Joint integration."""
from engine.harness import obligation
from ._common import JOINTS
from .p05_joints import SPEC


@obligation("P06", "linear_joints", "all 11 classes; |q|,|v|<=1000, 0<dt<=1; two successive steps")
def linear(E):
    names = sorted(SPEC)
    name = names[E.choice("class", len(names))]
    cls = getattr(E.mod(JOINTS), name)
    n = len(SPEC[name])
    q, v0, v1, v2 = E.vec("q", n), E.vec("v0", n), E.vec("v1", n), E.vec("v2", n)
    dt = E.real("dt", 0, 1, strict=True)
    given = E.array(q)
    j = cls(gpos=q, gvel=v0)
    j.integrate(v1, dt)
    E.equal("gvel adopted", j.gvel, v1)
    E.equal("gpos advanced with the new velocity", j.gpos, given + dt * v1)
    E.equal("pose follows", j.pose, cls(gpos=given + dt * v1).pose)
    j.integrate(v2, dt)
    E.equal("second step", j.gpos, given + dt * v1 + dt * v2)
    E.equal("caller's array untouched", q, given)


@obligation("P06", "integer_initial_position", "integer gpos/gvel lists; |v|<=1000, 0<dt<=1")
def integers(E):
    names = sorted(SPEC)
    name = names[E.choice("class", len(names))]
    cls = getattr(E.mod(JOINTS), name)
    n = len(SPEC[name])
    v = E.vec("v", n)
    dt = E.real("dt", 0, 1, strict=True)
    q = [1, 0, -2][:n]
    j = cls(gpos=q if n > 1 else q[0], gvel=[1] * n)
    j.integrate(v, dt)
    E.equal("gpos", j.gpos, E.array(q) + dt * v)


@obligation("P06", "free_joint", "any pose, any twist with |x_i|<=1000, 0.001<=dt<=1 and "
            "rotation per step above the exponential's 1e-3 switch")
def free(E):
    cls = E.mod(JOINTS).FreeJoint
    H, T = E.pose("H"), E.vec("T", 6)
    dt = E.real("dt", 0.001, 1)
    w = dt * T[0:3]
    E.assume(E.dot(w, w) >= 1.1e-6)
    j = cls(gpos=H, gvel=E.vec("T0", 6))
    j.integrate(T, dt)
    E.equal("gvel adopted", j.gvel, T)
    P = j.pose
    R = P[0:3, 0:3]
    E.equal("still orthogonal", E.dot(R.T, R), E.eye(3))
    E.equal("last row", P[3, :], E.array([0, 0, 0, 1]))
    D = E.dot(E.inv4(H), P)
    E.equal("moves by the exponential of dt*gvel", D, E.mod("arboris.twistvector").exp(dt * T))
    E.equal("the screw axis is fixed", E.dot(E.Ad(D), T), T)


@obligation("P06", "free_joint_slow", "any pose, any twist with |x_i|<=1000, 0.001<=dt<=1 and rotation per step up to the exponential's "
            "1e-3 switch, which P03 decides there; two steps")
def free_slow(E):
    cls = E.mod(JOINTS).FreeJoint
    H, P = E.pose("H"), None
    j = cls(gpos=H)
    for k in range(2):
        T, dt = E.vec("T%d" % k, 6), E.real("dt%d" % k, 0.001, 1)
        w = dt * T[0:3]
        E.assume(E.dot(w, w) <= 0.9e-6)
        H = E.dot(H, E.mod("arboris.twistvector").exp(dt * T))
        j.integrate(T, dt)
        E.equal("gvel adopted", j.gvel, T)
        E.equal("moves by the exponential of dt*gvel", j.pose, H)


@obligation("P06", "free_joint_axes", "any pose; rotation dt*w above the switch about one axis with motion along it, "
            "or pure translation; 0.001<=dt<=1")
def free_axes(E):
    cls = E.mod(JOINTS).FreeJoint
    H = E.pose("H")
    dt = E.real("dt", 0.001, 1)
    T = E.arr(6)
    k = E.choice("axis", 4)
    G = E.eye(4)
    if k < 3:
        w = E.real("w", -1000, 1000)
        E.assume(E.GE(dt * w * dt * w, 1.3e-6))
        T[k] = w
        T[3 + k] = E.real("v", -1000, 1000)
        s, c = E.sincos(dt * w)
        G = E.ref_rot("xyz"[k], s, c)
        G[k, 3] = dt * T[3 + k]
    else:
        T[3:6] = E.vec("u", 3)
        G[0:3, 3] = dt * T[3:6]
    j = cls(gpos=H)
    j.integrate(T, dt)
    E.equal("pose", j.pose, E.dot(H, G))


@obligation("P06", "own_arrays", "every class; two joints built from the same arrays, in-place changes of one's position and "
            "velocity, then two steps of it")
def own(E):
    from .p34_pure import NAMES
    kinds = [n for n in NAMES if n != "FixedJoint"]
    k = kinds[E.choice("class", len(kinds))]
    cls = getattr(E.mod(JOINTS), k)
    if k == "FreeJoint":
        n, q = 6, E.pose("H")
    else:
        n = len(SPEC[k])
        q = E.vec("q", n)
    v = E.vec("v", n)
    q0, v0 = E.array(q), E.array(v)
    i, j = cls(gpos=q, gvel=v), cls(gpos=q, gvel=v)
    x = E.vec("x", n)
    i.gvel[:] = x
    if k != "FreeJoint":
        i.gpos[:] = x
    else:
        i.gpos[0:3, 3] = x[3:6]
    i.integrate(E.arr(n) + 0.5, 0.125)
    i.integrate(x, 0.125)
    E.equal("the position given", q, q0)
    E.equal("the velocity given", v, v0)
    E.equal("the position of another joint", j.gpos, q0)
    E.equal("the velocity of another joint", j.gvel, v0)
    E.equal("the velocity adopted is not written", x, E.array(i.gvel))


@obligation("P06", "creep", "a free joint at rest or translating by 2^-24 or 2^-38 a step, a translating joint too, "
            "any direction |x|<=1; twice, from the identity")
def creep(E):
    jm = E.mod(JOINTS)
    u, f = E.vec("u", 3, -1, 1), [0., 2.**-24, 2.**-38][E.choice("size", 3)]
    unit = 1 / f if f else 1.
    T = E.arr(6)
    T[3:6] = f * u
    j, k = jm.FreeJoint(), jm.TxTyTzJoint()
    for s in range(2):
        j.integrate(T, 0.5)
        k.integrate(E.array(T[3:6]), 0.5)
        for x in (j.pose, k.pose):
            E.equal("displacement", x[0:3, 3] * unit, u * (f * unit) * (s + 1) / 2)
            E.equal("not turned", x[0:3, 0:3], E.eye(3))
        E.equal("velocity", j.gvel * unit, T * unit)
