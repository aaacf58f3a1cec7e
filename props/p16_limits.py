"""P16 Joint limits."""
from engine.harness import obligation
from ._common import CORE, JOINTS, const_mass

CN = "arboris.constraints"


def signorini(E, tag, pos, lo, hi, f):
    """lo <= pos <= hi, pushed only at the limits and only inwards."""
    for i in range(len(pos)):
        E.true(tag + " above the lower limit", E.GE(pos[i], lo[i]))
        E.true(tag + " below the upper limit", E.LE(pos[i], hi[i]))
        E.true(tag + " complementarity", E.OR(
            E.EQ(f[i], 0), E.AND(E.GE(f[i], 0), E.EQ(pos[i], lo[i])),
            E.AND(E.LE(f[i], 0), E.EQ(pos[i], hi[i]))))


def setup(E, cls, n, init=True):
    core, jm, cn = E.mod(CORE), E.mod(JOINTS), E.mod(CN)
    q = E.vec("q", n)
    j = getattr(jm, cls)(gpos=q)
    lo, hi = E.vec("lo", n), E.vec("hi", n)
    for i in range(n):
        E.assume(hi[i] >= lo[i])
    w = core.World()
    pre = jm.TxJoint()
    b = core.Body()
    w.add_link(w.ground, pre, b)
    w.add_link(b, j, core.Body())
    return w, j, q, lo, hi


def solve(E, cls, n, sweeps=2):
    w, j, q, lo, hi = setup(E, cls, n)
    c = E.mod(CN).JointLimits(j, lo, hi)
    w.register(c)
    w.init()
    E.true("dimension", c.ndol == n)
    J = E.arr((n, w.ndof))
    for i in range(n):
        J[i, 1 + i] = 1
    E.equal("jacobian selects the joint's dofs", c.jacobian, J)
    dt = E.real("dt", 0.001, 1)
    c.update(dt)
    Y = E.arr((n, n))
    for i in range(n):
        Y[i, i] = E.real("Y%d" % i, 0.1, 5)
    f = E.arr(n)
    vel = E.vec("vel", n)
    for k in range(sweeps):
        if k:
            # something else changed the velocity in between
            vel = vel + E.vec("push", n)
        keep = E.array(vel)
        df = c.solve(E.array(vel), Y, dt)
        vel = keep + E.dot(Y, df)
        f = f + df
        E.equal("force accumulates %d" % k, c._force, f)
        signorini(E, "sweep %d" % k, q + dt * vel, lo, hi, f)
    E.equal("generalized force", c.gforce, E.dot(J.T, f))
    c.update(dt)
    E.equal("force reset at the next step", c._force, E.arr(n))


obligation("P16", "one_dof", "1-dof joint, any position, limits (hi>=lo), velocity |x|<=1000, admittance 0.1..5, "
           "0.001<=dt<=1; two corrections")(lambda E: solve(E, "RzJoint", 1))
obligation("P16", "two_dof", "2-dof joint, decoupled admittance, bounds as above", budget=300)(
    lambda E: solve(E, "RzRyJoint", 2))


obligation("P16", "three_dof", "3-dof joint, decoupled admittance, bounds as above; one correction", budget=300, max_paths=2000)(
    lambda E: solve(E, "TxTyTzJoint", 3, 1))


@obligation("P16", "coupled_rest", "2-dof joint, coupled admittance [[2,1],[1,3]]: whenever a correction "
            "changes nothing, the limits hold", budget=200)
def coupled(E):
    w, j, q, lo, hi = setup(E, "RzRyJoint", 2)
    c = E.mod(CN).JointLimits(j, lo, hi)
    w.register(c)
    w.init()
    c.update(0.5)
    Y = E.array([[2, 1], [1, 3]])
    vel = E.vec("vel", 2)
    df = c.solve(E.array(vel), Y, 0.5)
    vel = vel + E.dot(Y, df)
    f = df
    d2 = c.solve(E.array(vel), Y, 0.5)
    E.assume(E.AND(*[E.EQ(x, 0) for x in d2]))
    signorini(E, "at rest", q + 0.5 * vel, lo, hi, f)


def in_turn(E, cls, n, Y):
    """Each degree of freedom is corrected given what the correction of those before does to it."""
    w, j, q, lo, hi = setup(E, cls, n)
    c = E.mod(CN).JointLimits(j, lo, hi)
    w.register(c)
    w.init()
    dt = 0.5
    c.update(dt)
    Y = E.array(Y)
    vel = E.vec("vel", n)
    df = c.solve(E.array(vel), E.array(Y), dt)
    for i in range(n):
        # the velocity once the joint's first i+1 forces are applied
        v = vel[i]
        for k in range(i + 1):
            v = v + Y[i, k] * df[k]
        signorini(E, "dof %d, after those before" % i, [q[i] + dt * v], [lo[i]], [hi[i]], [df[i]])


C2 = [[2, 1], [1, 3]]
C3 = [[2, 1, 0.5], [1, 3, -1], [0.5, -1, 2]]
obligation("P16", "coupled_two", "2-dof joint, coupled admittance %s, any position, limits, velocity; one correction" % C2,
           budget=200)(lambda E: in_turn(E, "RzRyJoint", 2, C2))
obligation("P16", "coupled_three", "3-dof joint, coupled admittance %s, any position, limits, velocity; one correction" % C3,
           budget=300, max_paths=2000)(lambda E: in_turn(E, "RzRyRxJoint", 3, C3))


@obligation("P16", "activation", "1- to 3-dof joints, any position, limits and proximity in [-1, 1]")
def activation(E):
    n = 1 + E.choice("n", 3)
    w, j, q, lo, hi = setup(E, ["RzJoint", "RzRyJoint", "RzRyRxJoint"][n - 1], n)
    k = E.choice("default", 2)
    if k:
        c = E.mod(CN).JointLimits(j, lo, hi)
        prox = [0.01] * n
    else:
        prox = E.vec("prox", n, -1, 1)
        c = E.mod(CN).JointLimits(j, lo, hi, prox)
    w.register(c)
    # limits of another joint, which is near one of them
    other = E.mod(JOINTS).RzJoint(gpos=[0.5])
    w.add_link(w.ground, other, E.mod(CORE).Body())
    far = E.mod(CN).JointLimits(other, -1, 1, 0.25)
    near_ = E.mod(CN).JointLimits(other, -1, 1, 0.75)
    w.register(far)
    w.register(near_)
    w.init()
    far.update(0.1)
    near_.update(0.1)
    c.update(0.1)
    E.true("the others by their own distance", bool(near_.is_active()) and not bool(far.is_active()))
    near = []
    for i in range(n):
        near += [q[i] - lo[i] < prox[i], hi[i] - q[i] < prox[i]]
    r = bool(c.is_active())
    E.true("active exactly near a limit", E.OR(*near) if r else E.NOT(E.OR(*near)))


@obligation("P16", "refuses_other_joints", "free and fixed joints")
def refuses(E):
    jm = E.mod(JOINTS)
    L = E.mod(CN).JointLimits
    E.raises("free joint", ValueError, lambda: L(jm.FreeJoint(), -1, 1))
    E.raises("fixed joint", ValueError, lambda: L(jm.FixedJoint(), [], []))


@obligation("P16", "full_step", "a limited slider, any position inside its limits, any velocity |x|<=1000, "
            "mass 0.1..10, 0.001<=dt<=1; World's full step", allow_divzero=True)
def full(E):
    core, jm, cn = E.mod(CORE), E.mod(JOINTS), E.mod(CN)
    w = core.World()
    m = E.real("m", 0.1, 10)
    b = core.Body()
    M = E.arr((6, 6))
    for i in range(6):
        M[i, i] = m
    b.mass = M
    q, v = E.vec("q", 1, -1, 1), E.vec("v", 1)
    j = jm.TxJoint(gpos=q, gvel=v)
    w.add_link(w.ground, j, b)
    c = cn.JointLimits(j, -1, 1, 3)
    w.register(c)
    w.init()
    dt = E.real("dt", 0.001, 1)
    w.update_dynamic()
    w.update_controllers(dt)
    w.update_constraints(dt)
    w.integrate(dt)
    E.true("inside", E.AND(E.LE(j.gpos[0], 1), E.GE(j.gpos[0], -1)))
    free = q[0] + dt * v[0]
    E.true("untouched when the free motion stays inside",
           E.implies(E.AND(free < 1, free > -1), E.EQ(j.gpos[0], free)))


@obligation("P16", "heavy_and_light", "1-dof joint, any position and limits |x|<=1, any velocity |x|<=8; admittance 2^-21, 2^-10, 2^20; step "
            "1/16 or 4; two corrections")
def heavy(E):
    cn, jm, core = E.mod(CN), E.mod(JOINTS), E.mod(CORE)
    q, lo, hi = E.vec("q", 1, -1, 1), E.vec("lo", 1, -1, 1), E.vec("hi", 1, -1, 1)
    E.assume(hi[0] >= lo[0])
    j = jm.TxJoint(gpos=q)
    w = core.World()
    w.add_link(w.ground, j, core.Body())
    c = cn.JointLimits(j, lo, hi)
    w.register(c)
    w.init()
    y, dt = [(2.**-21, 4.), (2.**-10, 0.0625), (2.**20, 0.0625), (2.**20, 4.)][E.choice("Y", 4)]
    c.update(dt)
    Y = E.arr((1, 1))
    Y[0, 0] = y
    vel, f = E.vec("vel", 1, -8, 8), E.arr(1)
    for k in range(2):
        if k:
            vel = vel + E.vec("push", 1, -8, 8)
        df = c.solve(E.array(vel), Y, dt)
        vel = vel + E.dot(Y, df)
        f = f + df
        E.equal("force accumulates", c._force * y, f * y)
        signorini(E, "sweep %d" % k, q + dt * vel, lo, hi, f * (y * dt))
