"""P13 Time step: the discretized equations of motion."""
from engine.harness import obligation
from ._common import CORE, stub_joint


def plant(E, n, constraints=(), controllers=(), split=1, unit=False):
    """A world of n dof whose M, B, N are arbitrary (through a body's public interface)."""
    core = E.mod(CORE)
    M, B, N = E.symm("M", n), E.mat("B", n, n), E.mat("N", n, n)
    if unit:
        M, B, N = E.eye(n), E.arr((n, n)), E.arr((n, n))
    J, Mb, Bb, Nb = E.arr((6, n)), E.arr((6, 6)), E.arr((6, 6)), E.arr((6, 6))
    for i in range(n):
        J[i, i] = 1
    Mb[0:n, 0:n], Bb[0:n, 0:n], Nb[0:n, 0:n] = M, B, N
    S = (J, E.arr((6, n)), Nb)

    class StubBody(core.Body):
        jacobian = property(lambda s: S[0])
        djacobian = property(lambda s: S[1])
        nleffects = property(lambda s: S[2])

        def update_dynamic(self, *a):
            pass
    w = core.World()
    w.ground.update_dynamic = lambda *a: None
    b = StubBody()
    b.mass, b.viscosity = Mb, Bb
    js = []
    left = n
    v = E.vec("v", n)
    k0 = 0
    last = w.ground
    for i in range(split):
        k = left - (split - 1 - i) if i == 0 else 1
        left -= k
        j = stub_joint(E, k, E.eye(4), E.arr(6), E.arr((6, k)), E.arr((6, k)))
        j.gvel = E.array(v[k0:k0 + k])
        k0 += k
        nb = b if i == split - 1 else massless_link(E, core, n)
        w.add_link(last, j, nb)
        last = nb
        js.append(j)
    for c in controllers:
        w.register(c)
    for c in constraints:
        w.register(c)
    w.init()
    w.update_dynamic()
    return w, js, v, M, B, N


def massless_link(E, core, n):
    class Massless(core.Body):
        jacobian = property(lambda s: E.arr((6, n)))
        djacobian = property(lambda s: E.arr((6, n)))
        nleffects = property(lambda s: E.arr((6, 6)))

        def update_dynamic(self, *a):
            pass
    return Massless()


def controller(E, g, Z):
    C = E.mod(CORE).Controller

    class Stub(C):
        def init(self, world):
            self.inits = getattr(self, "inits", 0) + 1

        def update(self, dt):
            self.dt = dt
            return (E.array(g), E.array(Z))
    return Stub()


def step(E, n, nctl):
    gs = [E.vec("g%d" % i, n) for i in range(nctl)]
    Zs = [E.mat("Z%d" % i, n, n) for i in range(nctl)]
    ctl = [controller(E, g, Z) for g, Z in zip(gs, Zs)]
    w, js, v, M, B, N = plant(E, n, controllers=ctl, split=min(n, 2))
    dt = E.real("dt", 0.001, 1)
    E.equal("velocity gathered from the joints", w.gvel, v)
    G = sum(gs, E.arr(n))
    Z = sum(Zs, E.arr((n, n)))
    w.update_controllers(dt)
    E.equal("controllers' force", w.gforce, G)
    A = M / dt + B + N - Z
    E.equal("admittance", E.dot(w.admittance, A), E.eye(n))
    w.update_constraints(dt)
    E.equal("no constraint, no force", w.gforce, G)
    t0 = E.real("t0", 0, 100)
    w._current_time = t0
    w.integrate(dt)
    v1 = w.gvel
    E.equal("equation of motion", E.dot(A, v1), E.dot(M, v) / dt + G)
    E.equal("time", w.current_time, t0 + dt)
    k = 0
    for j in js:
        got, d = j.called
        E.equal("joint velocity", got, v1[k:k + j.ndof])
        E.equal("joint step", d, dt)
        k += j.ndof
    E.equal("controllers told dt", E.array([c.dt for c in ctl]), E.array([dt] * nctl))


obligation("P13", "step_1dof", "1 dof, 2 controllers; any symmetric mass, viscosity, nonlinear effects, "
           "forces, impedances (|x|<=1000), 0.001<=dt<=1, impedance nonsingular",
           allow_divzero=True)(lambda E: step(E, 1, 2))
obligation("P13", "step_2dof", "2 dof, 2 controllers; bounds as above", allow_divzero=True)(
    lambda E: step(E, 2, 2))
obligation("P13", "step_3dof", "3 dof, 1 controller; bounds as above", allow_divzero=True, budget=400)(
    lambda E: step(E, 3, 1))


obligation("P13", "many_controllers", "1 dof, 9 controllers; bounds as above", allow_divzero=True)(lambda E: step(E, 1, 9))


@obligation("P13", "two_steps", "1 dof, two successive steps of different length", allow_divzero=True)
def two(E):
    g, Z = E.vec("g", 1), E.mat("Z", 1, 1)
    w, js, v, M, B, N = plant(E, 1, controllers=[controller(E, g, Z)])
    for k in range(2):
        dt = E.real("dt%d" % k, 0.001, 1)
        w.update_dynamic()
        w.update_controllers(dt)
        E.equal("forces do not accumulate", w.gforce, g)
        w.update_constraints(dt)
        t = w.current_time
        w.integrate(dt)
        v1 = w.gvel
        E.equal("equation of motion", E.dot(M / dt + B + N - Z, v1), E.dot(M, v) / dt + g)
        E.equal("time", w.current_time, t + dt)
        v = v1


@obligation("P13", "steps_with_constraint", "1 dof, a constraint whose force is any value at each of three steps, "
            "no or one controller; every step length the same", allow_divzero=True)
def three(E):
    from .p14_coupling import constraint, tie
    J = E.mat("J", 1, 1)
    f0 = E.vec("f0", 1)
    c = constraint(E, "c", J, f0, [E.vec("d%d" % i, 1) for i in range(3)])
    tie([c])
    ctl = E.choice("controllers", 2)
    g = E.vec("g", 1) if ctl else E.arr(1)
    w, js, v, M, B, N = plant(E, 1, [c], [controller(E, g, E.arr((1, 1)))] if ctl else [])
    dt = E.real("dt", 0.001, 1)
    for k in range(3):
        w.update_dynamic()
        w.update_controllers(dt)
        E.equal("only the controllers' force before the constraints", w.gforce, g)
        w.update_constraints(dt, maxiters=1)
        G = g + E.dot(J.T, c._force)
        E.equal("force of this step alone", w.gforce, G)
        w.integrate(dt)
        v1 = w.gvel
        E.equal("equation of motion", E.dot(M / dt + B + N, v1), E.dot(M, v) / dt + G)
        v = v1


@obligation("P13", "bad_dt", "any dt in [-1, 0]")
def bad(E):
    core = E.mod(CORE)
    dt = E.real("dt", -1, 0)
    w = core.World()
    w.init()
    w.update_dynamic()
    for name in ("update_controllers", "update_constraints", "integrate"):
        E.raises(name, AssertionError, lambda: getattr(w, name)(dt))
    E.equal("time unchanged", w.current_time, 0)


@obligation("P13", "real_joints", "two pendulum joints and a slider with constant masses, no controllers: one full step; "
            "any velocities |x|<=1000, fixed configuration, 0.001<=dt<=1", allow_divzero=True)
def real(E):
    from ._common import JOINTS, const_mass, const_pose
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    b0, b1 = core.Body(mass=const_mass(E, 0)), core.Body(mass=const_mass(E, 1))
    v = E.vec("v", 2)
    j0, j1 = jm.RzJoint(gvel=v[0:1]), jm.TxJoint(gpos=[0.5], gvel=v[1:2])
    w.add_link(w.ground, j0, b0, core.SubFrame(b0, const_pose(E, 1)), j1, b1)
    w.init()
    dt = E.real("dt", 0.001, 1)
    w.update_dynamic()
    M, N = E.array(w.mass), E.array(w.nleffects)
    w.update_controllers(dt)
    w.update_constraints(dt)
    w.integrate(dt)
    v1 = w.gvel
    E.equal("equation of motion", E.dot(M / dt + N, v1), E.dot(M, v) / dt)
    E.equal("positions use the new velocity", E.array([j0.gpos[0], j1.gpos[0]]),
            E.array([dt * v1[0], dt * v1[1] + 0.5]))
    E.equal("joints hold the new velocity", E.array([j0.gvel[0], j1.gvel[0]]), v1)


def wrench_of_weight(E, b, g, up):
    """Weight as a wrench on a body, in its frame: its gravity (signed, along up) at the centre of mass."""
    R, m = b.pose[0:3, 0:3], b.mass[3, 3]
    f = g * m * E.dot(R.T, up)
    rx = b.mass[0:3, 3:6] / m       # hat of the centre of mass
    return E.array(list(E.dot(rx, f)) + list(f))


@obligation("P13", "slow", "two sliders and a pendulum, each between the ground and a body of unit mass, at velocities |x|<=2^-21, "
            "2^-36 or 0, some of them slow and some not; 1/1024<=dt<=1; integrated three times", allow_divzero=True)
def slow(E):
    core, jm = E.mod(CORE), E.mod("arboris.joints")
    w = core.World()
    k = E.choice("scale", 4)
    u = E.vec("u", 3, -8, 8)
    f = [(2.0**-24,) * 3, (2.0**-39,) * 3, (0., 0., 2.0**-24), (1., 2.0**-24, 0.)][k]
    v = [a * b for a, b in zip(u, f)]
    unit = [1. / b if b else 1. for b in f]
    js = [jm.TxJoint(gpos=[0.], gvel=[v[0]]), jm.RzJoint(gpos=[0.], gvel=[v[1]]), jm.TyJoint(gpos=[0.], gvel=[v[2]])]
    for i, j in enumerate(js):
        w.add_link(w.ground, j, core.Body("b%d" % i, mass=E.eye(6)))
    w.init()
    dt = E.real("dt", 0.0009765625, 1)
    t = 0
    w.update_dynamic()
    for s in range(3):
        w.update_controllers(dt)
        w.update_constraints(dt)
        w.integrate(dt)
        t = t + dt
        for i, j in enumerate(js):
            E.equal("a slow joint drifts by its velocity", j.gpos[0] * unit[i], t * v[i] * unit[i])
            E.equal("and keeps it", j.gvel[0] * unit[i], v[i] * unit[i])


@obligation("P13", "short_and_long_steps", "a slider of mass 1, 2^-10 or 1024, pushed by any force |x|<=8 from rest or free at any velocity |x|<=8; steps of "
            "2^-30, 2^-20, 2^-12, 16 or 4096, two of them", allow_divzero=True)
def short_and_long(E):
    core, jm = E.mod(CORE), E.mod("arboris.joints")
    w = core.World()
    v, g = E.vec("v", 1, -8, 8), E.vec("g", 1, -8, 8)
    m = [1., 2.**-10, 1024.][E.choice("mass", 3)]
    if E.choice("pushed", 2):
        v = 0 * v
    else:
        g = 0 * g
    j = jm.TxJoint(gpos=[0.], gvel=v)
    w.add_link(w.ground, j, core.Body("b", mass=m * E.eye(6)))
    w.register(controller(E, g, E.arr((1, 1))))
    w.init()
    dt = [2.**-30, 2.**-20, 2.**-12, 16., 4096.][E.choice("dt", 5)]
    x = 0
    for s in range(2):
        w.update_dynamic()
        w.update_controllers(dt)
        w.update_constraints(dt)
        w.integrate(dt)
        push = g[0] * (s + 1)
        E.equal("velocity by the force", j.gvel[0] * m / dt, v[0] * m / dt + push)
        x = x + v[0] + push * dt / m
        E.equal("position by the velocity", j.gpos[0] / dt, x)
        E.equal("time", w.current_time / dt, s + 1)


@obligation("P13", "everything", "a branched mechanism of three joints in a fixed configuration, with offset frames, constant masses and viscosities, weight and two "
            "proportional-derivative controllers of some of the joints, built in either order; any velocities, gravity, targets, gains; "
            "dt=1/8 or 2; one full step", budget=200, allow_divzero=True)
def everything(E):
    from ._common import JOINTS, const_mass, const_pose
    core, jm, ct = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.controllers")
    w = core.World()
    bs = [core.Body(mass=const_mass(E, i), viscosity=E.array([[(i + 2.) * (r == c) for c in range(6)] for r in range(6)])) for i in range(3)]
    v, g = E.vec("v", 3), E.real("g", -1000, 1000)
    dt = [0.125, 2.][E.choice("dt", 2)]
    js = [jm.RzJoint(gvel=v[0:1]), jm.TxJoint(gpos=[0.5], gvel=v[1:2]), jm.RyJoint(gvel=v[2:3])]
    order = E.choice("order", 2)

    def upper():
        w.add_link(bs[0], js[1], core.SubFrame(bs[1], const_pose(E, 1)))

    def side():
        w.add_link(core.SubFrame(w.ground, const_pose(E, 2)), js[2], bs[2])
    w.add_link(w.ground, js[0], bs[0])
    for f in (upper, side) if order else (side, upper):
        f()
    w.init()
    w.register(ct.WeightController(gravity=g))
    kp, kd, des = E.vec("kp", 3, 0, 100), E.vec("kd", 3, 0, 100), E.vec("des", 3)
    pair = [2, 1] if order else [1, 2]
    diag = lambda x: E.array([[x[0], 0], [0, x[1]]])
    w.register(ct.ProportionalDerivativeController([js[k] for k in pair], gpos_des=E.array([des[k] for k in pair]),
                                                   kp=diag([kp[k] for k in pair]), kd=diag([kd[k] for k in pair])))
    w.register(ct.ProportionalDerivativeController([js[0]], gpos_des=E.array([des[0]]), kp=E.array([[kp[0]]]), kd=E.array([[kd[0]]])))
    w.init()
    w.update_dynamic()
    n = 3
    q0 = [0, 0.5, 0]
    at = [j.dof.start for j in js]
    M, B, N, F = E.arr((n, n)), E.arr((n, n)), E.arr((n, n)), E.arr(n)
    for b in bs:
        J = b.jacobian
        M = M + E.dot(J.T, b.mass, J)
        B = B + E.dot(J.T, b.viscosity, J)
        N = N + E.dot(J.T, E.dot(b.mass, b.djacobian) + E.dot(b.nleffects, J))
        F = F + E.dot(J.T, wrench_of_weight(E, b, g, w.up))
    gv = E.arr(n)
    for k in range(n):
        gv[at[k]] = v[k]
    w.update_controllers(dt)
    w.update_constraints(dt)
    w.integrate(dt)
    v1 = w.gvel
    left = E.dot(M / dt + B + N, v1)
    right = E.dot(M, gv) / dt + F
    for k in range(n):
        # the springs pull from where the step ends
        left[at[k]] = left[at[k]] + kd[k] * v1[at[k]] + kp[k] * dt * v1[at[k]]
        right[at[k]] = right[at[k]] + kp[k] * (des[k] - q0[k])
    E.equal("equation of motion", left, right)
    for k in range(n):
        E.equal("positions use the new velocity", js[k].gpos[0], q0[k] + dt * v1[at[k]])
        E.equal("joints hold the new velocity", js[k].gvel[0], v1[at[k]])
