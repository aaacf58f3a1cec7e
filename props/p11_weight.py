"""P11 Weight."""
from engine.harness import obligation
from ._common import CORE, JOINTS, const_pose, const_mass, big_mechanism
from .p07_tree import chain


def weighted_world(E, nb, n):
    core = E.mod(CORE)
    from ._common import stub_joint

    class StubBody(core.Body):
        pose = property(lambda s: s.S[0])
        jacobian = property(lambda s: s.S[1])
    w = core.World()
    up = E.unit("up")
    w.up[:] = up
    last = w.ground
    bodies = []
    for i in range(nb):
        b = StubBody("b%d" % i)
        k = n if i == 0 else 0
        w.add_link(last, stub_joint(E, k, E.eye(4), E.arr(6), E.arr((6, k)), E.arr((6, k))), b)
        b.S = (E.pose("H%d" % i), E.mat("J%d" % i, 6, n))
        bodies.append(b)
        last = b if i % 2 == 0 else w.ground
    return w, bodies


def virtual_power(E, b, m, c, up, g, v):
    """Power of a force m*g*up applied at the centre of mass."""
    H, J = b.S
    T = E.dot(J, v)
    vc = E.dot(H[0:3, 0:3], T[3:6] + E.dot(E.hat(T[0:3]), c))
    return m * g * E.dot(up, vc)


@obligation("P11", "any_body", "one body with any mass > 0, centre of mass (|c|<=1000) and inertia, any pose, any "
            "6x1 jacobian, any up direction, |gravity|<=1000", budget=200, max_paths=2000)
def one(E):
    w, (b,) = weighted_world(E, 1, 1)
    M, m, c, I = E.massmatrix("M")
    b.mass = M
    g = E.real("g", -20, 20)
    ctl = E.mod("arboris.controllers").WeightController(g)
    w.register(ctl)
    w.init()
    gf, Z = ctl.update(E.real("dt", 0.001, 1))
    v = E.vec("v", 1)
    E.equal("generalized force", E.dot(gf, v), virtual_power(E, b, m, c, w.up, g, v))
    E.equal("no impedance", Z, E.arr((1, 1)))


@obligation("P11", "light_body", "a body of mass 2^-27 to 2^-20 with its inertia, any pose, 6x1 jacobian, up, |gravity|<=20")
def light(E):
    w, (b,) = weighted_world(E, 1, 1)
    u = 2.0 ** -20
    m = E.real("m", 2.0 ** -7, 1)
    b.mass = E.eye(6) * m * u
    g = E.real("g", -20, 20)
    ctl = E.mod("arboris.controllers").WeightController(g)
    w.register(ctl)
    w.init()
    gf, Z = ctl.update(0.125)
    v = E.vec("v", 1)
    E.equal("generalized force", E.dot(gf, v) / u, virtual_power(E, b, m, E.arr(3), w.up, g, v))


@obligation("P11", "several_bodies", "3 bodies: com offset mass, point mass, massless; 2 dof, any poses and "
            "jacobians, any up direction, |gravity|<=1000; two updates")
def several(E):
    w, bs = weighted_world(E, 3, 2)
    m0 = const_mass(E, 0)
    bs[0].mass = m0
    m = E.real("m", 0.1, 10)
    M = E.arr((6, 6))
    for i in range(3):
        M[3 + i, 3 + i] = m
    bs[1].mass = M
    g = E.real("g", -20, 20)
    ctl = E.mod("arboris.controllers").WeightController(g)
    w.register(ctl)
    w.init()
    v = E.vec("v", 2)
    zero = E.arr(3)
    c0 = E.array([m0[2, 4], m0[0, 5], m0[1, 3]]) / m0[5, 5]
    for k in range(2):
        gf, Z = ctl.update(E.real("dt%d" % k, 0.001, 1))
        E.equal("generalized force %d" % k, E.dot(gf, v),
                virtual_power(E, bs[0], m0[5, 5], c0, w.up, g, v)
                + virtual_power(E, bs[1], m, zero, w.up, g, v))
        E.equal("no impedance %d" % k, Z, E.arr((2, 2)))


@obligation("P11", "initialized_again", "one body, any poses and jacobian, any up direction and gravity, both changed before "
            "a second initialization; the mass changed too")
def again(E):
    w, (b,) = weighted_world(E, 1, 1)
    b.mass = const_mass(E, 0)
    ctl = E.mod("arboris.controllers").WeightController(E.real("g0", -20, 20))
    w.register(ctl)
    w.init()
    ctl.update(0.25)
    g = E.real("g", -20, 20)
    up = E.unit("up2")
    w.up[:] = up
    ctl.gravity = g
    b.mass = M = const_mass(E, 1)
    w.init()
    gf, Z = ctl.update(0.25)
    v = E.vec("v", 1)
    c = E.array([M[2, 4], M[0, 5], M[1, 3]]) / M[5, 5]
    E.equal("generalized force", E.dot(gf, v), virtual_power(E, b, M[5, 5], c, up, g, v))


def potential(E, kinds):
    """gforce = - dV/dq on real worlds."""
    w, js, gs, vs, bodies, tip = chain(E, kinds)
    masses = []
    for i, b in enumerate(bodies):
        b.mass = const_mass(E, i)
        masses.append((b.mass[5, 5], E.array([b.mass[2, 4], b.mass[0, 5], b.mass[1, 3]]) / b.mass[5, 5]))
    g = E.real("g", -20, 20)
    ctl = E.mod("arboris.controllers").WeightController(g)
    w.register(ctl)
    w.init()
    w.update_dynamic()
    gf, Z = ctl.update(0.01)
    up = E.array(w.up)
    act = [i for i, j in enumerate(js) if j.ndof]

    def work(*xs):
        for i, x in zip(act, xs):
            js[i].gpos = E.array(x)
        w.update_geometric()
        V = 0
        for b, (m, c) in zip(bodies, masses):
            V = V + m * g * E.dot(up, b.pose[0:3, 3] + E.dot(b.pose[0:3, 0:3], c))
        r = E.arr(1)
        r[0] = V
        return r
    dV = E.deriv(work, [gs[i] for i in act], [vs[i] for i in act])
    E.equal("power equals the rate of the potential", E.dot(gf, w.gvel), dV[0])


for _k in [("RzJoint", "RyJoint", "RxJoint"), ("RzRyRxJoint", "TxTyTzJoint"), ("FreeJoint", "RzRxJoint"),
           ("TxJoint", "FixedJoint", "RyJoint")]:
    obligation("P11", "potential_" + "_".join(x.replace("Joint", "") for x in _k),
               "this chain, generic constant frames and masses, any positions, |rates|<=1000, |gravity|<=1000")(
        lambda E, _k=_k: potential(E, _k))


@obligation("P11", "default_gravity", "the default controller")
def default(E):
    ctl = E.mod("arboris.controllers").WeightController()
    E.equal("gravity", ctl.gravity, -9.81)
    E.equal("up", E.mod(CORE).World().up, E.array([0, 1, 0]))


@obligation("P11", "large_tree", "12 bodies of constant masses in a chain, a star, a binary tree, a comb or two long branches, joints of "
            "every class between constant frames, one of them at any angle; any gravity and up direction", budget=200)
def large_tree(E):
    from .p21_model import large
    w, bodies, js, ref = big_mechanism(E, large(E, 12), [0, 6][E.choice("bent", 2)], False)
    up, g = E.unit("up"), E.real("g", -20, 20)
    w.up[:] = up
    ctl = E.mod("arboris.controllers").WeightController(g)
    w.register(ctl)
    w.init()
    w.update_dynamic()
    want = E.arr(w.ndof)
    for b, (P, J, dJ, T) in list(zip(bodies, ref))[1:]:
        M = b.mass
        c = E.array([M[2, 4], M[0, 5], M[1, 3]]) / M[5, 5]
        want = want + M[5, 5] * g * E.dot(up, P[0:3, 0:3], J[3:6] - E.dot(E.hat(c), J[0:3]))
    for rep in range(2):
        gf, Z = ctl.update(0.25)
        E.equal("weight of every body", gf, want)
        E.equal("no impedance", Z, E.arr((w.ndof, w.ndof)))
