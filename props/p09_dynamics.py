"""P09 Equations of motion: generalized mass, viscosity and nonlinear effects."""
from engine.harness import obligation
from ._common import CORE, JOINTS, const_pose, const_mass, big_mechanism
from .p07_tree import chain


def stub_tree(E, n, nb):
    """A world of nb bodies whose jacobians etc. are arbitrary (6 x n)."""
    core = E.mod(CORE)
    from ._common import stub_joint

    class StubBody(core.Body):
        jacobian = property(lambda s: s.S[0])
        djacobian = property(lambda s: s.S[1])
        nleffects = property(lambda s: s.S[2])

        def update_dynamic(self, *a):
            for j in self.childrenjoints:
                j.frame1.body.update_dynamic(*a)
    w = core.World()
    last = w.ground
    w.ground.update_dynamic = lambda *a: None
    bodies = []
    for i in range(nb):
        b = StubBody("b%d" % i)
        k = n if i == 0 else 0
        j = stub_joint(E, k, E.eye(4), E.arr(6), E.arr((6, k)), E.arr((6, k)))
        w.add_link(last, j, b)
        b.S = (E.mat("J%d" % i, 6, n), E.mat("dJ%d" % i, 6, n), E.mat("N%d" % i, 6, 6))
        b.mass = E.symm("M%d" % i, 6)
        b.viscosity = E.mat("V%d" % i, 6, 6)
        bodies.append(b)
        if i != 0:
            last = w.ground
        else:
            last = b
    w.init()
    return w, bodies


@obligation("P09", "assembly", "2 dof, 3 bodies in a tree, any 6x2 jacobians and derivatives, any "
            "symmetric mass, any viscosity and body nonlinear effects; two successive updates")
def assembly(E):
    w, bodies = stub_tree(E, 2, 3)
    M = B = N = 0
    for b in bodies:
        J, dJ, n = b.S
        M = M + E.dot(J.T, b.mass, J)
        B = B + E.dot(J.T, b.viscosity, J)
        N = N + E.dot(J.T, E.dot(b.mass, dJ) + E.dot(n, J))
    for k in range(2):
        w.update_dynamic()
        E.equal("mass", w.mass, M)
        E.equal("mass is symmetric", w.mass, w.mass.T)
        E.equal("viscosity", w.viscosity, B)
        E.equal("nonlinear effects", w.nleffects, N)


@obligation("P09", "mass_positive", "2 dof, one body, any jacobian and velocity, any valid mass "
            "matrix (m>0, inertia dominant)")
def positive(E):
    core = E.mod(CORE)
    from ._common import stub_joint
    w, bodies = stub_tree(E, 2, 1)
    M, m, c, I = E.massmatrix("M")
    bodies[0].mass = M
    w.update_dynamic()
    v = E.vec("v", 2)
    T = E.dot(bodies[0].S[0], v)
    e = E.dot(v, w.mass, v)
    om, vel = T[0:3], T[3:6]
    vc = vel + E.dot(E.hat(om), c)
    E.equal("kinetic energy of the mass matrix", e, m * E.dot(vc, vc) + E.dot(om, I, om))


@obligation("P09", "newton_euler", "any twist with |x_i|<=1000, any valid mass matrix at any point; "
            "also a massless body")
def newton(E):
    core = E.mod(CORE)
    b = core.Body()
    if E.choice("massless", 2) == 0:
        M, m, c, I = E.massmatrix("M")
    else:
        M = E.arr((6, 6))
        for i in range(3):
            M[i, i] = E.real("I%d" % i, 0, 5)
    b.mass = M
    T = E.vec("T", 6)
    b.update_dynamic(E.eye(4), E.arr((6, 0)), E.arr((6, 0)), T)
    E.equal("gyroscopic wrench", E.dot(b.nleffects, T), -E.dot(E.ad(T).T, M, T))
    # no power: the nonlinear effects do no work along the motion
    E.equal("does no work", E.dot(T, b.nleffects, T), 0)


@obligation("P09", "light_bodies", "any body scaled down by any factor from 1 to 2^-26 (the code takes anything under 1e-10 for massless)")
def light(E):
    core = E.mod(CORE)
    M, m, c, I = E.massmatrix("M")
    E.assume(E.GE(m, 0.1))
    T = E.vec("T", 6)
    s = E.real("scale", 2. ** -26, 1)
    b = core.Body()
    b.mass = E.array(M) * s
    b.update_dynamic(E.eye(4), E.arr((6, 0)), E.arr((6, 0)), T)
    E.equal("gyroscopic wrench in proportion to the mass", E.dot(b.nleffects, T) / s, -E.dot(E.ad(T).T, M, T))


def lagrange(E, kinds, nb):
    """N v = d/dt(dK/dv) - dK/dq - M v', from the kinetic energy alone."""
    w, js, gs, vs, bodies, tip = chain(E, kinds)
    for i, b in enumerate(bodies):
        b.mass = const_mass(E, i)
    w.update_dynamic()
    n = w.ndof
    v = w.gvel
    M0 = E.array(w.mass)
    Nv = E.dot(w.nleffects, v)

    def set_q(xs):
        for j, x in zip(js, xs):
            j.gpos = E.array(x)

    def massq(*xs):
        set_q(xs)
        w.update_dynamic()
        return E.array(w.mass)
    dM = E.deriv(massq, gs, vs)
    grad = E.arr(n)
    k = 0
    for i, g in enumerate(gs):
        for l in range(len(g)):
            e = [E.arr(len(x)) for x in gs]
            e[i][l] = 1
            grad[k] = E.dot(v, E.deriv(massq, gs, e), v)
            k += 1
    set_q(gs)
    E.equal("mass symmetric", M0, M0.T)
    E.equal("Lagrange's equations", Nv, E.dot(dM, v) - grad / 2)
    E.equal("energy balance", 2 * E.dot(v, Nv), E.dot(v, dM, v))


for _k in [("RzJoint", "RyJoint"), ("RzRxJoint",), ("TxJoint", "RzJoint"), ("RzRyJoint",),
           ("RyRxJoint",)]:
    obligation("P09", "lagrange_" + "_".join(x.replace("Joint", "") for x in _k),
               "this chain, generic constant frames and masses, any positions, |rates|<=1000", budget=200)(
        lambda E, _k=_k: lagrange(E, _k, 2))
for _k in [("RzRyRxJoint",), ("RxJoint", "RyJoint", "TzJoint"), ("RzJoint", "RyJoint", "RxJoint"),
           ("RzRyJoint", "RxJoint")]:
    obligation("P09", "lagrange_" + "_".join(x.replace("Joint", "") for x in _k), 
               "this chain, generic constant frames and masses, any positions, |rates|<=1000",
               budget=300)(lambda E, _k=_k: lagrange(E, _k, 2))


@obligation("P09", "free_body", "one rigid body on a free joint, any pose and twist, any valid mass matrix")
def free(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    H, T = E.pose("H"), E.vec("T", 6)
    w = core.World()
    b = core.Body()
    M, m, c, I = E.massmatrix("M")
    b.mass = M
    w.add_link(w.ground, jm.FreeJoint(gpos=H, gvel=T), b)
    w.init()
    w.update_dynamic()
    E.equal("mass", w.mass, M)
    E.equal("Newton-Euler", E.dot(w.nleffects, T), -E.dot(E.ad(T).T, M, T))
    E.equal("pose", b.pose, H)
    E.equal("twist", b.twist, T)


@obligation("P09", "viscosity_of_massless_bodies", "ground -Rz- massless -TxTyTz- body; any viscosities and velocities, generic "
            "constant frames; masses and viscosities changed in between")
def massless(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    a, b = core.Body(), core.Body()
    j, l = jm.RzJoint(), jm.TxTyTzJoint()
    w.add_link(core.SubFrame(w.ground, const_pose(E, 1)), j, core.SubFrame(a, const_pose(E, 2)))
    w.add_link(core.SubFrame(a, const_pose(E, 3)), l, b)
    j.gpos, l.gpos = E.array([E.angle("q")]), E.vec("p", 3)
    j.gvel, l.gvel = E.vec("u", 1), E.vec("v", 3)
    w.init()
    for k in range(3):
        # which of the bodies have a mass, which a viscosity
        for i, x in enumerate((a, b)):
            x.mass = const_mass(E, i) if (E.choice("m%d%d" % (k, i), 2) if k < 1 else (k + i) % 2) else E.arr((6, 6))
            x.viscosity = E.mat("B%d%d" % (k, i), 6, 6)
        w.update_dynamic()
        M = B = 0
        for x in (a, b):
            M = M + E.dot(x.jacobian.T, x.mass, x.jacobian)
            B = B + E.dot(x.jacobian.T, x.viscosity, x.jacobian)
        E.equal("mass", w.mass, M)
        E.equal("viscosity", w.viscosity, B)


@obligation("P09", "large_tree", "12 bodies in a chain, a star, a binary tree, a comb or two long branches, joints of every class between "
            "constant frames, one of them at any angle; constant masses and viscosities, any values (up to 8) of some of the rates", budget=300)
def large_tree(E):
    from .p21_model import large
    w, bodies, js, ref = big_mechanism(E, large(E, 12), [0, 6][E.choice("bent", 2)])
    n = w.ndof
    M, B, N = E.arr((n, n)), E.arr((n, n)), E.arr((n, n))
    for b, (P, J, dJ, T) in list(zip(bodies, ref))[1:]:
        M = M + E.dot(J.T, b.mass, J)
        B = B + E.dot(J.T, b.viscosity, J)
        N = N + E.dot(J.T, b.mass, dJ)
    for rep in range(2):
        w.update_dynamic()
        E.equal("mass %d" % rep, w.mass, M)
        E.equal("viscosity %d" % rep, w.viscosity, B)
        v = w.gvel
        G = E.dot(N, v)
        for b, (P, J, dJ, T) in list(zip(bodies, ref))[1:]:
            G = G - E.dot(J.T, E.ad(T).T, b.mass, T)
        E.equal("nonlinear forces %d" % rep, E.dot(w.nleffects, v), G)
