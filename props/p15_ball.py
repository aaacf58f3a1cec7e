"""P15 Ball-and-socket constraint."""
from engine.harness import obligation
from ._common import CORE, JOINTS, const_pose, const_mass

CN = "arboris.constraints"


def stub_frame(E, name, n):
    Frame = E.mod(CORE).Frame

    class F(Frame):
        pose = jacobian = djacobian = twist = body = bpose = None
    f = F()
    f.pose, f.jacobian = E.pose(name + ".H"), E.mat(name + ".J", 6, n)
    return f


@obligation("P15", "jacobian", "any two frame poses and 6x2 jacobians")
def jacobian(E):
    f0, f1 = stub_frame(E, "f0", 2), stub_frame(E, "f1", 2)
    c = E.mod(CN).BallAndSocketConstraint((f0, f1))
    c.init(None)
    E.true("dimension", c.ndol == 3)
    E.true("always active", c.is_active())
    H0, H1 = f0.pose, f1.pose
    v = E.vec("v", 2)
    T0, T1 = E.dot(f0.jacobian, v), E.dot(f1.jacobian, v)
    # velocity relative to body 0 of the point of body 1 that is at the origin of frame 0
    d = E.dot(H1[0:3, 0:3].T, H0[0:3, 3] - H1[0:3, 3])
    va = E.dot(H1[0:3, 0:3], T1[3:6] + E.dot(E.hat(T1[0:3]), d))
    v0 = E.dot(H0[0:3, 0:3], T0[3:6])
    E.equal("relative velocity at the socket", E.dot(c.jacobian, v), E.dot(H0[0:3, 0:3].T, va - v0))
    f = E.vec("f", 3)
    c._force = E.array(f)
    E.equal("generalized force", c.gforce, E.dot(c.jacobian.T, f))


@obligation("P15", "gap_rate", "frames with coincident origins, any orientations, twists |x|<=1000")
def gap_rate(E):
    f0, f1 = stub_frame(E, "f0", 1), stub_frame(E, "f1", 1)
    f1.pose[0:3, 3] = f0.pose[0:3, 3]
    c = E.mod(CN).BallAndSocketConstraint((f0, f1))
    H0, H1 = f0.pose, f1.pose
    T0, T1 = f0.jacobian[:, 0], f1.jacobian[:, 0]
    # d/dt of the position of frame 1 in frame 0
    dp = E.dot(H0[0:3, 0:3].T, E.dot(H1[0:3, 0:3], T1[3:6]) - E.dot(H0[0:3, 0:3], T0[3:6]))
    E.equal("rate of the relative position", c.jacobian[:, 0], dp)


def solved(E, Y):
    f0, f1 = stub_frame(E, "f0", 1), stub_frame(E, "f1", 1)
    c = E.mod(CN).BallAndSocketConstraint((f0, f1))
    c.init(None)
    dt = E.real("dt", 0.001, 1)
    c.update(dt)
    E.equal("no force at first", c._force, E.arr(3))
    H0, H1 = f0.pose, f1.pose
    p = E.dot(H0[0:3, 0:3].T, H1[0:3, 3] - H0[0:3, 3])
    total = E.arr(3)
    for k in range(2):
        vel = E.vec("vel%d" % k, 3)
        keep = E.array(vel)
        df = c.solve(vel, Y, dt)
        after = keep + E.dot(Y, df)
        E.equal("centres meet at the end of the step %d" % k, p + dt * after, E.arr(3))
        total = total + df
        E.equal("forces accumulate %d" % k, c._force, total)
    df = c.solve(after, Y, dt)
    E.equal("nothing left to correct", df, E.arr(3))


@obligation("P15", "solve", "any frame poses; any symmetric positive definite 3x3 admittance (Y = L D L^T, "
            "0.1<=D<=5); any velocities; two corrections; 0.001<=dt<=1")
def solve(E):
    L = E.eye(3)
    for i, j in ((1, 0), (2, 0), (2, 1)):
        L[i, j] = E.real("L%d%d" % (i, j), -2, 2)
    D = E.arr((3, 3))
    for i in range(3):
        D[i, i] = E.real("D%d" % i, 0.1, 5)
    solved(E, E.dot(L, D, L.T))


@obligation("P15", "hard_and_soft", "constant admittances whose directions differ by factors up to 2^24; any gap, velocities; "
            "two corrections; 0.001<=dt<=1")
def contrasted(E):
    k = E.choice("which", 3)
    Y = E.array([[[1, 0, 0], [0, 2.0 ** -24, 0], [0, 0, 1]],
                 [[2.0 ** 12, 0.5, 0], [0.5, 1, 0], [0, 0, 2.0 ** -10]],
                 [[2.0 ** -20, 0, 0], [0, 2, 1], [0, 1, 2]]][k])
    solved(E, Y)


@obligation("P15", "closed_loop", "a pendulum whose tip is tied to the ground, any angular velocity and "
            "angles on the loop closure; 0.001<=dt<=1", allow_divzero=True)
def closed(E):
    """Three prismatic joints carrying a body tied to a ground point: one full step."""
    core, jm, cn = E.mod(CORE), E.mod(JOINTS), E.mod(CN)
    w = core.World()
    b = core.Body(mass=const_mass(E, 0))
    q, v = E.vec("q", 3), E.vec("v", 3)
    j = jm.TxTyTzJoint(gpos=q, gvel=v)
    w.add_link(w.ground, j, b)
    f0 = core.SubFrame(w.ground, const_pose(E, 1))
    f1 = core.SubFrame(b, const_pose(E, 2))
    c = cn.BallAndSocketConstraint((f0, f1))
    w.register(f0)
    w.register(f1)
    w.register(c)
    w.init()
    dt = E.real("dt", 0.001, 1)
    w.update_dynamic()
    w.update_controllers(dt)
    w.update_constraints(dt)
    w.integrate(dt)
    w.update_geometric()
    E.equal("the two points coincide after the step", f1.pose[0:3, 3], f0.pose[0:3, 3])


@obligation("P15", "few_mobilities", "a mechanism with one or two mobilities at the socket (constant admittances of rank 1 or "
            "2), any gap and velocities it can have; two corrections; 0.001<=dt<=1")
def few(E):
    B = E.array([[[1], [0], [2]], [[1, 0], [0, 1], [0, 0]], [[1, 1], [0, 2], [-1, 0.5]]][E.choice("rank", 3)])
    Y = E.dot(B, B.T)
    n = B.shape[1]
    core = E.mod(CORE)
    g = E.dot(B, E.vec("g", n))
    f0, f1 = stub_frame(E, "f0", 1), stub_frame(E, "f1", 1)
    f1.pose[0:3, 3] = f0.pose[0:3, 3] + E.dot(f0.pose[0:3, 0:3], g)
    c = E.mod(CN).BallAndSocketConstraint((f0, f1))
    c.init(None)
    dt = E.real("dt", 0.001, 1)
    c.update(dt)
    total = E.arr(3)
    for k in range(2):
        vel = E.dot(B, E.vec("vel%d" % k, n))
        df = c.solve(E.array(vel), E.array(Y), dt)
        total = total + df
        E.equal("centres meet at the end of the step %d" % k, g + dt * (vel + E.dot(Y, df)), E.arr(3))
        E.equal("forces accumulate %d" % k, c._force, total)
