"""Shared harness pieces (independent of /repo's algorithms)."""

CORE = "arboris.core"
JOINTS = "arboris.joints"
HG = "arboris.homogeneousmatrix"


def stub_joint(E, k, pose, twist, jac, djac, name=None):
    """A joint with arbitrary kinematics, through the public Joint interface."""
    Joint = E.mod(CORE).Joint

    class StubJoint(Joint):
        ndof = property(lambda s: k)
        pose = property(lambda s: E.array(s.P))
        twist = property(lambda s: E.array(s.T))
        jacobian = property(lambda s: E.array(s.J).reshape((6, k)))
        djacobian = property(lambda s: E.array(s.dJ).reshape((6, k)))

        def integrate(self, gvel, dt):
            self.called = (E.array(gvel), dt)
    j = StubJoint(name)
    j.P, j.T, j.J, j.dJ = pose, twist, jac, djac
    j.gvel = E.arr(k)
    return j


def sym_joint(E, name, k):
    """StubJoint whose pose, twist, jacobian and djacobian are all arbitrary."""
    return stub_joint(E, k, E.pose(name + ".H"), E.vec(name + ".T", 6),
                      E.mat(name + ".J", 6, k), E.mat(name + ".dJ", 6, k))


def const_pose(E, n):
    """A few rational generic poses (used where a symbolic one is out of reach)."""
    qs = [(2, 1, 0, 0), (1, 2, 2, 0), (2, 1, 0, 2), (1, 1, 1, 1), (0, 1, 2, 2), (3, 0, 4, 0)]
    w, x, y, z = qs[n % len(qs)]
    m = w * w + x * x + y * y + z * z
    R = [[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)],
         [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)],
         [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]]
    H = E.eye(4)
    from fractions import Fraction
    for i in range(3):
        for j in range(3):
            H[i, j] = Fraction(R[i][j], m) if E.symbolic else R[i][j] / float(m)
        H[i, 3] = Fraction((i * 3 + n * 5) % 7 - 3, 4)
    return H


def const_mass(E, n):
    """A generic constant valid mass matrix with an offset centre of mass."""
    m = 2 + n
    c = E.array([0.5, -0.25 * (n + 1), 0.75])
    J = E.array([[3, .5, -.25], [.5, 4, .75], [-.25, .75, 5]])
    rx = E.hat(c)
    M = E.arr((6, 6))
    M[0:3, 0:3] = J - m * E.dot(rx, rx)
    M[0:3, 3:6] = m * rx
    M[3:6, 0:3] = -m * rx
    for i in range(3):
        M[3 + i, 3 + i] = m
    return M


KINDS = ["RzJoint", "TxTyTzJoint", "RyRxJoint", "FixedJoint", "TxJoint", "RzRyRxJoint", "RyJoint", "FreeJoint"]


def square_pose(E, n):
    """Generic offsets and square turns: exact in floating point, however many are composed."""
    w, x, y, z = [(1, 1, 1, 1), (1, 1, 0, 0), (0, 0, 1, 1), (1, 0, 1, 0), (1, -1, 1, 1), (1, 0, 0, 1), (0, 1, 1, 0)][n % 7]
    m = w * w + x * x + y * y + z * z
    H = E.eye(4)
    H[0:3, 0:3] = [[(w*w+x*x-y*y-z*z) / m, 2*(x*y-w*z) / m, 2*(x*z+w*y) / m],
                   [2*(x*y+w*z) / m, (w*w-x*x+y*y-z*z) / m, 2*(y*z-w*x) / m],
                   [2*(x*z-w*y) / m, 2*(y*z+w*x) / m, (w*w-x*x-y*y+z*z) / m]]
    for i in range(3):
        H[i, 3] = ((i * 3 + n * 5) % 7 - 3) / 4
    return H


def big_mechanism(E, parents, bent, twisted=True):
    """One body per entry of parents (0: the ground), through joints of every class between constant frames; joint `bent` (an Rz or
    Ry) at any angle, the others at rest or (free ones) at constant poses; one rate in three is any number. Returns the world, its
    bodies and joints and, by the plain composition of motions, the pose, jacobian, its derivative and twist of every body."""
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    bodies, js, links = [w.ground], [], []
    count = 0
    for i, p in enumerate(parents):
        kind = KINDS[i % len(KINDS)] if i != bent else ["RzJoint", "RyJoint"][i % 2]
        j = getattr(jm, kind)()
        if kind == "FreeJoint":
            j.gpos[:] = square_pose(E, i)
        elif i == bent:
            j.gpos[0] = E.angle("bent")
        for k in range(j.ndof):
            count += 1
            j.gvel[k] = E.real("v%d" % count, -8, 8) if twisted and count % 5 == 2 else (count * 3 % 7 - 3) / 4.
        b = core.Body("b%d" % (i + 1))
        b.mass = const_mass(E, [0, 2, 6][i % 3])
        b.viscosity = E.eye(6) * (i % 3) / 4
        f0 = core.SubFrame(bodies[p], square_pose(E, i)) if i % 3 else bodies[p]
        f1 = core.MovingSubFrame(b, square_pose(E, i + 2)) if i % 2 else b
        w.add_link(f0, j, f1)
        bodies.append(b)
        js.append(j)
        links.append((p, square_pose(E, i) if i % 3 else E.eye(4), square_pose(E, i + 2) if i % 2 else E.eye(4)))
    w.init()
    n = w.ndof
    ref = [(E.eye(4), E.arr((6, n)), E.arr((6, n)), E.arr(6))]
    for j, (p, a, c) in zip(js, links):
        P, J, dJ, T = ref[p]
        H = E.dot(a, j.pose, E.inv4(c))
        A, Ac = E.Ad(E.inv4(H)), E.Ad(c)
        t = E.dot(Ac, j.twist)
        Jc, dJc = E.dot(A, J), E.dot(A, dJ) - E.dot(E.ad(t), A, J)
        if j.ndof:
            Jc[:, j.dof] = Jc[:, j.dof] + E.dot(Ac, j.jacobian)
            dJc[:, j.dof] = dJc[:, j.dof] + E.dot(Ac, j.djacobian)
        ref.append((E.dot(P, H), Jc, dJc, E.dot(A, T) + t))
    return w, bodies, js, ref
