"""P19 Collision geometry."""
from engine.harness import obligation
from ._common import CORE, HG

CO = "arboris.collisions"


def shapes_on(E, make0, make1, body0=True):
    """Two shapes on two bodies placed anywhere."""
    core, sh = E.mod(CORE), E.mod("arboris.shapes")
    out, poses = [], []
    for i, mk in enumerate((make0, make1)):
        b = core.Body("b%d" % i)
        b.update_geometric(E.pose("H%d" % i))
        poses.append(E.array(b.pose))
        out.append(mk(sh, b))
    return out, poses


def aligned_contract(E):
    """zaligned (decided in P02): any frame whose z axis is the given direction."""
    if not E.symbolic:
        return
    E.havoc = True
    seen = []

    def zaligned(vec):
        for v, H in seen:
            if all(E.same(a, b) for a, b in zip(v, vec)):
                return H.copy()         # the same direction, the same frame
        H = E.eye(4)
        for i in range(3):
            for j in range(2):
                H[i, j] = E.real("axes%d_%d%d" % (len(seen) + 1, i, j), -1, 1)
            H[i, 2] = vec[i]
        seen.append((list(vec), H))
        return H.copy()
    E.patch(HG, "zaligned", zaligned)


def frames(E, sd, H0, H1, contract=False):
    """H1 is H0 moved by the signed distance along its z axis."""
    R = H0[0:3, 0:3]
    if not (contract and E.symbolic):
        E.equal("orthonormal", E.dot(R.T, R), E.eye(3))
        E.equal("right handed", E.dot(E.hat(R[:, 0]), R[:, 1]), R[:, 2])
    E.equal("last row", H0[3, :], E.array([0, 0, 0, 1]))
    E.equal("same orientation", H1[0:3, 0:3], R)
    E.equal("separated by the signed distance along the normal",
            H1[0:3, 3], H0[0:3, 3] + sd * R[:, 2])


def dot(E, a, b):
    return sum(x * y for x, y in zip(a, b))


def sphere_sphere(E, point):
    core, sh, co = E.mod(CORE), E.mod("arboris.shapes"), E.mod(CO)
    r0 = E.real("r0", 0, 3)
    r1 = 0 if point else E.real("r1", 0, 3)
    s, P = shapes_on(E, lambda m, b: m.Sphere(b, r0),
                     lambda m, b: m.Point(b) if point else m.Sphere(b, r1))
    u, d = E.unit("u"), E.real("d", 2 ** -20, 1000)
    P[1] = E.array(P[1])
    P[1][0:3, 3] = P[0][0:3, 3] + d * u
    s[1].frame.update_geometric(E.array(P[1]))
    f = co.sphere_point_collision if point else co.sphere_sphere_collision
    sd, H0, H1 = f(tuple(s))
    E.equal("signed distance", sd, d - r0 - r1)
    frames(E, sd, H0, H1)
    E.equal("normal from the first centre to the second", H0[0:3, 2], u)
    E.equal("on the first surface", H0[0:3, 3], P[0][0:3, 3] + r0 * u)


SP = "any centres at a distance 2^-20..1000 in any direction, radii 0..3"
obligation("P19", "sphere_sphere", SP, budget=200)(lambda E: sphere_sphere(E, False))
obligation("P19", "sphere_point", SP, budget=200)(lambda E: sphere_sphere(E, True))


@obligation("P19", "concentric", "spheres (or a sphere and a point) whose centres coincide, anywhere; radii 0..3")
def concentric(E):
    co = E.mod(CO)
    point = E.choice("point", 2)
    r0 = E.real("r0", 0, 3)
    r1 = 0 if point else E.real("r1", 0, 3)
    s, P = shapes_on(E, lambda m, b: m.Sphere(b, r0),
                     lambda m, b: m.Point(b) if point else m.Sphere(b, r1))
    P[1] = E.array(P[1])
    P[1][0:3, 3] = P[0][0:3, 3]
    s[1].frame.update_geometric(E.array(P[1]))
    f = co.sphere_point_collision if point else co.sphere_sphere_collision
    sd, H0, H1 = f(tuple(s))
    E.equal("signed distance", sd, -r0 - r1)
    frames(E, sd, H0, H1)
    E.equal("on the first surface", H0[0:3, 3], P[0][0:3, 3] + r0 * H0[0:3, 2])
    E.equal("on the second surface", H1[0:3, 3], P[0][0:3, 3] - r1 * H0[0:3, 2])


def plane_sphere(E, point, rotated):
    co = E.mod(CO)
    if rotated:
        aligned_contract(E)
    r = 0 if point else E.real("r", 0, 3)
    n, k = E.unit("n"), E.real("k", -3, 3)
    s, P = shapes_on(E, lambda m, b: m.Plane(b),
                     lambda m, b: m.Point(b) if point else m.Sphere(b, r))
    if not rotated:
        P[0] = E.eye(4)
        s[0].frame.update_geometric(E.eye(4))
    s[0].coeffs = E.array([n[0], n[1], n[2], k])
    f = co.plane_point_collision if point else co.plane_sphere_collision
    sd, H0, H1 = f(tuple(s))
    R, p = P[0][0:3, 0:3], P[0][0:3, 3]
    c = P[1][0:3, 3]
    normal = E.dot(R, n)
    height = dot(E, n, E.dot(R.T, c - p)) - k
    E.equal("signed distance", sd, height - r)
    frames(E, sd, H0, H1, rotated)
    E.equal("the plane's normal", H0[0:3, 2], normal)
    E.equal("foot of the perpendicular on the plane", H0[0:3, 3], c - height * normal)
    E.equal("deepest point of the sphere", H1[0:3, 3], c - r * normal)


PL = "any plane (unit normal, offset |k|<=1000) on %s, centre anywhere, radius up to 1000"
obligation("P19", "plane_sphere", PL % "any frame", budget=300)(
    lambda E: plane_sphere(E, False, True))
obligation("P19", "plane_point", PL % "any frame", budget=300)(
    lambda E: plane_sphere(E, True, True))
obligation("P19", "plane_sphere_ground", PL % "the ground", budget=300)(
    lambda E: plane_sphere(E, False, False))


@obligation("P19", "plane_normalized", "planes built from a few non-unit rational normals, scaled by 2^-12 to 4096, some of almost unit length; "
            "any frame and centre", budget=200)
def plane_norm(E):
    core, sh, co = E.mod(CORE), E.mod("arboris.shapes"), E.mod(CO)
    n = [(1, 2, 2), (2, -3, 6), (0.3, 0, -0.4), (3, -4, 12), (0, 1 + 2.**-14, 0), (0, 0, 2.**-12 - 1), (2.**-12, 0, 0),
         (4096, 0, 0)][E.choice("n", 8)]
    a = sum(x * x for x in n) ** 0.5
    b0, b1 = core.Body(), core.Body()
    b0.update_geometric(E.eye(4))
    b1.update_geometric(E.pose("H1"))
    pl = sh.Plane(b0, (n[0], n[1], n[2], 1.5))
    s = (pl, sh.Sphere(b1, 0.25))
    sd, H0, H1 = co.plane_sphere_collision(s)
    c = b1.pose[0:3, 3]
    E.equal("signed distance, normal of unit length", sd,
            (n[0] * c[0] + n[1] * c[1] + n[2] * c[2]) / a - pl.coeffs[3] - 0.25)


def box_sphere(E, point, inside, rotated):
    core, sh, co = E.mod(CORE), E.mod("arboris.shapes"), E.mod(CO)
    r = 0 if point else E.real("r", 0, 3)
    h = E.vec("h", 3, 0.1, 3)
    if rotated:
        aligned_contract(E)
    b0, b1 = core.Body(), core.Body()
    H = E.pose("H") if rotated else E.eye(4)
    b0.update_geometric(E.array(H))
    R, p = H[0:3, 0:3], H[0:3, 3]
    if inside:
        q = E.vec("q", 3)
        for i in range(3):
            E.assume(E.AND(E.LE(q[i], h[i]), E.LE(-h[i], q[i])))
    else:
        # the centre is at a distance d of a surface point, along a normal there
        q = E.vec("q", 3, -9, 9)
        far = E.OR(*[E.OR(q[i] > h[i], q[i] < -h[i]) for i in range(3)])
        E.assume(far)
    G = E.eye(4)
    G[0:3, 3] = p + E.dot(R, q)
    b1.update_geometric(G)
    c = E.array(b1.pose[0:3, 3])
    s = (sh.Box(b0, E.array(h)), sh.Point(b1) if point else sh.Sphere(b1, r))
    f = co.box_point_collision if point else co.box_sphere_collision
    sd, H0, H1 = f(s)
    frames(E, sd, H0, H1, rotated)
    x = E.dot(R.T, H0[0:3, 3] - p)
    nl = E.dot(R.T, H0[0:3, 2])
    if inside:
        for i in range(3):
            E.true("no face is nearer", E.AND(E.LE(-r - sd, h[i] - q[i]), E.LE(-r - sd, h[i] + q[i])))
        face = []
        for i in range(3):
            for sg in (1, -1):
                e = [E.EQ(nl[j], sg if j == i else 0) for j in range(3)]
                e += [E.EQ(x[j], sg * h[i] if j == i else q[j]) for j in range(3)]
                e.append(E.EQ(sd, -(h[i] - sg * q[i]) - r))
                face.append(E.AND(*e))
        E.true("nearest face: outward normal, point on the face", E.OR(*face))
    else:
        for i in range(3):
            E.true("nearest box point", E.AND(
                E.LE(x[i], h[i]), E.LE(-h[i], x[i]),
                E.implies(q[i] > h[i], E.EQ(x[i], h[i])),
                E.implies(q[i] < -h[i], E.EQ(x[i], -h[i])),
                E.implies(E.AND(E.LE(q[i], h[i]), E.LE(-h[i], q[i])), E.EQ(x[i], q[i]))))
        e = q - x
        E.true("distance", E.AND(E.EQ((sd + r) * (sd + r), dot(E, e, e)), E.GE(sd + r, 0)))
        E.equal("normal towards the centre", (sd + r) * H0[0:3, 2], c - H0[0:3, 3])


BX = "any box half extents and radius up to 1000; "
for rot in (0, 1):
    for ins in (1, 0):
        obligation("P19", "box_sphere_%s_%s" % (("aligned", "rotated")[rot], ("outside", "inside")[ins]),
                   BX + ("box at the origin" if not rot else "any box pose") + ", centre " +
                   ("inside" if ins else "outside (|q|<=1000)"), budget=300)(
            lambda E, rot=rot, ins=ins: box_sphere(E, False, ins, rot))
obligation("P19", "box_point_inside", BX + "a point inside, any box pose", budget=300)(
    lambda E: box_sphere(E, True, True, True))
