"""P30 Predefined robots are what their parameters say."""
from fractions import Fraction
from engine.harness import obligation
from ._common import CORE

ROB = "arboris.robots."
MM = "arboris.massmatrix"


def world(E):
    # validity of mass matrices is decided in P10; here every body is given a legal one
    E.patch(MM, "ismassmatrix", lambda M, semi=False: bool(semi) or bool(M[5, 5] > 0))
    return E.mod(CORE).World()


def transl(E, v):
    H = E.eye(4)
    for i in range(3):
        H[i, 3] = v[i]
    return H


def rz(E, q):
    s, c = E.sincos(q)
    H = E.eye(4)
    H[0, 0] = c
    H[0, 1] = -s
    H[1, 0] = s
    H[1, 1] = c
    return H


def body_mass(E, m, c, J):
    """Mass matrix of a body of mass m, centre c and inertia J about c."""
    M = E.arr((6, 6))
    h = E.hat(c)
    M[0:3, 0:3] = J - m * E.dot(h, h)
    M[0:3, 3:6] = m * h
    M[3:6, 0:3] = -m * h
    for i in range(3):
        M[3 + i, 3 + i] = m
    return M


def diag3(E, a, b, c):
    M = E.arr((3, 3))
    M[0, 0], M[1, 1], M[2, 2] = a, b, c
    return M


def box_inertia(E, m, h):
    x, y, z = (k * k for k in h)
    return diag3(E, m * (y + z) / 3, m * (x + z) / 3, m * (x + y) / 3)


def pos(E, n, name):
    return [E.real("%s%d" % (name, i), 0.125, 4) for i in range(n)]


# ---------------------------------------------------------------------------- simple arm
@obligation("P30", "arm", "three links of any positive length and mass, any joint angles, with and without shapes")
def arm(E):
    w = world(E)
    l, m = pos(E, 3, "l"), pos(E, 3, "m")
    q = [E.angle("q%d" % i) for i in range(3)]
    shapes = bool(E.choice("shapes", 2))
    E.mod(ROB + "simplearm").add_simplearm(w, "a ", l, m, with_shapes=shapes)
    fr, jn = w.getframes(), w.getjoints()
    E.true("three degrees of freedom", w.ndof == 3)
    for k, n in enumerate(("Shoulder", "Elbow", "Wrist")):
        jn["a " + n].gpos[0] = q[k]
    w.update_geometric()
    H = E.eye(4)
    boxes = {}
    sh = E.mod("arboris.shapes")
    for s in w.itershapes():
        boxes[s.frame.body.name] = s
    E.true("shapes", len(boxes) == (3 if shapes else 0))
    for k, n in enumerate(("Arm", "Forearm", "Hand")):
        b = fr["a " + n]
        H = E.dot(H, rz(E, q[k]))
        E.equal("link pose", b.pose, H)
        he = [l[k] / 20, l[k] / 2, l[k] / 20]
        E.equal("link mass", b.mass, body_mass(E, m[k], [0, l[k] / 2, 0], box_inertia(E, m[k], he)))
        if shapes:
            s = boxes["a " + n]
            E.true("shape is a box", isinstance(s, sh.Box))
            E.equal("shape fills the link", s.half_extents, E.array(he))
            E.equal("shape on the link", s.frame.pose, E.dot(H, transl(E, [0, l[k] / 2, 0])))
        H = E.dot(H, transl(E, [0, l[k], 0]))
        if k < 2:
            E.equal("next joint at the tip", fr["a " + ("ElbowBaseFrame", "WristBaseFrame")[k]].pose, H)
    E.equal("end effector", fr["a EndEffector"].pose, H)


@obligation("P30", "arm_default", "the arm of half-meter, 0.4 and 0.2 m links made by default, in a world given or made for it; any joint angles")
def arm_default(E):
    if E.choice("world", 2):
        w = E.mod(CORE).simplearm()
    else:
        w = world(E)
        E.mod(ROB + "simplearm").add_simplearm(w)
    w.init()
    l, m = [0.5, 0.4, 0.2], [1., 0.8, 0.2]
    q = [E.angle("q%d" % i) for i in range(3)]
    fr, jn = w.getframes(), w.getjoints()
    E.true("three degrees of freedom", w.ndof == 3)
    for k, n in enumerate(("Shoulder", "Elbow", "Wrist")):
        E.equal("straight at first", jn[n].gpos, E.arr(1))
        E.equal("at rest", jn[n].gvel, E.arr(1))
        jn[n].gpos[0] = q[k]
    w.update_geometric()
    H = E.eye(4)
    for k, n in enumerate(("Arm", "Forearm", "Hand")):
        H = E.dot(H, rz(E, q[k]))
        E.equal("link pose", fr[n].pose, H)
        E.equal("link mass", fr[n].mass, body_mass(E, m[k], [0, l[k] / 2, 0], box_inertia(E, m[k], [l[k] / 20, l[k] / 2, l[k] / 20])))
        H = E.dot(H, transl(E, [0, l[k], 0]))
    E.equal("end effector", fr["EndEffector"].pose, H)
    E.true("no shapes", not list(w.itershapes()))


@obligation("P30", "arms", "two arms of any lengths in one world, any joint angles")
def arms(E):
    w = world(E)
    l, l2 = pos(E, 3, "l"), pos(E, 3, "k")
    add = E.mod(ROB + "simplearm").add_simplearm
    add(w, "a", l)
    add(w, "b", l2)
    fr, jn = w.getframes(), w.getjoints()
    E.true("degrees of freedom", w.ndof == 6)
    q = {}
    for a in "ab":
        for n in ("Shoulder", "Elbow", "Wrist"):
            q[a + n] = E.angle("q" + a + n)
            jn[a + n].gpos[0] = q[a + n]
    w.update_geometric()
    for a, L in (("a", l), ("b", l2)):
        H = E.eye(4)
        for k, n in enumerate(("Shoulder", "Elbow", "Wrist")):
            H = E.dot(H, rz(E, q[a + n]), transl(E, [0, L[k], 0]))
        E.equal("end effector of each arm", fr[a + "EndEffector"].pose, H)


# --------------------------------------------------------------------------------- snake
def snake(E, n, fixed, default=False, bent=None):
    w = world(E)
    l, m = pos(E, n, "l"), pos(E, n, "m")
    q = [E.angle("q%d" % i) if bent is None or i in bent else 0. for i in range(n)]
    v = [E.real("v%d" % i, -1000, 1000) for i in range(n)]
    if default:
        l, m, q, v = [0.5] * n, [2.] * n, [0.] * n, [0.] * n
        E.mod(ROB + "snake").add_snake(w, n, is_fixed=fixed)
    else:
        E.mod(ROB + "snake").add_snake(w, n, l, m, q, v, is_fixed=fixed)
    w.update_geometric()
    bodies = [b for b in w.iterbodies() if b is not w.ground]
    E.true("bodies", len(bodies) == n + (not fixed))
    E.true("degrees of freedom", w.ndof == n + (0 if fixed else 6))
    if not fixed:
        b = bodies.pop(0)
        E.equal("head", b.mass, body_mass(E, m[0], [0, 0, 0], box_inertia(E, m[0], [l[0] / 2] * 3)))
        E.equal("head pose", b.pose, E.eye(4))
    H = E.eye(4)
    gv = []
    for k, b in enumerate(bodies):
        H = E.dot(H, rz(E, q[k]))
        E.equal("link pose", b.pose, H)
        r2 = l[k] * l[k] / 25
        side = m[k] * (3 * r2 + l[k] * l[k]) / 12
        # a cylinder along the link
        E.equal("link mass", b.mass, body_mass(E, m[k], [0, l[k] / 2, 0], diag3(E, side, m[k] * r2 / 2, side)))
        H = E.dot(H, transl(E, [0, l[k], 0]))
        gv.append(b.parentjoint.gvel[0])
        E.equal("joint position", b.parentjoint.gpos[0], q[k])
    E.equal("joint velocities", E.array(gv), E.array(v))
    tail = [f for f in w.itersubframes() if f.body is bodies[-1]]
    E.true("tail frame", len(tail) == 1)
    E.equal("tail", tail[0].pose, H)


@obligation("P30", "snake_fixed", "one to three links of any length, mass, position and velocity")
def snake_fixed(E):
    snake(E, 1 + E.choice("links", 3), True)


@obligation("P30", "snake_free", "one to three links of any length, mass, position and velocity, free head")
def snake_free(E):
    snake(E, 1 + E.choice("links", 3), False)


@obligation("P30", "snake_long", "13 links of any length, mass and velocity, bent by any angle at two of them; free or fixed")
def snake_long(E):
    snake(E, 13, bool(E.choice("fixed", 2)), bent=(4, 11))


@obligation("P30", "snake_default", "default lengths, masses, positions and velocities; one to four links")
def snake_default(E):
    snake(E, 1 + E.choice("links", 4), bool(E.choice("fixed", 2)), True)


# ------------------------------------------------------------------------- simple shapes
@obligation("P30", "solids", "sphere, box and cylinder of any positive size and mass")
def solids(E):
    w = world(E)
    r, l, m = E.real("r", 0.125, 4), E.real("l", 0.125, 4), E.real("m", 0.125, 4)
    h = pos(E, 3, "h")
    ss = E.mod(ROB + "simpleshapes")
    sh = E.mod("arboris.shapes")
    k = E.choice("kind", 3)
    if k == 0:
        ss.add_sphere(w, r, m, "it")
        J = 2 * m * r * r / 5
        J = diag3(E, J, J, J)
    elif k == 1:
        ss.add_box(w, h, m, "it")
        J = box_inertia(E, m, h)
    else:
        ss.add_cylinder(w, l, r, m, "it")
        J = m * (3 * r * r + l * l) / 12
        J = diag3(E, J, J, m * r * r / 2)
    b = w.getbodies()["it"]
    E.equal("mass", b.mass, body_mass(E, m, [0, 0, 0], J))
    E.true("moves freely", w.ndof == 6 and b.parentjoint.ndof == 6)
    s = list(w.itershapes())
    E.true("one shape, on the body", len(s) == 1 and s[0].frame is b)
    s = s[0]
    if k == 0:
        E.true("sphere", isinstance(s, sh.Sphere))
        E.equal("radius", s.radius, r)
    elif k == 1:
        E.true("box", isinstance(s, sh.Box))
        E.equal("half extents", s.half_extents, E.array(h))
    else:
        E.true("cylinder", isinstance(s, sh.Cylinder))
        E.equal("length", s.length, l)
        E.equal("radius", s.radius, r)


@obligation("P30", "ground_plane", "any upward direction")
def ground_plane(E):
    w = world(E)
    up = E.unit("up")
    w.up[:] = up
    E.mod(ROB + "simpleshapes").add_groundplane(w)
    s = list(w.itershapes())
    E.true("one plane, on the ground", len(s) == 1 and isinstance(s[0], E.mod("arboris.shapes").Plane)
           and s[0].frame is w.ground)
    E.equal("level, through the origin", s[0].coeffs, E.array(list(up) + [0]))


# ------------------------------------------------------------------------------- human36
HUM = ROB + "human36"
SIDED = ("yfoot", "ytibia", "yfemur", "ysternoclav", "zsternoclav", "xsternoclav", "yshoulder",
         "zshoulder", "xshoulder", "yhumerus", "yforearm", "yhand", "xfoot", "xheel")
MID = ("yvT10", "xvT10", "zhip", "yvC7", "yhead")
LIMBS = ("Thigh", "Shank", "Foot", "Scapula", "Arm", "Forearm", "Hand")
JOINTS = ("Hip", "Knee", "Ankle", "Torso-Scap", "Arm-Scap", "Elbow", "Wrist")


def other(name):
    """The name of the same thing on the other side."""
    if name == "Femoral lateral epicondyle":
        return "Left femoral lateral epicondyle"
    if name == "Left femoral lateral epicondyle":
        return "Femoral lateral epicondyle"
    if name.startswith("Right "):
        return "Left " + name[6:]
    if name.startswith("Left "):
        return "Right " + name[5:]
    if any(name == x + "R" for x in LIMBS + JOINTS):
        return name[:-1] + "L"
    if any(name == x + "L" for x in LIMBS + JOINTS):
        return name[:-1] + "R"
    return name


def lengths(E):
    """Arbitrary anatomical lengths; legs of equal length, as the model requires."""
    def real(k):
        return E.real(k, 0.0625, 2)
    L = {k: real(k) for k in MID}
    for k in SIDED:
        L[k + "R"] = real(k + "R")
        L[k + "L"] = real(k + "L")
    return L


def mirrored(L):
    R = dict(L)
    for k in SIDED:
        R[k + "R"], R[k + "L"] = L[k + "L"], L[k + "R"]
    return R


@obligation("P30", "human_lengths", "any height")
def human_lengths(E):
    hum = E.mod(HUM)
    h = E.real("h", 0.25, 4)
    L = hum.anat_lengths_from_height(h)
    E.equal("height is recovered", hum.height_from_anat_lengths(L), h)
    E.true("all lengths", sorted(L) == sorted(list(MID) + [k + s for k in SIDED for s in "RL"]))
    for k in SIDED:
        E.equal("both sides alike", L[k + "R"], L[k + "L"])
    h2 = E.real("h2", 0.25, 4)
    L2 = hum.anat_lengths_from_height(h2)
    for k in sorted(L):
        z = 0.0127 if k.startswith("zsternoclav") else -0.0127 if k.startswith("zshoulder") else 0
        E.equal("proportions", (L[k] - z) * h2, (L2[k] - z) * h)
    L["ytibiaL"] = L["ytibiaL"] + E.real("d", 0.03125, 1)
    E.raises("uneven legs", ValueError, lambda: hum.height_from_anat_lengths(L))


@obligation("P30", "human_body", "any height and total mass")
def human_body(E):
    w = world(E)
    h, m = E.real("h", 0.25, 4), E.real("m", 1, 200)
    E.mod(HUM).add_human36(w, height=h, mass=m)
    E.true("degrees of freedom", w.ndof == 42)
    bodies = [b for b in w.iterbodies() if b is not w.ground]
    E.true("bodies", len(bodies) == 17)
    E.equal("total mass", sum(b.mass[5, 5] for b in bodies), m)
    w.update_geometric()
    fr = w.getframes()
    E.equal("stands upright, as tall as asked", fr["Vertex"].pose[1, 3], h)
    for s in ("Right", "Left"):
        for t in ("toe tip", "heel", "phalange 5", "phalange 1"):
            E.equal("feet on the ground", fr["%s foot %s" % (s, t)].pose[1, 3], 0)
    for b in bodies:
        E.equal("symmetric mass", b.mass, b.mass.T)
        k = b.mass[5, 5]
        c = E.array([b.mass[2, 4], b.mass[0, 5], b.mass[1, 3]])
        E.equal("one mass in every direction", b.mass[3:6, 3:6], diag3(E, k, k, k))
        E.equal("first moment", b.mass[0:3, 3:6], E.hat(c))
    pts = list(w.itershapes())
    E.true("eight contact points on the feet", len(pts) == 8
           and all(p.frame.body.name in ("FootR", "FootL") for p in pts)
           and sorted(p.name for p in pts) == sorted(p.frame.name for p in pts))


def mirror_image(E, a, b):
    """World b is world a seen in a mirror (z -> -z)."""
    S = E.eye(4)
    S[2, 2] = -1
    A = E.eye(6)
    A[0, 0] = A[1, 1] = A[5, 5] = -1
    fa, fb = a.getframes(), b.getframes()
    names = [f.name for f in a.iterframes() if f.name]
    E.true("same frames", sorted(names) == sorted(f.name for f in b.iterframes() if f.name)
           and sorted(names) == sorted(other(n) for n in names) and len(set(names)) == len(names))
    for n in names:
        E.equal("place of " + n, fb[other(n)].pose, E.dot(S, fa[n].pose, S))
    for x in a.iterbodies():
        if x is a.ground:
            continue
        M, N = E.dot(A, x.mass, A), fb[other(x.name)].mass
        if x.name in ("HandR", "HandL"):
            # the order of the two lateral radii is decided in human_hands
            off = x.mass[0, 5] * x.mass[0, 5] / x.mass[5, 5]
            i, j = M[0, 0] - off, M[2, 2] - off
            k, l = N[0, 0] - off, N[2, 2] - off
            E.equal("lateral gyration radii of " + x.name, E.array([k + l, k * l]), E.array([i + j, i * j]))
            M[0, 0], M[2, 2] = N[0, 0], N[2, 2]
        E.equal("mass of " + x.name, N, M)
    ja, jb = a.getjoints(), b.getjoints()
    for j in ja:
        k = jb[other(j.name)]
        E.true("same joint", type(j) is type(k) and k.frame1.body.name == other(j.frame1.body.name)
               and k.frame0.body.name == other(j.frame0.body.name))
        # joint origin, also when the joint has moved
        E.equal("joint origin", k.frame0.pose, E.dot(S, j.frame0.pose, S))


@obligation("P30", "human_mirror", "arbitrary lengths of every segment, right and left different; legs of equal total length")
def human_mirror(E):
    hum = E.mod(HUM)
    E.patch(MM, "ismassmatrix", lambda M, semi=False: True)
    L = lengths(E)
    if not E.symbolic:
        # the legs are compared to the last bit, which concrete runs cannot guarantee
        E.patch(HUM, "height_from_anat_lengths", lambda L: sum(
            L[k] for k in ("yfootL", "ytibiaL", "yfemurL", "yvT10", "yvC7", "yhead")))
    # legs of equal length
    L["ytibiaR"] = L["ytibiaL"] + L["yfemurL"] + L["yfootL"] - L["yfootR"] - L["yfemurR"]
    E.assume(E.GE(L["ytibiaR"], 0.0625))
    ws = []
    for x in (L, mirrored(L)):
        w = E.mod(CORE).World()
        hum.add_human36(w, mass=64, anat_lengths=x)
        w.update_geometric()
        ws.append(w)
    mirror_image(E, ws[0], ws[1])


@obligation("P30", "human_segments", "any height and total mass")
def human_segments(E):
    """Every body has the mass distribution of a solid that lies along its segment."""
    hum = E.mod(HUM)
    w = world(E)
    h, m = E.real("h", 0.25, 4), E.real("m", 1, 200)
    L = hum.anat_lengths_from_height(h)
    for k in sorted(L):
        # the sternoclavicular joints are a fixed 12.7 mm from the sagittal plane
        E.true("no segment longer than half the body: " + k, E.LE(L[k], h / 2 + 0.0127))
    hum.add_human36(w, height=h, mass=m)
    w.update_geometric()
    fr = w.getframes()

    def at(frame, body):
        return E.dot(E.inv4(body.pose), frame.pose)[0:3, 3]

    def ends():
        for s, t in (("R", "Right"), ("L", "Left")):
            j = w.getjoints()
            for b, n in (("Thigh", "Knee"), ("Shank", "Ankle"), ("Arm", "Elbow"), ("Forearm", "Wrist")):
                yield b + s, [j[n + s].frame0]
            yield "Hand" + s, [fr[t + " 3rd dactylion"]]
            yield "Foot" + s, [fr[t + " foot toe tip"], fr[t + " foot heel"]]
        yield "LPT", [w.getjoints()["Back"].frame0]
        yield "UPT", [fr["Suprasternale"]]
        yield "Head", [fr["Vertex"]]
    seen = set()
    for n, tips in ends():
        seen.add(n)
        b = fr[n]
        k = b.mass[5, 5]
        c = [b.mass[2, 4] / k, b.mass[0, 5] / k, b.mass[1, 3] / k]
        pts = [E.arr(3)] + [at(f, b) for f in tips]
        d = pts[-1] if len(pts) == 2 else pts[1] - pts[2]
        reach = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
        for i in range(3):
            if n == "LPT" and i == 0:
                E.equal("centre of mass of the pelvis above the hips", c[i], 0)
                continue
            E.true("centre of mass of %s between the ends of the segment" % n,
                   E.OR(*[E.AND(E.LE(p[i], c[i]), E.LE(c[i], q[i])) for p in pts for q in pts]))
        hc = E.hat(c)
        J = b.mass[0:3, 0:3] + k * E.dot(hc, hc)
        E.equal("principal axes of %s along its frame" % n, J, diag3(E, J[0, 0], J[1, 1], J[2, 2]))
        for i in range(3):
            E.true("radius of gyration of %s positive and below its length" % n,
                   E.AND(E.LT(0, J[i, i]), E.LT(J[i, i], k * reach)))
            o = [J[x, x] for x in range(3) if x != i]
            E.true("%s can be a rigid body" % n, E.LT(J[i, i], o[0] + o[1]))
    for b in w.iterbodies():
        if b is not w.ground and b.name not in seen:
            E.true("only the scapulas are massless", b.name.startswith("Scapula"))
            E.equal("massless " + b.name, b.mass, E.arr((6, 6)))


@obligation("P30", "human_hands", "any height and total mass")
def human_hands(E):
    w = world(E)
    h, m = E.real("h", 0.25, 4), E.real("m", 1, 200)
    E.mod(HUM).add_human36(w, height=h, mass=m)
    b = w.getbodies()
    R, L = b["HandR"].mass, b["HandL"].mass
    E.equal("lateral gyration radii in the same order", E.array([R[0, 0], R[2, 2]]), E.array([L[0, 0], L[2, 2]]))


@obligation("P30", "human_crowd", "two humans of any height, with and without prefix")
def human_crowd(E):
    hum = E.mod(HUM)
    w = world(E)
    h = [E.real("h%d" % i, 0.25, 4) for i in range(2)]
    pre = [("", "Bob's "), ("A", "B"), ("Bob's ", "")][E.choice("prefixes", 3)]
    for x, p in zip(h, pre):
        hum.add_human36(w, height=x, prefix=p)
    E.true("degrees of freedom", w.ndof == 84)
    w.update_geometric()
    fr, jn, sh = w.getframes(), w.getjoints(), w.getshapes()
    for x, p in zip(h, pre):
        E.equal("height of each", fr[p + "Vertex"].pose[1, 3], x)
        E.true("own parts", jn[p + "KneeR"].frame1.body is fr[p + "ShankR"]
               and sh[p + "Left foot heel"].frame is fr[p + "Left foot heel"]
               and fr[p + "Left stylion"].body is fr[p + "ForearmL"])


# ---------------------------------------------------------------------------------- icub
ICUB = ROB + "icub"
ARM = ("shoulder_pitch", "shoulder_roll", "shoulder_yaw", "elbow_pitch", "elbow_yaw", "wrist_roll", "wrist_pitch")
LEG = ("hip_pitch", "hip_roll", "hip_yaw", "knee", "ankle_pitch", "ankle_roll")
# bodies of the left limbs, and the sign their x and y axes take on the right (z is always reversed)
ARMB = (("shoulder_1", -1), ("shoulder_2", 1), ("arm", 1), ("elbow_1", -1), ("forearm", -1), ("wrist_1", -1), ("hand", -1))
LEGB = (("hip_1", 1), ("hip_2", 1), ("thigh", 1), ("shank", 1), ("ankle_1", 1), ("foot", 1))
TRUNK = ("torso_pitch", "torso_roll", "torso_yaw", "head_pitch", "head_roll", "head_yaw")


def icub(E, **k):
    w = world(E)
    E.mod(ICUB).add(w, **k)
    return w


def sagittal(E):
    S = E.eye(4)
    S[1, 1] = -1
    return S


def flip(E, s):
    F = E.eye(4)
    F[0, 0] = F[1, 1] = s
    F[2, 2] = -1
    return F


def limb(E, w, joints, bodies, free):
    """The right limb with the same joint angles is the mirror image of the left one."""
    S = sagittal(E)
    J, fr = w.getjoints(), w.getframes()
    for n in joints:
        if n in free:
            q = E.angle(n)
            J["l_" + n].gpos[0] = q
            J["r_" + n].gpos[0] = q
    w.update_geometric()
    for n, s in bodies:
        E.equal("mirrored " + n, fr["r_" + n].pose, E.dot(S, fr["l_" + n].pose, flip(E, s)))
    return fr, S


HANDS = (("lh1", "rh2"), ("lh2", "rh1"), ("lh3", "rh4"), ("lh4", "rh3"),
         ("l_hand_tip", "r_hand_tip"), ("l_hand_palm", "r_hand_palm"))
FEET = tuple(("lf%d" % i, "rf%d" % i) for i in (1, 2, 3, 4)) + (("l_sole", "r_sole"),)


def extras(E, fr, S, pairs):
    for a, b in pairs:
        E.equal("mirrored " + a, fr[b].pose[0:3, 3], E.dot(S, fr[a].pose)[0:3, 3])


@obligation("P30", "icub_arms", "any angles of the seven arm joints")
def icub_arms(E):
    fr, S = limb(E, icub(E, is_fixed=True, create_shapes=False), ARM, ARMB, ARM)
    extras(E, fr, S, HANDS)


@obligation("P30", "icub_legs", "any angles of the six leg joints")
def icub_legs(E):
    fr, S = limb(E, icub(E, is_fixed=True, create_shapes=False), LEG, LEGB, LEG)
    extras(E, fr, S, FEET)


@obligation("P30", "icub_trunk", "any angles of the six trunk and head joints")
def icub_trunk(E):
    w1, w2 = icub(E, create_shapes=False), icub(E, create_shapes=False)
    S = sagittal(E)
    J1, J2 = w1.getjoints(), w2.getjoints()
    for n in TRUNK:
        q = E.angle(n)
        J1[n].gpos[0] = q
        J2[n].gpos[0] = q if n.endswith("pitch") else -q
    w1.update_geometric()
    w2.update_geometric()
    f1, f2 = w1.getframes(), w2.getframes()
    # leaning to the other side is the mirror image
    for n in ("lap_belt_1", "lap_belt_2", "chest", "neck_1", "neck_2", "head"):
        E.equal("mirrored place of " + n, f2[n].pose[0:3, 3], E.dot(S, f1[n].pose)[0:3, 3])
    for a, b in (("l_shoulder_2", "r_shoulder_2"), ("r_hip_1", "l_hip_1"), ("r_foot", "l_foot")):
        E.equal("mirrored place of " + a, f2[b].pose[0:3, 3], E.dot(S, f1[a].pose)[0:3, 3])


@obligation("P30", "icub_model", "the fixed and the floating robot, with and without shapes and contact points, any angles of the wrists")
def icub_model(E):
    fixed, shapes, contacts = (bool(E.choice(k, 2)) for k in ("fixed", "shapes", "contacts"))
    ic, sh = E.mod(ICUB), E.mod("arboris.shapes")
    w = icub(E, is_fixed=fixed, create_shapes=shapes, create_contacts=contacts)
    E.true("degrees of freedom", w.ndof == (32 if fixed else 38))
    fr = w.getframes()
    base = w.ground if fixed else fr["waist"]
    E.true("base", fixed or (base.parentjoint.ndof == 6 and base.parentjoint.frame0 is w.ground))
    named = [j.name for j in w.iterjoints() if j is not base.parentjoint]
    E.true("every joint has limits", sorted(named) == sorted(ic.get_joint_limits()) == sorted(ic.get_torque_limits()))
    for n, v in ic.get_joint_limits(False).items():
        E.equal("limits in radians", E.array(list(ic.get_joint_limits()[n])), E.array([x * 3.141592653589793 / 180 for x in v]))
        E.true("limits in order", v[0] < v[1])
    for lim in (ic.get_joint_limits(), ic.get_torque_limits()):
        E.true("same limits on both sides", all(v == lim["r_" + n[2:]] for n, v in lim.items() if n.startswith("l_")))
    for n, (parent, H, child) in ic.get_joints_data().items():
        j = w.getjoints()[n]
        E.true("joint connects", j.frame1.body is fr[child] and j.frame0.body is (base if parent == "waist" else fr[parent]))
        q = E.angle(n) if "wrist" in n else 0
        j.gpos[0] = q
    w.update_geometric()
    for n, (parent, H, child) in ic.get_joints_data().items():
        j = w.getjoints()[n]
        P = base.pose if parent == "waist" else fr[parent].pose
        E.equal("child pose", fr[child].pose, E.dot(P, E.array(H), rz(E, j.gpos[0])))
    for n, parts in ic.get_bodies_data().items():
        if n == "waist" and fixed:
            continue
        M = E.arr((6, 6))
        for d, m, H in parts:
            if len(d) == 3:
                Ic = box_inertia(E, m, d)
            elif len(d) == 2:
                l, r = d
                Ic = diag3(E, m * (3 * r * r + l * l) / 12, m * (3 * r * r + l * l) / 12, m * r * r / 2)
            else:
                Ic = diag3(E, *[2 * m * d[0] * d[0] / 5] * 3)
            H = E.array(H)
            M = M + body_mass(E, m, [H[i, 3] for i in range(3)], E.dot(H[0:3, 0:3], Ic, H[0:3, 0:3].T))
        E.equal("mass of all parts", fr[n].mass, M)
    # shapes
    count = {}
    for s in w.itershapes():
        count.setdefault(s.frame.body.name if s.frame.body is not base else "waist", []).append(s)
    total = sum(len(x) for x in count.values())
    bsd, cd = ic.get_bodies_shapes_data(), ic.get_contact_data()
    E.true("shapes as asked", total == shapes * sum(len(v) for v in bsd.values()) + contacts * len(cd))
    kinds = {3: sh.Box, 2: sh.Cylinder, 1: sh.Sphere, 0: sh.Point}
    for n, parts in ic.get_bodies_data().items():
        for d, m, H in parts:
            E.true("every part of %s is shown" % n, any(tuple(x) == tuple(d) and
                   all(abs(p - q) < 1e-9 for p, q in zip(E.array(G).reshape(-1), E.array(H).reshape(-1))) for x, G in bsd[n]))

    def size(s):
        return tuple(s.half_extents) if isinstance(s, sh.Box) else (s.length, s.radius) if isinstance(s, sh.Cylinder) \
            else (s.radius,) if isinstance(s, sh.Sphere) and not isinstance(s, sh.Point) else ()
    want = []
    if shapes:
        want += [(n, d, H) for n, v in bsd.items() for d, H in v]
    if contacts:
        want += [(b, d, H) for b, d, H in cd.values()]
    have = [(s, size(s), s.frame.bpose) for v in count.values() for s in v]
    for n, d, H in want:
        b = base if n == "waist" else fr[n]
        hit = [s for s, z, P in have if s.frame.body is b and isinstance(s, kinds[len(d)])
               and z == tuple(d) and all(abs(x - y) < 1e-9 for x, y in zip(E.array(P).reshape(-1), E.array(H).reshape(-1)))]
        E.true("shape of %s" % n, len(hit) >= 1)
    for n, (b, d, H) in cd.items():
        if contacts:
            E.true("contact frame", fr[n].body is fr[b] and w.getshapes()[n].frame is fr[n])


# published Denavit-Hartenberg parameters (d, theta, r, alpha; degrees) of the trunk, head and left limbs
PUBLISHED = {
    "torso_roll": (0, 0, .032, 90), "torso_yaw": (0, -90, 0, 90), "head_pitch": (-.1933, -90, .00231, -90),
    "head_roll": (0, 90, .033, 90), "head_yaw": (.001, -90, 0, -90),
    "l_shoulder_pitch": (-.1433, 105, .0233647, -90), "l_shoulder_roll": (.10774, 90, 0, -90),
    "l_shoulder_yaw": (0, -90, 0, 90), "l_elbow_pitch": (.15228, 75, 0, -90), "l_elbow_yaw": (0, 0, -.015, 90),
    "l_wrist_roll": (.1373, -90, 0, 90), "l_wrist_pitch": (0, 90, 0, 90), "l_hip_roll": (0, 90, 0, -90),
    "l_hip_yaw": (0, 90, 0, -90), "l_knee": (-.2236, -90, 0, 90), "l_ankle_pitch": (0, 90, -.213, 180),
    "l_ankle_roll": (0, 0, 0, -90)}
MASSES = {"waist": .20297, "lap_belt_1": 3.623, "lap_belt_2": .91179, "chest": 4.12925, "neck_1": .28252, "neck_2": .1,
          "head": .78, "l_shoulder_1": .48278, "l_shoulder_2": .20779, "l_arm": 1.1584, "l_elbow_1": .050798,
          "l_forearm": .48774, "l_wrist_1": .05, "l_hand": .19099, "l_hip_1": .32708, "l_hip_2": 1.5304,
          "l_thigh": 2.32246, "l_shank": .95262, "l_ankle_1": .14801, "l_foot": .6747}


@obligation("P30", "icub_published", "the published kinematic parameters and masses, any angle at every joint")
def icub_published(E):
    import math
    w = icub(E, create_shapes=False, create_contacts=False)
    J, fr = w.getjoints(), w.getframes()
    for n, (d, t, r, a) in PUBLISHED.items():
        E.equal("joint frame of " + n, J[n].frame0.bpose, E.array(
            [[math.cos(math.radians(t)), -math.sin(math.radians(t)) * math.cos(math.radians(a)),
              math.sin(math.radians(t)) * math.sin(math.radians(a)), r * math.cos(math.radians(t))],
             [math.sin(math.radians(t)), math.cos(math.radians(t)) * math.cos(math.radians(a)),
              -math.cos(math.radians(t)) * math.sin(math.radians(a)), r * math.sin(math.radians(t))],
             [0, math.sin(math.radians(a)), math.cos(math.radians(a)), d], [0, 0, 0, 1]]))
        q = E.angle(n)
        J[n].gpos[0] = q
        E.equal("turns about its axis: " + n, J[n].pose, rz(E, q))
    for n, m in MASSES.items():
        E.equal("mass of " + n, fr[n].mass[5, 5] * 1000, E.array(m * 1000))
    # the right side has the mirrored masses of the left one
    for n, s in ARMB + LEGB:
        F = flip(E, s)[0:3, 0:3]
        L, R = fr["l_" + n].mass, fr["r_" + n].mass
        E.equal("mirrored mass of " + n, R[5, 5] * 1000, L[5, 5] * 1000)
        E.equal("mirrored inertia of " + n, R[0:3, 0:3] * 1000, E.dot(F, L[0:3, 0:3], F) * 1000)
        c = lambda M: E.array([M[2, 4], M[0, 5], M[1, 3]])
        E.equal("mirrored centre of mass of " + n, c(R) * 1000, E.dot(F, c(L)) * 1000)


@obligation("P30", "dh", "any Denavit-Hartenberg parameters")
def dh(E):
    d, r = E.real("d", -1000, 1000), E.real("r", -5, 5)
    t, a = E.angle("t"), E.angle("a")
    s, c = E.sincos(a)
    X = E.eye(4)
    X[1, 1] = X[2, 2] = c
    X[1, 2], X[2, 1] = -s, s
    E.equal("turn and rise along z, then turn and shift along x", E.mod(ICUB).T_DH(d, t, r, a),
            E.dot(rz(E, t), transl(E, [0, 0, d]), transl(E, [r, 0, 0]), X))
