"""P34 Asking changes nothing: functions leave their arguments alone, queries leave the world alone."""
from engine.harness import obligation
from ._common import CORE, JOINTS, HG, const_mass, const_pose
from .p26_com import stubs as nostubs

CN, CT, SH = "arboris.constraints", "arboris.controllers", "arboris.shapes"
MM, AM, TW, CO = "arboris.massmatrix", "arboris.adjointmatrix", "arboris.twistvector", "arboris.collisions"


def untouched(E, name, f, args, scalar=False):
    """f called twice: the same result, the arguments as they were, and results of their own."""
    before = [E.array(a) if hasattr(a, "shape") else a for a in args]

    def flat(r):
        return [x for y in r for x in flat(y)] if isinstance(r, (tuple, list)) else [r]
    one = flat(f(*args))
    kept = [E.array(x) if hasattr(x, "shape") else x for x in one]
    two = flat(f(*args))
    for a, b in zip(args, before):
        E.equal("%s leaves its arguments" % name, a, b)
    for a, b in zip(two, kept):
        E.equal("%s gives the same again" % name, a, b)
    # results are the caller's: writing on one changes neither the arguments nor the next result
    for r in one:
        if hasattr(r, "shape") and r.shape:
            r[...] = 7
    for a, b in zip(args, before):
        E.equal("results of %s are apart from its arguments" % name, a, b)
    for a, b in zip(flat(f(*args)), kept):
        E.equal("results of %s are apart from one another" % name, a, b)


@obligation("P34", "motions", "any displacement, vector, twist and angles")
def motions(E):
    hg, am, tw = E.mod(HG), E.mod(AM), E.mod(TW)
    H = E.pose("H")
    for n in ("inv", "adjoint", "iadjoint"):
        untouched(E, n, getattr(hg, n), [H])
    v, T = E.vec("v", 3), E.vec("T", 6)
    untouched(E, "pdot", hg.pdot, [H, v])
    untouched(E, "vdot", hg.vdot, [H, v])
    untouched(E, "dAdjoint", hg.dAdjoint, [E.mat("A", 6, 6), T])
    untouched(E, "adjoint inverse", am.inv, [E.Ad(H)])
    untouched(E, "adjacency", tw.adjacency, [T])
    a = [E.angle("a%d" % i) for i in range(3)]
    for n in ("rotx", "roty", "rotz"):
        untouched(E, n, getattr(hg, n), a[:1])
    for n in ("rotzy", "rotzx", "rotyx"):
        untouched(E, n, getattr(hg, n), a[:2])
    untouched(E, "rotzyx", hg.rotzyx, a)
    untouched(E, "transl", hg.transl, list(v))


@obligation("P34", "aligned", "any direction", max_paths=400)
def aligned(E):
    untouched(E, "zaligned", E.mod(HG).zaligned, [E.unit("u")])


@obligation("P34", "recognition", "any displacement; any rotation about z up to one radian", max_paths=400)
def recognition(E):
    untouched(E, "recognition", E.mod(HG).ishomogeneousmatrix, [E.pose("H")])
    a = E.real("a", -1, 1)
    untouched(E, "exp", E.mod(TW).exp, [E.array([0, 0, a, 1, 2, 3])])


@obligation("P34", "masses", "any size, mass and displacement; any rotation of the principal axes")
def masses(E):
    mm = E.mod(MM)
    s = [E.real("s%d" % i, 0.125, 4) for i in range(3)]
    m = E.real("m", 0.125, 4)
    untouched(E, "box", mm.box, [E.array(s), m])
    untouched(E, "ellipsoid", mm.ellipsoid, [E.array(s), m])
    untouched(E, "cylinder", mm.cylinder, [s[0], s[1], m])
    untouched(E, "sphere", mm.sphere, [s[0], m])
    E.patch(MM, "ismassmatrix", lambda M, semi=False: True)
    untouched(E, "transport", mm.transport, [E.massmatrix("M")[0], E.pose("H")])
    # principal axes along the frame, centre of mass away from it
    h = E.hat(E.array([0.5, -1, 2]))
    M = E.eye(6) * 2
    M[0:3, 0:3] = E.eye(3)
    M[1, 1], M[2, 2] = 1.5, 2
    M[0:3, 0:3] = M[0:3, 0:3] - 2 * E.dot(h, h)
    M[0:3, 3:6], M[3:6, 0:3] = 2 * h, -2 * h
    if E.symbolic:
        from engine import shim
        shim.HOOKS["eig"] = shim.HOOKS["eigh"] = lambda A, *a, **k: (E.array([A[i, i] for i in range(3)]), E.eye(3))
    untouched(E, "principalframe", mm.principalframe, [M])


@obligation("P34", "distances", "any positions and sizes of the shapes; constant generic frames", max_paths=400, budget=200,
            allow_divzero=True)
def distances(E):
    core, sh, co = E.mod(CORE), E.mod(SH), E.mod(CO)
    # the alignment of the contact frames is looked at above
    E.patch(HG, "zaligned", lambda v: E.eye(4))
    w = core.World()
    a, b = core.Body(mass=E.eye(6)), core.Body(mass=E.eye(6))
    ja, jb = E.mod(JOINTS).FreeJoint(), E.mod(JOINTS).FreeJoint()
    w.add_link(w.ground, ja, a, w.ground, jb, b)
    w.init()
    ja.gpos, jb.gpos = const_pose(E, 1), const_pose(E, 4)
    p = E.vec("p", 3)
    jb.gpos[0:3, 3] = p
    w.update_geometric()
    kind = E.choice("pair", 6)
    r = E.real("r", 0.125, 2)
    s0 = [sh.Sphere(a, 0.5), sh.Sphere(a, 0.5), sh.Plane(a, (0., 0.6, 0.8, 0.25)), sh.Plane(a, (0., 0.6, 0.8, 0.25)),
          sh.Box(a, E.array([0.5, 1, 2])), sh.Box(a, (0.5, 1., 2.))][kind]
    s1 = sh.Point(b) if kind % 2 else sh.Sphere(b, r)
    sizes = [E.array(x) for x in (getattr(s0, "coeffs", [0.5]), getattr(s0, "half_extents", [0.5]))]
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pair, f = co.choose_solver(s0, s1)
        one = f(pair)
        kept = [E.array(x) for x in one[1:]]
        one[1][...] = 3
        one[2][...] = 5
        two = f(pair)
    E.equal("same distance again", two[0], one[0])
    for x, y in zip(two[1:], kept):
        E.equal("same frames again", x, y)
    for x, y in zip((getattr(s0, "coeffs", [0.5]), getattr(s0, "half_extents", [0.5])), sizes):
        E.equal("the shape keeps its size", E.array(x), y)
    E.equal("the bodies stay", b.pose[0:3, 3], p)


NAMES = ("FreeJoint", "FixedJoint", "RzRyRxJoint", "RzRyJoint", "RzRxJoint", "RyRxJoint", "RzJoint", "RyJoint", "RxJoint",
         "TxTyTzJoint", "TzJoint", "TyJoint", "TxJoint")


def joint(E, kind):
    j = getattr(E.mod(JOINTS), kind)()
    if kind == "FreeJoint":
        j.gpos = E.pose("H")
        j.gvel = E.vec("v", 6)
    elif kind != "FixedJoint":
        rot = kind.startswith("R")
        j.gpos = E.array([E.angle("q%d" % i) if rot else E.real("q%d" % i, -1000, 1000) for i in range(j.ndof)])
        j.gvel = E.vec("v", j.ndof)
    q, v = E.array(j.gpos), E.array(j.gvel)
    for n in ("pose", "ipose", "twist", "itwist", "jacobian", "djacobian", "adjoint", "iadjoint", "adjacency", "iadjacency",
              "dadjoint", "idadjoint"):
        untouched(E, n, lambda: getattr(j, n), [])
        E.equal("%s leaves the position" % n, j.gpos, q)
        E.equal("%s leaves the velocity" % n, j.gvel, v)


for _k in NAMES:
    obligation("P34", "joint_" + _k.replace("Joint", ""), "any position and velocity of this joint")(lambda E, _k=_k: joint(E, _k))


# ------------------------------------------------------------------------------- the world
def scene(E):
    """Two links, a moving frame, shapes, controllers and constraints."""
    core, jm, sh, ct, cn = E.mod(CORE), E.mod(JOINTS), E.mod(SH), E.mod(CT), E.mod(CN)
    w = core.World()
    a, b = core.Body("a", mass=const_mass(E, 0)), core.Body("b", mass=const_mass(E, 1), viscosity=E.eye(6) * 0.5)
    ja, jb = jm.RzJoint(name="ja"), jm.TxTyTzJoint(name="jb")
    w.add_link(core.SubFrame(w.ground, const_pose(E, 0)), ja, core.SubFrame(a, const_pose(E, 1)))
    w.add_link(core.SubFrame(a, const_pose(E, 2)), jb, b)
    f = core.MovingSubFrame(b, const_pose(E, 3), "moving")
    w.register(f)
    p, s = sh.Plane(w.ground), sh.Sphere(b, 0.5)
    w.register(p)
    w.register(s)
    w.init()
    cs = [cn.JointLimits(jb, [-1., -1., -1.], [1., 1., 1.]), cn.BallAndSocketConstraint((w.ground, f)),
          cn.SoftFingerContact((p, s), 0.5)]
    cts = [ct.WeightController(-8), ct.ProportionalDerivativeController([jb], E.eye(3), E.eye(3) * 2)]
    for x in cs + cts:
        w.register(x)
    ja.gpos = E.array([E.angle("q")])
    jb.gpos = E.vec("p", 3)
    ja.gvel, jb.gvel = E.vec("u", 1), E.vec("v", 3)
    w.init()
    return w, a, b, f, ja, jb, cs, cts


def picture(E, w, a, b, f, ja, jb):
    r = [w.mass, w.viscosity, w.nleffects, w.gvel, w.gforce, w.up, ja.gpos, ja.gvel, jb.gpos, jb.gvel, a.mass, b.mass,
         b.viscosity, f.bpose]
    for x in (a, b, f):
        r += [x.pose, x.jacobian, x.djacobian, x.twist]
    return [E.array(x) for x in r]


@obligation("P34", "updates", "any positions and velocities of a three-element chain")
def updates(E):
    w, a, b, f, ja, jb, cs, cts = scene(E)
    w.update_dynamic()
    one = picture(E, w, a, b, f, ja, jb)
    w.update_geometric()
    for x, y in zip(picture(E, w, a, b, f, ja, jb), one):
        E.equal("a geometric update changes nothing", x, y)
    for k in range(2):
        w.update_dynamic()
        for x, y in zip(picture(E, w, a, b, f, ja, jb), one):
            E.equal("another dynamic update changes nothing", x, y)


@obligation("P34", "queries", "any positions and velocities of a three-element chain; every way of looking at the world")
def queries(E):
    core = E.mod(CORE)
    w, a, b, f, ja, jb, cs, cts = scene(E)
    w.update_dynamic()
    one = picture(E, w, a, b, f, ja, jb)
    names = ("bodies", "joints", "frames", "shapes", "constraints", "controllers", "subframes", "movingsubframes")
    lists = {}
    for k in range(2):
        for n in names:
            x = list(getattr(w, "iter" + n, getattr(w, "get" + n, None))())
            E.true("the same " + n + " again", lists.setdefault(n, x) == x)
            if hasattr(w, "get" + n):
                y = getattr(w, "get" + n)()
                E.true("the same %s in a list" % n, list(y) == x)
                y.reverse()             # the list is the caller's
                while y:
                    y.pop()
        for q in (w.gvel, w.gforce, f.pose, f.bpose, f.jacobian, f.twist, f.djacobian, ja.pose, jb.jacobian, ja.twist):
            q[...] = 9                  # and so are these arrays
        for x in (a, b, w.ground):
            list(x.iter_descendant_bodies()), list(x.iter_ancestor_bodies())
            list(x.iter_descendant_joints()), list(x.iter_ancestor_joints())
        for x, y in zip(picture(E, w, a, b, f, ja, jb), one):
            E.equal("looking changes nothing", x, y)

    class Nobody(object):
        def init_parse(self, *k):
            pass
        add_link = register = init_parse
    w.parse(Nobody())
    core.name_all_elements(w.iterframes())
    for x, y in zip(picture(E, w, a, b, f, ja, jb), one):
        E.equal("walking and naming change nothing", x, y)
    for n in names:
        E.true("still the same " + n, list(getattr(w, "iter" + n, getattr(w, "get" + n, None))()) == lists[n])


@obligation("P34", "matrices", "two sliding bodies of any masses, velocities and weight; the world's arrays are read and "
            "overwritten by their reader", allow_divzero=True)
def matrices(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    joints = []
    for i in range(2):
        m = E.real("m%d" % i, 0.1, 10)
        b = core.Body(mass=E.eye(6) * m)
        joints.append(jm.TzJoint(gvel=[E.real("v%d" % i, -10, 10)]))
        w.add_link(w.ground, joints[-1], b)
    w.up[:] = E.array([0, 0, 1])
    w.register(E.mod("arboris.controllers").WeightController())
    w.init()
    get = lambda: [E.array(getattr(w, k)) for k in ("gvel", "gforce", "admittance")]
    for what in ("dynamic", "controllers", "constraints"):
        getattr(w, "update_" + what)(*([0.125] if what != "dynamic" else []))
        one = get()
        for k in ("gvel", "gforce", "admittance"):
            getattr(w, k)[...] = 9
        for k, x, y in zip(("gvel", "gforce", "admittance"), get(), one):
            E.equal("%s is a copy after the %s" % (k, what), x, y)
    w.integrate(0.125)
    for i, j in enumerate(joints):
        E.equal("and the motion is that of the weight", j.gvel, one[0][i:i + 1] + 0.125 * E.array([-9.81]))


@obligation("P34", "controllers", "any positions and velocities of a three-element chain; updates repeated")
def controllers(E):
    w, a, b, f, ja, jb, cs, cts = scene(E)
    w.update_dynamic()
    one = picture(E, w, a, b, f, ja, jb)
    for c in cts:
        g, Z = c.update(0.125)
        g, Z = E.array(g), E.array(Z)
        for k in range(2):
            h, Y = c.update(0.125)
            E.equal("the same force again", h, g)
            E.equal("the same impedance again", Y, Z)
            h[...] = 4
        for x, y in zip(picture(E, w, a, b, f, ja, jb), one):
            E.equal("a controller only pushes", x, y)


@obligation("P34", "constraints", "any positions and velocities of a three-element chain; updates repeated", max_paths=1600, budget=300)
def constraints(E):
    w, a, b, f, ja, jb, cs, cts = scene(E)
    E.patch(HG, "zaligned", lambda v: E.eye(4))
    w.update_dynamic()
    one = picture(E, w, a, b, f, ja, jb)
    k = cs[E.choice("constraint", 3)]
    from engine import shim
    shim.HOOKS["eigvals"] = lambda B: E.array([-2.])    # some root of the sliding motion
    k.update(0.125)
    act, J, g = bool(k.is_active()), E.array(k.jacobian), E.array(k.gforce)
    k.update(0.125)
    E.true("still active, or still not", bool(k.is_active()) == act)
    E.equal("the same jacobian again", k.jacobian, J)
    E.equal("the same force again", k.gforce, g)
    n = k.ndol
    v, Y = E.vec("rv", n), E.eye(n) * 2
    kept = E.array(v)
    k.solve(v, Y, 0.125)
    E.equal("a correction leaves the velocity it is given", v, kept)
    E.equal("and the admittance", Y, E.eye(n) * 2)
    for x, y in zip(picture(E, w, a, b, f, ja, jb), one):
        E.equal("a constraint only pushes", x, y)
