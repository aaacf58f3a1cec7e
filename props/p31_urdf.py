"""P31 Importing a URDF robot."""
import os
import shutil
import tempfile
import types
from engine.harness import obligation
from ._common import CORE, JOINTS
from .p28_drawer import stubs

UR, UP = "arboris.robots.urdf", "arboris.robots.urdf.urdf_parser"


class Xml(object):
    """The text of a URDF file; numbers are written with str()."""

    def __init__(self, name="robot"):
        self.name, self.parts = name, []

    @staticmethod
    def nums(xs):
        return " ".join(str(x) for x in xs)

    def origin(self, o):
        if o is None:
            return ""
        a = ['%s="%s"' % (k, self.nums(v)) for k, v in zip(("xyz", "rpy"), o) if v is not None]
        return "<origin %s/>" % " ".join(a)

    def link(self, name, inner=""):
        self.parts.append('<link name="%s">%s</link>' % (name, inner))

    def joint(self, name, kind, parent, child, inner=""):
        self.parts.append('<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/>%s</joint>'
                          % (name, kind, parent, child, inner))

    def text(self):
        return '<?xml version="1.0"?>\n<robot name="%s">\n%s\n</robot>' % (self.name, "\n".join(self.parts))


def load(E, text, *args, **kw):
    """URDFConverter on a scratch file holding the text."""
    d = tempfile.mkdtemp(prefix="urdf")
    try:
        f = os.path.join(d, "robot.urdf")
        with open(f, "w") as g:
            g.write(text)
        E.mod(UR)
        c = E.mod(UR).URDFConverter(f, *args, **kw)
    finally:
        shutil.rmtree(d)
    return c, d


def quiet(E):
    """Warnings are printed by the importer; they are not under check."""
    for m in (UR, UP):
        E.patch(m, "print", lambda *a, **k: None)


def pose(E, o):
    """URDF: translation xyz, then fixed-axis roll, pitch, yaw."""
    H = E.eye(4)
    if o is not None and o[1] is not None:
        for a, x in zip("zyx", reversed(o[1])):
            s, c = E.sincos(x)
            H = E.dot(H, E.ref_rot(a, s, c))
    if o is not None and o[0] is not None:
        H[0:3, 3] = E.array(list(o[0]))
    return H


def an_origin(E, tag, which=None):
    """None, or with xyz and rpy given or not."""
    k = E.choice(tag + ".given", 4) if which is None else which
    if k == 0:
        return None
    xyz = [E.real("%s.%s" % (tag, a), -1000, 1000) for a in "xyz"]
    rpy = [E.angle("%s.%s" % (tag, a)) for a in ("roll", "pitch", "yaw")]
    return (xyz if k != 2 else None, rpy if k != 1 else None)


def named(E, w, name):
    hit = [j for j in w.getjoints() if j.name == name]
    E.true("one joint named " + name, len(hit) == 1)
    return hit[0]


def motion(E, kind, u, q):
    """Motion of a joint: rotation by q about the unit vector u, or translation along it."""
    H = E.eye(4)
    u = E.array(list(u))
    if kind == "revolute":
        s, c = E.sincos(q)
        K = E.hat(u)
        H[0:3, 0:3] = E.eye(3) + s * K + (1 - c) * E.dot(K, K)
    elif kind == "prismatic":
        H[0:3, 3] = q * u
    return H


AXES = [("1 0 0", (1, 0, 0)), ("0 1 0", (0, 1, 0)), ("0 0 1", (0, 0, 1)), (None, (1, 0, 0)),
        ("0 0 -1", (0, 0, -1)), ("-2 0 0", (-1, 0, 0)), ("0.0 1.0 0.0", (0, 1, 0))]


def one_joint(E, kind, axis, u, o, H_init, fixed):
    core = E.mod(CORE)
    quiet(E)
    x = Xml()
    a = "" if axis is None else '<axis xyz="%s"/>' % axis
    x.link("base")
    x.joint("j", kind, "base", "tip", x.origin(o) + a)
    x.link("tip")
    w = core.World()
    load(E, x.text(), w, H_init, fixed)
    j = named(E, w, "j")
    root = named(E, w, "root_joint")
    E.true("root joint", root.ndof == (0 if fixed else 6))
    E.true("degrees of freedom", j.ndof == {"revolute": 1, "prismatic": 1, "fixed": 0, "floating": 6}[kind])
    q = None
    G = E.eye(4)
    if not fixed:
        G = E.pose("G")
        root.gpos[...] = G
    if kind == "floating":
        M = E.pose("M")
        j.gpos[...] = M
    else:
        if j.ndof:
            q = E.angle("q")
            j.gpos[:] = E.array([q])
        M = motion(E, kind, u, q)
    w.update_geometric()
    P = dict((b.name, b.pose) for b in w.iterbodies())
    base = E.dot(E.eye(4) if H_init is None else H_init, G)
    E.equal("pose of the root link", P["base"], base)
    E.equal("pose of the child link", P["tip"], E.dot(E.dot(base, pose(E, o)), M))


KINDS = ["revolute", "prismatic", "fixed", "floating"]


@obligation("P31", "joint_motion", "every supported type, axes x, y, z, -z, a multiple of -x, or omitted; any origin "
            "(xyz or rpy possibly omitted), any position", stubs=stubs, max_paths=400, budget=200)
def joint_motion(E):
    kind = KINDS[E.choice("kind", 4)]
    a, u = AXES[E.choice("axis", len(AXES))]
    one_joint(E, kind, a, u, an_origin(E, "o"), None, True)


@obligation("P31", "joint_base", "any initial pose of the robot or none, free or fixed base", stubs=stubs)
def joint_base(E):
    H = E.pose("H") if E.choice("placed", 2) else None
    one_joint(E, "revolute", "0 1 0", (0, 1, 0), an_origin(E, "o", 3), H, bool(E.choice("fixed", 2)))


@obligation("P31", "joint_oblique", "any axis direction whose components are below 1 - 2^-26 in magnitude, of any length "
            "from 1/8 to 8 (prismatic) or 1 (revolute), any position", stubs=stubs, max_paths=1200, budget=200)
def oblique(E):
    u = E.unit("u")
    near = 1 - 2.0 ** -26
    for x in u:
        E.assume(E.AND(x <= near, x >= -near))
    kind = E.choice("kind", 2)
    k = E.real("length", 0.125, 8) if kind else 1
    axis = Xml.nums([k * x for x in u])
    one_joint(E, KINDS[kind], axis, u, None, None, True)


@obligation("P31", "inertia", "any mass and inertia entries (|x|<=1000), any origin (parts possibly omitted), or none; "
            "masses and moments below 1e-6 are raised to it", stubs=stubs)
def inertia(E):
    core = E.mod(CORE)
    quiet(E)
    x = Xml()
    k = E.choice("inertial", 3)
    M = E.arr((6, 6))
    if k:
        lo = 0.00390625 if k == 1 else -5
        m = E.real("m", lo, 5 if k == 1 else 0)
        d = [E.real("i" + n, lo, 5 if k == 1 else 0) for n in ("xx", "yy", "zz")]
        e = [E.real("i" + n, -5, 5) for n in ("xy", "xz", "yz")]
        o = an_origin(E, "o")
        x.link("base", '<inertial>%s<mass value="%s"/><inertia ixx="%s" ixy="%s" ixz="%s" iyy="%s" iyz="%s" '
               'izz="%s"/></inertial>' % (x.origin(o), m, d[0], e[0], e[1], d[1], e[2], d[2]))
        if k == 2:
            from fractions import Fraction
            t = Fraction(1, 10 ** 6) if E.symbolic else 1e-6
            m, d = t, [t] * 3
        E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
        I = E.array([[d[0], e[0], e[1]], [e[0], d[1], e[2]], [e[1], e[2], d[2]]])
        H = pose(E, o)
        R, c = H[0:3, 0:3], E.hat(H[0:3, 3])
        M[0:3, 0:3] = E.dot(E.dot(R, I), R.T) - m * E.dot(c, c)
        M[0:3, 3:6] = m * c
        M[3:6, 0:3] = -m * c
        M[3:6, 3:6] = m * E.eye(3)
    else:
        x.link("base")
    w = core.World()
    load(E, x.text(), w)
    b = [b for b in w.iterbodies() if b.name == "base"]
    E.true("one body per link", len(b) == 1)
    E.equal("mass matrix about the link frame", b[0].mass, M)
    w.update_dynamic()


@obligation("P31", "collision_shapes", "box, sphere, cylinder, mesh or none, of any size, at any origin (parts possibly "
            "omitted)", stubs=stubs)
def collision(E):
    core, sh = E.mod(CORE), E.mod("arboris.shapes")
    quiet(E)
    x = Xml()
    k = E.choice("shape", 5)
    a = [E.real("a%d" % i, 0.0625, 100) for i in range(3)]
    geo = [None, '<box size="%s"/>' % x.nums(a), '<sphere radius="%s"/>' % a[0],
           '<cylinder radius="%s" length="%s"/>' % (a[0], a[1]), '<mesh filename="part.dae"/>'][k]
    o = an_origin(E, "o")
    x.link("base", "" if geo is None else "<collision>%s<geometry>%s</geometry></collision>" % (x.origin(o), geo))
    w = core.World()
    load(E, x.text(), w)
    G = E.pose("G")
    named(E, w, "root_joint").gpos[...] = G
    w.update_geometric()
    S = list(w.iterregistered() if hasattr(w, "iterregistered") else w.getshapes())
    if k in (0, 4):
        E.true("no shape", len(S) == 0)
        return
    E.true("one shape", len(S) == 1)
    s = S[0]
    E.true("of its kind", type(s).__name__ == [0, "Box", "Sphere", "Cylinder"][k])
    E.true("on its link", s.frame.body.name == "base")
    E.equal("at its place", s.frame.pose, E.dot(G, pose(E, o)))
    if k == 1:
        E.equal("half extents", E.array(list(s.half_extents)), E.array(a) / 2)
    elif k == 2:
        E.equal("radius", s.radius, a[0])
    else:
        E.equal("radius", s.radius, a[0])
        E.equal("length", s.length, a[1])


def shown(E, which):
    k = E.choice("shape", 5)
    quiet(E)
    x = Xml()
    a = [E.real("a%d" % i, 0.0625, 100) for i in range(3)]
    geo = ['<box size="%s"/>' % x.nums(a), '<sphere radius="%s"/>' % a[0],
           '<cylinder radius="%s" length="%s"/>' % (a[0], a[1]), '<mesh filename="part.dae" scale="%s"/>' % x.nums(a),
           '<mesh filename="part.dae"/>'][k]
    o = an_origin(E, "o")
    tag = ["visual", "collision"][which]
    other = ["collision", "visual"][which]
    ball = "<%s><geometry><sphere radius=\"%s\"/></geometry></%s>"
    extra = E.choice("others", 3)
    r = E.real("r", 0.0625, 100)
    x.link("base", "<%s>%s<geometry>%s</geometry></%s>" % (tag, x.origin(o), geo, tag) +
           (ball % (other, "1", other) if extra else ""))
    x.link("more", ball % (other, "1", other) + (ball % (tag, r, tag) if extra == 1 else ""))
    x.link("last", ball % (tag, r, tag) if extra == 2 else "")
    x.joint("j", "fixed", "base", "more")
    x.joint("k", "fixed", "more", "last")
    c, d = load(E, x.text(), prefix="left_", suffix="_2")
    ask = lambda: c.get_collision_shapes() if which else c.get_visual_shapes()
    E.true("as often as asked", [g["frame"] for g in ask()] == [g["frame"] for g in ask()])
    got = ask()
    E.true("the links that have one", len(got) == 1 + bool(extra))
    if extra:
        k2 = [g for g in got if g["frame"] == ["", "left_more_2", "left_last_2"][extra]]
        E.true("each under its own name", len(k2) == 1)
        E.equal("each of its size", k2[0]["scale"], r)
        got = [g for g in got if g is not k2[0]]
    g = got[0]
    E.true("under the name of the body", g["frame"] == "left_base_2")
    E.equal("at its place", g["transform"], pose(E, o))
    s = g["scale"]
    s = E.array(list(s) if isinstance(s, (list, tuple)) or hasattr(s, "shape") and s.shape else [s] * 3)
    # the unit meshes: a cube of half length 1, a sphere of radius 1, a cylinder of radius and length 1
    E.equal("size", s, E.array([[a[0] / 2, a[1] / 2, a[2] / 2], [a[0]] * 3, [a[0], a[0], a[1]], a, [1] * 3][k]))
    if k < 3:
        f, _, n = g["mesh"].partition("#")
        E.true("a mesh of the package", os.path.basename(f) == "simple_shapes.dae" and
               n == "simple_%s_node" % ["box", "sphere", "cylinder"][k])
    else:
        E.true("next to the URDF file", os.path.normpath(g["mesh"]) == os.path.join(d, "part.dae"))


obligation("P31", "visual_shapes", "box, sphere, cylinder or mesh of any size (scale), at any origin (parts possibly "
           "omitted)", stubs=stubs)(lambda E: shown(E, 0))
obligation("P31", "collision_meshes", "the same, for the collision elements", stubs=stubs)(lambda E: shown(E, 1))


@obligation("P31", "limits", "revolute, prismatic or fixed joint with limits (either bound possibly missing) or none; "
            "saved or not", stubs=stubs)
def limits(E):
    core = E.mod(CORE)
    quiet(E)
    kind = KINDS[E.choice("kind", 3)]
    has, save = E.choice("limits", 5), bool(E.choice("save", 2))
    lo, up = E.real("lower", -5, 0), E.real("upper", 0, 5)
    ef, ve = E.real("effort", 0, 5), E.real("velocity", 0, 5)
    x = Xml()
    x.link("base")
    x.link("tip")
    a = ""
    if has:
        a = '<limit effort="%s" velocity="%s"%s%s/>' % (
            ef, ve, ' lower="%s"' % lo if has & 1 else "", ' upper="%s"' % up if has in (3, 4) else "")
    x.joint("j", kind, "base", "tip", a)
    w = core.World()
    c, _ = load(E, x.text(), w, save_joint_limits=save, prefix="p_", suffix="_s")
    both = has == 3
    L = list(w.getconstraints())
    j = named(E, w, "p_j_s")
    if both and save and kind != "fixed":
        E.true("one constraint", len(L) == 1)
        J = E.arr((1, w.ndof))
        J[0, list(range(w.ndof))[j.dof]] = 1
        E.equal("it acts on the joint", L[0].jacobian, J)
        e = E.real("beyond", 0.125, 1)
        for label, q, f in (("lower", lo - e, e), ("upper", up + e, -e)):
            j.gpos[:] = q
            L[0].update(1.)
            E.true("%s limit active" % label, L[0].is_active())
            E.equal("%s limit pushes back to its bound" % label, L[0].solve(E.arr(1), E.eye(1), 1.), E.array([f]))
    else:
        E.true("no constraint", L == [])
    d = c.get_joint_limits()
    E.true("joints with both bounds", set(d) == ({"p_j_s"} if both else set()))
    if both:
        E.equal("bounds", E.array(list(d["p_j_s"])), E.array([lo, up]))
    d, f = c.get_effort_limits(), c.get_velocity_limits()
    E.true("joints with limits", set(d) == set(f) == ({"p_j_s"} if has else set()))
    if has:
        E.equal("effort", d["p_j_s"], ef)
        E.equal("velocity", f["p_j_s"], ve)


@obligation("P31", "structure", "four links in any tree, links and joints in either order in the file; with and without "
            "a prefix and a suffix", stubs=stubs, max_paths=800, budget=200)
def structure(E):
    core = E.mod(CORE)
    quiet(E)
    x = Xml()
    par = [E.choice("parent%d" % i, i) for i in range(1, 4)]
    o = [[E.real("x%d" % i, -1000, 1000), 0, 0] for i in range(3)]
    back, late = E.choice("backwards", 2), E.choice("joints first", 2)
    pre, suf = [("", ""), ("a_", ""), ("", "_b"), ("a_", "_b")][E.choice("fix", 4)]
    do = [lambda i=i: x.link("l%d" % i) for i in range(4)]
    dj = [lambda i=i: x.joint("j%d" % i, "revolute", "l%d" % par[i - 1], "l%d" % i, x.origin((o[i - 1], None)))
          for i in range(1, 4)]
    if back:
        do.reverse()
        dj.reverse()
    for f in (dj + do if late else do + dj):
        f()
    w = core.World()
    c, _ = load(E, x.text(), w, prefix=pre, suffix=suf, root_joint_name="start", fixed_base=True)
    nm = lambda s: pre + s + suf
    bodies = dict((b.name, b) for b in w.iterbodies())
    E.true("the bodies", set(bodies) == set(["ground"] + [nm("l%d" % i) for i in range(4)]))
    js = dict((j.name, j) for j in w.getjoints())
    E.true("the joints", set(js) == set([nm("start")] + [nm("j%d" % i) for i in range(1, 4)]))
    link = lambda n: (js[nm(n)].frames[0].body.name, js[nm(n)].frames[1].body.name)
    E.true("the root is fixed to the ground", link("start") == ("ground", nm("l0")))
    for i in range(1, 4):
        E.true("joint between its links", link("j%d" % i) == (nm("l%d" % par[i - 1]), nm("l%d" % i)))
    E.true("the joint classes keep no name", all(
        not isinstance(getattr(k, "name", None), str) for k in (E.mod(JOINTS).RxJoint, E.mod(JOINTS).FixedJoint)))
    w.update_geometric()
    for i in range(1, 4):
        p, k = 0, i
        while k:
            p, k = p + o[k - 1][0], par[k - 1]
        E.equal("placed along its chain", bodies[nm("l%d" % i)].pose[0:3, 3], E.array([p, 0, 0]))
    # chains of the parsed robot
    r = c.robot
    E.true("root", r.get_root() == "l0")
    tip = "l%d" % E.choice("tip", 4)
    up, k = [tip], int(tip[1])
    while k:
        up[:0] = ["l%d" % par[k - 1], "j%d" % k]
        k = par[k - 1]
    E.true("chain", r.get_chain("l0", tip) == up)
    E.true("links of a chain", r.get_chain("l0", tip, joints=False) == up[0::2])
    E.true("joints of a chain", r.get_chain("l0", tip, links=False) == up[1::2])


@obligation("P31", "refused", "two roots, a loop, an unknown joint type, no file", stubs=stubs)
def refused(E):
    core = E.mod(CORE)
    quiet(E)
    k = E.choice("case", 4)
    x = Xml()
    for i in range(2):
        x.link("l%d" % i)
    if k == 1:
        x.joint("a", "fixed", "l0", "l1")
        x.joint("b", "fixed", "l1", "l0")
    elif k == 2:
        x.joint("a", "strange", "l0", "l1")
    w = core.World()
    if k == 3:
        E.raises("no file was loaded", ValueError, lambda: E.mod(UR).URDFConverter(world=w))
    else:
        E.raises("refused", Exception, lambda: load(E, x.text(), w))


def same(E, a, b, path="robot"):
    if isinstance(a, dict):
        E.true("same keys in " + path, set(a) == set(b))
        for k in a:
            same(E, a[k], b[k], "%s.%s" % (path, k))
    elif isinstance(a, (list, tuple)):
        E.true("same length of " + path, len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(E, x, y, "%s[%d]" % (path, i))
    elif a is None or isinstance(a, str):
        E.true("same %s" % path, a == b)
    elif hasattr(a, "__dict__"):
        E.true("same kind of %s" % path, type(a) is type(b))
        same(E, vars(a), vars(b), path)
    else:
        E.equal("same %s" % path, a, b)


@obligation("P31", "saved_and_read_back", "a robot with every element, any numbers; parts possibly omitted", stubs=stubs)
def round_trip(E):
    p = E.mod(UP)
    n = [0]

    def r():
        n[0] += 1
        return E.real("r%d" % n[0], -5, 5)

    def r3():
        return [r(), r(), r()]
    some = E.choice("given", 3)
    P = p.Pose(r3() if some != 1 else None, r3() if some != 2 else None)
    geo = [p.Box(r3()), p.Sphere(r()), p.Cylinder(r(), r()), p.Mesh("m.dae", r3() if some else None)][E.choice("geometry", 4)]
    mat = p.Material("red", p.Color(r(), r(), r(), r()) if some else None, "t.png" if some != 1 else None)
    link = p.Link("a", p.Visual(geo, mat, P), p.Inertial(r(), r(), r(), r(), r(), r(), r(), P), p.Collision(geo, P))
    lim = p.JointLimit(r(), r(), r() if some else None, r() if some != 1 else None)
    mimic = p.JointMimic("other", r() if some else None, r() if some != 1 else None)
    j = p.Joint("j", "a", "b", "revolute", "0 1 0" if some else None, P, lim,
                p.Dynamics(str(r()), str(r())) if some else p.Dynamics(), p.SafetyController(r(), r(), r(), r() if some else None),
                p.JointCalibration(r(), r() if some else None), mimic)
    u = p.URDF("robot")
    for x in (link, p.Link("b")):
        u.add_link(x)
    u.add_joint(j)
    u.add_material(mat)
    v = p.URDF.parse_xml_string(u.to_xml())
    same(E, u, v)
    E.true("printable", isinstance(str(v), str))


@obligation("P31", "two_robots", "two robots loaded one after the other in one world under different prefixes; two links "
            "each, with any masses, moments, sizes, limits and origins", stubs=stubs, budget=200, max_paths=800)
def two_robots(E):
    core = E.mod(CORE)
    quiet(E)
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    w = core.World()
    got, want = [], []
    # what the first omits must not come from the second, and the reverse
    bare, turned = E.choice("bare", 3), E.choice("turned", 2)
    names = []
    for n, pre in enumerate(("left_", "right_")):
        v = {}

        def r(k, lo=-5, hi=5):
            v[k] = E.real("%s%s" % (pre, k), lo, hi)
            return v[k]
        x = Xml("twin")
        full = bare != n + 1
        two = ("tip", "base") if n and turned else ("base", "tip")
        names.append(two)
        for i, l in enumerate(two):
            inner = ""
            if full or i:
                inner = '<inertial><mass value="%s"/><inertia ixx="%s" iyy="%s" izz="%s" ixy="%s" ixz="%s" iyz="%s"/></inertial>' % (
                    (r("m%d" % i, 0.25),) + tuple(r("%s%d" % (k, i), 0.25) for k in ("xx", "yy", "zz")) +
                    tuple(r("%s%d" % (k, i)) for k in ("xy", "xz", "yz")))
                inner += '<collision><geometry><sphere radius="%s"/></geometry></collision>' % r("c%d" % i, 0.25)
                inner += '<visual><geometry><sphere radius="%s"/></geometry></visual>' % r("s%d" % i, 0.25)
            x.link(l, inner)
        x.joint("j", "revolute", two[0], two[1],
                ('<origin xyz="%s 0 0"/><axis xyz="0 1 0"/>' % r("x") if full else "") +
                ('<limit effort="%s" velocity="%s" lower="%s" upper="%s"/>' % (
                    r("e", 0), r("v", 0), r("lo", -5, -1), r("up", 1)) if full else ""))
        x.parts.append('<material name="paint_%s"><color rgba="1 0 0 1"/></material>' % pre)
        c, _ = load(E, x.text(), w, fixed_base=True, prefix=pre, save_joint_limits=True)
        got.append(c)
        want.append((full, v))
    E.true("both are there", sorted(b.name for b in w.iterbodies()) ==
           ["ground", "left_base", "left_tip", "right_base", "right_tip"])
    E.true("limits of those that have some", len(list(w.getconstraints())) == 2 - bool(bare))
    B = dict((b.name, b) for b in w.iterbodies())
    w.update_geometric()
    S = list(w.itershapes())
    for pre, c, (full, v), two in zip(("left_", "right_"), got, want, names):
        for i, l in enumerate(two):
            b = B[pre + l]
            M = E.arr((6, 6))
            rr, vis = [], [g for g in c.get_visual_shapes() if g["frame"] == b.name]
            if full or i:
                g = lambda k: v["%s%d" % (k, i)]
                M[0:3, 0:3] = E.array([[g("xx"), g("xy"), g("xz")], [g("xy"), g("yy"), g("yz")], [g("xz"), g("yz"), g("zz")]])
                M[3:6, 3:6] = g("m") * E.eye(3)
                rr = [g("c")]
            E.equal("mass of %s" % b.name, b.mass, M)
            E.equal("no viscosity", b.viscosity, E.arr((6, 6)))
            mine = [s for s in S if s.frame.body is b]
            E.true("shapes of %s" % b.name, len(mine) == len(rr))
            for s, x in zip(mine, rr):
                E.equal("radius of %s" % b.name, s.radius, x)
            E.true("seen shapes of %s" % b.name, len(vis) == len(rr))
            for s in vis:
                E.equal("seen radius of %s" % b.name, s["scale"], v["s%d" % i])
        E.true("only its own shapes", set(g["frame"] for g in c.get_visual_shapes()) <= set([pre + "base", pre + "tip"]))
        x = E.arr(3)
        if full:
            x[0] = v["x"]
        E.equal("place of %s" % pre, B[pre + two[1]].pose[0:3, 3], x)
        E.true("limits of its own", set(c.get_joint_limits()) == set(c.get_effort_limits()) ==
               set(c.get_velocity_limits()) == (set([pre + "j"]) if full else set()))
        if full:
            E.equal("bounds of %s" % pre, E.array(list(c.get_joint_limits()[pre + "j"])), E.array([v["lo"], v["up"]]))
            E.equal("effort of %s" % pre, c.get_effort_limits()[pre + "j"], v["e"])
            E.equal("velocity of %s" % pre, c.get_velocity_limits()[pre + "j"], v["v"])
        k = c.robot
        E.true("own tree", k.get_root() == two[0] and k.get_chain(*two) == [two[0], "j", two[1]]
               and set(k.links) == set(["base", "tip"]) and set(k.joints) == set(["j"]))
        E.true("own parts", list(k.materials) == ["paint_" + pre] and len(k.elements) == 4)
        E.true("own maps", k.child_map == {two[0]: [("j", two[1])]} and k.parent_map == {two[1]: ("j", two[0])})


@obligation("P31", "grown", "a robot built by hand, link by link: up to four links in any tree, then two more above or below "
            "them; asked for its root, its chains and its text all along", stubs=stubs, max_paths=800)
def grown(E):
    p = E.mod(UP)
    u = p.URDF("robot")
    E.raises("no root yet", AssertionError, u.get_root)
    E.true("nothing to list", str(u).count("None") == 3)
    par = {}

    def check(root):
        E.true("root", u.get_root() == root)
        E.true("maps", u.parent_map == dict((c, ("j" + c, q)) for c, q in par.items()) and
               dict((k, sorted(v)) for k, v in u.child_map.items()) ==
               dict((q, sorted(("j" + c, c) for c in par if par[c] == q)) for q in par.values()))
        for tip in list(u.links):
            up, k = [tip], tip
            while k != root:
                up[:0] = [par[k], "j" + k]
                k = par[k]
            E.true("chain", u.get_chain(root, tip) == up)
            E.true("its moving joints", u.get_chain(root, tip, links=False, fixed=False) ==
                   [j for j in up[1::2] if u.joints[j].joint_type != "fixed"])
        t = str(u)
        E.true("all listed", all("Link '%s'" % k in t for k in u.links) and all("Joint '%s'" % k in t for k in u.joints) and
               all("Material '%s'" % k in t for k in u.materials))

    def add(c, q):
        u.add_link(p.Link(c))
        if q is not None:
            par[c] = q
            u.add_joint(p.Joint("j" + c, q, c, ["revolute", "fixed", "floating", "prismatic", "fixed"][len(par) % 5]))
    add("l0", None)
    check("l0")
    for i in (1, 2):
        add("l%d" % i, "l%d" % E.choice("parent%d" % i, i))
        u.add_material(p.Material("m%d" % i))
        check("l0")
    u.add_link(p.Link("top"))
    E.raises("two roots", AssertionError, u.get_root)
    par["l0"] = "top"
    u.add_joint(p.Joint("jl0", "top", "l0", "revolute"))
    check("top")
    add("end", ["top", "l2"][E.choice("under", 2)])
    check("top")


@obligation("P31", "angles", "any rotation whose first column is >= 2e-9 away from the z axis; any three angles", stubs=stubs)
def angles(E):
    U = E.mod(UR)
    R = E.eye(4)
    for n in "zyx":
        s, c = E.sincos(E.angle(n))
        R = E.dot(R, E.ref_rot(n, s, c))
    R = R[0:3, 0:3]
    E.assume(E.OR(R[0, 0] >= 2e-9, R[0, 0] <= -2e-9, R[1, 0] >= 2e-9, R[1, 0] <= -2e-9))
    a = U.rotation_matrix_to_roll_pitch_yaw(R)
    S = E.eye(4)
    for n, x in zip("zyx", (a[2], a[1], a[0])):
        s, c = E.sincos(x)
        S = E.dot(S, E.ref_rot(n, s, c))
    E.equal("roll, pitch and yaw of a rotation", S[0:3, 0:3], R)
    b = [E.angle(n) for n in ("roll", "pitch", "yaw")]
    S = E.eye(4)
    for n, x in zip("zyx", b[::-1]):
        s, c = E.sincos(x)
        S = E.dot(S, E.ref_rot(n, s, c))
    E.equal("rotation of roll, pitch and yaw", U.roll_pitch_yaw_to_rotation_matrix(*b), S[0:3, 0:3])


@obligation("P31", "robot_many", "15 links in a chain, a star, a binary tree, a comb or two long branches; fixed, revolute and prismatic joints "
            "about x, y, z or -z; any masses, radii, lengths, limits and offsets; two joints at any angle; forwards or backwards in the file",
            stubs=stubs, budget=200)
def robot_many(E):
    from .p21_model import large
    core = E.mod(CORE)
    quiet(E)
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    parents = large(E, 14)
    back = E.choice("backwards", 2)
    x = Xml("many")
    R = lambda k, lo, hi: E.real(k, lo, hi)
    m = [R("m%d" % i, 0.25, 8) for i in range(15)]
    r = [R("r%d" % i, 0.25, 8) for i in range(15)]
    s = [R("s%d" % i, 0.25, 8) for i in range(15)]
    o = [R("o%d" % i, -8, 8) for i in range(14)]
    lo, up = [R("lo%d" % i, -5, -1) for i in range(14)], [R("up%d" % i, 1, 5) for i in range(14)]
    ef, ve = [R("e%d" % i, 0, 5) for i in range(14)], [R("v%d" % i, 0, 5) for i in range(14)]
    kinds = ["revolute", "fixed", "prismatic"]
    axes = [("1 0 0", (1, 0, 0)), ("0 1 0", (0, 1, 0)), ("0 0 1", (0, 0, 1)), ("0 0 -1", (0, 0, -1))]

    def link(i):
        geo = ['<sphere radius="%s"/>' % r[i], '<cylinder radius="%s" length="2"/>' % r[i], '<box size="%s 1 1"/>' % r[i]][i % 3]
        x.link("l%d" % i, ('<inertial><mass value="%s"/><inertia ixx="1" iyy="2" izz="3" ixy="0" ixz="0" iyz="0"/></inertial>' % m[i]
                           if i % 4 != 2 else "") + ("<collision><geometry>%s</geometry></collision>" % geo if i % 5 != 3 else "") +
               ('<visual><geometry><sphere radius="%s"/></geometry></visual>' % s[i] if i % 5 != 1 else ""))

    def joint(i):
        x.joint("j%d" % i, kinds[i % 3], "l%d" % parents[i], "l%d" % (i + 1), '<origin xyz="%s 0 1"/><axis xyz="%s"/>' % (
            o[i], axes[i % 4][0]) + ('<limit effort="%s" velocity="%s" lower="%s" upper="%s"/>' % (ef[i], ve[i], lo[i], up[i])
                                     if i % 4 < 3 else ""))
    do = [lambda i=i: link(i) for i in range(15)] + [lambda i=i: joint(i) for i in range(14)]
    for f in do[::-1] if back else do:
        f()
    w = core.World()
    c, _ = load(E, x.text(), w, fixed_base=True, save_joint_limits=True)
    B = dict((b.name, b) for b in w.iterbodies())
    E.true("every link", set(B) == set(["ground"] + ["l%d" % i for i in range(15)]))
    E.true("every joint", sorted(j.name for j in w.getjoints()) == sorted(["root_joint"] + ["j%d" % i for i in range(14)]))
    js = [named(E, w, "j%d" % i) for i in range(14)]
    q = [0] * 14
    for i in (6, 9):                        # revolute ones
        q[i] = E.angle("q%d" % i)
        js[i].gpos[:] = q[i]
    w.update_geometric()
    at = [E.eye(4)]
    for i, p in enumerate(parents):
        E.true("degrees of freedom", js[i].ndof == (i % 3 != 1))
        E.true("between its links", [f.body.name for f in js[i].frames] == ["l%d" % p, "l%d" % (i + 1)])
        at.append(E.dot(at[p], pose(E, ([o[i], 0, 1], None)), motion(E, kinds[i % 3], axes[i % 4][1], q[i])))
    S = list(w.itershapes())
    E.true("every shape", len(S) == sum(i % 5 != 3 for i in range(15)))
    vis = c.get_visual_shapes()
    E.true("every picture", len(vis) == sum(i % 5 != 1 for i in range(15)))
    for i in range(15):
        b = B["l%d" % i]
        E.equal("place of link %d" % i, b.pose, at[i])
        M = E.arr((6, 6))
        if i % 4 != 2:
            for k in range(3):
                M[k, k], M[3 + k, 3 + k] = k + 1, m[i]
        E.equal("mass of link %d" % i, b.mass, M)
        mine = [k for k in S if k.frame.body is b]
        E.true("shape of link %d" % i, len(mine) == (i % 5 != 3))
        for k in mine:
            E.true("its kind", type(k).__name__ == ["Sphere", "Cylinder", "Box"][i % 3])
            E.equal("size on link %d" % i, [lambda: k.radius, lambda: k.radius, lambda: 2 * k.half_extents[0]][i % 3](), r[i])
        mine = [g for g in vis if g["frame"] == b.name]
        E.true("picture of link %d" % i, len(mine) == (i % 5 != 1))
        for g in mine:
            E.equal("size of the picture of link %d" % i, g["scale"], s[i])
    lim = [i for i in range(14) if i % 4 < 3]
    E.true("every limit", set(c.get_joint_limits()) == set(c.get_effort_limits()) == set(c.get_velocity_limits()) ==
           set("j%d" % i for i in lim))
    for i in lim:
        k = "j%d" % i
        E.equal("bounds of " + k, E.array(list(c.get_joint_limits()[k])), E.array([lo[i], up[i]]))
        E.equal("effort of " + k, c.get_effort_limits()[k], ef[i])
        E.equal("speed of " + k, c.get_velocity_limits()[k], ve[i])
    L = dict((id(k._joint), k) for k in w.getconstraints())
    held = [i for i in lim if i % 3 != 1]
    E.true("a stop on every moving joint with bounds", set(L) == set(id(js[i]) for i in held))
    for i in held:
        js[i].gpos[:] = up[i] + 0.5
        L[id(js[i])].update(1.)
        E.true("it acts beyond the bound", L[id(js[i])].is_active())
        E.equal("and pushes back to it", L[id(js[i])].solve(E.arr(1), E.eye(1), 1.), E.array([-0.5]))
    E.true("its tree", c.robot.get_root() == "l0")
    for t in range(15):
        ch, k = ["l%d" % t], t
        while k:
            ch[:0] = ["l%d" % parents[k - 1], "j%d" % (k - 1)]
            k = parents[k - 1]
        E.true("chain to link %d" % t, c.robot.get_chain("l0", "l%d" % t) == ch)


@obligation("P31", "awkward_text", "comments, blank text and new lines everywhere, numbers with signs and exponents, a mesh with one scale "
            "for all axes, a root with ten children; any radius, mass and lengths", stubs=stubs)
def awkward_text(E):
    core = E.mod(CORE)
    quiet(E)
    r, m, t = E.real("r", 0.0625, 100), E.real("m", 0.25, 8), [E.real("t%d" % i, -8, 8) for i in range(10)]
    n = "\n  <!-- a note -->\n  "
    wrap = lambda tag, inner, a="": "<%s%s>%s%s%s</%s>" % (tag, a, n, n.join(inner), n, tag)
    P = []
    P.append(wrap("link", [
        wrap("inertial", ['<origin rpy="0 0 0" xyz="+1e-3  -2E0\n\t.5"/>', '<mass value="%s"/>' % m,
                          '<inertia ixx="4" iyy="5.0e+0" izz="6." ixy="0" ixz="-0" iyz="0"/>']),
        wrap("visual", [wrap("geometry", ['<mesh filename="a.dae" scale="2.0 2.0 2.0"/>'])]),
        wrap("collision", [wrap("geometry", ['<sphere radius="%s"/>' % r])])], ' name="l0"'))
    for i in range(10):
        P.append('<link name="c%d"/>' % i)
        P.append(wrap("joint", ['<child link="c%d"/>' % i, '<axis xyz="0  0\n1"/>', '<parent link="l0"/>',
                                '<origin xyz="%s 0 1e-1"/>' % t[i],
                                '<limit effort="1" velocity="2" lower="-1e-2" upper="+1"/>'], ' type="revolute" name="j%d"' % i))
    w = core.World()
    c, _ = load(E, '<?xml version="1.0"?>\n<!-- first -->\n' + wrap("robot", P, ' name="it"'), w, fixed_base=True,
                save_joint_limits=True)
    B = dict((b.name, b) for b in w.iterbodies())
    E.true("every link", set(B) == set(["ground", "l0"] + ["c%d" % i for i in range(10)]))
    w.update_geometric()
    for i in range(10):
        E.equal("its place", B["c%d" % i].pose[0:3, 3], E.array([t[i], 0, 0.1]))
        E.equal("its bounds", E.array(list(c.get_joint_limits()["j%d" % i])), E.array([-0.01, 1]))
    E.equal("the mass", B["l0"].mass[5, 5], m)
    E.equal("its place", B["l0"].mass[0:3, 3:6], m * E.hat([0.001, -2, 0.5]))
    S = list(w.itershapes())
    E.true("one shape", len(S) == 1)
    E.equal("the radius", S[0].radius, r)
    V = c.get_visual_shapes()
    E.true("one picture", len(V) == 1)
    g = V[0]["scale"]
    E.true("three scales", len(g) == 3)
    E.equal("the scales", E.array(list(g)), E.array([2, 2, 2]))
    u = c.robot
    E.true("children", sorted(k for _, k in u.child_map["l0"]) == sorted("c%d" % i for i in range(10)))
    E.true("listed", all("Joint 'j%d'" % i in str(u) for i in range(10)))


@obligation("P31", "small_numbers", "a robot with small and long numbers (2^-30, 2^-40 + 2, 1e-7, 1e20) in every element, and any offset; "
            "written and read back", stubs=stubs)
def small_numbers(E):
    p = E.mod(UP)
    tiny = [2.0 ** -30, 2.0 ** -40 + 2, 1e-7, 1e20, 1.0 / 3]
    k = [0]

    def f(_=0):
        k[0] += 1
        return tiny[(k[0] + shift) % 5]
    shift = E.choice("shift", 5)
    a = E.real("a", -8, 8)
    P = p.Pose([f(), a, f()], [f(), f(), f()])
    geo = [p.Box([f(), f(), f()]), p.Sphere(f()), p.Cylinder(f(), f()), p.Mesh("m.dae", [f(), f(), f()])]
    u = p.URDF("robot")
    for i in range(4):
        u.add_link(p.Link("l%d" % i, p.Visual(geo[i], p.Material("x", p.Color(f(), f(), f(), f())), P),
                          p.Inertial(f(), f(), f(), f(), f(), f(), f(), P), p.Collision(geo[3 - i], P)))
    for i in range(3):
        u.add_joint(p.Joint("j%d" % i, "l0", "l%d" % (i + 1), "revolute", "0 1 0", P, p.JointLimit(f(), f(), f(), f()), p.Dynamics(),
                            p.SafetyController(f(), f(), f(), f()), p.JointCalibration(f(), f()), p.JointMimic("j0", f(), f())))
    v = p.URDF.parse_xml_string(u.to_xml())

    def ratio(x, y, path):
        if isinstance(x, dict):
            E.true("same keys in " + path, set(x) == set(y))
            for q in x:
                ratio(x[q], y[q], "%s.%s" % (path, q))
        elif isinstance(x, (list, tuple)):
            E.true("same length of " + path, len(x) == len(y))
            for i, (q, z) in enumerate(zip(x, y)):
                ratio(q, z, "%s[%d]" % (path, i))
        elif isinstance(x, float) and x in tiny:        # relative
            E.equal("same %s" % path, y / x, 1)
        elif hasattr(x, "__dict__") and type(x).__module__ == p.__name__:
            E.true("same kind of %s" % path, type(x) is type(y))
            ratio(vars(x), vars(y), path)
        else:
            same(E, x, y, path)
    ratio(u, v, "robot")
