"""P28 Drawing a world: the scene graph and the colours."""
import types
from engine.harness import obligation
from ._common import CORE, JOINTS, const_mass

WD = "arboris.visu.world_drawer"


def stubs(E):
    """The collada writer and the viewer need packages that are not installed (and Python 2)."""
    p, d = types.ModuleType("pydaenim"), types.ModuleType("arboris.visu.dae_writer")
    d.write_collada_scene = d.write_collada_animation = None
    return {"pydaenim": p, "arboris.visu.dae_writer": d}


class Node(object):
    def __init__(self, kind, *data):
        self.kind, self.data, self.parent, self.category, self.name = kind, data, None, None, None
        self.H, self.children, self.constant = None, [], None


def driver(E):
    wd = E.mod(WD)

    class Driver(wd.DrawerDriver):
        finished = 0

        def add_ground(self, up):
            self.ground = Node("ground", up)
            self.ground.H = E.eye(4)
            return self.ground

        def init(self):
            pass

        def finish(self):
            self.finished += 1

        def create_transform(self, pose, is_constant, name=None):
            n = Node("transform")
            n.H, n.constant, n.name = E.array(pose), is_constant, name
            return n

        def create_inertia(self, inertia, color, name=None):
            return Node("inertia", E.array(inertia), color)

        def create_frame_arrows(self):
            return Node("arrows")

        def create_line(self, start, end, color, name=None):
            return Node("line", E.array(list(start)), E.array(list(end)), color)

        def create_ellipsoid(self, radii, color, name=None):
            return Node("ellipsoid", E.array(list(radii)), color)

        def create_box(self, half_extents, color, name=None):
            return Node("box", E.array(list(half_extents)), color)

        def create_plane(self, coeffs, color, name=None):
            return Node("plane", E.array(list(coeffs)), color)

        def create_cylinder(self, length, radius, color, name=None):
            return Node("cylinder", E.array([length, radius]), color)

        def add_child(self, parent, child, category=None):
            E.true("one parent", child.parent is None)
            child.parent, child.category = parent, category
            parent.children.append(child)
    return Driver()


def absolute(E, n):
    H = E.eye(4)
    while n.parent is not None:
        if n.H is not None:
            H = E.dot(n.H, H)
        n = n.parent
    return H, n


def scene(E, flat):
    core, jm, sh, wd = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes"), E.mod(WD)
    w = core.World()
    b = [core.Body("b%d" % i) for i in range(2)]
    b[1].mass = const_mass(E, 1)
    q = E.arr(2)
    q[0], q[1] = E.angle("q0"), E.angle("q1")
    js = [jm.RzRyJoint(gpos=q), jm.FreeJoint(gpos=E.pose("G"))]
    near = E.choice("parent", 2)            # the second body hangs from the first or the ground
    off = E.choice("offsets", 4)
    base = b[0] if near == 0 else w.ground
    f0 = [core.SubFrame(w.ground, E.pose("A0"), "a0") if off & 1 else w.ground,
          core.SubFrame(base, E.pose("A1"), "a1") if off & 1 else base]
    f1 = [core.SubFrame(x, E.pose("C%d" % i), "c%d" % i) if off & 2 else x for i, x in enumerate(b)]
    for i in range(2):
        w.add_link(f0[i], js[i], f1[i])
    moving = core.MovingSubFrame(b[0], E.pose("M"), "moving")
    still = core.SubFrame(b[1], E.pose("S"), "still")
    w.register(moving)
    w.register(still)
    shapes = [sh.Sphere(moving, 0.5), sh.Box(still, (1., 2., 3.)), sh.Cylinder(b[0], 2., 0.25),
              sh.Point(b[1]), sh.Plane(w.ground, (0., 1., 0., 0.5))]
    for s in shapes:
        w.register(s)
    w.init()
    w.update_geometric()
    drv = driver(E)
    d = wd.Drawer(drv, flat)
    w.parse(d)
    E.true("not finished yet", drv.finished == 0)
    d.finish()
    E.true("finished once", drv.finished == 1)
    everything = []

    def collect(n):
        everything.append(n)
        for c in n.children:
            collect(c)
    collect(drv.ground)
    tr = [n for n in everything if n.kind == "transform"]
    frames = list(b) + [f for f in f0 + f1 if f.body is not f] + [moving, still]
    E.true("one node per frame", len(tr) == len(frames) and
           set(n.name for n in tr) == set(f.name for f in frames))
    node = dict((n.name, n) for n in tr)
    for f in frames:
        H, root = absolute(E, node[f.name])
        E.true("under the ground", root is drv.ground)
        E.equal("drawn where the frame is: %s" % f.name, H, f.pose)
    node["ground"] = drv.ground
    # what moves: one transform per joint (tree) or per body (flat), and the moving frames
    if flat:
        moved = dict((x.name, (x, x.pose)) for x in b)
        moved["moving"] = (moving, moving.pose)
    else:
        moved = dict((x.name, (j, j.pose)) for x, j in zip(f1, js))
        moved["moving"] = (moving, moving.bpose)
    E.true("constant transforms", all(n.constant == (n.name not in moved) for n in tr))
    for k, (x, H) in moved.items():
        E.equal("transform of %s" % k, node[k].H, H)
    if not flat:
        E.true("a node per moving transform", set(d.transform_nodes) == set(x for x, _ in moved.values()) and
               all(d.transform_nodes[x] is node[k] for k, (x, _) in moved.items()))
    want = [("ellipsoid", [0.5] * 3, "moving"), ("box", [1, 2, 3], "still"), ("cylinder", [2, 0.25], "b0"),
            ("ellipsoid", [drv._options["point radius"]] * 3, "b1"), ("plane", [0, 1, 0, 0.5], "ground")]
    drawn = [n for n in everything if n.category == "shape"]
    E.true("every shape drawn once", len(drawn) == len(want))
    for k, dim, fr in want:
        hit = [n for n in drawn if n.kind == k and n.parent is node[fr]]
        E.true("shape %s under its frame" % k, len(hit) == 1)
        E.equal("dimensions of %s" % k, hit[0].data[0], E.array([float(x) for x in dim]))
    ine = [n for n in everything if n.kind == "inertia"]
    E.true("inertia of bodies with a mass", len(ine) == 1 and ine[0].parent is node["b1"])
    E.equal("its matrix", ine[0].data[0], b[1].mass)
    for n in everything:
        if n.kind == "line":
            E.equal("links start at the parent frame", n.data[0], E.arr(3))
            ends = [m for m in tr if m.parent is n.parent and m.constant]
            E.true("links end at a constant frame", E.OR(*[
                E.AND(*[E.EQ(m.H[i, 3], n.data[1][i]) for i in range(3)]) for m in ends]))
    for n in [drv.ground] + tr:
        off = [m for m in n.children if m.kind == "transform" and m.constant and
               bool(E.dot(m.H[0:3, 3], m.H[0:3, 3]) > 0)]
        E.true("a link line per offset frame", len(off) == sum(m.kind == "line" for m in n.children))
    # objects of a body share its colour; bodies have different ones
    cols = {}
    for n in everything:
        if n.kind in ("inertia", "ellipsoid", "box", "cylinder", "plane"):
            p = n.parent
            while p.name not in ("b0", "b1") and p is not drv.ground:
                p = p.parent
            own = {"moving": "b0", "still": "b1"}.get(n.parent.name, n.parent.name or "ground")
            cols.setdefault(own, set()).add(tuple(n.data[1]))
    E.true("one colour per body", all(len(c) == 1 for c in cols.values()) and
           len(set(c for v in cols.values() for c in v)) == len(cols))


obligation("P28", "scene_tree", "two bodies, either tree, joint frames offset at either end, any joint positions "
           "and frame poses, moving and still frames, every shape", max_paths=400, budget=300, stubs=stubs)(
    lambda E: scene(E, False))
obligation("P28", "scene_flat", "the same, drawn flat", max_paths=400, budget=300, stubs=stubs)(
    lambda E: scene(E, True))


@obligation("P28", "twins", "two or three shapes of each kind on one frame, on another frame of the same body, and on the ground, two planes, two points and two "
            "moving frames, of any sizes; named or not; flat or not", stubs=stubs)
def twins(E):
    core, jm, sh, wd = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes"), E.mod(WD)
    flat, named = bool(E.choice("flat", 2)), bool(E.choice("named", 2))
    w = core.World()
    b = core.Body("b")
    w.add_link(w.ground, jm.RzJoint(gpos=[E.angle("q")]), b)
    f = core.SubFrame(b, E.pose("F"), "f")
    ms = [core.MovingSubFrame(b, E.pose("M%d" % i), "m%d" % i) for i in range(2)]
    for x in [f] + ms:
        w.register(x)
    drv = driver(E)
    it, want, n = iter(E.real("d%d" % i, 0.0625, 100) for i in range(40)), [], 0
    for fr in (b, b, f, w.ground, ms[0], ms[1]):
        for kind in ("ellipsoid", "box", "cylinder"):
            name = "s%d" % n if named else None
            n += 1
            if kind == "ellipsoid":
                r = next(it)
                s, size = sh.Sphere(fr, r, name), [r] * 3
            elif kind == "box":
                size = [next(it), next(it), next(it)]
                s = sh.Box(fr, size, name)
            else:
                size = [next(it), next(it)]
                s = sh.Cylinder(fr, size[0], size[1], name)
            w.register(s)
            want.append((kind, fr, size))
    for i in range(2):
        h = E.real("h%d" % i)
        w.register(sh.Plane(w.ground, (0., 1., 0., h), "p%d" % i if named else None))
        want.append(("plane", w.ground, [0, 1, 0, h]))
        w.register(sh.Point(f, "e%d" % i if named else None))
        want.append(("ellipsoid", f, [drv._options["point radius"]] * 3))
    w.init()
    w.update_geometric()
    d = wd.Drawer(drv, flat)
    w.parse(d)
    d.finish()
    shapes = []

    def collect(n):
        if n.category == "shape":
            shapes.append(n)
        for c in n.children:
            collect(c)
    collect(drv.ground)
    E.true("every shape once", len(shapes) == len(want))
    for kind, fr, size in want:
        hit = [n for n in shapes if n.kind == kind and (n.parent is drv.ground if fr is w.ground else n.parent.name == fr.name)]
        E.true("a %s of this size on %s" % (kind, fr.name), E.OR(*[
            E.AND(*[E.EQ(a, c) for a, c in zip(n.data[0], size)]) for n in hit]))


@obligation("P28", "given_colours", "any colour chosen for a body, by object or by name", stubs=stubs)
def given(E):
    core, jm, sh, wd = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes"), E.mod(WD)
    w = core.World()
    b = core.Body("b")
    w.add_link(w.ground, jm.RzJoint(), b)
    s = sh.Sphere(core.SubFrame(b, E.eye(4), "s"), 0.5)
    w.register(s.frame)
    w.register(s)
    w.init()
    c = tuple(E.real("c%d" % i, 0, 1) for i in range(3))
    for k in ([b, "b"][E.choice("key", 2)],):
        drv = driver(E)
        w.parse(wd.Drawer(drv, bool(E.choice("flat", 2)), wd.ColorGenerator({k: c})))
    hit = []

    def walk(n):
        hit.extend([n] if n.kind == "ellipsoid" else [])
        for x in n.children:
            walk(x)
    walk(drv.ground)
    E.true("drawn once", len(hit) == 1)
    E.equal("in the chosen colour", E.array(list(hit[0].data[1])), E.array(list(c)))


@obligation("P28", "viewer_messages", "two steps between arbitrary states, flat or not; the viewer may be gone; then another world with the same viewer",
            stubs=lambda E: dict(stubs(E), pydaenim=viewer(E)))
def messages(E):
    import json
    from .p27_records import plant, state
    vis = E.mod("arboris.visu")
    del SENT[:]
    flat = bool(E.choice("flat", 2))
    gone = bool(E.choice("gone", 2))
    w, bodies, js, fs, mf = plant(E, bool(E.choice("offset", 2)))
    launched = []
    E.patch("arboris.visu", "Timer", lambda t, f, args=(), kwargs=None: types.SimpleNamespace(
        start=lambda: launched.append((args, kwargs))))
    del LISTEN[:]
    E.patch("arboris.visu", "json", types.SimpleNamespace(dumps=lambda x, **k: x))
    o = vis.pydaenimCom("scene.dae", browser="some browser", port=5003, flat=flat, extra=1)
    E.true("the viewer is started on the scene and told where to connect", launched == [(
        ("scene.dae",), {"host": "127.0.0.1", "port": 5004, "browser": "some browser", "extra": 1})])
    E.true("waits for the viewer", LISTEN == [1])
    o.init(w, [0., 1., 2.])
    for r in range(2):
        state(E, w, js, mf, r)
        SENT_FAIL[0] = gone and r == 0
        o.update(E.real("dt", 0.001, 1))
        E.true("one message per step", len(SENT) == r + 1)
        kind, t, frames = SENT[r]
        E.true("kind", kind == "update_transforms")
        E.equal("time", t, w.now)
        if flat:
            want = {"ground": w.ground.pose, "one": bodies[0].pose, "two": bodies[1].pose,
                    "moving": E.dot(bodies[0].pose, mf.bpose)}
        else:
            want = {"one": js[0].pose, fs[1].name: js[1].pose, "moving": mf.bpose}
        E.true("one transform per moving thing", set(frames) == set(want))
        for k in want:
            E.true("twelve numbers", len(frames[k]) == 12)
            E.equal("rows of %s" % k, E.array(list(frames[k])).reshape((3, 4)), want[k][0:3, :])
    o.finish()
    # the same viewer is then shown another world
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    x = core.Body("other")
    j = jm.RyJoint(gpos=[E.angle("other q")])
    w.add_link(core.SubFrame(w.ground, E.eye(4), "base"), j, x)
    w.init()
    w.update_geometric()
    SENT_FAIL[0] = False
    del SENT[:]
    o.init(w, [0., 1.])
    w._current_time = E.real("other t", 0, 100)
    o.update(0.5)
    E.true("one message", len(SENT) == 1)
    kind, t, frames = SENT[0]
    E.equal("time of this world", t, w.current_time)
    want = {"ground": w.ground.pose, "other": x.pose} if flat else {"other": j.pose}
    E.true("what moves in this world", set(frames) == set(want))
    for k in want:
        E.equal("rows of %s" % k, E.array(list(frames[k])).reshape((3, 4)), want[k][0:3, :])
    o.finish()


SENT, SENT_FAIL, LISTEN = [], [False], []


def viewer(E):
    m = types.ModuleType("pydaenim")

    class Socket(object):
        def __init__(self, host, port, timeout):
            self.host, self.port = host, port + 1     # the port asked for is busy

        def listen(self):
            LISTEN.append(1)

        def send_message(self, msg):
            SENT.append(msg)
            if SENT_FAIL[0]:
                raise OSError("not connected")
    m.pydaenimWebSocket = Socket
    m.create_pydaenimViewer = lambda *a, **k: None
    return m


@obligation("P28", "options", "any scale, any overridden value", stubs=stubs)
def options(E):
    drv = type(driver(E))
    x, v = E.real("scale", 0.0625, 16), E.real("value", -1000, 1000)
    base, big = drv()._options, drv(scale=x)._options
    E.true("same options", sorted(base) == sorted(big))
    for k in sorted(base):
        if isinstance(base[k], bool):
            E.true("displays do not scale", big[k] is base[k])
        else:
            E.equal("sizes scale: " + k, E.array(big[k]), E.array(base[k]) * x)
            E.true("sizes are positive", bool(E.array(base[k]).min() > 0))
    k = sorted(base)[E.choice("which", len(base))]
    o = drv(x, {k: v})
    E.equal("the caller's choice", o._options[k], v)
    for n in base:
        if n != k:
            E.true("the others stay", n in o._options)
            if not isinstance(base[n], bool):
                E.equal("others keep their default", E.array(o._options[n]), E.array(big[n]))


@obligation("P28", "light_bodies", "any mass down to a milligram", stubs=stubs)
def light(E):
    core, jm, wd = E.mod(CORE), E.mod(JOINTS), E.mod(WD)
    w = core.World()
    m = E.real("m", 0.000001, 10)
    b = core.Body("b")
    M = E.eye(6) * m
    b.mass = M
    w.add_link(w.ground, jm.FreeJoint(), b)
    w.init()
    drv = driver(E)
    w.parse(wd.Drawer(drv, bool(E.choice("flat", 2))))
    ine = [c for n in drv.ground.children for c in n.children if c.kind == "inertia"]
    E.true("its inertia is drawn", len(ine) == 1)
    E.equal("matrix", ine[0].data[0], M)


@obligation("P28", "two_drawings", "two worlds with the same names, any poses, drawn one after the other, in turn, or twice; "
            "flat or not; any colour given in one of them", stubs=stubs, max_paths=400)
def two(E):
    core, jm, sh, wd = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes"), E.mod(WD)
    flat = bool(E.choice("flat", 2))
    W = []
    for n in range(2):
        w = core.World()
        b, c = core.Body("b"), core.Body("c")
        w.add_link(w.ground, jm.FreeJoint(gpos=E.pose("G%d" % n)), b)
        w.add_link(core.SubFrame(b, E.pose("P%d" % n), "p"), jm.RzJoint(gpos=[E.angle("q%d" % n)]), c)
        w.register(sh.Sphere(c, E.real("r%d" % n, 0.125, 4)))
        w.init()
        w.update_geometric()
        W.append(w)
    col = tuple(E.real("c%d" % i, 0, 1) for i in range(3))
    gens = lambda n: wd.ColorGenerator({"b": col}) if n else None

    def seen(drv):
        out = []

        def go(n):
            out.append(n)
            for c in n.children:
                go(c)
        go(drv.ground)
        return out

    def draw(*ns):
        drv = [driver(E) for n in ns]
        ds = [wd.Drawer(d, flat, gens(n)) for d, n in zip(drv, ns)]
        for d, n in zip(ds, ns):
            W[n].parse(d)
        return [(seen(x), dict(d.transform_nodes)) for x, d in zip(drv, ds)]

    def alike(what, a, b):
        E.true(what + ": as many things", len(a[0]) == len(b[0]) and len(a[1]) == len(b[1]))
        for p, q in zip(a[0], b[0]):
            E.true(what + ": the same kinds", (p.kind, p.name, p.category) == (q.kind, q.name, q.category))
            if p.H is not None:
                E.equal(what + ": places", p.H, q.H)
            for x, y in zip(p.data, q.data):
                E.equal(what + ": numbers", E.array(list(x)), E.array(list(y)))
    k = E.choice("first", 2)
    alone = draw(k)[0]
    other = draw(1 - k)[0]
    alike("after another", draw(k)[0], alone)
    a, b = draw(k, 1 - k)
    alike("in turn", a, alone)
    alike("in turn, the other", b, other)


def crowd(E, offset, heavy=True):
    """14 bodies, 11 frames, 18 shapes: the world, its bodies, links, other frames, (frame, kind, size) of the shapes, and the
    pose of every frame by name, composed here. offset(n): the constant poses of frames."""
    from .p21_model import large
    from ._common import KINDS, square_pose
    core, jm, sh = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes")
    parents = large(E, 14)
    w = core.World()
    bodies, links = [w.ground], []
    for i, p in enumerate(parents):
        j = getattr(jm, KINDS[i % len(KINDS)])()
        if KINDS[i % len(KINDS)] == "FreeJoint":
            j.gpos[:] = square_pose(E, i)
        elif i in (6, 8):
            j.gpos[0] = E.angle("bent%d" % i)
        b = core.Body("b%d" % i)
        if heavy and i % 4 != 3:
            b.mass = const_mass(E, [0, 2, 6][i % 3])
        A, C = (offset(i) if i % 3 else E.eye(4)), (offset(i + 2) if i % 2 else E.eye(4))
        f0 = core.SubFrame(bodies[p], A, "a%d" % i) if i % 3 else bodies[p]
        f1 = core.SubFrame(b, C, "c%d" % i) if i % 2 else b
        w.add_link(f0, j, f1)
        bodies.append(b)
        links.append((p, f0, j, f1, A, C))
    extra = []
    for i in range(11):
        cls = core.SubFrame if i % 2 else core.MovingSubFrame
        f = cls(w.ground if i == 4 else bodies[(i * 5 + 1) % 15], offset(i + 1), "x%d" % i)
        w.register(f)
        extra.append(f)
    shapes = []
    for i in range(18):
        f = ([x[3] for x in links] + extra)[(i * 7) % 25] if i % 6 else w.ground
        r = E.real("size%d" % i, 0.0625, 8)
        kind, n = i % 5, "s%d" % i
        if kind == 0:
            s, k, dim = sh.Sphere(f, r, n), "sphere", [r] * 3
        elif kind == 1:
            s, k, dim = sh.Box(f, [r, 1., 2.], n), "box", [r, 1, 2]
        elif kind == 2:
            s, k, dim = sh.Cylinder(f, r, 0.5, n), "cylinder", [r, 0.5]
        elif kind == 3:
            s, k, dim = sh.Plane(f, [0., 1., 0., r], n), "plane", [0, 1, 0, r]
        else:
            s, k, dim = sh.Point(f, n), "point", []
        w.register(s)
        shapes.append((f, k, dim))
    w.init()
    w.update_geometric()
    at, pose = {"ground": E.eye(4)}, [E.eye(4)]
    for i, (p, f0, j, f1, A, C) in enumerate(links):
        H = E.dot(pose[p], A, j.pose)
        pose.append(E.dot(H, E.inv4(C)))
        at["b%d" % i] = pose[-1]
        if f0 is not bodies[p]:
            at[f0.name] = E.dot(pose[p], A)
        at[f1.name] = H
    for f in extra:
        at[f.name] = E.dot(pose[bodies.index(f.body)], f.bpose)
    return w, bodies, links, extra, shapes, at


@obligation("P28", "scene_many", "14 bodies in a chain, a star, a binary tree, a comb or two long branches, every joint class, two bent to any "
            "angle, frames offset at either end or not, 18 shapes of any sizes, 6 fixed and 5 moving frames; flat or not", stubs=stubs)
def many(E):
    core, wd = E.mod(CORE), E.mod(WD)
    from ._common import square_pose
    flat = bool(E.choice("flat", 2))
    w, bodies, links, extra, shapes, at = crowd(E, lambda n: square_pose(E, n))
    drv = driver(E)
    d = wd.Drawer(drv, flat)
    w.parse(d)
    d.finish()
    E.true("finished once", drv.finished == 1)
    nodes, shown, ine = {"ground": drv.ground}, [], []

    def collect(n):
        if n.kind == "transform":
            E.true("one node per frame", n.name not in nodes)
            nodes[n.name] = n
        shown.extend([n] if n.category == "shape" else [])
        ine.extend([n] if n.kind == "inertia" else [])
        for c in n.children:
            collect(c)
    collect(drv.ground)
    names = sorted(at)
    E.true("a node for every frame and no other", sorted(nodes) == names)
    for k in names:
        H, root = absolute(E, nodes[k])
        E.true("under the ground", root is drv.ground)
        E.equal("drawn where the frame is: " + k, H, at[k])
    moving = set(f.name for f in extra if isinstance(f, core.MovingSubFrame)) | set(
        (b.name for b in bodies[1:]) if flat else (l[3].name for l in links))
    E.true("what may move", set(k for k in names if k != "ground" and not nodes[k].constant) == moving)
    if not flat:
        E.true("what moves each of them", len(d.transform_nodes) == len(moving) and
               all(d.transform_nodes[l[2]] is nodes[l[3].name] for l in links) and
               all(d.transform_nodes[f] is nodes[f.name] for f in extra if f.name in moving))
    E.true("every shape once", len(shown) == len(shapes))
    for i, (f, k, dim) in enumerate(shapes):
        if k in ("sphere", "point"):
            k, dim = "ellipsoid", dim or [drv._options["point radius"]] * 3
        hit = [n for n in shown if n.kind == k and n.parent is nodes[f.name]]
        E.true("shape %d on its frame" % i, E.OR(*[E.AND(*[E.EQ(a, c) for a, c in zip(n.data[0], dim)]) for n in hit]))
    heavy = [b for b in bodies[1:] if int(b.name[1:]) % 4 != 3]
    E.true("an inertia per body with a mass", len(ine) == len(heavy))
    for b in heavy:
        hit = [n for n in ine if n.parent is nodes[b.name]]
        E.true("on its body", len(hit) == 1)
        E.equal("inertia of " + b.name, hit[0].data[0], b.mass)
