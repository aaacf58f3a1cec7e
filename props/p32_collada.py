"""P32 Collada scenes and animations."""
import math
import os
import shutil
import tempfile
import types
from fractions import Fraction
import xml.etree.ElementTree as ET
import numpy as np
from engine.harness import obligation
from engine import shim, sym
from ._common import CORE, JOINTS, const_pose, square_pose
from . import p27_records
from .p28_drawer import driver, crowd

DW, VC = "arboris.visu.dae_writer", "arboris.visu.visu_collada"
SHAPES = "simple_shapes.dae"
DISK = {}           # path -> Collada object written there
SIM = {}            # path -> recorded simulation


# --------------------------------------------------------- a stand-in for the collada package
class Maker(object):
    def __call__(self, name, /, *children, **attrs):
        for k, v in attrs.items():
            if not isinstance(v, str):
                raise TypeError("Argument must be bytes or unicode, got %r" % type(v).__name__)
        e = ET.Element(name, attrs)
        for c in children:
            if isinstance(c, str):
                e.text = (e.text or "") + c
            elif isinstance(c, dict):
                e.attrib.update(c)
            else:
                e.append(c)
        return e

    def __getattr__(self, name):
        return lambda *c, **a: self(name, *c, **a)


class IndexedList(list):
    def get(self, k, default=None):
        for x in self:
            if x.id == k:
                return x
        return default

    def __contains__(self, k):
        return any(x is k or x.id == k for x in self)

    def __getitem__(self, k):
        if isinstance(k, int):
            return list.__getitem__(self, k)
        x = self.get(k)
        if x is None:
            raise KeyError(k)
        return x


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Node(object):
    def __init__(self, id, children=None, transforms=None, xmlnode=None):
        self.id, self.name = id, id
        self.children = [] if children is None else list(children)
        self.transforms = [] if transforms is None else list(transforms)
        self.xmlnode = ET.Element("node", {"id": id, "name": id})


class NodeNode(object):
    def __init__(self, node, xmlnode=None):
        self.node = node
    id = property(lambda s: s.node.id)
    children = property(lambda s: s.node.children)


class GeometryNode(object):
    def __init__(self, geometry, materials=None, xmlnode=None):
        self.geometry, self.materials = geometry, list(materials or [])


class ExtraNode(object):
    def __init__(self, xmlnode):
        self.xmlnode = xmlnode


class Transform(object):
    def __init__(self, E, kind, data):
        self.kind, self.data, self.xmlnode, self.E = kind, data, ET.Element(kind), E

    def matrix(self):
        if self.kind == "matrix":
            return self.E.array(self.data).reshape((4, 4))
        H = self.E.eye(4)
        for i in range(3):
            if self.kind == "scale":
                H[i, i] = self.data[i]
            else:
                H[i, 3] = self.data[i]
        return H


class Scene(object):
    def __init__(self, id, nodes, xmlnode=None):
        self.id, self.nodes = id, list(nodes)


def package(E):
    """collada.*: what the writer uses of the package, which is not installed."""
    def matrix(m):
        m = E.array(m)
        if m.shape != (16,):
            raise ValueError("Corrupted transformation matrix")
        return Transform(E, "matrix", m)

    class Collada(object):
        def __init__(self, filename=None):
            self.effects, self.materials, self.geometries = IndexedList(), IndexedList(), IndexedList()
            self.nodes, self.scenes, self.scene = IndexedList(), IndexedList(), None
            self.assetInfo = Thing(upaxis=None)
            root = ET.Element("COLLADA")
            for k in ("asset", "library_visual_scenes", "scene"):
                root.append(ET.Element(k))
            self.xmlnode = ET.ElementTree(root)
            if filename is None:
                return
            if os.path.basename(filename) == SHAPES:
                self._shapes(filename)
            else:
                d = DISK[os.path.abspath(filename)]
                self.__dict__.update((k, type(v)(v) if isinstance(v, list) else v) for k, v in d.__dict__.items())
                self.xmlnode = ET.ElementTree(ET.fromstring(ET.tostring(d.xmlnode.getroot())))

        def _shapes(self, filename):
            r = ET.parse(filename).getroot()
            ns = r.tag[:r.tag.index("}") + 1]
            for g in r.iter(ns + "geometry"):
                self.geometries.append(Thing(id=g.get("id")))

            def build(x):
                n = Node(x.get("id"))
                for c in x:
                    t = c.tag[len(ns):]
                    if t == "instance_geometry":
                        m = Thing(id="plain", effect=Thing(id="plain"))
                        n.children.append(GeometryNode(self.geometries[c.get("url")[1:]], [Thing(target=m)]))
                    elif t == "translate":
                        n.transforms.append(Transform(E, t, [float(v) for v in c.text.split()]))
                    elif t == "instance_node":
                        n.children.append(NodeNode(self.nodes[c.get("url")[1:]]))
                    elif t == "node":
                        n.children.append(build(c))
                return n
            for x in r.findall(ns + "library_nodes/" + ns + "node"):
                self.nodes.append(build(x))
            s = r.find(ns + "library_visual_scenes/" + ns + "visual_scene")
            self.scene = Scene(s.get("id"), [build(x) for x in s.findall(ns + "node")])
            self.scenes.append(self.scene)

        def write(self, f):
            f.write(b"<COLLADA/>")
            DISK[os.path.abspath(f.name)] = self

    c = types.ModuleType("collada")
    c.Collada = Collada
    c.common = types.ModuleType("collada.common")
    c.common.E, c.common.tag = Maker(), lambda x: x
    c.asset = Thing(UP_AXIS=Thing(X_UP="X_UP", Y_UP="Y_UP", Z_UP="Z_UP"))
    c.material = Thing(Effect=lambda id, p, kind, diffuse=None: Thing(id=id, diffuse=diffuse, kind=kind),
                       Material=lambda id, name, effect: Thing(id=id, name=name, effect=effect))
    c.scene = Thing(Scene=Scene, Node=Node, NodeNode=NodeNode, GeometryNode=GeometryNode, ExtraNode=ExtraNode,
                    MaterialNode=lambda symbol, target, inputs: Thing(symbol=symbol, target=target),
                    MatrixTransform=matrix,
                    ScaleTransform=lambda x, y, z: Transform(E, "scale", [x, y, z]),
                    TranslateTransform=lambda x, y, z: Transform(E, "translate", [x, y, z]))
    return c


class H5(object):
    """The recorded file, read as h5py does."""

    def __init__(self, name, mode="r"):
        if name not in SIM:
            raise IOError("no such file")
        self.d, self.open = SIM[name], True

    def __getitem__(self, k):
        if not self.open:
            raise ValueError("Not a location")
        d = self.d
        for x in k.strip("/").split("/"):
            d = d[x] if x else d
        return Part(self, d) if isinstance(d, dict) else d

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Part(H5):
    def __init__(self, f, d):
        self.d, self.open = d, True

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def __iter__(self):
        return iter(self.d)

    def __contains__(self, k):
        return k in self.d


def stubs(E):
    c = package(E)
    p = types.ModuleType("pydaenim")
    p.create_pydaenimViewer = lambda *a, **k: CALLS.append(("pydaenim", a, k, os.path.abspath(a[0]) in DISK))
    h = types.ModuleType("h5py")
    h.File = H5
    k = types.ModuleType("pickle")

    def load(f):
        f.read(0) == b"" or _text()
        return SIM[f.name]
    k.load = load
    k.dump = lambda *a, **b: None
    st = p27_records.stubs(E)
    st.update({"collada": c, "collada.common": c.common, "pydaenim": p, "h5py": h, "pickle": k,
               "socket": p27_records.fake_socket(E), "subprocess": CALLS.module(),
               "time": clock()})
    return st


def _text():
    raise TypeError("a bytes-like object is required, not 'str'")


def clock():
    m = types.ModuleType("time")
    m.sleep = lambda s: None
    m.time = m.perf_counter = lambda: 0.
    return m


class Calls(list):
    fail = False

    def module(self):
        m = types.ModuleType("subprocess")

        def run(cmd, *a, **k):
            if self.fail:
                raise OSError("no such file")
            self.append(([str(x) for x in cmd], DISK.get(cmd[1])))
            return 0
        m.Popen = m.check_call = m.call = m.run = run
        return m


CALLS = Calls()


class Scratch(object):
    def __enter__(self):
        DISK.clear()
        SIM.clear()
        del CALLS[:]
        CALLS.fail = False
        self.d = tempfile.mkdtemp(prefix="dae")
        self.old, tempfile.tempdir = tempfile.tempdir, self.d
        return self

    def __exit__(self, *a):
        tempfile.tempdir = self.old
        shutil.rmtree(self.d)

    def __call__(self, name):
        return os.path.join(self.d, name)

    def touch(self, name):
        with open(self(name), "wb") as f:
            f.write(b"data")
        return self(name)


def walk(E, dae):
    """[(node, matrix of the node)] and [(geometry id, matrix, [ids of the nodes above], material)]."""
    nodes, geos = [], []
    inside = []

    def go(n, H, above):
        E.true("no node inside itself", not any(k is n for k in inside))
        inside.append(n)
        visit(n, H, above)
        inside.pop()

    def visit(n, H, above):
        if isinstance(n, GeometryNode):
            E.true("its geometry is in the file", n.geometry.id in dae.geometries)
            for m in n.materials:
                E.true("its material is in the file", m.target.id in dae.materials and
                       m.target.effect.id in dae.effects)
            geos.append((n.geometry.id, H, above, n.materials))
        elif isinstance(n, NodeNode):
            E.true("its node is in the file", n.node.id in dae.nodes)
            go(dae.nodes.get(n.node.id), H, above)
        elif isinstance(n, Node):
            for t in n.transforms:
                H = E.dot(H, t.matrix())
            nodes.append((n, H))
            for c in n.children:
                go(c, H, above + [n.id])
    for n in dae.scene.nodes:
        go(n, E.eye(4), [])
    return nodes, geos


def scaled(E, H, s):
    D = E.eye(4)
    for i in range(3):
        D[i, i] = s[i]
    return E.dot(H, D)


def fixed(E, n):
    """A constant pose whose translation has a rational length."""
    H = const_pose(E, n)
    for i, x in enumerate([(1, 2, 2), (-2, 3, 6), (4, -4, 2), (0, -3, 4), (6, 2, -3)][n % 5]):
        H[i, 3] = x * 0.25
    return H


def robot(E, offsets, pose=None):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    pose = pose or (lambda n: E.pose("P%d" % n))
    w = core.World()
    b = [core.Body("b%d" % i) for i in range(2)]
    q = E.arr(2)
    q[0], q[1] = E.angle("q0"), E.angle("q1")
    js = [jm.RzRyJoint(gpos=q), jm.FreeJoint(gpos=E.pose("G"))]
    f0 = [core.SubFrame(w.ground, pose(0), "a0") if offsets & 1 else w.ground,
          core.SubFrame(b[0], pose(1), "a1") if offsets & 1 else b[0]]
    f1 = [core.SubFrame(x, pose(2 + i), "c%d" % i) if offsets & 2 else x for i, x in enumerate(b)]
    for i in range(2):
        w.add_link(f0[i], js[i], f1[i])
    moving = core.MovingSubFrame(b[0], E.pose("M"), "moving")
    still = core.SubFrame(b[1], pose(4), "still")
    w.register(moving)
    w.register(still)
    return w, b, js, f1, moving, still


def written(E, mod, w, tmp, *a, **k):
    """The file written, its nodes by id and its geometries."""
    E.patch(DW, "print", lambda *a: None)
    wr = E.mod(mod)
    wr.write_collada_scene(w, tmp("scene.dae"), *a, **k)
    E.true("written", tmp("scene.dae") in DISK and os.path.exists(tmp("scene.dae")))
    dae = DISK[tmp("scene.dae")]
    nodes, geos = walk(E, dae)
    E.true("the ground is the root", [n.id for n in dae.scene.nodes] == ["ground"])
    ids = [n.id for n, _ in nodes if n.id and n.id != "frame_arrows"]
    E.true("distinct names", len(set(ids)) == len(ids))
    E.true("one geometry of each kind", len(set(g.id for g in dae.geometries)) == len(dae.geometries))
    return dae, dict((n.id, (n, H)) for n, H in nodes), geos


def line_ends(E, g):
    H = g[1]
    return E.array(list(H[0:3, 3])), E.array([H[i, 2] + H[i, 3] for i in range(3)])


def scene(E, mod):
    core, sh = E.mod(CORE), E.mod("arboris.shapes")
    flat = bool(E.choice("flat", 2))
    w, b, js, f1, moving, still = robot(E, E.choice("offsets", 4), lambda n: E.pose("S") if mod == DW and n == 4 else fixed(E, n))
    r, l, x, y, z = [E.real("d%d" % i, 0.0625, 100) for i in range(5)]
    d = E.real("plane", -1000, 1000)
    for s in (sh.Sphere(moving, r, "ball"), sh.Box(still, (x, y, z), "block"), sh.Cylinder(b[0], l, r, "can"),
              sh.Point(b[1]), sh.Plane(w.ground, (0., 1., 0., d), "floor")):
        w.register(s)
    w.init()
    k = E.real("scale", 0.125, 8)
    with Scratch() as tmp:
        dae, at, geos = written(E, mod, w, tmp, k, None, flat)
    frames = dict((f.name, f) for f in w.getframes() if f.name)
    for name, f in frames.items():
        E.true("a node for frame %s" % name, name in at)
        E.equal("frame %s is where it is" % name, at[name][1], f.pose)
        m = [t for t in at[name][0].transforms if t.xmlnode.get("sid") == "matrix"]
        E.true("it can be moved", len(m) == 1 and m[0].kind == "matrix")
    moved = dict((f.name, f.pose) for f in b + [moving]) if flat else \
        dict([(f.name, j.pose) for f, j in zip(f1, js)] + [("moving", moving.bpose)])
    for name, H in moved.items():
        E.equal("what moves %s is what loggers record" % name, at[name][0].transforms[0].matrix(), H)
    solid = [g for g in geos if g[0] not in ("line_geometry-mesh", "frame_arrows_geometry-mesh")]
    E.true("five shapes", len(solid) == 5)
    pr = type(driver(E))()._options["point radius"] * k

    def one(kind, frame):
        hit = [g for g in solid if g[0] == kind + "_geometry-mesh" and
               [i for i in g[2] if i in frames][-1] == frame.name]
        E.true("one %s on %s" % (kind, frame.name), len(hit) == 1)
        return hit[0]
    for kind, f, s in (("sphere", moving, [r] * 3), ("box", still, [x, y, z]), ("cylinder", b[0], [r, r, l]),
                       ("sphere", b[1], [pr] * 3)):
        E.equal("size and place of the %s on %s" % (kind, f.name), one(kind, f)[1], scaled(E, f.pose, s))
    P = one("plane", w.ground)[1]
    E.equal("the plane is where its equation says", P[1, 3], d)
    E.equal("and lies along it", E.array([P[1, 0], P[1, 1]]), E.arr(2))
    cols = [g[3][0].target.effect.diffuse for g in solid]
    cols = [one("sphere", moving), one("cylinder", b[0]), one("box", still), one("sphere", b[1])] + [one("plane", w.ground)]
    cols = [g[3][0].target.effect.diffuse for g in cols]
    E.true("one colour per body", cols[0] == cols[1] != cols[2] == cols[3] and cols[4] not in cols[:4] and None not in cols)
    lines = [g for g in geos if g[0] == "line_geometry-mesh"]
    arrows = [g for g in geos if g[0] == "frame_arrows_geometry-mesh"]
    if mod == DW:
        E.true("no lines nor arrows for this viewer", not lines and not arrows)
        return
    E.true("arrows at every frame but the ground", len(arrows) == len(frames) - 1)
    for g in arrows:
        own = [i for i in g[2] if i in frames][-1]
        E.equal("arrows are at their frame", g[1], scaled(E, frames[own].pose, [0.08 * k] * 3))
    const = [f for n, f in frames.items() if n not in moved and f is not w.ground]
    E.true("a link per offset", len(lines) == len(const))
    for g in lines:
        own = [i for i in g[2] if i in frames][-1]
        s, e = line_ends(E, g)
        E.equal("a link starts at its frame", s, frames[own].pose[0:3, 3])
        E.true("and ends at an offset frame", E.OR(*[
            E.AND(*[E.EQ(f.pose[i, 3], e[i]) for i in range(3)]) for f in const]))


OVER = ("two bodies, joint frames offset at either end, any joint positions and moving frame pose, moving and still "
        "frames, every shape with any size, flat or tree, any scale; ")
obligation("P32", "scene_pydaenim", OVER + "fixed generic poses of the joints' frames", stubs=stubs, budget=200)(lambda E: scene(E, DW))
obligation("P32", "scene_daenim", OVER + "fixed generic poses of constant frames", stubs=stubs, budget=200)(
    lambda E: scene(E, VC))


@obligation("P32", "twins", "two or three shapes of each kind on one frame, on another frame of the same body, and on the ground, of any sizes; "
            "named or not; flat or not; either writer", stubs=stubs, budget=200)
def twins(E):
    core, jm, sh = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes")
    mod = [DW, VC][E.choice("writer", 2)]
    flat, named = bool(E.choice("flat", 2)), bool(E.choice("named", 2))
    w = core.World()
    b = core.Body("b")
    w.add_link(w.ground, jm.RzJoint(gpos=[E.angle("q")]), b)
    f = core.SubFrame(b, fixed(E, 1), "f")
    w.register(f)
    d = [E.real("d%d" % i, 0.0625, 100) for i in range(24)]
    it = iter(d)
    want, n = [], 0
    for fr in (b, b, f, w.ground):
        for kind in ("sphere", "box", "cylinder"):
            name = "s%d" % n if named else None
            n += 1
            if kind == "sphere":
                r = next(it)
                s, size = sh.Sphere(fr, r, name), [r] * 3
            elif kind == "box":
                size = [next(it), next(it), next(it)]
                s = sh.Box(fr, size, name)
            else:
                l, r = next(it), next(it)
                s, size = sh.Cylinder(fr, l, r, name), [r, r, l]
            w.register(s)
            want.append((kind, fr, size))
    w.init()
    k = E.real("scale", 0.125, 8)
    with Scratch() as tmp:
        dae, at, geos = written(E, mod, w, tmp, k, None, flat)
    w.update_geometric()
    solid = [g for g in geos if g[0] not in ("line_geometry-mesh", "frame_arrows_geometry-mesh")]
    E.true("every shape once", len(solid) == len(want))
    for kind, fr, size in want:
        H = scaled(E, fr.pose, size)
        hit = [g for g in solid if g[0] == kind + "_geometry-mesh"]
        E.true("a %s of this size on %s" % (kind, fr.name), E.OR(*[
            E.AND(*[E.EQ(g[1][i, j], H[i, j]) for i in range(3) for j in range(4)]) for g in hit]))


@obligation("P32", "line", "a link line to any point, two directions for each case of zaligned", stubs=stubs)
def line(E):
    v = E.mod(VC)
    E.patch(DW, "print", lambda *a: None)
    d = v.DaenimColladaDriver("f.dae")
    p = E.vec("p", 3, -5, 5)
    n = E.real("n", 0.0625, 100)
    u = E.array([[1, 2, 2], [2, -6, 3], [0, 3, 4], [0, 0, -5], [5, 0, 0], [-4, 3, 0]][E.choice("direction", 6)]) * n
    node = d.create_line(p, p + u, (0.5, 0.25, 1.), "link")
    H = E.eye(4)
    for t in node.transforms:
        H = E.dot(H, t.matrix())
    s, e = line_ends(E, (0, H))
    E.equal("starts", s, p)
    E.equal("ends", e, p + u)
    c = E.dot(H[0:3, 0:3].T, H[0:3, 0:3])
    L = E.dot(u, u)
    E.equal("is not distorted", c, E.eye(3) * L)
    g = [x for x in node.children if isinstance(x, GeometryNode)]
    E.true("the line mesh in its colour", len(g) == 1 and g[0].geometry.id == "line_geometry-mesh" and
           g[0].materials[0].target.effect.diffuse == (0.5, 0.25, 1.))


@obligation("P32", "plane", "any distance, oblique normals, any half extents", stubs=stubs)
def plane(E):
    mod = [DW, VC][E.choice("writer", 2)]
    v = E.mod(mod)
    hx, hy, d = E.real("hx", 0.125, 100), E.real("hy", 0.125, 5), E.real("d", -1000, 1000)
    D = v.pydaenimColladaDriver if mod == DW else v.DaenimColladaDriver
    drv = D("f.dae", 1., {"plane half extents": (hx, hy)})
    n = [x / 8. for x in ([8, 0, 0], [0, 0, -8])[E.choice("n", 2)]] if E.choice("axis", 2) else None
    n = E.array(n) if n else E.array([[1, 2, 2], [-2, 1, 2], [2, -2, 1]][E.choice("n", 3)]) / (3 if not E.symbolic else E.real("three", 3, 3))
    c = E.arr(4)
    c[0:3], c[3] = n, d
    node = drv.create_plane(c, (0.5, 0.25, 1.), "floor")
    H = E.eye(4)
    for t in node.transforms:
        H = E.dot(H, t.matrix())
    E.equal("through the point of the equation", H[0:3, 3], n * d)
    E.equal("spanned along the plane", E.dot(n, H[0:3, 0:2]), E.arr(2))
    E.equal("sizes", E.array([E.dot(H[0:3, i], H[0:3, i]) for i in range(2)]), E.array([hx * hx, hy * hy]))
    E.equal("rectangle", E.dot(H[0:3, 0], H[0:3, 1]), E.arr(1)[0])


@obligation("P32", "options", "any overridden sizes, either writer; up axis along x, y, z or oblique", stubs=stubs)
def options(E):
    core, jm, sh = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes")
    mod = [DW, VC][E.choice("writer", 2)]
    w = core.World()
    b = core.Body("b")
    w.add_link(w.ground, jm.RzJoint(gpos=[E.angle("q")]), b)
    w.register(sh.Point(b, name="dot"))
    w.init()
    E.patch(DW, "warnings", Thing(warn=lambda *a: WARNED.append(a)))
    del WARNED[:]
    pr, al = E.real("point radius", 0.0625, 1), E.real("arrows", 0.0625, 1)
    with Scratch() as tmp:
        dae, at, geos = written(E, mod, w, tmp, options={"point radius": pr, "frame arrows length": al})
    g = [x for x in geos if x[0] == "sphere_geometry-mesh"]
    E.true("one point", len(g) == 1)
    E.equal("the point is as large as asked", g[0][1], scaled(E, b.pose, [pr] * 3))
    for x in geos:
        if x[0] == "frame_arrows_geometry-mesh":
            E.equal("the arrows are as long as asked", x[1], scaled(E, b.pose, [al] * 3))
    E.true("the up axis of the world", dae.assetInfo.upaxis == "Y_UP" and not WARNED)
    up = E.choice("up", 4)
    v = E.mod(mod)
    drv = (v.pydaenimColladaDriver if mod == DW else v.DaenimColladaDriver)("f.dae")
    drv.add_ground(E.array([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0.5, 0.75, 0.]][up]))
    E.true("up axis", drv.dae.assetInfo.upaxis == ["X_UP", "Y_UP", "Z_UP", "Y_UP"][up])
    E.true("warned when there is none", bool(WARNED) == (up == 3))


WARNED = []


@obligation("P32", "unnamed", "bodies, joint frames and moving frames with or without names, written then animated", stubs=stubs)
def unnamed(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    mod = [DW, VC][E.choice("writer", 2)]
    flat, named = bool(E.choice("flat", 2)), E.choice("named", 8)
    w = core.World()
    a, b = core.Body("one" if named & 1 else None), core.Body("two" if named & 2 else None)
    c = core.SubFrame(b, fixed(E, 1), "end" if named & 4 else None)
    m = core.MovingSubFrame(b, E.pose("M"), "moving" if named & 4 else None)
    js = [jm.RzJoint(gpos=[E.angle("q0")]), jm.RyJoint(gpos=[E.angle("q1")])]
    w.add_link(w.ground, js[0], a)
    w.add_link(a, js[1], c)
    w.register(m)
    w.init()
    with Scratch() as tmp:
        dae, at, geos = written(E, mod, w, tmp, flat=flat)
    moving = [(a, a.pose), (b, b.pose), (m, m.pose)] if flat else [(a, js[0].pose), (c, js[1].pose), (m, m.bpose)]
    for f, H in moving:
        E.true("it has a name, and a node of that name", bool(f.name) and f.name in at)
        E.equal("which moves it", at[f.name][0].transforms[0].matrix(), H)


def inertia(E):
    """A body whose central inertia and principal axes are known."""
    lam = [E.real("I%d" % i, 0.125, 100) for i in range(3)]
    V = E.eye(3)
    for ax in "zyx":
        s, k = E.sincos(E.angle("V" + ax))
        if ax == "y":
            E.assume(k >= 0.125)
        V = E.dot(V, E.ref_rot(ax, s, k)[0:3, 0:3])
    m, c = E.real("m", 0.125, 10), E.vec("c", 3, -2, 2)
    D = E.arr((3, 3))
    for i in range(3):
        D[i, i] = lam[i]
    I = E.dot(V, D, V.T)
    rx = E.hat(c)
    M = E.arr((6, 6))
    M[0:3, 0:3] = I - m * E.dot(rx, rx)
    M[0:3, 3:6] = m * rx
    M[3:6, 0:3] = -m * rx
    M[3:6, 3:6] = m * E.eye(3)

    if E.symbolic:                  # what P10 decides of principalframe
        H = E.eye(4)
        H[0:3, 0:3], H[0:3, 3] = V, c
        E.patch("arboris.massmatrix", "principalframe", lambda M: E.array(H))
        E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    return M, m, c, I


def radians(E, x):
    x = x * (math.pi / 180)
    if E.symbolic and not isinstance(x, (int, float)):
        x = sym.Sym(dict((m, near(k) if m else k) for m, k in x.p.items()))
    return x


def number(E, s):
    return shim._float(s) if E.symbolic else float(s)


def near(k):
    q = Fraction(k).limit_denominator(64)
    return q if abs(q - k) < 1e-12 else k


@obligation("P32", "rigid_bodies", "any mass, centre of mass and principal moments, any principal axes (y angle off its singularity)", stubs=stubs)
def rigid(E):
    heavy(E, 1)


@obligation("P32", "light_rigid_bodies", "bodies of 2^-14 to 2^-20 kg with their moments, at any angle", stubs=stubs)
def light_rigid(E):
    unit = 2.0 ** -[14, 17, 20][E.choice("unit", 3)]
    c, lam = [0.5, -0.25, 1], [1, 2, 4]
    if E.symbolic:
        H = E.eye(4)
        H[0:3, 3] = c
        E.patch("arboris.massmatrix", "principalframe", lambda M: E.array(H))
    I, rx = E.eye(3) * lam, E.hat(c)
    M = np.zeros((6, 6))
    M[0:3, 0:3] = I - 0.75 * E.dot(rx, rx)
    M[0:3, 3:6] = 0.75 * rx
    M[3:6, 0:3] = -0.75 * rx
    M[3:6, 3:6] = 0.75 * np.eye(3)
    heavy(E, unit, (M, 0.75, E.array(c), I))


def heavy(E, unit, of=None):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    mod = [DW, VC][E.choice("writer", 2)]
    M, m, c, I = of or inertia(E)
    M = M * unit
    w = core.World()
    a, b = core.Body("light"), core.Body("heavy")
    b.mass = M
    w.add_link(w.ground, jm.RzJoint(gpos=[E.angle("q")]), a)
    w.add_link(a, jm.RyJoint(), b)
    w.init()
    with Scratch() as tmp:
        dae, at, geos = written(E, mod, w, tmp, options={"inertia factor": 2.})
    bodies = [x for x in dae.xmlnode.getroot().iter("rigid_body")]
    E.true("one rigid body per massive body, of its name", [x.get("sid") for x in bodies] == ["heavy"])
    E.true("in the physics library", len(dae.xmlnode.getroot().findall("library_physics_models/physics_model")) == 1)
    tc = bodies[0].find("technique_common")

    def num(x):
        return [number(E, s) for s in x.text.split()]
    E.true("it moves", tc.find("dynamic").text == "true")
    E.equal("mass", num(tc.find("mass"))[0] / unit, m)
    R = E.eye(4)
    for x in tc.find("mass_frame"):
        v = num(x)
        if x.tag == "translate":
            T = E.eye(4)
            for i in range(3):
                T[i, 3] = v[i]
        else:
            ax = "xyz"[[abs(float(y)) for y in v[0:3]].index(1.)]
            T = E.ref_rot(ax, *E.sincos(radians(E, v[3]) * sum(v[0:3])))
        R = E.dot(R, T)
    E.equal("centre of mass", R[0:3, 3], c)
    v = num(tc.find("inertia"))
    D = E.arr((3, 3))
    for i in range(3):
        D[i, i] = v[i] / unit
    E.equal("inertia about the centre of mass", E.dot(R[0:3, 0:3], D, R[0:3, 0:3].T), I)
    ell = [g for g in geos if g[0] == "sphere_geometry-mesh"]
    E.true("drawn by daenim only", len(ell) == (mod == VC))
    for g in ell:
        H = E.dot(E.inv4(b.pose), g[1])
        E.equal("at the centre of mass", H[0:3, 3], c)
        E.equal("along the principal axes, as large as the moments", E.dot(H[0:3, 0:3], H[0:3, 0:3].T) / (unit * unit), E.dot(I, I) * 4)


def animated(E, dae):
    """{target: (times, values, interpolations)} of the animations, following their references."""
    libs = dae.xmlnode.getroot().findall("library_animations")
    E.true("one library", len(libs) == 1)
    out = {}
    ids = [x.get("id") for x in libs[0].iter() if x.get("id")]
    E.true("ids are unique", len(set(ids)) == len(ids))
    for a in libs[0].findall("animation"):
        byid = dict(("#" + x.get("id"), x) for x in a.iter() if x.get("id"))
        for ch in a.findall("channel"):
            sam, got = byid[ch.get("source")], {}
            for i in sam.findall("input"):
                src = byid[i.get("source")]
                acc = src.find("technique_common/accessor")
                arr = byid[acc.get("source")]
                v = arr.text.split()
                n, st = int(acc.get("count")), int(acc.get("stride", "1"))
                E.true("as many numbers as announced", len(v) == n * st == (
                    int(arr.get("count")) if i.get("semantic") != "OUTPUT" else len(v)))
                got[i.get("semantic")] = (v, st, acc.find("param").get("type"))
            E.true("one channel per target", ch.get("target") not in out)
            out[ch.get("target")] = got
    return out


@obligation("P32", "animation", "two moving things over three instants, any matrices and times; HDF5 (any group) or pickle, "
            "type given or told by the suffix; decimals kept 2 or 8; scenes with or without animations",
            stubs=stubs, budget=200)
def animation(E):
    wr = E.mod([DW, VC][E.choice("module", 2)])
    ext, typed, old = E.choice("ext", 4), E.choice("typed", 2), E.choice("old", 2)
    group = ["/", "run/second"][E.choice("group", 2)] if ext < 2 else "/"
    digits = [8, 2][E.choice("digits", 2)]
    T = E.arr(3)
    for i in range(3):
        T[i] = E.real("t%d" % i, 0, 100)
    vals = {"one": E.arr((3, 4, 4)), "two": E.arr((3, 4, 4))}
    for n in vals:
        for i in range(3):
            vals[n][i] = E.eye(4)
            for j in range(3):
                for k in range(4):
                    vals[n][i, j, k] = E.real("%s%d%d%d" % (n, i, j, k), -1000, 1000) if (i + j + k) % 2 else \
                        [0., 1.05, -20.005, 1e-7, 100.][(i + j + 2 * k) % 5]
    sim = {"timeline": T, "transforms": vals}
    c = E.mod(DW).collada
    with Scratch() as tmp:
        name = tmp("sim." + (["h5", "hdf5", "pkl", "pickle"][ext] if not typed else "data"))
        tmp.touch(os.path.basename(name))
        SIM[name] = sim if group == "/" else {"timeline": 0, "transforms": {}, "run": {"first": {}, "second": sim}}
        d = c.Collada()
        if old:
            lib = ET.SubElement(d.xmlnode.getroot(), "library_animations")
            ET.SubElement(lib, "animation", {"id": "kept"})
        DISK[tmp("scene.dae")] = d
        kw = {"file_type": ["h5", "hdf5", "pkl", "pickle"][ext]} if typed else {}
        if digits != 8:
            kw["precision"] = digits
        wr.write_collada_animation(tmp("anim.dae"), tmp("scene.dae"), name, hdf5_group=group, **kw)
        E.true("the scene is left as it was", len(list(d.xmlnode.getroot().iter("animation"))) == old)
        out = DISK[tmp("anim.dae")]
    E.true("older animations stay", len([x for x in out.xmlnode.getroot().iter("animation") if x.get("id") == "kept"]) == old)
    got = animated(E, out)
    E.true("one animation per recorded thing", set(got) == {"one/matrix", "two/matrix"})
    h = 0.5 * 10 ** -digits
    if E.symbolic:
        h = Fraction(1, 2 * 10 ** digits)
    for n, v in vals.items():
        g = got[n + "/matrix"]
        E.true("times, matrices, interpolations", set(g) == {"INPUT", "OUTPUT", "INTERPOLATION"})
        E.true("4x4 matrices", g["OUTPUT"][1:] == (16, "float4x4") and len(g["OUTPUT"][0]) == 48)
        E.true("an interpolation per instant", len(g["INTERPOLATION"][0]) == 3)
        for label, src, want in (("time", "INPUT", T), ("matrix", "OUTPUT", v.reshape(-1))):
            for s, x in zip(g[src][0], want):
                e = number(E, s) - x
                E.true("recorded %s, rounded" % label, E.AND(E.LE(e, h), E.LE(-h, e)))


@obligation("P32", "bad_files", "missing simulation files; groups that are not there", stubs=stubs)
def bad(E):
    wr = E.mod(DW)
    k = E.choice("what", 3)
    with Scratch() as tmp:
        DISK[tmp("scene.dae")] = wr.collada.Collada()
        name = tmp(["sim.h5", "sim.pkl", "sim.h5"][k])
        if k == 2:
            SIM[name] = {"run": {}}
        E.raises("refused", (IOError, KeyError), lambda: wr.write_collada_animation(
            tmp("anim.dae"), tmp("scene.dae"), name, hdf5_group="other"))
        E.true("nothing written", not os.path.exists(tmp("anim.dae")))


@obligation("P32", "added_shapes", "a mesh file or one of its nodes, with any transform and scale (one or three numbers) or "
            "without; given as tuple or dictionary; twice the same mesh; whole files", stubs=stubs, budget=200)
def added(E):
    wr = E.mod(DW)
    c = wr.collada
    printed = []
    E.patch(DW, "print", lambda *a: printed.append(a))
    kind, part = E.choice("given", 7), E.choice("part", 2)
    S, P = c.scene.Scene, Node
    H, s, s3 = E.pose("H"), E.real("s", 0.0625, 100), E.vec("s3", 3, 0.0625, 100)
    A, B, M = E.pose("A"), E.pose("B"), E.pose("M")

    def mat(H):
        return c.scene.MatrixTransform(E.array(H).reshape(16))
    with Scratch() as tmp:
        d, m = c.Collada(), c.Collada()
        kid = P("hand", transforms=[mat(B)])
        d.scene = S("s", [P("ground", [P("arm", [kid], [mat(A)])])])
        geo, eff = Thing(id="mesh"), Thing(id="paint")
        mt = Thing(id="steel", effect=eff)
        hand = P("hand", [GeometryNode(geo, [Thing(target=mt)])], [mat(M)])
        m.scene = S("m", [P("void", [hand])])
        # a second root in the file: part of the file, not of the node
        m.scene.nodes.append(P("cap", [GeometryNode(Thing(id="mesh2"), [Thing(target=Thing(id="wood", effect=Thing(id="varnish")))])]))
        DISK[tmp("in.dae")], DISK[tmp("mesh.dae")] = d, m
        path = tmp("mesh.dae") + ("#hand" if part else "")
        what = [[("hand", path)], [("hand", path, H)], [("hand", path, H, s)], [{"frame": "hand", "mesh": path, "scale": list(s3)}],
                [{"frame": "hand", "mesh": path, "transform": H, "scale": s}, ("arm", path)],
                [("none", path), ("hand", tmp("mesh.dae") + "#none")], tmp("mesh.dae")][kind]
        over = bool(E.choice("overwrite", 2))
        wr.add_shapes_to_dae(tmp("in.dae"), what, None if over else tmp("out.dae"))
        out = DISK[tmp("in.dae" if over else "out.dae")]
        nodes, geos = walk(E, out)
    if kind == 5:
        E.true("warned of what is missing", len(printed) == 2 and not geos)
        return
    want = {0: [("hand", E.eye(4), [1] * 3)], 1: [("hand", H, [1] * 3)], 2: [("hand", H, [s] * 3)],
            3: [("hand", E.eye(4), s3)], 4: [("hand", H, [s] * 3), ("arm", E.eye(4), [1] * 3)],
            6: [("hand", E.eye(4), [1] * 3)]}[kind]
    if not part and kind < 5:
        caps = [g for g in geos if g[0] == "mesh2"]
        geos = [g for g in geos if g[0] != "mesh2"]
        E.true("all the roots of the file", len(caps) == len(want))
    else:
        caps = None
    E.true("each shape once", len(geos) == len(want))
    pose = {"arm": A, "hand": E.dot(A, B)}
    for f, T, k in want:
        hit = [g for g in geos if (g[2][2] == "hand") == (f == "hand")]
        E.true("under its frame", len(hit) == 1 and hit[0][0] == "mesh")
        E.equal("where and as large as asked", hit[0][1], E.dot(scaled(E, E.dot(pose[f], T), k), M))
        if caps is not None:
            hit = [g for g in caps if (g[2][2] == "hand") == (f == "hand")]
            E.true("second root under its frame", len(hit) == 1)
            E.equal("second root, where and as large as asked", hit[0][1], scaled(E, E.dot(pose[f], T), k))
    lib = [n.id for n in out.nodes]
    E.true("library ids are unique", len(set(lib)) == len(lib))
    if kind == 6:
        E.true("warned of the nodes without shapes", len(printed) == 2)


@obligation("P32", "daenim_messages", "two steps between arbitrary states, flat or not, joints on offset frames or not when the scene is given; the viewer "
            "may be missing, silent or gone; scene given or not", stubs=stubs, budget=200)
def messages(E):
    v, net = E.mod(VC), p27_records.NET
    for m in (DW, VC, p27_records.OBS):
        E.patch(m, "print", lambda *a: None)
    warned = []
    E.patch(VC, "warnings", Thing(warn=lambda *a, **k: warned.append(a)))
    E.patch(VC, "sleep", lambda s: None)
    flat, given = bool(E.choice("flat", 2)), bool(E.choice("given", 2))
    how = ["here", "no program", "silent", "gone"][E.choice("viewer", 4)]
    net.update(busy=0, come={"here": 1, "no program": 0, "silent": 0, "gone": 2}[how], log=[], bound=None)
    w, bodies, js, fs, mf = p27_records.plant(E, given and bool(E.choice("offset", 2)))
    with Scratch() as tmp:
        CALLS.fail = how == "no program"
        o = v.DaenimCom(tmp("scene.dae") if given else None, "/opt/some viewer", port=5003, options="-a 'b c'", flat=flat)
        o.init(w, [0., 1., 2.])
        if how == "no program":
            E.true("warned", len(warned) == 1 and not CALLS)
        else:
            E.true("viewer started once", len(CALLS) == 1 and not warned)
            cmd, scene = CALLS[0]
            E.true("told where to connect, with its options", cmd[0] == "/opt/some viewer" and
                   cmd[2:] == ["-socket", "127.0.0.1", "5003", "-a", "b c"])
            E.true("on the scene", cmd[1] == tmp("scene.dae") if given else scene is not None)
            if not given:
                nodes, geos = walk(E, scene)
                E.true("which has what will move", {n.id for n, _ in nodes} >= (
                    {"one", "two", "moving"} if flat else {"one", fs[1].name, "moving"}))
        for r in range(2):
            p27_records.state(E, w, js, mf, r)
            del net["log"][:]
            o.update(E.real("dt", 0.001, 1))
            if how != "here":
                E.true("nothing sent, nothing raised", not [x for x in net["log"] if x[0] == "send"])
                continue
            sent = b"".join(x[1] for x in net["log"] if x[0] == "send").decode()
            lines = [x.split() for x in sent.split("\n")]
            E.true("lines end", sent.endswith("\n") and lines.pop() == [])
            if flat:
                want = {"ground": w.ground.pose, "one": bodies[0].pose, "two": bodies[1].pose,
                        "moving": E.dot(bodies[0].pose, mf.bpose)}
            else:
                want = {"one": js[0].pose, fs[1].name: js[1].pose, "moving": mf.bpose}
            E.true("one line per moving thing", sorted(x[0] for x in lines) == sorted(want))
            for x in lines:
                E.true("twelve numbers", len(x) == 13)
                E.equal("rows of the transform", E.array([number(E, y) for y in x[1:]]).reshape((3, 4)), want[x[0]][0:3, :])
        o.finish()


@obligation("P32", "daenim_unnamed", "a chain of two links on offset frames, a moving frame, each named or not; flat or not, scene given or not; "
            "then another world with the same observer", stubs=stubs, budget=200)
def messages_unnamed(E):
    v, net, core, jm = E.mod(VC), p27_records.NET, E.mod(CORE), E.mod(JOINTS)
    for m in (DW, VC, p27_records.OBS):
        E.patch(m, "print", lambda *a: None)
    E.patch(VC, "warnings", Thing(warn=lambda *a, **k: None))
    E.patch(VC, "sleep", lambda s: None)
    flat, given, named = bool(E.choice("flat", 2)), bool(E.choice("given", 2)), E.choice("named", 8)
    net.update(busy=0, come=1, log=[], bound=None)
    with Scratch() as tmp:
        CALLS.fail = False
        o = v.DaenimCom(tmp("scene.dae") if given else None, "/opt/some viewer", flat=flat)
        for r in range(2):
            w = core.World()
            a, b = core.Body("one" if named & 1 else None), core.Body("two" if named & 2 else None)
            c = core.SubFrame(b, fixed(E, 1), "end" if named & 4 else None)
            m = core.MovingSubFrame(b, E.pose("M%d" % r), "moving" if named & 4 else None)
            js = [jm.RzJoint(gpos=[E.angle("q0%d" % r)]), jm.RyJoint(gpos=[E.angle("q1%d" % r)])]
            w.add_link(w.ground, js[0], a)
            w.add_link(a, js[1], c)
            w.register(m)
            w.init()
            w.update_geometric()
            o.init(w, [0., 1.])
            del net["log"][:]
            o.update(E.real("dt%d" % r, 0.001, 1))
            sent = b"".join(x[1] for x in net["log"] if x[0] == "send").decode()
            lines = [x.split() for x in sent.split("\n")]
            E.true("lines end", sent.endswith("\n") and lines.pop() == [])
            moving = [(w.ground, w.ground.pose), (a, a.pose), (b, b.pose), (m, m.pose)] if flat else \
                     [(a, js[0].pose), (c, js[1].pose), (m, m.bpose)]
            E.true("everything has a name of its own", all(f.name for f, H in moving) and
                   len({f.name for f, H in moving}) == len(moving))
            E.true("one line per moving thing", sorted(x[0] for x in lines) == sorted(f.name for f, H in moving))
            want = {f.name: H for f, H in moving}
            for x in lines:
                E.true("twelve numbers", len(x) == 13)
                E.equal("rows of the transform", E.array([number(E, y) for y in x[1:]]).reshape((3, 4)), want[x[0]][0:3, :])
        o.finish()


@obligation("P32", "view", "worlds, scenes, scenes with a recorded simulation; by either viewer", stubs=stubs)
def view(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    kind, path = E.choice("kind", 3), [None, "/opt/viewer"][E.choice("path", 2)]
    w = core.World()
    b = core.Body("b")
    w.add_link(w.ground, jm.RzJoint(gpos=[E.angle("q")]), b)
    w.init()
    x = E.real("x", -1000, 1000)
    T = E.eye(4)
    T[0, 3] = x
    with Scratch() as tmp:
        DISK[tmp("scene.dae")] = E.mod(DW).collada.Collada()
        SIM[tmp("sim.h5")] = {"run": {"timeline": E.array([0.]), "transforms": {"b": E.array([T])}}}
        before = set(os.listdir(tmp.d))
        if E.choice("viewer", 2):
            v = E.mod(VC)
            if kind == 0:
                v.view(w, daenim_path=path)
            elif kind == 1:
                v.view(tmp("scene.dae"), daenim_path=path)
            else:
                v.view(tmp("scene.dae"), tmp("sim.h5"), "run", daenim_path=path)
            E.true("the viewer is called once", len(CALLS) == 1)
            cmd, shown = CALLS[0]
            E.true("the chosen program", cmd[0] == (path or "daenim") and len(cmd) == 2)
            E.true("no file left behind", set(os.listdir(tmp.d)) == before)
            E.true("what is shown was written", shown is not None)
            if kind == 1:
                E.true("the given file", cmd[1] == tmp("scene.dae"))
            if kind == 2:
                got = animated(E, shown)["b/matrix"]["OUTPUT"][0]
                E.true("the recorded motion", E.AND(E.LE(number(E, got[3]) - x, 1e-8), E.LE(x - number(E, got[3]), 1e-8)))
        else:
            v = E.mod("arboris.visu")
            kw = {"browser": "firefox"} if path else {}
            v.view(w if kind == 0 else tmp("scene.dae"), port=5003, **kw)
            E.true("the viewer is called once", len(CALLS) == 1)
            _, a, k, there = CALLS[0]
            E.true("on a file that exists", there and (kind == 0 or a[0] == tmp("scene.dae")))
            E.true("in the given browser, with its options", k == {"browser": kw.get("browser"), "port": 5003})
            shown = DISK[os.path.abspath(a[0])]
        if kind == 0:
            nodes, geos = walk(E, shown)
            hit = [H for n, H in nodes if n.id == "b"]
            E.true("the body is in the scene", len(hit) == 1)
            E.equal("where it is", hit[0], b.pose)


def picture(E, dae):
    """What a file shows: its nodes with their place, its geometries with place, colour and names above."""
    nodes, geos = walk(E, dae)
    return ([(n.id, H, len(n.transforms)) for n, H in nodes],
            [(g, H, above, [getattr(m.target.effect, "diffuse", None) for m in mats]) for g, H, above, mats in geos])


def alike(E, what, a, b):
    for x, y in zip(a, b):
        E.true("%s: as many things" % what, len(x) == len(y))
        for p, q in zip(x, y):
            E.true("%s: names, colours" % what, p[0] == q[0] and p[2:] == q[2:])
            E.equal("%s: places" % what, p[1], q[1])


def little(E, n, size, scale, pose):
    """A one-body world; the joints' and frames' names are the same in all of them."""
    core, jm, sh = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes")
    w = core.World()
    b = core.Body("body")
    w.add_link(w.ground, jm.FreeJoint(gpos=pose, name="joint"), b)
    f = core.SubFrame(b, fixed(E, n), "end")
    w.register(f)
    if n:
        w.add_link(b, jm.RzJoint(), core.Body("more"))
    for s in [sh.Sphere(b, size, "ball"), sh.Box(f, (size, 1., 2.), "block"), sh.Point(w.ground)][:3 - n]:
        w.register(s)
    w.init()
    w.update_geometric()
    return w


@obligation("P32", "several_scenes", "two worlds with the same names, any poses, sizes and scales, written one after the other, "
            "in turn by two writers, or twice; flat or not; either writer", stubs=stubs, max_paths=400, budget=200)
def several(E):
    mod = [DW, VC][E.choice("writer", 2)]
    v, wd = E.mod(mod), E.mod("arboris.visu.world_drawer")
    D = v.pydaenimColladaDriver if mod == DW else v.DaenimColladaDriver
    E.patch(DW, "print", lambda *a: None)
    flat, first = bool(E.choice("flat", 2)), E.choice("first", 2)
    x = [(n, E.real("size%d" % n, 0.125, 4), E.real("scale%d" % n, 0.125, 4), E.pose("G%d" % n)) for n in range(2)]
    W = [little(E, *a) for a in x]

    def write(i, tmp, name):
        v.write_collada_scene(W[i], tmp(name), x[i][2], flat=flat)
        return DISK[tmp(name)]
    with Scratch() as tmp:
        k = first
        alone = picture(E, write(k, tmp, "alone.dae"))
        o = write(1 - k, tmp, "other.dae")
        other = picture(E, o)
        again = picture(E, write(k, tmp, "again.dae"))
        alike(E, "after another scene", again, alone)
        alike(E, "the other stays", picture(E, o), other)
        alike(E, "the file stays", picture(E, DISK[tmp("alone.dae")]), alone)
        # two writers at once
        drv = [D(tmp("turn%d.dae" % i), x[i][2]) for i in range(2)]
        drw = [wd.Drawer(d, flat, wd.ColorGenerator(nb_colors=len(w.getbodies()))) for d, w in zip(drv, W)]
        for i in range(2):
            W[i].parse(drw[i])
        for d in drw:
            d.finish()
        alike(E, "in turn", picture(E, DISK[tmp("turn%d.dae" % k)]), alone)
        alike(E, "in turn, the other", picture(E, DISK[tmp("turn%d.dae" % (1 - k))]), other)


def long_offset(E, n):
    """square_pose, with a translation whose length is rational."""
    H = square_pose(E, n)
    for i, x in enumerate([(1, 2, 2), (-2, 3, 6), (4, -4, 2), (0, -3, 4), (6, 2, -3)][n % 5]):
        H[i, 3] = x * 0.25
    return H


MANY = ("14 massless bodies in a chain, a star, a binary tree, a comb or two long branches, every joint class, two bent to any angle, frames offset "
        "at either end or not, 18 shapes of any sizes, 6 fixed and 5 moving frames; flat or not; ")


@obligation("P32", "scene_many", MANY + "either writer, any scale", stubs=stubs, budget=300)
def scene_many(E):
    mod = [DW, VC][E.choice("writer", 2)]
    flat = bool(E.choice("flat", 2))
    w, bodies, links, extra, shapes, want = crowd(E, lambda n: long_offset(E, n), False)
    k = E.real("scale", 0.125, 8)
    with Scratch() as tmp:
        dae, at, geos = written(E, mod, w, tmp, k, None, flat)
    E.true("a node for every frame", set(at) >= set(want))
    for n in sorted(want):
        E.equal("frame %s is where it is" % n, at[n][1], want[n])
        E.true("it can be moved", [t.kind for t in at[n][0].transforms if t.xmlnode.get("sid") == "matrix"] == ["matrix"])
    solid = [g for g in geos if g[0] not in ("line_geometry-mesh", "frame_arrows_geometry-mesh")]
    E.true("every shape once", len(solid) == len(shapes))
    own = lambda g: [i for i in g[2] if i in want][-1]
    pr = type(driver(E))()._options["point radius"] * k
    cols = {}
    for f, kind, dim in shapes:
        hit = [g for g in solid if own(g) == f.name and g[0] == {"point": "sphere"}.get(kind, kind) + "_geometry-mesh"]
        if kind == "plane":
            P = [E.dot(E.inv4(want[f.name]), g[1]) for g in hit]
            E.true("a plane at this place of %s" % f.name, E.OR(*[
                E.AND(E.EQ(x[1, 3], dim[3]), E.EQ(x[1, 0], 0), E.EQ(x[1, 1], 0)) for x in P]))
        else:
            size = {"sphere": lambda: dim, "box": lambda: dim, "cylinder": lambda: [dim[1], dim[1], dim[0]], "point": lambda: [pr] * 3}[kind]()
            H = scaled(E, want[f.name], size)
            E.true("a %s of this size on %s" % (kind, f.name), E.OR(*[
                E.AND(*[E.EQ(g[1][i, j], H[i, j]) for i in range(3) for j in range(4)]) for g in hit]))
        for g in hit:
            cols.setdefault(f.body.name, set()).add(g[3][0].target.effect.diffuse)
    E.true("one colour per body, another for each", all(len(c) == 1 for c in cols.values()) and
           len(set(c for v in cols.values() for c in v)) == len(cols))
    lines = [g for g in geos if g[0] == "line_geometry-mesh"]
    arrows = [g for g in geos if g[0] == "frame_arrows_geometry-mesh"]
    if mod == DW:
        E.true("no lines nor arrows for this viewer", not lines and not arrows)
        return
    E.true("arrows at every frame but the ground", sorted(own(g) for g in arrows) == sorted(n for n in want if n != "ground"))
    for g in arrows:
        E.equal("arrows are at their frame", g[1], scaled(E, want[own(g)], [0.08 * k] * 3))


def moving_things(E, flat, w, bodies, links, extra):
    """What loggers and viewers are told about, by name."""
    if flat:
        out = dict((b.name, b.pose) for b in bodies)
    else:
        out = dict((f1.name, j.pose) for p, f0, j, f1, A, C in links)
    for f in extra:
        if f.name in MOVING:
            out[f.name] = f.pose if flat else f.bpose
    return out


MOVING = ["x%d" % i for i in range(0, 11, 2)]


@obligation("P32", "daenim_many", MANY + "scene given or not; two steps", stubs=stubs, budget=200)
def daenim_many(E):
    v, net = E.mod(VC), p27_records.NET
    for m in (DW, VC, p27_records.OBS):
        E.patch(m, "print", lambda *a: None)
    E.patch(VC, "warnings", Thing(warn=lambda *a, **k: None))
    E.patch(VC, "sleep", lambda s: None)
    flat, given = bool(E.choice("flat", 2)), bool(E.choice("given", 2))
    net.update(busy=0, come=1, log=[], bound=None)
    w, bodies, links, extra, shapes, at = crowd(E, lambda n: long_offset(E, n), False)
    with Scratch() as tmp:
        CALLS.fail = False
        o = v.DaenimCom(tmp("scene.dae") if given else None, "/opt/some viewer", flat=flat)
        o.init(w, [0., 1.])
        for r in range(2):
            links[6][2].gpos[0] = E.angle("then%d" % r)
            w.update_geometric()
            del net["log"][:]
            o.update(E.real("dt%d" % r, 0.001, 1))
            lines = [x.split() for x in b"".join(x[1] for x in net["log"] if x[0] == "send").decode().split("\n")]
            E.true("lines end", lines.pop() == [])
            want = moving_things(E, flat, w, bodies, links, extra)
            E.true("one line per moving thing", sorted(x[0] for x in lines) == sorted(want))
            for x in lines:
                E.true("twelve numbers", len(x) == 13)
                E.equal("rows of the transform", E.array([number(E, y) for y in x[1:]]).reshape((3, 4)), want[x[0]][0:3, :])
        o.finish()


@obligation("P32", "animation_many", "twelve moving things over two instants, six of them over eight, any matrices and times", stubs=stubs,
            budget=200)
def animation_many(E):
    wr = E.mod([DW, VC][E.choice("module", 2)])
    things, times = [(12, 2), (6, 8)][E.choice("size", 2)]
    T = E.arr(times)
    for i in range(times):
        T[i] = E.real("t%d" % i, 0, 100)
    vals = {}
    for n in range(things):
        v = vals["thing %d" % n] = E.arr((times, 4, 4))
        for i in range(times):
            v[i] = E.eye(4)
            for j in range(3):
                for k in range(4):
                    v[i, j, k] = E.real("m%d_%d_%d%d" % (n, i, j, k), -1000, 1000) if (i + j + k + n) % 4 == 0 else (i * 5 + j * 3 + k + n) % 7
    c = E.mod(DW).collada
    with Scratch() as tmp:
        name = tmp.touch("sim.h5")
        SIM[name] = {"timeline": T, "transforms": vals}
        DISK[tmp("scene.dae")] = c.Collada()
        wr.write_collada_animation(tmp("anim.dae"), tmp("scene.dae"), name)
        got = animated(E, DISK[tmp("anim.dae")])
    E.true("one animation per recorded thing", set(got) == set(n + "/matrix" for n in vals))
    h = Fraction(1, 2 * 10 ** 8) if E.symbolic else 0.5e-8
    for n, v in vals.items():
        g = got[n + "/matrix"]
        E.true("4x4 matrices", g["OUTPUT"][1:] == (16, "float4x4") and len(g["OUTPUT"][0]) == 16 * times)
        E.true("an interpolation per instant", len(g["INTERPOLATION"][0]) == times == len(g["INPUT"][0]))
        for label, src, want in (("time", "INPUT", T), ("matrix", "OUTPUT", v.reshape(-1))):
            for s, x in zip(g[src][0], want):
                e = number(E, s) - x
                E.true("recorded %s, rounded" % label, E.AND(E.LE(e, h), E.LE(-h, e)))


@obligation("P32", "animation_extremes", "recorded numbers from 1e-10 to 1e20, whole, with many decimals, or any; decimals kept 8 or 12; times up to "
            "1e4 a microsecond apart", stubs=stubs)
def animation_extremes(E):
    wr = E.mod([DW, VC][E.choice("module", 2)])
    digits = [8, 12][E.choice("digits", 2)]
    T = np.array([0., 1. / 3, 10., 1000.000001, 1000.000002, 10000.])
    odd = [1e-10, 100., 0., 1e20, -0., 12345.678901, -1e-5, 120., 1. / 3, 10.5, -20., 1e16, 2.5e-9]
    x = E.real("x", -1000, 1000)
    v = E.arr((6, 4, 4))
    for i in range(6):
        v[i] = E.eye(4)
        for j in range(3):
            for k in range(4):
                v[i, j, k] = odd[(5 * i + 3 * j + k) % 13]
    v[2, 1, 1] = x
    with Scratch() as tmp:
        name = tmp.touch("sim.h5")
        SIM[name] = {"timeline": T, "transforms": {"one": v}}
        DISK[tmp("scene.dae")] = E.mod(DW).collada.Collada()
        wr.write_collada_animation(tmp("anim.dae"), tmp("scene.dae"), name, precision=digits)
        got = animated(E, DISK[tmp("anim.dae")])
    g = got["one/matrix"]
    E.true("every number", len(g["INPUT"][0]) == 6 and len(g["OUTPUT"][0]) == 96)
    h = Fraction(1, 2 * 10 ** digits) if E.symbolic else 0.5 * 10. ** -digits
    for s, t in zip(g["INPUT"][0], T):
        E.true("recorded time", abs(float(s) - float(t)) <= 1e-8)
    for s, z in zip(g["OUTPUT"][0], v.reshape(-1)):
        e = number(E, s) - z
        if isinstance(z, float):
            E.true("recorded number, rounded", abs(float(e)) <= max(0.500001 * 10. ** -digits, 1e-15 * abs(z)))
        else:
            E.true("recorded number, rounded", E.AND(E.LE(e, h), E.LE(-h, e)))


@obligation("P32", "added_many", "twenty nodes side by side, twelve meshes added to them, whole or by node, any size, one or three whole numbers "
            "for their scale or none", stubs=stubs)
def added_many(E):
    wr = E.mod(DW)
    c = wr.collada
    E.patch(DW, "print", lambda *a: None)
    S, P = c.scene.Scene, Node
    mat = lambda H: c.scene.MatrixTransform(E.array(H).reshape(16))
    s = [E.real("s%d" % i, 0.0625, 100) for i in range(12)]
    at = [const_pose(E, i % 5) for i in range(20)]
    dicts = E.choice("as dictionaries", 2)
    with Scratch() as tmp:
        d = c.Collada()
        d.scene = S("s", [P("ground", [P("n%d" % i, transforms=[mat(at[i])]) for i in range(20)])])
        DISK[tmp("in.dae")] = d
        what, want = [], []
        for i in range(12):
            m = c.Collada()
            parts = [P("part%d" % k, [GeometryNode(Thing(id="mesh%d_%d" % (i, k)), [
                Thing(target=Thing(id="m%d" % i, effect=Thing(id="e%d" % i)))])]) for k in range(18)]
            m.scene = S("m", [P("all", parts)])
            DISK[tmp("mesh%d.dae" % i)] = m
            k = (i * 7 + 3) % 18
            path = tmp("mesh%d.dae" % i) + ("#part%d" % k if i % 2 else "")
            size = [s[i], 2, [1, 2, 3], [s[i], 1, s[i]]][i % 4]
            node = "n%d" % (19 - i)
            what.append({"frame": node, "mesh": path, "transform": np.eye(4), "scale": size} if dicts else (node, path, np.eye(4), size))
            size = size if isinstance(size, list) else [size] * 3
            want += [("mesh%d_%d" % (i, j), node, scaled(E, at[19 - i], size)) for j in ([k] if i % 2 else range(18))]
        wr.add_shapes_to_dae(tmp("in.dae"), what)
        nodes, geos = walk(E, DISK[tmp("in.dae")])
    E.true("each shape once", sorted(g[0] for g in geos) == sorted(x[0] for x in want))
    for name, node, H in want:
        g = [g for g in geos if g[0] == name][0]
        E.true("under its frame", g[2][1] == node)
        E.equal("where and as large as asked", g[1], H)


@obligation("P32", "near_colours", "two bodies with nearly the same colour and a third with the same, shapes of any size; either writer", stubs=stubs)
def near_colours(E):
    core, jm, sh = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes")
    mod = [DW, VC][E.choice("writer", 2)]
    w = core.World()
    cols = {"b0": (0.5, 0.25, 0.125), "b1": (0.5, 0.25 + 2. ** -12, 0.125), "b2": (0.5, 0.25, 0.125), "b3": (0.125, 0.25, 0.5)}
    r = [E.real("r%d" % i, 0.0625, 100) for i in range(4)]
    for i in range(4):
        b = core.Body("b%d" % i)
        w.add_link(w.ground, jm.TxJoint(gpos=[i]), b)
        w.register(sh.Sphere(b, r[i], "s%d" % i))
    w.init()
    g = E.mod("arboris.visu.world_drawer").ColorGenerator(cols)
    with Scratch() as tmp:
        dae, at, geos = written(E, mod, w, tmp, 1, None, bool(E.choice("flat", 2)), g)
    balls = [x for x in geos if x[0] == "sphere_geometry-mesh"]
    E.true("every shape", len(balls) == 4)
    for x in balls:
        b = [i for i in x[2] if i in cols][-1]
        E.true("its own colour", tuple(x[3][0].target.effect.diffuse)[:3] == cols[b])
    for ids in ([m.id for m in dae.materials], [e.id for e in dae.effects]):
        E.true("distinct materials and effects", len(set(ids)) == len(ids))


@obligation("P32", "same_names", "a body and twelve shapes of any size under one name", stubs=stubs)
def same_names(E):
    core, jm, sh = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes")
    mod = [DW, VC][E.choice("writer", 2)]
    w = core.World()
    b = core.Body("a")
    w.add_link(w.ground, jm.TxJoint(gpos=[E.real("q", -8, 8)]), b)
    r = [E.real("r%d" % i, 0.0625, 100) for i in range(12)]
    for i in range(12):
        w.register(sh.Box(b, (r[i], 1, 1), "a"))
    w.init()
    with Scratch() as tmp:
        dae, at, geos = written(E, mod, w, tmp)         # distinct names
    E.equal("the node of the name is the body", at["a"][1], b.pose)
    E.true("which moves", [t.kind for t in at["a"][0].transforms] == ["matrix"])
    E.true("every shape", len([g for g in geos if g[0] == "box_geometry-mesh"]) == 12)


@obligation("P32", "daenim_long", "eighty bodies side by side, one anywhere; small displacements; flat or not", stubs=stubs)
def daenim_long(E):
    v, net = E.mod(VC), p27_records.NET
    core, jm = E.mod(CORE), E.mod(JOINTS)
    for m in (DW, VC, p27_records.OBS):
        E.patch(m, "print", lambda *a: None)
    E.patch(VC, "warnings", Thing(warn=lambda *a, **k: None))
    E.patch(VC, "sleep", lambda s: None)
    net.update(busy=0, come=1, log=[], bound=None)
    w = core.World()
    q = [(i - 40) * 2.0 ** -24 for i in range(80)]
    q[70] = E.real("q", -8, 8)
    js = []
    for i in range(80):
        j = jm.TxJoint(gpos=[q[i]])
        w.add_link(w.ground, j, core.Body("body number %d" % i if i % 2 else "b%d" % i))
        js.append(j)
    for j in js[1::2]:
        j.frames[1].name = j.frames[1].name.replace(" ", "_")
    w.init()
    with Scratch() as tmp:
        CALLS.fail = False
        o = v.DaenimCom(tmp("scene.dae"), "/opt/some viewer", flat=bool(E.choice("flat", 2)))
        o.init(w, [0., 1.])
        w.update_geometric()
        del net["log"][:]
        o.update(0.125)
        lines = [x.split() for x in b"".join(x[1] for x in net["log"] if x[0] == "send").decode().split("\n")]
        E.true("lines end", lines.pop() == [])
        got = dict((x[0], x[1:]) for x in lines)
        for i in range(80):
            n = js[i].frames[1].name
            E.true("a line for each", n in got and len(got[n]) == 12)
            unit = 2.0 ** -24 if i != 70 else 1
            E.equal("where it is", number(E, got[n][3]) / unit, q[i] / unit)
        o.finish()
