"""P35 Exporting a robot to arboris-matlab."""
import io
import re
from engine.harness import obligation
from engine import shim
from ._common import CORE, JOINTS, const_mass, const_pose

MP = "matlab.convert_py2mat"
PARTS = {"RzRyRxJoint": "zyx", "RzRyJoint": "zy", "RyRxJoint": "yx", "RzRxJoint": "zx", "RzJoint": "z", "RyJoint": "y",
         "RxJoint": "x"}


# ------------------------------------------------------------------- what MATLAB reads in a text
class Unreadable(Exception):
    pass


def number(E, s):
    try:
        return shim._float(s) if E.symbolic else float(s)
    except (ValueError, TypeError):
        raise Unreadable("not a number: %r" % s)


def words(text):
    """(kind, text) words of a MATLAB source; kinds: word, string, open, close, row, blank, quote, end."""
    out, i, depth = [], 0, 0
    while i < len(text):
        c = text[i]
        if c == "%":
            while i < len(text) and text[i] != "\n":
                i += 1
            continue
        if text.startswith("...", i):
            i = text.find("\n", i)
            i = len(text) if i < 0 else i + 1
            out.append(("blank", " "))
            continue
        if c == "'":
            p = out[-1] if out else ("end", "")
            if p[0] in ("close", "word", "string", "quote"):
                out.append(("quote", c))
                i += 1
                continue
            j = text.find("'", i + 1)
            if j < 0:
                raise Unreadable("string without end")
            out.append(("string", text[i + 1:j]))
            i = j + 1
            continue
        if c in "[{(":
            depth += 1
            out.append(("open", c))
        elif c in "]})":
            depth -= 1
            out.append(("close", c))
        elif c in "\n;":
            out.append(("row" if depth else "end", c))
        elif c in " \t,":
            out.append(("blank", c))
        elif c == "=":
            out.append(("equal", c))
        else:
            j = i
            while j < len(text) and text[j] not in " \t,;\n[]{}()='%" and not text.startswith("...", j):
                j += 1
            out.append(("word", text[i:j]))
            i = j
            continue
        i += 1
    if depth:
        raise Unreadable("brackets")
    return out


def statements(text):
    """{left hand side: words of the right hand side} of the assignments, in order, and the other lines."""
    out, other, cur = {}, [], []
    for w in words(text) + [("end", "\n")]:
        if w[0] != "end":
            cur.append(w)
            continue
        while cur and cur[0][0] == "blank":
            cur.pop(0)
        if any(x[0] == "equal" for x in cur) and cur[0] != ("word", "function"):
            k = [x[0] for x in cur].index("equal")
            left = "".join(x[1] for x in cur[:k]).strip()
            if left in out and left.startswith(("tree.", "robot.")):
                raise Unreadable("given twice: " + left)
            out[left] = cur[k + 1:]
        elif cur:
            other.append("".join(x[1] for x in cur).strip())
        cur = []
    return out, other


def value(E, ws):
    """A list of rows, a string, or a cell list."""
    ws = list(ws)
    v = term(E, ws)
    while ws and ws[0][0] == "blank":
        ws.pop(0)
    if ws:
        raise Unreadable("trailing %r" % (ws[0],))
    return v


def term(E, ws):
    while ws and ws[0][0] == "blank":
        ws.pop(0)
    if not ws:
        raise Unreadable("nothing")
    k, x = ws.pop(0)
    if k == "string":
        return x
    if k == "open" and x in "[{":
        rows, row = [], []
        while ws[0][0] != "close":
            if ws[0][0] == "row":
                ws.pop(0)
                if row:
                    rows.append(row)
                row = []
            elif ws[0][0] == "blank":
                ws.pop(0)
            else:
                row.append(term(E, ws))
        ws.pop(0)
        if row:
            rows.append(row)
        if x == "{":
            v = rows
        else:       # blocks side by side, then one under the other
            v = []
            for r in rows:
                r = [t if isinstance(t, list) else [[t]] for t in r]
                r = [t for t in r if t]
                if len(set(len(t) for t in r)) > 1:
                    raise Unreadable("blocks of different heights")
                v += [sum((t[i] for t in r), []) for i in range(len(r[0]) if r else 0)]
            if len(set(len(r) for r in v)) > 1:
                raise Unreadable("rows of different lengths")
    elif k == "word" and x == "eye":
        n = int(ws[1][1])
        del ws[:3]
        v = [[int(i == j) for j in range(n)] for i in range(n)]
    elif k == "word":
        v = number(E, x)
    else:
        raise Unreadable("unexpected %r" % x)
    while ws and ws[0][0] == "quote":
        ws.pop(0)
        if isinstance(v, list):
            v = [list(r) for r in zip(*v)]
    return v


def matrix(E, v):
    return E.array(v) if isinstance(v, list) else E.array([[v]])


# ------------------------------------------------------------------------------ the converter
def joint(E, kind, tag):
    n = {"FreeJoint": 6, "FixedJoint": 0, "TxJoint": 1}.get(kind) or len(PARTS.get(kind, ""))
    return getattr(E.mod(JOINTS), kind)(name=tag)


def turn(E, axes, q):
    H = E.eye(4)
    for a, x in zip(axes, q):
        s, c = E.sincos(x)
        H = E.dot(H, E.ref_rot(a, s, c))
    return H


@obligation("P35", "converted_joints", "a robot on a free, fixed, rotating or sliding base; two bodies on the first link, by any "
            "rotating joints on offset frames, and one under them; any angles", max_paths=4000, budget=200)
def converted(E):
    core, jm, m = E.mod(CORE), E.mod(JOINTS), E.mod(MP)
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    root = ["FreeJoint", "FixedJoint", "RzJoint", "TxJoint"][E.choice("root", 4)]
    kinds = sorted(PARTS)
    k1 = kinds[E.choice("k1", len(kinds))]
    k2 = kinds[E.choice("k2", len(kinds))] if root == "FreeJoint" else "RzRyJoint"
    k3 = "RyRxJoint"
    named = bool(E.choice("named", 2))
    w = core.World()
    a, b, c, d = bodies = [core.Body(n, mass=const_mass(E, i)) for i, n in enumerate("abcd")]
    js = [joint(E, k, "j%d" % i if named else None) for i, k in enumerate((root, k1, k2, k3))]
    F = [const_pose(E, i) for i in range(6)]
    links = [(w.ground, js[0], core.SubFrame(a, F[0])), (core.SubFrame(a, F[1]), js[1], core.SubFrame(b, F[2])),
             (core.SubFrame(a, F[3]), js[2], c), (b, js[3], core.SubFrame(d, F[4]))]
    for f0, j, f1 in links:
        w.add_link(f0, j, f1)
    w.init()
    conv = m.MatlabConverter()
    conv.convert_robot(w, js[0])
    E.true("one joint on the ground, a free one", [type(j).__name__ for j in w.ground.childrenjoints] == ["FreeJoint"])
    base = w.ground.childrenjoints[0].frame1.body
    if root == "FreeJoint":
        E.true("kept as it is", w.ground.childrenjoints[0] is js[0])
        E.true("nothing more under the robot", not w.getshapes() and not list(w.getconstraints()))
    else:
        E.true("a heavy base", base not in bodies and base.mass[5, 5] == conv.base_mass and list(base.childrenjoints) == [js[0]])
    # new positions
    old = set(js)
    want = {}
    for i, (f0, j, f1) in enumerate(links):
        if i == 0:
            if root == "FreeJoint":
                H = E.pose("root")
                j.gpos[...] = H
            elif root == "FixedJoint":
                H = E.eye(4)
            else:
                q = E.angle("root angle")
                j.gpos[:] = E.array([q])
                H = turn(E, "z", [q]) if root == "RzJoint" else E.eye(4)
                if root == "TxJoint":
                    H[0, 3] = q
        else:
            ax = PARTS[type(j).__name__]
            q = [E.angle("q%d%s" % (i, x)) for x in ax]
            H = turn(E, ax, q)
            chain, frame, body = [], f0, f1.body
            up = body
            while up is not f0.body:
                chain.insert(0, up.parentjoint)
                up = up.parentjoint.frame0.body
            E.true("one joint for each axis", [type(x).__name__ for x in chain] == ["R%sJoint" % x for x in ax])
            E.true("from the same frame to the same frame", chain[0].frame0 is f0 and chain[-1].frame1 is f1)
            if len(ax) > 1:
                E.true("the old joint is gone", j not in list(w.iterjoints()))
                E.true("named after it", [x.name for x in chain] == [("j%dR%s" % (i, y)) if named else None for y in ax])
            else:
                E.true("the joint is kept", chain[0] is j)
            for x, y in zip(chain, q):
                x.gpos[:] = E.array([y])
            for x in chain[:-1]:
                M = x.frame1.body.mass
                E.true("hardly heavier", bool(0 < M[5, 5] <= conv.small_mass))
                for r in range(6):
                    for s in range(6):
                        E.true("hardly heavier", bool(abs(M[r, s]) <= conv.small_mass) and (r == s or M[r, s] == 0))
                E.true("a mass", M[3, 3] == M[4, 4] == M[5, 5] and M[0, 0] == M[1, 1] == M[2, 2] > 0)
        want[f1.body] = (f0, H, f1)
    E.true("order of the branches", [j.frame1 for j in a.childrenjoints][0] in (links[1][2],) or len(PARTS[k1]) > 1)
    w.update_geometric()
    P = {w.ground: E.eye(4)}
    for x in bodies:
        f0, H, f1 = want[x]
        P[x] = E.dot(P[f0.body], f0.bpose if f0 is not f0.body else E.eye(4), H, E.inv4(f1.bpose if f1 is not f1.body else E.eye(4)))
        E.equal("pose of %s" % x.name, x.pose, P[x])


# ------------------------------------------------------------------------------ the robot's file
def branches(E, st):
    """[(branch, link)] in order and the parents, as MATLAB reads them."""
    got, par = [], {}
    br = 1
    while "tree.br(%d).root_jk" % br in st:
        up = tuple(int(x) for x in value(E, st["tree.br(%d).root_jk" % br])[0])
        bd = 1
        while "tree.br(%d).bd(%d).E" % (br, bd) in st:
            got.append((br, bd))
            par[br, bd] = up if bd == 1 else (br, bd - 1)
            bd += 1
        E.true("no empty branch", bd > 1)
        br += 1
    return got, par


def read(E, text):
    try:
        st, other = statements(text)
        for k, v in st.items():
            if k.startswith(("tree.", "robot.model")):
                value(E, v)
        return st, other
    except Unreadable as e:
        E.true("MATLAB can read the file (%s)" % e, False)


class Plan(object):
    """A free root and links under it, of any tree."""

    def __init__(self, E, par, names=True, x=""):
        core, sh = E.mod(CORE), E.mod("arboris.shapes")
        w = self.w = core.World()
        self.par = par
        self.bodies = [core.Body("b%d" % i if names else None, mass=const_mass(E, i)) for i in range(len(par) + 1)]
        kinds = ["RxJoint", "RyJoint", "RzJoint"]
        self.joints = [joint(E, "FreeJoint", "base")] + [joint(E, kinds[(i * 2 + len(par)) % 3], "j%d" % i) for i in range(len(par))]
        f0 = [core.SubFrame(w.ground, const_pose(E, 5))] + [core.SubFrame(self.bodies[p], E.pose("F%s%d" % (x, i)))
                                                          for i, p in enumerate(par)]
        f1 = [core.SubFrame(b, const_pose(E, i)) if i % 2 else b for i, b in enumerate(self.bodies)]
        self.frames = list(zip(f0, f1))
        for a, j, b in zip(f0, self.joints, f1):
            w.add_link(a, j, b)
        self.joints[0].gpos[...] = E.pose("root" + x)
        self.v = E.vec("v" + x, 6 + len(par))
        self.q = E.vec("q" + x, len(par)) if par else E.arr(0)
        w.init()
        for i, j in enumerate(self.joints):
            if i:
                j.gpos[:] = self.q[i - 1:i]
                j.gvel[:] = self.v[5 + i:6 + i]
            else:
                j.gvel[:] = self.v[:6]
        self.r = [E.real("r%s%d" % (x, i), 0.125, 4) for i in range(10)]
        self.H = E.pose("S" + x)
        r = self.r
        s = [] if not par else [sh.Sphere(self.bodies[-1], r[0]), sh.Box(core.SubFrame(self.bodies[0], self.H), (r[1], r[2], r[3])),
             sh.Cylinder(core.SubFrame(self.bodies[-1], const_pose(E, 1)), r[4], r[5]), sh.Point(self.bodies[0]),
             sh.Sphere(core.SubFrame(self.bodies[-1], const_pose(E, 3)), r[6]), sh.Box(self.bodies[0], (r[7], r[8], r[9]))]
        self.shapes = [(0, "parallelepiped", [2 * r[1], 2 * r[2], 2 * r[3]], self.H), (0, "sphere", [0.01], E.eye(4)),
                       (len(par), "sphere", [r[0]], E.eye(4)), (len(par), "cylinder", [r[5], r[4]], const_pose(E, 1)),
                       (len(par), "sphere", [r[6]], const_pose(E, 3)), (0, "parallelepiped", [2 * r[7], 2 * r[8], 2 * r[9]], E.eye(4))]
        if not par:
            self.shapes = [(0, "sphere", [0.01], E.eye(4))]      # arboris-matlab needs a shape
        for k in s:
            w.register(k)


def check(E, p, text, name):
    st, other = read(E, text)
    E.true("a function of its name", any(o.replace(" ", "") == "functionrobot=create_%s()" % name for o in other) and
           value(E, st["tree.name"]) == name)
    got, par = branches(E, st)
    E.true("every link once", len(got) == len(p.bodies))
    label = dict((x, value(E, st["tree.br(%d).bd(%d).name" % x])) for x in got)
    order = ["base" if n == "base" else n for n in (label[x] for x in got)]
    E.true("under its name", sorted(order) == sorted(j.name for j in p.joints))
    at = dict((label[x], x) for x in got)
    E.true("branches start where links are", all(u == (0, 0) or u in par for u in par.values()))
    for i, j in enumerate(p.joints):
        x = at[j.name]
        E.true("under its parent", par[x] == ((0, 0) if i == 0 else at[p.joints[p.par[i - 1]].name]))
        E.true("a parent comes first", i == 0 or got.index(par[x]) < got.index(x))
        f = "tree.br(%d).bd(%d)." % x
        e = matrix(E, value(E, st[f + "E"]))
        if i == 0:
            E.equal("free", e, E.eye(6))
        else:
            want = E.arr((6, 1))
            want[3 + "xyz".index(type(j).__name__[1]), 0] = 1
            E.equal("axis", e, want)
        E.equal("parent frame", matrix(E, value(E, st[f + "H_0_0L1"])), j.frame0.bpose)
        E.equal("child frame", matrix(E, value(E, st[f + "H_1_1L0"])), j.frame1.bpose)
        M, N = p.bodies[i].mass, matrix(E, value(E, st[f + "M"]))
        turn = [3, 4, 5, 0, 1, 2]
        E.equal("mass, linear part first", N, E.array([[M[r, c] for c in turn] for r in turn]))
    # shapes
    shown = {}
    for k in st:
        h = re.match(r"tree\.br\((\d+)\)\.bd\((\d+)\)\.shape\((\d+)\)\.type$", k)
        if h:
            br, bd, n = map(int, h.groups())
            shown.setdefault((br, bd), []).append(n)
    for i, b in enumerate(p.bodies):
        mine = [s[1:] for s in p.shapes if s[0] == i]
        x = at[p.joints[i].name]
        E.true("numbered from one", sorted(shown.get(x, [])) == list(range(1, len(mine) + 1)))
        for kind, dims, H in mine:
            hit = []
            for n in shown[x]:
                f = "tree.br(%d).bd(%d).shape(%d)." % (x + (n,))
                v = matrix(E, value(E, st[f + "dims"]))
                if value(E, st[f + "type"]) == kind and len(v[0]) == len(dims):
                    hit.append((v[0], matrix(E, value(E, st[f + "H"]))))
            E.true("a %s on its body" % kind, len(hit) == sum(k == kind for k, _, _ in mine))
            if len(hit) == 1:
                E.equal("size", hit[0][0], E.array(dims))
                E.equal("place", hit[0][1], H)
            else:
                E.true("a %s of its size at its place" % kind, E.OR(*[
                    E.AND(*([E.EQ(a, b) for a, b in zip(d, dims)] + [E.EQ(h[r, c], H[r, c]) for r in range(3) for c in range(4)]))
                    for d, h in hit]))
    # state, in the order of the links
    E.equal("pose of the root", matrix(E, value(E, st["robot.model.H0"])), p.joints[0].gpos)
    n = [j.name for j in p.joints]
    q = [p.q[n.index(o) - 1] for o in order if o != "base"]
    v = [p.v[3:6], p.v[0:3]] + [p.v[5 + n.index(o):6 + n.index(o)] for o in order if o != "base"]
    E.equal("positions", matrix(E, value(E, st["robot.model.q"])).reshape(-1), E.array(q) if q else E.arr(0))
    T = E.array([y for x in v for y in x])
    E.equal("velocities, linear part of the root first", matrix(E, value(E, st["robot.model.T"])).reshape(-1), T)


@obligation("P35", "robot_file", "zero to four links in any tree under a free root, on any frames, any positions, velocities and sizes; "
            "bodies with and without names", max_paths=800, budget=200)
def robot_file(E):
    m = E.mod(MP)
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    n = E.choice("links", 5)
    p = Plan(E, [E.choice("parent%d" % i, i + 1) for i in range(n)], bool(E.choice("named", 2)))
    out = io.StringIO()
    m.MatlabRobotGenerator(p.w).make_robot(p.joints[0], out, "bot")
    check(E, p, out.getvalue(), "bot")


@obligation("P35", "several_files", "two robots of one or two links in one world or two, written by one generator or two, one after "
            "the other; shapes on the ground and on the other robot", max_paths=800, budget=200)
def several(E):
    core, m, sh = E.mod(CORE), E.mod(MP), E.mod("arboris.shapes")
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    named = bool(E.choice("named", 2))
    p, o = Plan(E, [0] * (1 + E.choice("links", 2)), named, "A"), Plan(E, [0], named, "B")
    for j in o.joints:
        j.name = "o" + j.name
    one = bool(E.choice("one world", 2))
    if one:
        if named:
            for b in o.bodies:
                b.name = "o" + b.name
        shapes = list(o.w.getshapes())
        w = p.w
        for (f0, f1), j in zip(o.frames, o.joints):
            j.set_frames(None, None)
        for b in o.bodies:
            b.parentjoint, b.childrenjoints = None, []
        for (f0, f1), j in zip(o.frames, o.joints):
            g = core.SubFrame(w.ground, f0.bpose) if f0.body is o.w.ground else f0
            w.add_link(g, j, f1)
        for s in shapes:
            w.register(s)
        w.init()
        o.w = w
    w = p.w
    w.register(sh.Plane(w.ground))
    w.register(sh.Sphere(core.SubFrame(w.ground, const_pose(E, 2)), 1.))
    g = m.MatlabRobotGenerator(w)
    h = g if one and E.choice("one generator", 2) else m.MatlabRobotGenerator(o.w)
    for r, k, name in ((p, g, "left"), (o, h, "right"), (p, g, "left")):
        out = io.StringIO()
        k.make_robot(r.joints[0], out, name)
        for j in o.joints:
            j.name = j.name[1:] if r is o else j.name
        text = out.getvalue()
        check(E, r, text.replace("'obase'", "'base'").replace("'oj", "'j") if r is o else text, name)
        for j in o.joints:
            j.name = "o" + j.name if r is o else j.name


@obligation("P35", "converted_files", "a fixed arm with its shapes, and a robot with a spherical and a universal joint; converted, then "
            "written; any positions of the simple joints", budget=200)
def converted_files(E):
    core, m, jm, sh = E.mod(CORE), E.mod(MP), E.mod(JOINTS), E.mod("arboris.shapes")
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    w = core.World()
    if E.choice("robot", 2):
        E.mod("arboris.robots.simplearm").add_simplearm(w, with_shapes=True)
        root = list(w.getjoints())[0]
        n = 4
    else:
        a, b, c = (core.Body(mass=const_mass(E, i)) for i in range(3))
        root = jm.FreeJoint(name="base")
        w.add_link(w.ground, root, a)
        w.add_link(core.SubFrame(a, const_pose(E, 0)), jm.RzRyRxJoint(name="ball"), b)
        w.add_link(a, jm.RzRyJoint(), c)
        w.register(sh.Sphere(c, 0.5))
        w.init()
        n = 6
    m.MatlabConverter().convert_robot(w, root)
    for i, j in enumerate(w.iterjoints()):
        if j.ndof == 1:
            j.gpos[:] = E.vec("q%d" % i, 1)
    out = io.StringIO()
    m.MatlabRobotGenerator(w).make_robot(w.ground.childrenjoints[0], out, "r")
    st, other = read(E, out.getvalue())
    got, par = branches(E, st)
    E.true("as many links as bodies", len(got) == n == len(list(w.iterbodies())) - 1)
    E.true("a free root", matrix(E, value(E, st["tree.br(1).bd(1).E"])).shape == (6, 6))
    q = matrix(E, value(E, st["robot.model.q"])).reshape(-1)
    T = matrix(E, value(E, st["robot.model.T"])).reshape(-1)
    E.true("sizes of the state", len(q) == n - 1 and len(T) == n + 5)
    E.true("not marked as wrong", not any("MAD" in o for o in other))
    # the same masses, the same total of positions
    masses = sorted((b.mass[5, 5] for b in w.iterbodies() if b is not w.ground))
    have = sorted(matrix(E, value(E, st["tree.br(%d).bd(%d).M" % x]))[0, 0] for x in got)
    E.equal("the masses of the bodies", E.array(have), E.array(masses))
    want = [j.gpos[0] for j in w.iterjoints() if j.ndof == 1]
    E.equal("the positions of the joints", q, E.array(want))


@obligation("P35", "refused", "a root which is not free; a free, sliding, fixed or composite joint under the root, in its branch or in another; a plane")
def refused(E):
    core, m, jm, sh = E.mod(CORE), E.mod(MP), E.mod(JOINTS), E.mod("arboris.shapes")
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    w = core.World()
    a, b, c = core.Body("a"), core.Body("b"), core.Body("c")
    kinds = ["FreeJoint", "TxJoint", "FixedJoint", "RzRyRxJoint", "RyRxJoint", "RzRxJoint", "RzRyJoint", "TxTyTzJoint"]
    k = E.choice("case", len(kinds) + 4)
    root = jm.RzJoint() if k == len(kinds) else jm.FreeJoint()
    w.add_link(w.ground, root, a)
    w.add_link(a, jm.RxJoint(), b)
    w.add_link(b, getattr(jm, kinds[k])() if k < len(kinds) else jm.RyJoint(), c)
    if k == len(kinds) + 2:
        w.add_link(a, jm.FreeJoint(), core.Body("d"))            # in a branch of its own
    elif k == len(kinds) + 3:
        w.add_link(b, jm.TxJoint(), core.Body("d"))
    elif k > len(kinds):
        w.register(sh.Sphere(a, 1.))
        w.register(sh.Plane(b))
    w.init()
    out = io.StringIO()
    E.raises("refused", m.GenerationError, lambda: m.MatlabRobotGenerator(w).make_robot(root, out, "r"))
    E.true("and nothing that could be used is written", k == len(kinds) and not out.getvalue() or "do not use" in out.getvalue())


@obligation("P35", "simulation_file", "any gravity and up direction, with and without weight; evenly spaced timelines; two weights, "
            "another controller, a constraint, two robots or an uneven timeline refused")
def simulation_file(E):
    core, m, ct, jm = E.mod(CORE), E.mod(MP), E.mod("arboris.controllers"), E.mod(JOINTS)
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    p = Plan(E, [0, 1])
    w = p.w
    case = E.choice("case", 8)
    g = E.real("g", -20, -0.125)
    up = E.unit("up")
    w.up[:] = up
    t0 = [0., -1.5, 2.][E.choice("start", 3)]
    n = [3, 9][E.choice("steps", 2)]
    tl = [t0 + 0.25 * k for k in range(n)]
    if t0 == 2.:
        import numpy
        tl = list(numpy.arange(0, [.7, 12.3][n > 3], .1))          # not exactly evenly spaced
    if case:
        w.register(ct.WeightController(g))
    if case == 2:
        w.register(ct.WeightController(-1.))
    elif case == 3:
        w.register(ct.ProportionalDerivativeController([p.joints[1]], [[1.]]))
    elif case == 4:
        w.register(E.mod("arboris.constraints").JointLimits(p.joints[1], -1., 1.))
    elif case == 5:
        w.add_link(w.ground, jm.FreeJoint(), core.Body("other"))
    elif case >= 6:
        tl[-1] += (tl[1] - tl[0]) * (0.5 if case == 6 else 0.000244140625)
    w.init()
    out = io.StringIO()
    gen = m.MatlabSimulationGenerator()
    if E.choice("before", 2):
        # another world written before, by the same generator
        q = Plan(E, [0], x="e")
        q.w.up[:] = E.unit("up2")
        q.w.register(ct.WeightController(-3.5))
        q.w.init()
        gen.generate_simulation(q.w, [5. + 0.5 * k for k in range(4)], io.StringIO(), "earlier")
    run = lambda: gen.generate_simulation(w, tl, out, "trial")
    if case > 1:
        E.raises("refused", m.GenerationError, run)
        return
    run()
    text = out.getvalue()
    # its own part, then the robot's
    at = text.index("function robot")
    st, other = statements(text[:at])
    v = lambda k: matrix(E, value(E, st[k]))
    E.true("step", abs(float(v("dt")[0, 0]) - (tl[1] - tl[0])) < 1e-6)
    E.true("start", abs(float(v("t_start")[0, 0]) - tl[0]) < 1e-6)
    E.true("steps to the last instant, not beyond", tl[-2] < float(v("t_end")[0, 0]) <= tl[-1])
    k = [x for x in st if x.endswith("GravityAcceleration")]
    E.true("one gravity", len(k) == 1)
    E.equal("gravity, linear part first", v(k[0]).reshape(-1), E.array(list((g if case else 0) * up) + [0] * 3))
    E.true("its robot", "r = create_robot()" in re.sub(" +", " ", text[:at]))
    E.true("its result", "['trial' '_mat.h5']" in text)
    check(E, p, text[at:], "robot")


@obligation("P35", "numbers_as_text", "gravities and up directions with components from 1e-9 to 1, positions, velocities, sizes and masses from 1e-9 to "
            "1e5 with many decimals; any other size")
def numbers_as_text(E):
    import numpy as np
    core, m, ct, jm, sh = E.mod(CORE), E.mod(MP), E.mod("arboris.controllers"), E.mod(JOINTS), E.mod("arboris.shapes")
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    w = core.World()
    up = np.array([[1.2345678e-5, 1., 0.12345678], [1e-9, -0.6, 0.8], [0.123456789123, 0.4, -0.9], [0., 0., 1.]][E.choice("up", 4)])
    up = up / np.sqrt(sum(up * up))
    w.up[:] = up
    odd = [1e-9, 12345.678901234, 1. / 3, -2e-7, 100., 0.1, -1e5 / 7]
    g = [-9.81, -1.62123456789, -1e-4 / 3][E.choice("g", 3)]
    w.register(ct.WeightController(g))
    M = np.diag([1e-7 / 3, 2e-7, 1. / 7, 1234.5678901, 1234.5678901, 1234.5678901])
    M[0, 1] = M[1, 0] = -1e-9 / 7
    a, b = core.Body("a", mass=M), core.Body("b", mass=M)
    root = jm.FreeJoint(gvel=[odd[k] for k in range(6)], name="root")
    j = jm.RyJoint(gpos=[1. / 7], gvel=[-1e-8 / 3], name="j")
    w.add_link(w.ground, root, a)
    w.add_link(a, j, b)
    x = E.real("x", 0.0625, 100)
    T = E.eye(4)
    T[0:3, 3] = [odd[0], odd[1], -1. / 7]
    if not E.symbolic:
        T = np.array(T, float)
    w.register(sh.Box(core.SubFrame(b, T), (1e-7 / 3, x, 1234.5678901)))
    w.init()
    out = io.StringIO()
    m.MatlabSimulationGenerator().generate_simulation(w, [k / 7. for k in range(5)], out, "trial")
    text = out.getvalue()
    at = text.index("function robot")
    st, _ = statements(text[:at])
    rb, _ = statements(text[at:])

    def close(label, ws, want, digits):
        try:
            got = matrix(E, value(E, ws)).reshape(-1)
        except (Unreadable, ValueError) as e:
            E.true("%s can be read: %s" % (label, e), False)
            return
        E.true("size of " + label, len(got) == len(want))
        for u, z in zip(got, want):
            if isinstance(z, (int, float)):
                E.true(label, abs(float(u) - z) <= 10. ** -digits * max(1., abs(z)) * 2)
            else:
                E.equal(label, u, z)
    k = [y for y in st if y.endswith("GravityAcceleration")]
    close("the gravity", st[k[0]], [float(g * y) for y in up] + [0.] * 3, 12)
    close("the step", st["dt"], [1. / 7], 12)
    close("the velocities", rb["robot.model.T"], odd[3:6] + odd[0:3] + [-1e-8 / 3], 12)
    close("the positions", rb["robot.model.q"], [1. / 7], 12)
    P = np.zeros((6, 6))
    P[0:3, 0:3], P[3:6, 3:6] = M[3:6, 3:6], M[0:3, 0:3]
    close("the mass", rb["tree.br(1).bd(2).M"], [float(y) for y in P.reshape(-1)], 12)
    close("the box", rb["tree.br(1).bd(2).shape(1).dims"], [2e-7 / 3, 2 * x, 2 * 1234.5678901], 12)
    close("its place", rb["tree.br(1).bd(2).shape(1).H"], [1., 0., 0., odd[0], 0., 1., 0., odd[1], 0., 0., 1., -1. / 7, 0., 0., 0., 1.], 12)


@obligation("P35", "heavy_base", "a base of any lengths, feet of any radius, any friction; by default and for two robots")
def heavy_base(E):
    core, m, jm, sh = E.mod(CORE), E.mod(MP), E.mod(JOINTS), E.mod("arboris.shapes")
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    conv = m.MatlabConverter()
    E.true("much heavier than what is added between joints", conv.base_mass >= 1e5 * conv.small_mass > 0)
    if E.choice("own", 2):
        conv.base_lengths = list(E.vec("l", 3, 0.125, 4))
        conv.contact_radius = E.real("r", 0.0625, 4)
        conv.friction_coeff = E.real("mu", 0.0625, 4)
    l, r, mu = conv.base_lengths, conv.contact_radius, conv.friction_coeff
    w = core.World()
    roots = [joint(E, ["RzJoint", "FixedJoint"][k], "root%d" % k) for k in range(1 + E.choice("robots", 2))]
    bodies = [core.Body("b%d" % k, mass=const_mass(E, k)) for k in range(len(roots))]
    for j, b in zip(roots, bodies):
        w.add_link(w.ground, j, b)
    w.init()
    for j in roots:
        conv.convert_robot(w, j)
    bases = [j.frame0.body for j in roots]
    E.true("a base each", len(set(map(id, bases))) == len(roots) and all(b is not w.ground for b in bases))
    for base in bases:
        E.true("on a free joint on the ground", isinstance(base.parentjoint, jm.FreeJoint) and base.parentjoint.frame0.body is w.ground)
        E.equal("its mass", base.mass[3:6, 3:6], E.eye(3) * conv.base_mass)
        feet = [s for s in w.getshapes() if s.frame.body is base]
        E.true("four feet", len(feet) == 4 and all(isinstance(s, sh.Sphere) for s in feet))
        corners = dict(((i, j), E.array([i * l[0] / 2, -l[1] / 2, j * l[2] / 2])) for i in (-1, 1) for j in (-1, 1))
        for s in feet:
            E.equal("radius", s.radius, r)
            p = s.frame.bpose[:3, 3]
            k = (1 if p[0] > 0 else -1, 1 if p[2] > 0 else -1)
            E.true("a foot at each corner", k in corners)
            E.equal("at the bottom", p, corners.pop(k, None) if k in corners else E.arr(3))
            cs = [c for c in w.iterconstraints() if s in c._shapes]
            E.true("one contact", len(cs) == 1)
            g = [x for x in cs[0]._shapes if x is not s]
            E.true("with the ground", len(g) == 1 and g[0].frame.body is w.ground)
            E.equal("its friction", cs[0]._mu, mu)
            E.true("the ground reaches beyond the foot", E.AND(E.GE(g[0].half_extents[0], l[0] / 2 + r), E.GE(g[0].half_extents[2], l[2] / 2 + r)))


@obligation("P35", "robot_file_many", "13 links in a chain, a star, a binary tree, a comb or two long branches under a free root, a dozen shapes on one of them, on any frames, any "
            "positions, velocities and sizes", budget=200)
def robot_file_many(E):
    from .p21_model import large
    m, sh, core = E.mod(MP), E.mod("arboris.shapes"), E.mod(CORE)
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    p = Plan(E, large(E, 13))
    for i in range(1, 13):
        r, H = E.real("more%d" % i, 0.125, 4), const_pose(E, i)
        b = p.bodies[i]
        p.w.register(sh.Sphere(core.SubFrame(b, H), r) if i % 2 else sh.Cylinder(core.SubFrame(b, H), r, 0.5))
        p.shapes.append((i, "sphere", [r], H) if i % 2 else (i, "cylinder", [0.5, r], H))
    for i in range(12):
        r = E.real("beads%d" % i, 0.125, 4)
        p.w.register(sh.Box(p.bodies[4], (r, 1, 1)))
        p.shapes.append((4, "parallelepiped", [2 * r, 2, 2], E.eye(4)))
    out = io.StringIO()
    m.MatlabRobotGenerator(p.w).make_robot(p.joints[0], out, "bot")
    check(E, p, out.getvalue(), "bot")


@obligation("P35", "converted_many", "twelve bodies in a chain, a star, a binary tree, a comb or two long branches, by every rotating joint in turn, on "
            "constant frames; two joints at any angles, the others at rest", budget=200)
def converted_many(E):
    from .p21_model import large
    from ._common import square_pose
    core, m = E.mod(CORE), E.mod(MP)
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    kinds, par = sorted(PARTS), large(E, 11)
    w = core.World()
    bodies = [core.Body("b%d" % i, mass=const_mass(E, i % 3)) for i in range(12)]
    js = [joint(E, "FreeJoint", "root")] + [joint(E, kinds[i % 7], "j%d" % i) for i in range(11)]
    w.add_link(w.ground, js[0], bodies[0])
    links = []
    for i, p in enumerate(par):
        f0, f1 = core.SubFrame(bodies[p], square_pose(E, i)), core.SubFrame(bodies[i + 1], square_pose(E, i + 3)) if i % 2 else bodies[i + 1]
        w.add_link(f0, js[i + 1], f1)
        links.append((f0, js[i + 1], f1))
    w.init()
    m.MatlabConverter().convert_robot(w, js[0])
    at = [E.eye(4)]
    rest = []
    for i, (f0, j, f1) in enumerate(links):
        ax = PARTS[kinds[i % 7]]
        chain, up = [], bodies[i + 1]
        while up is not f0.body:
            chain.insert(0, up.parentjoint)
            up = up.parentjoint.frame0.body
        E.true("one joint for each axis", [type(x).__name__ for x in chain] == ["R%sJoint" % x for x in ax])
        E.true("from the same frame to the same frame", chain[0].frame0 is f0 and chain[-1].frame1 is f1)
        q = [0] * len(ax)
        if i in (4, 8):
            q = [E.angle("q%d%s" % (i, x)) for x in ax]
            for x, y in zip(chain, q):
                x.gpos[:] = E.array([y])
        rest += chain
        at.append(E.dot(at[par[i]], f0.bpose, turn(E, ax, q), E.inv4(f1.bpose) if i % 2 else E.eye(4)))
    E.true("no other joint", set(map(id, w.iterjoints())) == set(map(id, [js[0]] + rest)))
    E.true("contiguous degrees of freedom", sorted(x.dof.start for x in rest) == list(range(6, 6 + len(rest))) and w.ndof == 6 + len(rest))
    w.update_geometric()
    for i, b in enumerate(bodies):
        E.equal("pose of %s" % b.name, b.pose, at[i])
