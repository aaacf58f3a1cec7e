"""P21 The model tree: bookkeeping of bodies, joints, frames and degrees of freedom."""
from engine.harness import obligation
from ._common import CORE, JOINTS, stub_joint


class Tree(object):
    """n bodies, each linked to any earlier one (or the ground) with any joint size."""

    def __init__(self, E, n, sizes, world=None, parents=None):
        core = E.mod(CORE)
        self.w = w = world or core.World()
        self.n = n
        self.bodies, self.joints, self.parent = [w.ground], [], []
        self.f0, self.f1, self.vel = [], [], []
        for i in range(n):
            if parents:
                p, k = parents[i], sizes[i % len(sizes)]
            else:
                p = E.choice("parent%d" % i, i + 1)
                k = sizes[E.choice("ndof%d" % i, len(sizes))] if len(sizes) > 1 else sizes[0]
            b = core.Body("b%d" % i)
            j = stub_joint(E, k, None, None, None, None, "j%d" % i)
            v = E.vec("v%d" % i, k)
            j.gvel = E.array(v) if k else E.arr(0)
            a = self.bodies[p] if i % 2 else core.SubFrame(self.bodies[p], E.eye(4), "a%d" % i)
            c = core.SubFrame(b, E.eye(4), "c%d" % i) if i % 2 else b
            w.add_link(a, j, c)
            self.bodies.append(b)
            self.joints.append(j)
            self.parent.append(p)
            self.f0.append(a)
            self.f1.append(c)
            self.vel.append(v)

    def order(self, i=0):
        """Bodies below body i, depth first, children in order of creation."""
        out = []
        for c in range(1, self.n + 1):
            if self.parent[c - 1] == i:
                out += [c] + self.order(c)
        return out

    def chain(self, i):
        """Body i and its ancestors, the ground (0) last."""
        return [i] + (self.chain(self.parent[i - 1]) if i else [])


def large(E, n=16):
    """Parents of n bodies: a chain, a star, a binary tree, a comb, two long branches."""
    return [[i for i in range(n)], [0] * n, [(i + 1) // 2 for i in range(n)],
            [max(0, i - 1) if i % 2 else i for i in range(n)],
            [0 if i < 2 else i - 1 for i in range(n)]][E.choice("tree", 5)]


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def once(a):
    a = list(a)
    return len(a) == len(set(map(id, a)))


def dofs(E, w, joints, vel):
    """Contiguous degrees of freedom in joint order; the velocities are gathered."""
    pos, gv = 0, []
    for j, v in zip(joints, vel):
        E.true("contiguous degrees of freedom, in joint order",
               j.dof.start == pos and j.dof.stop == pos + j.ndof)
        pos += j.ndof
        gv += list(v)
        E.equal("joint velocity kept", E.array(list(j.gvel)), E.array(list(v)))
    E.true("number of degrees of freedom", w.ndof == pos)
    E.equal("generalized velocity", w.gvel, E.array(gv))


def structure(E, n, sizes, parents=None):
    t = Tree(E, n, sizes, parents=parents)
    w = t.w
    order = t.order()
    jo = [t.joints[i - 1] for i in order]
    B = lambda ix: [t.bodies[i] for i in ix]
    J = lambda ix: [t.joints[i - 1] for i in ix]
    E.true("bodies, each once, parents first", same(w.iterbodies(), B([0] + order)))
    E.true("list of bodies", same(w.getbodies(), B([0] + order)))
    E.true("joints, each once, parents first", same(w.iterjoints(), jo))
    for i in range(1, n + 1):
        b, j = t.bodies[i], t.joints[i - 1]
        f = (t.f0[i - 1], t.f1[i - 1])
        E.true("parent joint", b.parentjoint is j)
        E.true("joint frames", same(j.frames, f) and j.frame0 is f[0] and j.frame1 is f[1])
        E.true("ancestor joints", same(b.iter_ancestor_joints(), J(t.chain(i)[:-1])))
        E.true("ancestor bodies", same(b.iter_ancestor_bodies(), B(t.chain(i)[1:])))
        E.true("descendant bodies", same(b.iter_descendant_bodies(), B(t.order(i))))
        E.true("descendant joints", same(b.iter_descendant_joints(), J(t.order(i))))
    subs = list(w.itersubframes())
    want = [f for f in t.f0 + t.f1 if f.body is not f]
    E.true("subframes known once", once(subs) and set(map(id, subs)) == set(map(id, want)))
    E.true("all frames", same(w.getframes(), B([0] + order) + subs) and
           same(w.iterframes(), B([0] + order) + subs))
    for rep in range(2):
        w.init()
        dofs(E, w, jo, [t.vel[i - 1] for i in order])
    # dof of a list of joints, in the list's order
    js = E.mod(CORE).JointsList([t.joints[n - 1], t.joints[0]])
    ix = E.array([float(k) for k in range(w.ndof)])
    E.equal("dof of a list of joints", ix[js.dof],
            E.array([float(k) for j in (t.joints[n - 1], t.joints[0])
                     for k in range(j.dof.start, j.dof.stop)]))
    E.equal("dof of all the joints", ix[w.getjoints().dof], ix)


obligation("P21", "structure", "any tree of 3 bodies, joints of 0, 1, 2 or 6 dof, frames offset or not, "
           "any joint velocity", max_paths=4000, budget=300)(lambda E: structure(E, 3, [0, 1, 2, 6]))
obligation("P21", "structure_4", "any tree of 4 bodies, joints of 1 or 2 dof", max_paths=4000, budget=300)(
    lambda E: structure(E, 4, [1, 2]))
obligation("P21", "structure_5", "any tree of 5 bodies, joints of 1 dof", max_paths=4000, budget=300,
           tier="thorough")(lambda E: structure(E, 5, [1]))


obligation("P21", "structure_large", "16 bodies in a chain, a star, a binary tree, a comb or two long branches, joints of 0 to 6 "
           "dof, any joint velocity", budget=200)(lambda E: structure(E, 16, [1, 3, 0, 2, 6], large(E)))


@obligation("P21", "registration", "any sequence of 4 registrations among 2 frames, 2 shapes, 2 constraints, "
            "a controller", max_paths=4000, budget=200)
def registration(E):
    core, cn, sh, jm, ct = (E.mod(CORE), E.mod("arboris.constraints"), E.mod("arboris.shapes"),
                            E.mod(JOINTS), E.mod("arboris.controllers"))
    w = core.World()
    b, j = core.Body("b"), jm.RzJoint()
    w.add_link(w.ground, j, b)
    f = [core.SubFrame(b, E.eye(4)), core.MovingSubFrame(b, E.eye(4))]
    s = [sh.Point(f[0]), sh.Sphere(b)]
    c = [cn.JointLimits(j, -1, 1), cn.SoftFingerContact((sh.Plane(w.ground), s[1]), 1)]
    k = ct.WeightController()
    things = [f[0], f[1], s[0], s[1], c[0], c[1], k]
    seq = [E.choice("op%d" % i, 7) for i in range(4)]
    for i in seq:
        w.register(things[i])
    done = set(seq)

    def known(objs, lst, label):
        lst = list(lst)
        E.true(label, once(lst) and all(any(x is o for x in lst) == (i in done) for i, o in objs))
    known([(2, s[0]), (3, s[1])], w.itershapes(), "shapes, once each")
    known([(4, c[0]), (5, c[1])], w.iterconstraints(), "constraints, once each")
    known([(6, k)], w.getcontrollers(), "controllers, once each")
    known([(1, f[1])], w.itersubframes(), "moving frames, once each")
    subs = list(w.itersubframes())
    E.true("a shape brings its frame", any(x is f[0] for x in subs) == bool(done & {0, 2}) and once(subs))
    E.true("moving frames are subframes", all(any(x is y for y in subs) for x in w.itermovingsubframes())
           and any(x is f[1] for x in w.itermovingsubframes()) == (1 in done))
    first = [i for n, i in enumerate(seq) if i not in seq[:n]]
    E.true("constraints in registration order",
           same(w.iterconstraints(), [things[i] for i in first if i in (4, 5)]) and
           same(w.getconstraints(), w.iterconstraints()))


@obligation("P21", "refusals", "loops, used joints, wrong objects; any tree of 2 bodies", max_paths=200)
def refusals(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    t = Tree(E, 2, [1])
    w = t.w
    before = (list(w.iterbodies()), list(w.iterjoints()), list(w.itersubframes()))
    # any body closing a loop with any other, the ground included
    a, c = E.choice("a", 3), E.choice("c", 3)
    j = jm.RzJoint()
    E.raises("kinematic loop", ValueError, lambda: w.add_link(t.bodies[a], j, t.bodies[c]))
    E.raises("joints are not registered", ValueError, lambda: w.register(j))
    E.raises("unknown object", ValueError, lambda: w.register("something"))
    E.raises("used joint", AssertionError,
             lambda: w.add_link(t.bodies[a], t.joints[0], core.Body()))
    E.true("the model is unchanged", all(same(x, y) for x, y in zip(
        before, (w.iterbodies(), w.iterjoints(), w.itersubframes()))))
    b = core.Body()
    w.add_link(t.bodies[a], j, b)
    E.true("the refused joint can still be used", b.parentjoint is j and
           any(x is b for x in w.iterbodies()))


@obligation("P21", "several_links", "two or three links in one call")
def several(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    b = [core.Body("b%d" % i) for i in range(3)]
    j = [jm.RzJoint(), jm.RzRyJoint(), jm.FreeJoint()]
    third = E.choice("third", 2)
    args = [w.ground, j[0], b[0], b[0], j[1], b[1]]
    if third:
        args += [b[0], j[2], b[2]]
    w.add_link(*args)
    E.true("all linked", same(w.iterbodies(), [w.ground] + b[:2 + third]) and
           same(w.iterjoints(), j[:2 + third]))
    w.init()
    E.true("dimension", w.ndof == (9 if third else 3))


@obligation("P21", "registered_alone", "two contacts and two other constraints, in one or two worlds; any of them registered, in either "
            "order")
def alone(E):
    core, jm, cn, sh = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.constraints"), E.mod("arboris.shapes")
    W = []
    apart = E.choice("two worlds", 2)
    for n in range(1 + apart):
        w = core.World()
        b = core.Body("b")
        j = jm.RzJoint()
        w.add_link(w.ground, j, b)
        W.append((w, b, j))
    cs = []
    for n in range(2):
        w, b, j = W[n * apart]
        k = E.choice("kind%d" % n, 3)
        s = (sh.Plane(w.ground), sh.Sphere(core.SubFrame(b)))
        c = cn.SoftFingerContact(s, 0.5) if k == 0 else cn.JointLimits(j, -1., 1.) if k == 1 else \
            cn.BallAndSocketConstraint((core.SubFrame(w.ground), core.SubFrame(b)))
        cs.append((c, w, list(s) if k == 0 else [], [x.frame for x in s] + list(c._frames) if k == 0 else
                   list(c._frames) if k == 2 else []))
    some = [[0], [1], [0, 1], [1, 0]][E.choice("which", 4)]
    for i in some:
        cs[i][1].register(cs[i][0])
    for w, b, j in W:
        mine = [cs[i] for i in some if cs[i][1] is w]
        E.true("the constraints registered", same(w.iterconstraints(), [c[0] for c in mine]))
        F = set(map(id, [f for c in mine for f in c[3] if f.body is not f]))
        known = list(w.itersubframes())
        E.true("each once", once(known))
        E.true("no frame of another one", set(map(id, known)) <= F)
        S = set(map(id, [x for c in mine for x in c[2]]))
        E.true("no shape of another one", set(map(id, w.itershapes())) <= S)
