"""P22 Replacing a joint keeps the rest of the model."""
from engine.harness import obligation
from ._common import CORE, JOINTS, stub_joint
from .p21_model import Tree, large, same, dofs


@obligation("P22", "one_for_one", "any tree of 3 bodies (joints of 1 or 2 dof), any joint replaced by one "
            "of 0, 1 or 6 dof, twice; any velocities", max_paths=4000, budget=300)
def one(E):
    t = Tree(E, 3, [1, 2])
    w = t.w
    w.init()
    for rep in range(2):
        i = 1 + E.choice("which%d" % rep, 3)
        k = [0, 1, 6][E.choice("size%d" % rep, 3)] if rep == 0 else 2
        old = t.joints[i - 1]
        new = stub_joint(E, k, None, None, None, None, "new%d" % rep)
        v = E.vec("u%d" % rep, k)
        new.gvel = E.array(v) if k else E.arr(0)
        w.replace_joint(old, new)
        t.joints[i - 1], t.vel[i - 1] = new, v
        check(E, t, "replacement %d" % rep)
        E.true("the old joint is free", old.frame0 is None and old.frame1 is None)
        E.true("the new joint has the old one's frames",
               same(new.frames, (t.f0[i - 1], t.f1[i - 1])))
        before = w.gvel
        old.gvel[:] = 7
        E.equal("what happens to the old joint is not seen by the world", w.gvel, before)


def check(E, t, tag):
    w = t.w
    order = t.order()
    jo = [t.joints[i - 1] for i in order]
    E.true("same bodies in the same order", same(w.iterbodies(), [t.bodies[i] for i in [0] + order]))
    E.true("joints in the same order", same(w.iterjoints(), jo))
    for i in range(1, t.n + 1):
        E.true("parent joints", t.bodies[i].parentjoint is t.joints[i - 1])
    dofs(E, w, jo, [t.vel[i - 1] for i in order])
    E.true("matrices follow", w.mass.shape == (w.ndof, w.ndof) and w.gforce.shape == (w.ndof,))


@obligation("P22", "large", "14 bodies in a chain, a star, a binary tree, a comb or two long branches; any joint replaced by one of "
            "another size; any velocities", max_paths=200, budget=200)
def large_tree(E):
    t = Tree(E, 14, [1, 0, 2], parents=large(E, 14))
    w = t.w
    w.init()
    i = 1 + E.choice("which", 14)
    old = t.joints[i - 1]
    new = stub_joint(E, 3, None, None, None, None, "new")
    v = E.vec("u", 3)
    new.gvel = E.array(v)
    w.replace_joint(old, new)
    t.joints[i - 1], t.vel[i - 1] = new, v
    check(E, t, "replaced")
    E.true("the old joint is free", old.frames == (None, None))


@obligation("P22", "exchange", "any tree of 3 bodies (joints of 1 or 2 dof), two of its joints exchanged by means of a "
            "third; any velocities", max_paths=2000, budget=200)
def exchange(E):
    t = Tree(E, 3, [1, 2])
    w = t.w
    w.init()
    p = E.choice("pair", 3)
    i, k = [(1, 2), (1, 3), (2, 3)][p]
    if E.choice("turned", 2):
        i, k = k, i
    a, b = t.joints[i - 1], t.joints[k - 1]
    n = [1, 2][E.choice("size", 2)]
    c = stub_joint(E, n, None, None, None, None, "third")
    u = E.vec("u", n)
    c.gvel = E.array(u)
    w.replace_joint(a, c)
    w.replace_joint(b, a)
    t.joints[i - 1], t.joints[k - 1] = c, a
    va, vb = t.vel[i - 1], t.vel[k - 1]
    t.vel[i - 1], t.vel[k - 1] = u, va
    check(E, t, "half way")
    w.replace_joint(c, b)
    t.joints[i - 1], t.vel[i - 1] = b, vb
    check(E, t, "exchanged")
    w.init()
    check(E, t, "initialized again")
    E.true("the third is free", c.frames == (None, None))
    E.equal("and keeps its velocity", c.gvel, u)


@obligation("P22", "by_a_chain", "any tree of 3 bodies, any joint replaced by two joints and a new body",
            max_paths=2000, budget=200)
def chain(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    t = Tree(E, 3, [1])
    w = t.w
    i = 1 + E.choice("which", 3)
    old = t.joints[i - 1]
    mid = core.Body("mid")
    a, b = jm.RzRyJoint(), jm.RxJoint()
    f0, f1 = old.frame0, old.frame1
    mf = core.SubFrame(mid, E.eye(4), "mf")
    w.replace_joint(old, f0, a, mid, mf, b, f1)
    order = t.order()
    bodies, joints = [w.ground], []
    for k in order:
        if k == i:
            bodies += [mid]
            joints += [a]
        bodies.append(t.bodies[k])
        joints.append(b if k == i else t.joints[k - 1])
    E.true("new body inserted in place", same(w.iterbodies(), bodies))
    E.true("joints in place", same(w.iterjoints(), joints))
    E.true("the old joint is free", old.frame0 is None and old.frame1 is None)
    E.true("attached", mid.parentjoint is a and t.bodies[i].parentjoint is b)
    E.true("subframes known", sum(f is mf for f in w.itersubframes()) == 1)
    pos = 0
    for j in joints:
        E.true("degrees of freedom", j.dof.start == pos and j.dof.stop == pos + j.ndof)
        pos += j.ndof
    E.true("dimension", w.ndof == pos)


@obligation("P22", "constraints_and_controllers", "a limited and controlled joint in a chain, another joint "
            "replaced before it; any gains")
def follow(E):
    core, jm, cn, ct = E.mod(CORE), E.mod(JOINTS), E.mod("arboris.constraints"), E.mod("arboris.controllers")
    w = core.World()
    b = [core.Body("b%d" % i) for i in range(2)]
    j0, j1 = jm.RzJoint(), jm.RyJoint(gpos=[0.25])
    w.add_link(w.ground, j0, b[0], b[0], j1, b[1])
    w.init()
    c = cn.JointLimits(j1, -1, 1)
    kp, kd, g = E.real("kp", 0, 10), E.real("kd", 0, 10), E.real("goal", -3, 3)
    k = ct.ProportionalDerivativeController([j1], E.array([[kp]]), E.array([[kd]]), E.array([g]))
    w.register(c)
    w.register(k)
    w.init()
    w.replace_joint(j0, jm.FreeJoint())
    J = E.arr((1, 7))
    J[0, 6] = 1
    E.equal("the limit follows its joint", c.jacobian, J)
    f, Z = k.update(0.5)
    E.equal("no force elsewhere", f[0:6], E.arr(6))
    E.equal("the controller follows its joint", f[6], kp * (g - 0.25))


@obligation("P22", "refusals", "wrong bodies, no argument, wrong number of arguments")
def refusals(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    t = Tree(E, 2, [1])
    w = t.w
    old = t.joints[0]
    E.raises("no argument", RuntimeError, lambda: w.replace_joint(old))
    E.raises("wrong number", RuntimeError, lambda: w.replace_joint(old, jm.RzJoint(), t.bodies[1]))
    E.raises("other bodies", AssertionError,
             lambda: w.replace_joint(old, core.Body(), jm.RzJoint(), t.bodies[1]))
    E.true("model unchanged", same(w.iterjoints(), [t.joints[i - 1] for i in t.order()]))


@obligation("P22", "only_joint", "a single body whose only joint, of 0, 1, 2, 3 or 6 dof, is replaced by one of 0, 1, 2, 3 or 6 dof, "
            "twice; any velocities")
def only(E):
    k = [0, 1, 2, 3, 6][E.choice("old", 5)]
    t = Tree(E, 1, [k])
    w = t.w
    w.init()
    n = [0, 1, 2, 3, 6][E.choice("new", 5)]
    for rep in range(2):
        old = t.joints[0]
        m = [n, k][rep]
        new = stub_joint(E, m, None, None, None, None, "new%d" % rep)
        v = E.vec("u%d" % rep, m)
        new.gvel = E.array(v) if m else E.arr(0)
        w.replace_joint(old, new)
        t.joints[0], t.vel[0] = new, v
        check(E, t, "replacement %d" % rep)
        E.true("the old joint is free", old.frames == (None, None))


@obligation("P22", "running", "a chain of two unit masses whose joint, first or last, is replaced by one of another or the same size "
            "between two full steps; any velocities", allow_divzero=True)
def running(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    v = E.vec("v", 3, -8, 8)
    bs = [core.Body("b%d" % i, mass=E.eye(6)) for i in range(2)]
    js = [jm.TxJoint(gpos=[0.], gvel=[v[0]]), jm.TyJoint(gpos=[0.], gvel=[v[1]])]
    w.add_link(w.ground, js[0], bs[0])
    w.add_link(bs[0] if E.choice("chain", 2) else w.ground, js[1], bs[1])
    w.init()
    dt = 0.5

    def step():
        w.update_dynamic()
        w.update_controllers(dt)
        w.update_constraints(dt)
        w.integrate(dt)
    step()
    E.equal("before", w.gvel, v[0:2])
    i = E.choice("which", 2)
    if E.choice("size", 2):
        new, u = jm.TzJoint(gpos=[0.], gvel=[v[2]]), [v[2]]
    else:
        new, u = jm.TxTyTzJoint(gpos=[0., 0., 0.], gvel=[0., v[2], 0.]), [0, v[2], 0]
    w.replace_joint(js[i], new)
    want = [[v[0]], [v[1]]]
    want[i] = u
    js[i] = new
    for s in range(2):
        E.equal("velocities of the new model", w.gvel, E.array(want[0] + want[1]))
        step()
    E.equal("still", w.gvel, E.array(want[0] + want[1]))
    E.equal("the new joint moved", E.array(list(new.gpos)), E.array([x * 2 * dt for x in u]))
    E.equal("the others too", js[1 - i].gpos[0], want[1 - i][0] * 3 * dt)
