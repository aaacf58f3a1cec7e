"""P07 Kinematic tree: absolute poses, jacobians and their derivatives."""
from engine.harness import obligation
from ._common import CORE, JOINTS, sym_joint, const_pose, big_mechanism


def link(E, w, sub0, sub1, joint, f0body, f1body, names):
    core = E.mod(CORE)
    f0 = core.SubFrame(f0body, sub0) if sub0 is not None else f0body
    f1 = core.SubFrame(f1body, sub1) if sub1 is not None else f1body
    w.add_link(f0, joint, f1)


def hpc(E, Hpr, Hrn, Hcn):
    return E.dot(Hpr, Hrn, E.inv4(Hcn))


def step(E, n, ks, sub):
    """Parent with an arbitrary state, len(ks) children through arbitrary joints."""
    core = E.mod(CORE)
    w = core.World()
    parent = core.Body("parent")
    up = sym_joint_light(E, "up", n - sum(ks))
    w.add_link(w.ground, up, parent)
    js, subs, kids = [], [], []
    for i, k in enumerate(ks):
        j = sym_joint(E, "j%d" % i, k)
        Hpr = E.pose("Hpr%d" % i) if sub else E.eye(4)
        Hcn = E.pose("Hcn%d" % i) if sub else E.eye(4)
        b = core.Body("child%d" % i)
        link(E, w, Hpr if sub else None, Hcn if sub else None, j, parent, b, i)
        js.append(j)
        subs.append((Hpr, Hcn))
        kids.append(b)
    w.init()
    P, Jp, dJp, Tp = (E.pose("P"), E.mat("Jp", 6, n), E.mat("dJp", 6, n), E.vec("Tp", 6))
    keep = [E.array(x) for x in (P, Jp, dJp, Tp)]
    parent.update_dynamic(P, Jp, dJp, Tp)
    E.equal("parent pose", parent.pose, keep[0])
    E.equal("parent jacobian", parent.jacobian, keep[1])
    E.equal("parent djacobian", parent.djacobian, keep[2])
    E.equal("parent twist", parent.twist, keep[3])
    for i, (j, (Hpr, Hcn), b) in enumerate(zip(js, subs, kids)):
        H = hpc(E, Hpr, j.P, Hcn)
        Adcp = E.Ad(E.inv4(H))
        Adcn = E.Ad(Hcn)
        E.equal("pose %d" % i, b.pose, E.dot(P, H))
        E.equal("twist %d" % i, b.twist, E.dot(Adcp, Tp) + E.dot(Adcn, j.T))

        def jac(Hrn, J, Jn):
            r = E.dot(E.Ad(E.inv4(hpc(E, Hpr, Hrn, Hcn))), J)
            r[:, j.dof] = r[:, j.dof] + E.dot(Adcn, Jn)
            return r
        E.equal("jacobian %d" % i, b.jacobian, jac(j.P, Jp, j.J))
        E.equal("djacobian is the derivative %d" % i, b.djacobian,
                E.deriv(jac, [j.P, Jp, j.J], [j.T, dJp, j.dJ]))
    w2 = [b.pose for b in kids]
    parent.update_geometric(P)
    for i, b in enumerate(kids):
        E.equal("geometric update agrees %d" % i, b.pose, w2[i])


def sym_joint_light(E, name, k):
    from ._common import stub_joint
    return stub_joint(E, k, E.eye(4), E.arr(6), E.arr((6, k)), E.arr((6, k)))


@obligation("P07", "step_one_child", "induction step: any parent pose/jacobian/twist (2 dof), any "
            "joint state (1 dof), any frames at both ends")
def one(E):
    step(E, 2, [1], True)


@obligation("P07", "step_branch", "induction step: any parent state, two children with 0 and 2 dof, "
            "any joint states, joint frames at the body origins")
def branch(E):
    step(E, 3, [0, 2], False)


@obligation("P07", "step_branch_frames", "as step_branch, 1 and 2 dof, any frames at both ends",
            budget=300, tier="thorough")
def branch2(E):
    step(E, 4, [1, 2], True)


CHAINS = [("RzJoint", "RyJoint", "RxJoint"), ("RzRyRxJoint", "TxTyTzJoint"),
          ("RzRyJoint", "RzRxJoint"), ("RyRxJoint", "TzJoint", "RzJoint"),
          ("TxJoint", "FixedJoint", "RyJoint"), ("FreeJoint", "RzJoint")]


def chain(E, kinds, frames=True):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    js, gs, vs = [], [], []
    last = w.ground
    bodies = []
    for i, kind in enumerate(kinds):
        cls = getattr(jm, kind)
        if kind == "FreeJoint":
            g, v = E.pose("g%d" % i), E.vec("v%d" % i, 6)
            j = cls(gpos=g, gvel=v)
        elif kind == "FixedJoint":
            g, v = E.arr(0), E.arr(0)
            j = cls()
        else:
            n = cls().ndof
            g, v = E.arr(n), E.vec("v%d" % i, n)
            for k in range(n):
                g[k] = E.angle("g%d_%d" % (i, k))
            j = cls(gpos=g, gvel=v)
        b = core.Body("b%d" % i)
        f0 = core.SubFrame(last, const_pose(E, 2 * i)) if frames else last
        f1 = core.SubFrame(b, const_pose(E, 2 * i + 1)) if frames else b
        w.add_link(f0, j, f1)
        js.append(j)
        gs.append(g)
        vs.append(v)
        bodies.append(b)
        last = b
    tip = core.SubFrame(last, const_pose(E, 3))
    w.register(tip)
    w.init()
    return w, js, gs, vs, bodies, tip


def pose_of(E, js, gs, i, frames=True):
    H = E.eye(4)
    for k in range(i + 1):
        j, g = js[k], gs[k]
        if type(j).__name__ == "FixedJoint":
            Hj = E.eye(4)
        elif type(j).__name__ == "FreeJoint":
            Hj = g
        else:
            Hj = type(j)(gpos=g).pose
        if frames:
            H = E.dot(H, const_pose(E, 2 * k), Hj, E.inv4(const_pose(E, 2 * k + 1)))
        else:
            H = E.dot(H, Hj)
    return H


def whole(E, kinds):
    w, js, gs, vs, bodies, tip = chain(E, kinds)
    w.update_dynamic()
    gvel = w.gvel
    act = [i for i, j in enumerate(js) if j.ndof]
    args, rates = [gs[i] for i in act], [vs[i] for i in act]

    def with_args(xs):
        out = list(gs)
        for i, x in zip(act, xs):
            out[i] = x
        return out
    for i, b in enumerate(bodies):
        E.equal("pose %d" % i, b.pose, pose_of(E, js, gs, i))
        E.equal("twist is jacobian times gvel %d" % i, b.twist, E.dot(b.jacobian, gvel))
        dP = E.deriv(lambda *xs: pose_of(E, js, with_args(xs), i), args, rates)
        E.equal("twist is the motion %d" % i, E.dot(b.pose, E.hat4(b.twist)), dP)
    p = tip.pose
    E.equal("tip moves by its twist", E.dot(p, E.hat4(tip.twist)),
            E.dot(E.deriv(lambda *xs: pose_of(E, js, with_args(xs), len(js) - 1), args, rates),
                  const_pose(E, 3)))
    E.equal("tip jacobian", E.dot(tip.jacobian, gvel), tip.twist)

    def jac(*xs):
        core = E.mod(CORE)
        new = with_args(xs)
        for j, g in zip(js, new):
            if j.ndof:
                if type(j).__name__ == "FreeJoint":
                    j.gpos = E.array(g)
                else:
                    j.gpos = E.array(g)
        w.update_dynamic()
        return E.array(tip.jacobian)
    dj = E.array(tip.djacobian)
    db = E.array(bodies[-1].djacobian)
    E.equal("djacobian of the tip is the derivative", dj, E.deriv(jac, args, rates))
    jac(*args)
    w.update_geometric()
    E.equal("geometric update", bodies[-1].pose, pose_of(E, js, gs, len(js) - 1))


for _k in CHAINS[:3]:
    obligation("P07", "chain_" + "_".join(x.replace("Joint", "") for x in _k),
               "this serial chain between generic constant frames; any joint positions, |rates|<=1000")(
        lambda E, _k=_k: whole(E, _k))
for _k in CHAINS[3:]:
    obligation("P07", "chain_" + "_".join(x.replace("Joint", "") for x in _k),
               "this serial chain between generic constant frames; any joint positions, |rates|<=1000",
               )(lambda E, _k=_k: whole(E, _k))


@obligation("P07", "geometric_update", "one parent with two children, any poses, frames and joints")
def geometric(E):
    core = E.mod(CORE)
    w = core.World()
    kids = []
    for i in range(2):
        j = sym_joint(E, "j%d" % i, 1)
        Hpr, Hcn = E.pose("Hpr%d" % i), E.pose("Hcn%d" % i)
        b = core.Body()
        link(E, w, Hpr, Hcn, j, w.ground, b, i)
        kids.append((b, hpc(E, Hpr, j.P, Hcn)))
    w.init()
    w.update_geometric()
    for i, (b, H) in enumerate(kids):
        E.equal("pose %d" % i, b.pose, H)
        kid = b
    E.equal("ground", w.ground.pose, E.eye(4))
    P = E.pose("P")
    w.ground.update_geometric(P)
    for i, (b, H) in enumerate(kids):
        E.equal("pose from a moved base %d" % i, b.pose, E.dot(P, H))


@obligation("P07", "moving_ends", "two joints between moving frames, whose poses are changed between two updates; any poses, one angle and one "
            "translation, any rates; geometric or dynamic update")
def moving_ends(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    a, b = core.Body("a"), core.Body("b")
    q, x, v = E.angle("q"), E.real("x"), E.vec("v", 2)
    js = [jm.RzJoint(gpos=[q], gvel=v[0:1]), jm.TxJoint(gpos=[x], gvel=v[1:2])]
    P = [E.pose("P0"), const_pose(E, 1), E.pose("P2"), const_pose(E, 2)]
    fs = [core.MovingSubFrame(o, p) for o, p in zip((w.ground, a, a, b), P)]
    w.add_link(fs[0], js[0], fs[1])
    w.add_link(fs[2], js[1], fs[3])
    w.init()
    s, c = E.sincos(q)
    R, T = E.ref_rot("z", s, c), E.eye(4)
    T[0, 3] = x
    for k in range(2):
        if k:
            P = [const_pose(E, 3), E.pose("Q1"), const_pose(E, 5), E.pose("Q3")]
            for f, p in zip(fs, P):
                f.bpose = p
        dynamic = E.choice("dynamic%d" % k, 2)
        w.update_dynamic() if dynamic else w.update_geometric()
        Ha = E.dot(P[0], R, E.inv4(P[1]))
        Hb = E.dot(Ha, P[2], T, E.inv4(P[3]))
        E.equal("first body", a.pose, Ha)
        E.equal("second body", b.pose, Hb)
        for f, H in zip(fs, (P[0], E.dot(Ha, P[1]), E.dot(Ha, P[2]), E.dot(Hb, P[3]))):
            E.equal("moving frame", f.pose, H)
        if dynamic:
            Ja = E.dot(E.Ad(P[1]), js[0].jacobian)
            E.equal("twist of the first body", a.twist, E.dot(Ja, v[0:1]))
            Hab = E.dot(P[2], T, E.inv4(P[3]))
            E.equal("twist of the second body", b.twist, E.dot(E.Ad(E.inv4(Hab)), a.twist) + E.dot(E.Ad(P[3]), js[1].jacobian, v[1:2]))


@obligation("P07", "large_tree", "12 bodies in a chain, a star, a binary tree, a comb or two long branches, joints of every class between "
            "constant frames, one of them at any angle; any values (up to 8) of some of the rates", budget=200)
def large_tree(E):
    from .p21_model import large
    w, bodies, js, ref = big_mechanism(E, large(E, 12), [0, 6][E.choice("bent", 2)])
    w.update_dynamic()
    v = w.gvel
    for i, (b, (P, J, dJ, T)) in enumerate(zip(bodies, ref)):
        E.equal("pose %d" % i, b.pose, P)
        E.equal("jacobian %d" % i, b.jacobian, J)
        E.equal("djacobian %d" % i, b.djacobian, dJ)
        E.equal("twist %d" % i, b.twist, T)
        E.equal("twist is jacobian times velocities %d" % i, b.twist, E.dot(J, v))
    w.update_geometric()
    for i, (b, r) in enumerate(zip(bodies, ref)):
        E.equal("geometric update %d" % i, b.pose, r[0])
