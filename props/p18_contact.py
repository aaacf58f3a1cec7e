"""P18 Point contacts: contact frames, activation and contact velocity."""
from engine.harness import obligation
from ._common import CORE
from .p08_frames import moved_body

CN = "arboris.constraints"


def setup(E, n=2, prox=None, offset=True):
    """Two moved bodies, their shapes on offset frames, and any contact geometry."""
    core, cn, sh = E.mod(CORE), E.mod(CN), E.mod("arboris.shapes")
    bs, fr = [], []
    for i in range(2):
        b = core.Body("b%d" % i)
        P = E.pose("P%d" % i)
        J, dJ, T = E.mat("J%d" % i, 6, n), E.mat("dJ%d" % i, 6, n), E.vec("T%d" % i, 6)
        b.update_dynamic(P, J, dJ, T)
        bs.append((b, P, J, T))
        fr.append(core.SubFrame(b, E.pose("S%d" % i)) if offset else b)
    shapes = (sh.Point(fr[0]), sh.Sphere(fr[1]))
    H0 = E.pose("H")
    d = E.real("d", -1, 1)
    H1 = E.array(H0)
    H1[0:3, 3] = H1[0:3, 3] + d * H0[0:3, 2]
    calls = []

    def solver(s):
        calls.append(s)
        return (d, E.array(H0), E.array(H1))
    kw = {} if prox is None else {"proximity": prox}
    c = cn.SoftFingerContact(shapes, 0.5, solver, **kw)
    return c, bs, shapes, H0, H1, d, calls


def velocity(E, P, T, x):
    """Ground velocity of the body point at ground position x, for a body pose and twist."""
    R = P[0:3, 0:3]
    return E.dot(R, T[3:6]) + E.dot(E.hat(E.dot(R, T[0:3])), x - P[0:3, 3])


@obligation("P18", "contact_frames", "any body poses and twists, any shape offsets, any contact "
            "pose, gap |d|<=1", budget=200)
def frames(E):
    c, bs, shapes, H0, H1, d, calls = setup(E)
    c._force = E.vec("f", 4)
    c.update(0.5)
    E.true("asks the solver about these shapes", len(calls) == 1 and
           calls[0][0] is shapes[0] and calls[0][1] is shapes[1])
    for i, H in ((0, H0), (1, H1)):
        E.true("carried by the shape's body %d" % i, c._frames[i].body is bs[i][0])
        E.equal("contact frame %d at the contact point" % i, c._frames[i].pose, H)
    E.equal("force reset", c._force, E.arr(4))


def contact_velocity(E, c, bs, H0, H1, v):
    """(normal spin, sliding velocities, normal velocity) of contact point 1 relative to the
    material point of body 0 at contact point 0, in the contact axes."""
    R = H0[0:3, 0:3]
    T = [E.dot(b[2], v) for b in bs]
    w = [E.dot(b[1][0:3, 0:3], t[0:3]) for b, t in zip(bs, T)]
    # velocities, at the origin of contact frame 0, of the two bodies
    u = [velocity(E, b[1], t, H0[0:3, 3]) for b, t in zip(bs, T)]
    rel = E.arr(4)
    rel[0] = E.dot(R.T, w[1] - w[0])[2]
    rel[1:4] = E.dot(R.T, u[1] - u[0])
    return rel


@obligation("P18", "contact_velocity", "any body poses, any jacobians (2 columns), any contact pose; "
            "the gap as above", budget=200)
def jac(E):
    c, bs, shapes, H0, H1, d, calls = setup(E, offset=False)
    c.init(None)
    c.update(0.5)
    v = E.vec("v", 2)
    E.true("dimension", c.ndol == 4)
    E.equal("jacobian gives the relative contact velocity", E.dot(c.jacobian, v),
            contact_velocity(E, c, bs, H0, H1, v))
    f = E.vec("f", 4)
    c._force = f
    E.equal("generalized force", c.gforce, E.dot(c.jacobian.T, f))


@obligation("P18", "activation", "any body poses and twists, any contact pose, proximity 0..0.5, "
            "dt in 0.001..1; the second update follows the first", budget=300)
def active(E):
    k = E.choice("default", 2)
    prox = None if k else E.real("prox", 0, 0.5)
    c, bs, shapes, H0, H1, d, calls = setup(E, 1, prox, offset=False)
    if E.choice("moved before", 2):     # an update elsewhere, then everything moves
        keep = c._collision_solver
        far = E.eye(4)
        far[2, 3] = E.real("past gap", -1, 1)
        c._collision_solver = lambda s: (far[2, 3], E.eye(4), E.array(far))
        c.update(0.5)
        c._collision_solver = keep
        for i, (b, P, J, T) in enumerate(bs):
            b.update_dynamic(P, J, E.mat("eJ%d" % i, 6, 1), T)
    prox = 0.02 if k else prox
    dt = E.real("dt", 0.001, 1)
    c.update(dt)
    R = H0[0:3, 0:3]
    u0 = velocity(E, bs[0][1], bs[0][3], H0[0:3, 3])
    u1 = velocity(E, bs[1][1], bs[1][3], H1[0:3, 3])
    rate = E.dot(R.T, u1 - u0)[2]
    near = d + dt * rate < prox
    a = bool(c.is_active())
    E.true("active exactly when the predicted distance is below the proximity",
           near if a else E.NOT(near))


@obligation("P18", "both_orders", "every pair of shape classes; shape order given by the caller")
def orders(E):
    core, cn, sh = E.mod(CORE), E.mod(CN), E.mod("arboris.shapes")
    b = [core.Body("b0"), core.Body("b1")]
    mk = [lambda f: sh.Sphere(f), lambda f: sh.Point(f), lambda f: sh.Plane(f), lambda f: sh.Box(f)]
    i, j = E.choice("i", 4), E.choice("j", 4)
    s = (mk[i](b[0]), mk[j](b[1]))
    try:
        c = cn.SoftFingerContact(s, 0.5)
    except NotImplementedError:
        E.true("refused pair", True)
        return
    for k in range(2):
        E.true("contact frames on the bodies of the sorted shapes",
               c._frames[k].body is c._shapes[k].frame.body)
    E.true("both shapes", set(map(id, c._shapes)) == set(map(id, s)))


@obligation("P18", "registered_with_world", "one contact")
def registered(E):
    core, cn, sh, jm = E.mod(CORE), E.mod(CN), E.mod("arboris.shapes"), E.mod("arboris.joints")
    w = core.World()
    b = core.Body("b")
    w.add_link(w.ground, jm.FreeJoint(), b)
    c = cn.SoftFingerContact((sh.Plane(w.ground), sh.Sphere(b)), 0.5)
    w.register(c)
    E.true("contact frames known to the world", all(
        any(f is g for g in w.itersubframes()) or any(f is g for g in w.itermovingsubframes())
        for f in c._frames))
    E.true("constraint known to the world", any(x is c for x in w.iterconstraints()))


@obligation("P18", "each_with_its_own_frames", "two contacts of one body, one or both registered, in either order")
def own(E):
    core, cn, sh, jm = E.mod(CORE), E.mod(CN), E.mod("arboris.shapes"), E.mod("arboris.joints")
    w = core.World()
    b = core.Body("b")
    w.add_link(w.ground, jm.FreeJoint(), b)
    p = sh.Plane(w.ground)
    cs = [cn.SoftFingerContact((p, sh.Sphere(b)), 0.5), cn.SoftFingerContact((p, sh.Point(core.SubFrame(b))), 0.25)]
    k = E.choice("which", 4)
    some = [[cs[0]], [cs[1]], cs, cs[::-1]][k]
    for c in some:
        w.register(c)
    F = [f for f in list(w.itersubframes()) + list(w.itermovingsubframes())]
    for c in cs:
        for f in c._frames:
            E.true("its frames are known when it is", any(f is g for g in F) == any(c is x for x in some))
    E.true("two frames of its own each", len(set(id(f) for c in cs for f in c._frames)) == 4)
    E.true("only those asked for", [id(c) for c in w.iterconstraints()] == [id(c) for c in some])
