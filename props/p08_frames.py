"""P08 Frames attached to a body."""
from engine.harness import obligation
from ._common import CORE


def moved_body(E, n=2):
    core = E.mod(CORE)
    b = core.Body("b")
    P, J, dJ, T = E.pose("P"), E.mat("J", 6, n), E.mat("dJ", 6, n), E.vec("T", 6)
    b.update_dynamic(P, J, dJ, T)
    return b, P, J, dJ, T


def check(E, tag, f, H, state):
    P, J, dJ, T = state
    X = E.Ad(E.inv4(H))
    E.equal(tag + " bpose", f.bpose, H)
    E.equal(tag + " pose", f.pose, E.dot(P, H))
    E.equal(tag + " twist", f.twist, E.dot(X, T))
    E.equal(tag + " jacobian", f.jacobian, E.dot(X, J))
    E.equal(tag + " djacobian", f.djacobian, E.dot(X, dJ))


@obligation("P08", "subframes", "any body state (2 dof), any frame pose, both frame classes")
def subframes(E):
    core = E.mod(CORE)
    b, *st = moved_body(E)
    H = E.pose("H")
    for cls in (core.SubFrame, core.MovingSubFrame):
        f = cls(b, H, "f")
        check(E, cls.__name__, f, H, st)
        E.true("body", f.body is b)
    check(E, "default", core.SubFrame(b), E.eye(4), st)
    E.equal("a body's own frame", b.bpose, E.eye(4))
    E.true("a body's own body", b.body is b)


@obligation("P08", "moving_subframe", "any body state, any two successive frame poses")
def moving(E):
    core = E.mod(CORE)
    b, *st = moved_body(E, 1)
    H, G = E.pose("H"), E.pose("G")
    f = core.MovingSubFrame(b, H)
    g = core.MovingSubFrame(b, H)
    s = core.SubFrame(b, H)
    h0 = E.array(H)
    f.bpose = G
    check(E, "moved", f, G, st)
    check(E, "other moving frame untouched", g, h0, st)
    check(E, "other subframe untouched", s, h0, st)
    E.equal("caller's pose untouched", H, h0)
    g0 = E.array(G)
    f.bpose = E.eye(4)
    E.equal("caller's second pose untouched", G, g0)
    check(E, "moved again", f, E.eye(4), st)


@obligation("P08", "pose_is_a_copy", "any frame pose; the returned or given array is changed afterwards")
def copies(E):
    core = E.mod(CORE)
    H = E.pose("H")
    d = E.real("d", 0.1, 1)
    b = core.Body()
    b.update_geometric(E.eye(4))
    for cls in (core.SubFrame, core.MovingSubFrame):
        f = cls(b, H)
        h0 = E.array(H)
        x = f.bpose
        x[0, 3] += d
        E.equal("bpose is a copy " + cls.__name__, f.bpose, h0)
        y = f.pose
        y[0, 3] += d
        E.equal("pose is a copy " + cls.__name__, f.pose, h0)
        given = E.array(H)
        f2 = cls(b, given)
        given[0, 3] += d
        E.equal("frame keeps its own pose " + cls.__name__, f2.bpose, h0)
    m, given = core.MovingSubFrame(b), E.array(H)
    m.bpose = given
    given[0, 3] += d
    E.equal("moved frame keeps its own pose", m.bpose, h0)
    E.equal("moved frame's absolute pose", m.pose, h0)
    o = core.MovingSubFrame(b)
    o.bpose = m.bpose
    m.bpose = E.eye(4)
    E.equal("frames do not share their poses", o.bpose, h0)


@obligation("P08", "bad_frames", "poses scaled by 1+d, 1e-6<=|d|<=0.5; a body argument that is not a Body")
def bad(E):
    core = E.mod(CORE)
    H = E.pose("H")
    d = E.real("d", -0.5, 0.5)
    E.assume(E.OR(d >= 1e-6, d <= -1e-6))
    B = E.array(H)
    B[0, 0:3] = B[0, 0:3] * (1 + d)
    b = core.Body()
    E.raises("constructor refuses", AssertionError, lambda: core.SubFrame(b, B))
    f = core.MovingSubFrame(b, H)
    E.raises("setter refuses", AssertionError, lambda: setattr(f, "bpose", B))
    E.equal("pose unchanged after the refusal", f.bpose, H)
    E.raises("not a body", ValueError, lambda: core.SubFrame(f, H))
    E.raises("not a body (None)", ValueError, lambda: core.SubFrame(None, H))
