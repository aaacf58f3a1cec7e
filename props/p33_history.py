"""P33 Only the present state matters: no past run and no other world leaks into a simulation."""
from engine.harness import obligation
from engine import shim
from ._common import CORE, JOINTS, const_mass, const_pose
from .p26_com import stubs as nostubs

CN, CT, SH, OBS = "arboris.constraints", "arboris.controllers", "arboris.shapes", "arboris.observers"
DT = 0.125


def step(w, dt):
    w.update_dynamic()
    w.update_controllers(dt)
    w.update_constraints(dt)
    w.integrate(dt)


def look(w):
    """Read whatever a world shows."""
    l = w.getjoints()
    return [getattr(w, k) for k in ("ndof", "current_time", "up", "mass", "viscosity", "nleffects", "gforce", "gvel",
                                    "admittance")] + [l.dof, w.getbodies(), w.getframes(), w.getshapes(),
                                                      w.getconstraints(), w.getcontrollers()] + \
        [(j.dof, j.ndof, j.pose, j.jacobian, j.djacobian, j.twist, j.frame0, j.frame1, j.frames) for j in l] + \
        [(b.pose, b.twist, b.jacobian, b.djacobian, b.body, b.mass, b.nleffects, b.viscosity, b.bpose)
         for b in w.iterbodies()]


def numbers(w, dof):
    """Degrees of freedom given as a slice or as a list."""
    return list(range(w.ndof))[dof] if isinstance(dof, slice) else [int(i) for i in dof]


def compare(E, what, w1, w2, j1, j2):
    E.true("%s: size" % what, w1.ndof == w2.ndof)
    l1, l2 = w1.getjoints(), w2.getjoints()
    E.true("%s: all degrees of freedom" % what, numbers(w1, l1.dof) == numbers(w2, l2.dof) and [(j.ndof, j.dof) for j in l1] ==
           [(j.ndof, j.dof) for j in l2])
    for a, b in zip(w1.iterbodies(), w2.iterbodies()):
        for k in ("pose", "twist", "jacobian", "djacobian", "nleffects", "viscosity", "mass"):
            E.equal("%s: %s of %s" % (what, k, a.name), getattr(a, k), getattr(b, k))
    for a, b in zip(j1, j2):
        E.true("%s: degrees of freedom" % what, a.dof == b.dof)
        E.equal("%s: joint position" % what, a.gpos, b.gpos)
        E.equal("%s: joint velocity" % what, a.gvel, b.gvel)
    for k in ("mass", "viscosity", "nleffects", "gforce", "gvel", "admittance"):
        E.equal("%s: %s" % (what, k), getattr(w1, k), getattr(w2, k))


# ------------------------------------------------------------------- forces and controllers
class Plant(object):
    """ground -Rz- a -Ry- c ; ground -Tx- b; weight and a controller of the slider."""

    def __init__(self, E, late):
        core, jm, ct = E.mod(CORE), E.mod(JOINTS), E.mod(CT)
        self.E, self.core, self.jm = E, core, jm
        w = self.w = core.World()
        self.a, self.b, self.c = (core.Body(mass=const_mass(E, i)) for i in range(3))
        self.ja, self.jb, self.jc = jm.RzJoint(), jm.TxJoint(), jm.RyJoint()
        w.add_link(w.ground, self.ja, self.a)
        w.add_link(w.ground, self.jb, self.b)
        if not late:
            self.more()
        w.init()
        self.weight = ct.WeightController(-9)
        self.pd = ct.ProportionalDerivativeController([self.jb], [[2.]], [[1.]], [0.5], [0.25])
        w.register(self.weight)
        w.register(self.pd)

    def more(self):
        self.w.add_link(self.core.SubFrame(self.a, const_pose(self.E, 0)), self.jc, self.c)

    def settle(self, x):
        """Everything a user can set, set to given values."""
        E = self.E
        self.a.mass = const_mass(E, 3)
        self.b.viscosity = E.eye(6) * x["visc"]
        self.w.up[:] = E.array([0, 0, 1])
        self.weight.gravity = x["g"]
        self.pd.kp = E.array([[x["kp"]]])
        self.pd.kd = E.array([[x["kd"]]])
        self.pd.gpos_des = E.array([x["des"]])
        self.ja.gpos = E.array([0.])
        self.jb.gpos = E.array([x["pos"]])
        self.jc.gpos = E.array([0.])
        for j, v in zip((self.ja, self.jb, self.jc), x["v"]):
            j.gvel = E.array([v])
        self.w.init()

    def joints(self):
        return self.ja, self.jb, self.jc


def values(E):
    x = dict((k, E.real(k, -5, 5)) for k in ("g", "des", "pos"))
    for k in ("visc", "kp", "kd"):
        x[k] = E.real(k, 0, 5)
    x["v"] = E.vec("v", 3)
    return x


def again(E, late):
    x = values(E)
    old, new = Plant(E, late), Plant(E, False)
    w = old.w
    # the past: a run of two steps, from any velocities
    past = E.vec("past", 2)
    old.ja.gvel, old.jb.gvel = E.array(past[0:1]), E.array(past[1:2])
    w.up[:] = E.array([1, 0, 0])
    w.init()
    look(w)
    for k in range(2):
        step(w, 0.25)
        # back to the initial configuration, to keep the past run simple
        old.ja.gpos[:] = 0
        old.jc.gpos[:] = 0
        look(w)
    if late:
        old.more()
    old.settle(x)
    new.settle(x)
    step(w, DT)
    step(new.w, DT)
    compare(E, "one step", w, new.w, old.joints(), new.joints())


OVER = ("any present gravity, target, gains, viscosity, position and velocities (|x|<=1000) and any past velocities; a "
        "two-step run, then %smasses, viscosity, up, gravity, gains and states are changed and the world is initialized again")
obligation("P33", "controllers", OVER % "", allow_divzero=True, budget=200)(lambda E: again(E, False))
obligation("P33", "controllers_new_link", OVER % "a link is added in the middle of the tree, ", allow_divzero=True,
           budget=200)(lambda E: again(E, True))


# ------------------------------------------------------------------------------ constraints
class Held(object):
    """ground -Tx- a, ground -(Ty, TxTyTz or free)- b: b is held by one constraint."""

    def __init__(self, E, kind, late):
        core, jm, cn, sh = E.mod(CORE), E.mod(JOINTS), E.mod(CN), E.mod(SH)
        self.E, self.core, self.jm = E, core, jm
        w = self.w = core.World()
        self.a, self.b, self.c = (core.Body(mass=E.eye(6) * m) for m in (2, 4, 1))
        self.ja, self.jc = jm.TxJoint(), jm.TzJoint()
        self.jb = (jm.TyJoint, jm.TxTyTzJoint, jm.FreeJoint)[kind]()
        w.add_link(w.ground, self.ja, self.a)
        w.add_link(w.ground, self.jb, self.b)
        if not late:
            self.more()
        if kind == 0:
            self.k = cn.JointLimits(self.jb, [-1.], [1.])
            self.k._proximity = E.array([10.])
        elif kind == 1:
            self.k = cn.BallAndSocketConstraint((core.SubFrame(w.ground, const_pose(E, 1)), self.b))
        else:
            self.k = cn.SoftFingerContact((sh.Plane(w.ground), sh.Sphere(self.b, 0.5)), 0.5, proximity=20.)
        w.register(self.k)

    def more(self):
        self.w.add_link(self.a, self.jc, self.c)

    def settle(self, pos, v):
        self.ja.gpos, self.jc.gpos = self.E.arr(1), self.E.arr(1)
        self.ja.gvel, self.jc.gvel = self.E.arr(1) + 0.5, self.E.arr(1) + 0.25
        if self.jb.ndof == 6:       # falling straight
            self.jb.gpos = self.E.eye(4)
            self.jb.gpos[1, 3] = pos[0]
            self.jb.gvel = self.E.array([0, 0, 0, 0, v[0], 0])
        else:
            self.jb.gpos, self.jb.gvel = self.E.array(pos), self.E.array(v)
        self.w.init()

    def joints(self):
        return self.ja, self.jb, self.jc


def held(E, kind):
    late = bool(E.choice("late", 2))
    off = bool(E.choice("off", 2))
    n = (1, 3, 1)[kind]
    old, new = Held(E, kind, late), Held(E, kind, False)
    p0, v0 = E.vec("p0", n, -2, 2), E.vec("v0", n)
    p1, v1 = E.vec("p1", n, -2, 2), E.vec("v1", n)
    old.settle(p0, v0)
    look(old.w)
    step(old.w, DT)
    look(old.w)
    if off:             # a step without the constraint
        old.k.disable()
        step(old.w, DT)
        old.k.enable()
    if late:
        old.more()
    old.settle(p1, v1)
    new.settle(p1, v1)
    step(old.w, DT)
    step(new.w, DT)
    compare(E, "held", old.w, new.w, old.joints(), new.joints())


HELD = ("any past and present position and velocity; a step, possibly a step with the constraint disabled, possibly a new "
        "link in the middle of the tree, then the world is initialized again")
obligation("P33", "joint_limits", HELD, allow_divzero=True, budget=200, max_paths=3000)(lambda E: held(E, 0))
obligation("P33", "ball_and_socket", HELD, allow_divzero=True, budget=200, max_paths=3000)(lambda E: held(E, 1))
obligation("P33", "contact", HELD, allow_divzero=True, budget=200, max_paths=3000)(lambda E: held(E, 2))


@obligation("P33", "set_in_place", "any gravity, target, gains, viscosity, past and present positions and velocities, written in place in "
            "the joints of a world that was initialized, and stepped or not", allow_divzero=True, budget=200)
def set_in_place(E):
    x = values(E)
    past = dict(x, v=E.vec("past", 3), pos=E.real("before", -5, 5))
    old, new = Plant(E, False), Plant(E, False)
    old.settle(past)
    if E.choice("stepped", 2):
        step(old.w, 0.25)
    for j, q, v in zip(old.joints(), (0, x["pos"], 0), x["v"]):
        j.gpos[:] = q
        j.gvel[0] = v
        E.equal("the joint has it", j.gvel, E.array([v]))
    E.equal("so does the world", old.w.gvel, E.array([old.joints()[i].gvel[0] for i in (0, 2, 1)]))
    new.settle(x)
    for o in (old, new):
        step(o.w, DT)
    compare(E, "after the change", old.w, new.w, old.joints(), new.joints())


@obligation("P33", "long_history", "40 past steps between fixed states, with looks in between, then any position and velocity, possibly a new link "
            "below another body; by each constraint and by the controllers", allow_divzero=True, budget=300, max_paths=3000)
def long_history(E):
    kind, late = E.choice("kind", 4), bool(E.choice("late", 2))
    if kind == 3:
        x = values(E)
        old, new = Plant(E, late), Plant(E, False)
        old.ja.gvel[:], old.jb.gvel[:] = 0.5, -0.25
        old.w.init()
    else:
        n = (1, 3, 1)[kind]
        p, v = E.vec("p", n, -2, 2), E.vec("v", n)
        old, new = Held(E, kind, late), Held(E, kind, False)
        old.settle([0.75, 0.5, -0.25][:n], [1., -0.5, 0.25][:n])
    here = list(old.w.iterjoints())
    for k in range(40):
        step(old.w, 0.0625)
        if k % 13 == 5:
            look(old.w)
        for i, j in enumerate(here):            # the numbers are kept short
            if j.ndof == 6:
                j.gpos[...] = E.eye(4)
                j.gpos[1, 3] = (k % 4 - 2) / 4
                j.gvel[:] = [0, 0, 0, 0, (k % 5 - 2) / 4, 0]
            else:
                turns = type(j).__name__.startswith("R")
                j.gpos[:] = [0. if turns else (k + i + d) % 4 / 4 - 0.5 for d in range(j.ndof)]
                j.gvel[:] = [(k + d) % 5 / 4 - 0.5 for d in range(j.ndof)]
    if late:
        old.more()
    for o in (old, new):
        if kind == 3:
            o.settle(x)
        else:
            o.settle(p, v)
        step(o.w, DT)
    compare(E, "after a long run", old.w, new.w, old.joints(), new.joints())


# -------------------------------------------------------------------------------- observers
def solid(E, m):
    """A body of mass m whose centre of mass is away from its frame, the farther the heavier."""
    h = E.hat(E.array([0.5 * m, -1, m + 2]))
    M = E.eye(6) * m
    M[0:3, 0:3] = M[0:3, 0:3] - m * E.dot(h, h)
    M[0:3, 3:6], M[3:6, 0:3] = m * h, -m * h
    return M


def sliders(E, masses):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    w.up[:] = E.array([0, 0.6, 0.8])
    bodies = []
    last = w.ground
    for k, m in enumerate(masses):
        b = core.Body("b%d" % k, mass=solid(E, m))
        w.add_link(last, jm.TxTyTzJoint(name="j%d" % k), b)
        bodies.append(b)
        last = b
    return w, bodies


def watch(E, w, bodies, obs, q, v):
    for i, j in enumerate(w.iterjoints()):
        j.gpos, j.gvel = E.array(q[3 * i:3 * i + 3]), E.array(v[3 * i:3 * i + 3])
    E.mod(CORE).simulate(w, [0., 0.25, 0.5], obs)
    w.update_dynamic()


@obligation("P33", "observers", "the energy, centre-of-mass and state observers of a past run, or new ones, on another "
            "run; any past and present positions, velocities and masses", stubs=nostubs, allow_divzero=True, budget=200)
def observers(E):
    ob = E.mod(OBS)
    if E.symbolic:
        shim.HOOKS["eig"] = shim.HOOKS["eigh"] = lambda A, *a, **k: (E.array([A[i, i] for i in range(3)]), E.eye(3))
        # the principal axes are those of the frame
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    m = [E.real("m%d" % i, 0.25, 4) for i in range(4)]
    q0, v0, q1, v1 = (E.vec(k, 6) for k in ("q0", "v0", "q1", "v1"))
    w, bodies = sliders(E, m[:2])
    u, others = sliders(E, m[2:])

    def made(bodies):
        return [ob.EnergyMonitor(), ob.CoMObserver(bodies), ob.SaveLogger(save_state=True, save_model=True)]
    old, new = made(bodies), made(others)
    for o in old + new:
        if not hasattr(o, "finish") or isinstance(o, ob.SaveLogger):
            o.finish = lambda: None
    watch(E, w, bodies, old, q0, v0)
    # another mass for the same bodies
    for b, x in zip(bodies, m[2:]):
        b.mass = solid(E, x)
    watch(E, w, bodies, old, q1, v1)
    watch(E, u, others, new, q1, v1)
    for k in ("time", "kinetic_energy", "potential_energy", "mechanichal_energy"):
        E.true("as many records: " + k, len(getattr(old[0], k)) == len(getattr(new[0], k)) == 2)
        E.equal("energies: " + k, E.array(getattr(old[0], k)), E.array(getattr(new[0], k)))
    for k in ("get_CoMPosition", "get_CoMJacobian", "get_CoMdJacobian"):
        E.equal("centre of mass: " + k, getattr(old[1], k)(), getattr(new[1], k)())
    a, b = old[2]._root, new[2]._root
    E.true("same records", sorted(a) == sorted(b))
    E.equal("recorded time", a["timeline"], b["timeline"])
    for g in sorted(a):
        if g != "timeline":
            E.true("same records in " + g, sorted(a[g]) == sorted(b[g]))
            for k in sorted(a[g]):
                E.equal("recorded %s %s" % (g, k), a[g][k], b[g][k])


# ------------------------------------------------------------------------------- two worlds
def arm_world(E, x, tag):
    core = E.mod(CORE)
    w = core.World()
    if x["kind"]:
        E.mod("arboris.robots.snake").add_snake(w, 2, [x["l"], x["k"]], [x["m"], 1.], is_fixed=True)
    else:
        E.mod("arboris.robots.simplearm").add_simplearm(w, "", (x["l"], x["k"], 0.25), (x["m"], 1., 0.5), with_shapes=True)
    w.register(E.mod(CT).WeightController(x["g"]))
    w.up[:] = E.array(x["up"])
    js = list(w.iterjoints())
    w.register(E.mod(CN).JointLimits(js[0], -1., 1.))
    for j, v in zip(js, x["v"]):
        j.gvel = E.array([v])
    w.init()
    return w, js


@obligation("P33", "two_worlds", "two arms or snakes of any lengths, masses, velocities, gravity; stepped in turn or "
            "one alone", allow_divzero=True, budget=200, max_paths=2000)
def two_worlds(E):
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    xs = []
    for i in range(2):
        x = dict((k, E.real(k + str(i), 0.25, 4)) for k in ("l", "k", "m"))
        x["g"] = E.real("g%d" % i, -10, 10)
        x["v"] = [E.real("v%d%d" % (i, k), -0.5, 0.5) for k in range(3)]
        x["up"] = [[0, 1, 0], [0.6, 0.8, 0]][i]
        x["kind"] = E.choice("kind%d" % i, 2)
        xs.append(x)
    alone, ja = arm_world(E, xs[0], "alone")
    step(alone, DT)
    first, jf = arm_world(E, xs[0], "first")
    second, js = arm_world(E, xs[1], "second")
    for f in ("update_dynamic", "update_controllers", "update_constraints", "integrate"):
        for w in (first, second):
            getattr(w, f)(*([] if f == "update_dynamic" else [DT if w is first else 0.25]))
    compare(E, "beside another world", first, alone, jf, ja)
    E.equal("own clock", E.array([first.current_time, second.current_time]), E.array([DT, 0.25]))
    first.up[:] = E.array([0, 0, 1])
    third = E.mod(CORE).World()
    E.equal("a new world has the usual up direction", third.up, E.array([0, 1, 0]))
    E.equal("and the other keeps its own", second.up, E.array(xs[1]["up"]))
    E.true("a new world is empty", not list(third.iterjoints()) and len(list(third.iterframes())) == 1
           and not list(third.itershapes()) and not list(third.itersubframes()))


@obligation("P33", "defaults_are_fresh", "every class built twice with its default arguments; any value written in the "
            "arrays of the first one, before or after the second is built")
def fresh(E):
    core, jm, ct = E.mod(CORE), E.mod(JOINTS), E.mod(CT)
    from .p34_pure import NAMES
    x = E.real("x", 0.25, 5)
    when = E.choice("when", 2)
    kinds = ["body", "frame", "moving", "weight", "pd", "viscous"] + list(NAMES)
    k = kinds[E.choice("class", len(kinds))]
    w = core.World()

    def make():
        b = core.Body()
        if k == "body":
            return b, ("mass", "viscosity")
        if k == "frame":
            return core.SubFrame(b), ("bpose",)
        if k == "moving":
            return core.MovingSubFrame(b), ("bpose",)
        if k == "weight":
            return ct.WeightController(), ()
        if k == "viscous":
            return core.Body(mass=E.eye(6)), ("viscosity",)
        if k == "pd":
            j, l = jm.RzJoint(), jm.TxTyTzJoint()
            w.add_link(w.ground, j, b, b, l, core.Body())
            w.init()
            c = ct.ProportionalDerivativeController([j, l])
            return c, ("kp", "kd", "gpos_des", "gvel_des")
        j = getattr(jm, k)()
        return j, ("gpos", "gvel")

    def values(o, ks):
        return [E.array(getattr(o, n)) for n in ks]
    o, ks = make()
    pure = values(o, ks)

    def spoil():
        for n in ks:
            a = getattr(o, n)
            if hasattr(a, "shape") and a.shape:
                a[...] = x
    if when:
        spoil()
    p, ks = make()
    if not when:
        for n in ks:
            E.true("each has its own %s" % n, getattr(o, n) is not getattr(p, n))
        spoil()
    for n, a, b in zip(ks, values(p, ks), pure):
        E.equal("%s of another one" % n, a, b)
    q, ks = make()
    for n, a, b in zip(ks, values(q, ks), pure):
        E.equal("%s of a new one" % n, a, b)


@obligation("P33", "constraints_side_by_side", "two joints of 1 to 3 dof with limits, two ball joints, or one and then the "
            "other; any states; one of each is stepped beside the other, or alone", allow_divzero=True, max_paths=2000)
def side_by_side(E):
    core, jm, cn = E.mod(CORE), E.mod(JOINTS), E.mod(CN)
    kind = E.choice("kind", 2)
    n = (1, 3)[kind]
    p = [E.vec("p%d" % i, n, -2, 2) for i in range(2)]
    v = [E.vec("v%d" % i, n) for i in range(2)]

    def side(w, i):
        b = core.Body(mass=E.eye(6) * (2 + i))
        j = (jm.TxJoint, jm.TxTyTzJoint)[kind]()
        w.add_link(w.ground, j, b)
        j.gpos, j.gvel = E.array(p[i]), E.array(v[i])
        w.init()
        if kind:
            c = cn.BallAndSocketConstraint((w.ground, b))
        else:
            c = cn.JointLimits(j, [-1. - i], [1. + i])
        w.register(c)
        w.init()
        return j, c
    alone, both = core.World(), core.World()
    ja, ca = side(alone, 0)
    j0, c0 = side(both, 0)
    j1, c1 = side(both, 1)
    E.true("apart", c0 is not c1)
    step(alone, DT)
    step(both, DT)
    E.equal("position as without the other", j0.gpos, ja.gpos)
    E.equal("velocity as without the other", j0.gvel, ja.gvel)
    E.equal("force as without the other", c0.gforce[0:n], ca.gforce)
    c0.disable()
    E.true("disabling one leaves the other", c1.is_enabled() if hasattr(c1, "is_enabled") else True)


@obligation("P33", "observers_side_by_side", "the energy, centre-of-mass and state observers of two worlds whose bodies, joints "
            "and frames have equal names or none; any positions, velocities and masses", stubs=nostubs, allow_divzero=True,
            budget=200)
def two_observers(E):
    ob = E.mod(OBS)
    if E.symbolic:
        shim.HOOKS["eig"] = shim.HOOKS["eigh"] = lambda A, *a, **k: (E.array([A[i, i] for i in range(3)]), E.eye(3))
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    m = [E.real("m%d" % i, 0.25, 4) for i in range(4)]
    q0, v0, q1, v1 = (E.vec(k, 6) for k in ("q0", "v0", "q1", "v1"))

    def made(bodies):
        obs = [ob.EnergyMonitor(), ob.CoMObserver(bodies), ob.SaveLogger(save_state=True, save_model=True)]
        obs[2].finish = lambda: None
        obs[0].finish = lambda: None
        return obs

    def go(w, obs, q, v, which):
        for i, j in enumerate(w.iterjoints()):
            j.gpos, j.gvel = E.array(q[3 * i:3 * i + 3]), E.array(v[3 * i:3 * i + 3])
        w.init()
        w.update_dynamic()
        tl = [0., 0.25, 0.5]
        for o in obs:
            o.init(w, tl)
        return w, obs

    def tick(w, obs):
        w.update_dynamic()
        w.update_controllers(0.25)
        w.update_constraints(0.25)
        for o in obs:
            o.update(0.25)
        w.integrate(0.25)
    a, A = sliders(E, m[:2])
    b, B = sliders(E, m[2:])
    c, C = sliders(E, m[:2])
    oa, obb, oc = made(A), made(B), made(C)
    go(c, oc, q0, v0, 0)
    tick(c, oc)
    tick(c, oc)
    go(a, oa, q0, v0, 0)
    go(b, obb, q1, v1, 1)
    for k in range(2):
        tick(a, oa)
        tick(b, obb)
    for k in ("time", "kinetic_energy", "potential_energy", "mechanichal_energy"):
        E.equal("energies: " + k, E.array(getattr(oa[0], k)), E.array(getattr(oc[0], k)))
    for k in ("get_CoMPosition", "get_CoMJacobian", "get_CoMdJacobian"):
        E.equal("centre of mass: " + k, getattr(oa[1], k)(), getattr(oc[1], k)())
    x, y = oa[2]._root, oc[2]._root
    E.true("same records", sorted(x) == sorted(y))
    for g in sorted(x):
        if g == "timeline":
            E.equal("recorded time", x[g], y[g])
            continue
        E.true("same records in " + g, sorted(x[g]) == sorted(y[g]))
        for k in sorted(x[g]):
            E.equal("recorded %s %s" % (g, k), x[g][k], y[g][k])


@obligation("P33", "observers_moved", "the energy and state observers of a past run of one world, or new ones, on a longer run of "
            "another with one more link; any positions, velocities and masses; the centre-of-mass observer of a world that grew",
            stubs=nostubs, allow_divzero=True, budget=200)
def observers_moved(E):
    ob, core, jm = E.mod(OBS), E.mod(CORE), E.mod(JOINTS)
    if E.symbolic:
        shim.HOOKS["eig"] = shim.HOOKS["eigh"] = lambda A, *a, **k: (E.array([A[i, i] for i in range(3)]), E.eye(3))
    E.patch("arboris.massmatrix", "ismassmatrix", lambda M, semi=False: True)
    m = [E.real("m%d" % i, 0.25, 4) for i in range(3)]
    q0, v0, q1, v1 = E.vec("q0", 3), E.vec("v0", 3), E.vec("q1", 6), E.vec("v1", 6)
    w, A = sliders(E, m[:1])
    u, B = sliders(E, m[1:])

    def made():
        obs = [ob.EnergyMonitor(), ob.SaveLogger(save_state=True, save_model=True)]
        for o in obs:
            o.finish = lambda: None
        return obs

    def go(w, obs, q, v, tl):
        for i, j in enumerate(w.iterjoints()):
            j.gpos, j.gvel = E.array(q[3 * i:3 * i + 3]), E.array(v[3 * i:3 * i + 3])
        core.simulate(w, tl, obs)
    old, new = made(), made()
    com = ob.CoMObserver(A)
    go(w, old + [com], q0, v0, [0., 0.5])
    go(u, old + new, q1, v1, [0., 0.25, 0.5, 0.625])
    for k in ("time", "kinetic_energy", "potential_energy", "mechanichal_energy"):
        E.true("as many records: " + k, len(getattr(old[0], k)) == len(getattr(new[0], k)) == 3)
        E.equal("energies: " + k, E.array(getattr(old[0], k)), E.array(getattr(new[0], k)))
    a, b = old[1]._root, new[1]._root
    E.true("same records", sorted(a) == sorted(b))
    for g in sorted(a):
        if g == "timeline":
            E.equal("recorded time", a[g], b[g])
            continue
        E.true("same records in " + g, sorted(a[g]) == sorted(b[g]))
        for k in sorted(a[g]):
            E.equal("recorded %s %s" % (g, k), a[g][k], b[g][k])
    # the world grows, above the bodies watched
    x = core.Body(mass=solid(E, 1.))
    w.add_link(A[0], jm.TxTyTzJoint(), x)
    fresh = ob.CoMObserver(A)
    w.init()
    w.update_dynamic()
    for o in (com, fresh):
        o.init(w, [0., 0.5])
        o.update(0.5)
    for k in ("get_CoMPosition", "get_CoMJacobian", "get_CoMdJacobian"):
        E.true("size of " + k, getattr(com, k)().shape == getattr(fresh, k)().shape)
        E.equal("centre of mass: " + k, getattr(com, k)(), getattr(fresh, k)())
