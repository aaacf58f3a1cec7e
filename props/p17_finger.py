"""P17 Soft-finger contact: Signorini + Coulomb/elliptic friction."""
from engine.harness import obligation
from engine import shim
from ._common import CORE, const_mass

CN = "arboris.constraints"

TINY = 2.0 ** -20         # slower sliding is as good as none
ISO = [[2, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 3]]
ANISO = [[3, 1, 0, 0], [1, 2, -1, 0], [0, -1, 2, 0], [0, 0, 0, 2]]
COUPLED = [[3, 1, 0, 1], [1, 4, -1, 2], [0, -1, 3, -1], [1, 2, -1, 4]]


def contact(E, mu, eps=None, f0=None):
    core, cn, sh = E.mod(CORE), E.mod(CN), E.mod("arboris.shapes")
    w = core.World()
    b = core.Body()
    w.add_link(w.ground, E.mod("arboris.joints").FreeJoint(), b)
    c = cn.SoftFingerContact((sh.Point(b), sh.Sphere(w.ground)), mu)
    if eps is not None:
        c._eps = E.array(eps)
    if f0 is not None:
        c._force = E.array(f0)
    return c


def friction(E, Y, mu, eps=None, f0=None, mode="full", roots=1, vel=None, sd=None):
    """The outcome of one correction is one of: separation, sticking, sliding."""
    E.havoc = True
    c = contact(E, mu, eps, f0)
    Y = E.array(Y)
    f0 = E.array(f0 if f0 is not None else [0, 0, 0, 0])
    eps = eps or [1, 1, 1]
    dt = 0.5
    vel = E.vec("v", 4) if vel is None else E.array(vel)
    sd = E.real("sdist", -1, 1) if sd is None else sd
    c._sdist = sd
    S, called = [], []

    def roots_of(B):
        """Contract: real roots of the characteristic polynomial."""
        out = []
        n = len(B)
        for i in range(roots):
            s = E.real("s%d" % i, -50, -TINY)
            m = E.array(B)
            for k in range(n):
                m[k, k] = m[k, k] - s
            if mode == "full":
                E.assume(E.EQ(shim.det(m), 0))
            out.append(s)
        S.extend(out)
        called.append(1)
        return E.array(out) if out else E.arr(0)
    shim.HOOKS["eigvals"] = roots_of
    df = c.solve(E.array(vel), E.array(Y), dt)
    f = f0 + df
    E.equal("the force accumulates", c._force, f)
    v = vel + E.dot(Y, df)
    free = sd + dt * (vel - E.dot(Y, f0))[3]
    gap = sd + dt * v[3]
    t = [f[i] / eps[i] for i in range(3)]
    tt = t[0] * t[0] + t[1] * t[1] + t[2] * t[2]
    zero = E.AND(*[E.EQ(x, 0) for x in f])
    apart = E.AND(free >= 0, zero)
    E.true("no force when the shapes separate", E.implies(free > 0, zero))
    E.true("the gap closes without penetration", E.OR(apart, E.EQ(gap, 0)))
    if called and not S:
        # no negative root is found: only the direction of the friction is known
        E.true("friction never pushes the sliding on", E.AND(*[E.LE(v[i] * f[i], 0) for i in range(3)]))
        return
    if mode == "full" or not S:
        E.true("friction inside the cone", E.LE(tt, mu * mu * f[3] * f[3]))
        E.true("no adhesion", E.GE(f[3], 0))
    rest = E.AND(*[E.EQ(v[i], 0) for i in range(3)])
    g = [f[i] / eps[i] ** 2 for i in range(3)]
    slides = [E.EQ(tt, mu * mu * f[3] * f[3])]
    for i in range(3):
        slides.append(E.LE(v[i] * g[i], 0))
        for j in range(i):
            slides.append(E.EQ(v[i] * g[j], v[j] * g[i]))
    if S:
        s = S[0]
        for x in S[1:]:
            s = x if x < s else s
        if mode == "full":
            E.true("the cone is reached when sliding", slides[0])
        E.equal("friction opposes sliding", v[0:3], E.array([s * x for x in g]))
    else:
        E.true("no force, or rolling, or sliding against the friction on the cone",
               E.OR(apart, rest, E.AND(*slides)))


B0 = "velocity |x|<=1000, gap |d|<=1, dt=0.5; "
obligation("P17", "isotropic", B0 + "decoupled isotropic constant admittance, mu=0.5", budget=300)(
    lambda E: friction(E, ISO, 0.5))
obligation("P17", "isotropic_warm", B0 + "as above, correcting a non zero force, friction "
           "coefficient 1, two negative roots", budget=300)(
    lambda E: friction(E, ISO, 1, None, [1, -1, 0.5, 2], roots=2))
obligation("P17", "anisotropic", B0 + "tangentially coupled admittance, mu=0.5, unequal "
           "friction ellipsoid; any s<=-2^-20 in the sliding branch", budget=300)(
    lambda E: friction(E, ANISO, 0.5, [1, 2, 0.5], [0, 1, 0, 1], "loose"))
obligation("P17", "coupled", B0 + "fully coupled admittance, mu=0.5; any s<=-2^-20 in the sliding "
           "branch", budget=300)(
    lambda E: friction(E, COUPLED, 0.5, None, None, "loose"))
obligation("P17", "frictionless", B0 + "fully coupled admittance, mu=0", budget=300)(
    lambda E: friction(E, COUPLED, 0, None, None, "loose"))

PLANAR = [[0, 0, 0, 0], [0, 2, 0, 1], [0, 0, 0, 0], [0, 1, 0, 3]]
SPATIAL = [[0, 0, 0, 0], [0, 4, -1, 2], [0, -1, 3, -1], [0, 2, -1, 4]]


def in_plane(E, Y, *args):
    """A mechanism with fewer mobilities than the contact has directions."""
    v = [E.real("v%d" % i, -1000, 1000) if Y[i][i] else 0 for i in range(4)]
    friction(E, Y, *args, vel=v)


obligation("P17", "planar", B0 + "a mechanism which moves the contact in a plane, mu=0.5; any s<=-2^-20 in the sliding branch",
           budget=300)(lambda E: in_plane(E, PLANAR, 0.5, None, None, "loose"))
obligation("P17", "planar_warm", B0 + "the same, correcting a force, mu=2, unequal axes",
           budget=300)(lambda E: in_plane(E, PLANAR, 2, [1, 2, 0.5], [0, 1, 0, 2], "loose"))
obligation("P17", "no_spin", B0 + "a mechanism which cannot spin about the normal, mu=0.5; any s<=-2^-20 in the sliding branch",
           budget=300)(lambda E: in_plane(E, SPATIAL, 0.5, None, [0, 1, 0, 2], "loose"))

obligation("P17", "no_root", B0 + "tangentially coupled admittance, mu=0.5; the eigenproblem has no "
           "negative real root", budget=300)(
    lambda E: friction(E, ANISO, 0.5, None, None, "loose", roots=0))


def sliding(E, Y, mu, eps=None, f0=(0, 0, 0, 0), before=False, dt=0.5, gap=False):
    """Any sliding state (s<=0, friction on the cone) is found back by the code."""
    E.havoc = True
    eps = eps or [1, 1, 1]
    Y = E.array(Y)
    sd = E.real("sdist", -1, 1) if gap else 0
    if dt is None:
        dt = E.real("dt", 0.001, 1)
    f0 = E.array(f0)
    if mu is None:
        mu = E.real("mu", 0.0625, 4)
        n = E.real("n", 0.1, 3)
        r = mu * n
    else:
        r = E.real("r", 0.1, 3)
        n = r / mu
    c = contact(E, mu, eps, f0)
    if before:
        # it slid otherwise in an earlier correction
        shim.HOOKS["eigvals"] = lambda B: E.array([-2.])
        c._sdist = 0
        f0 = f0 + c.solve(E.array([4, -8, 2, -1]), E.array(Y), dt)
        E.true("it slid before", E.NOT(E.EQ(f0[0], 0)))
    s = E.real("s", -5, -TINY)
    u = E.unit("u")
    f = E.arr(4)
    for i in range(3):
        f[i] = r * eps[i] * u[i]
    f[3] = n
    vel = -E.dot(Y, f)
    for i in range(3):
        vel[i] = vel[i] + s * f[i] / eps[i] ** 2
    E.assume(vel[3] <= -0.01)
    vel[3] = vel[3] - sd / dt
    vel = vel + E.dot(Y, f0)
    c._sdist = sd
    seen = []

    def roots_of(B):
        m = E.array(B)
        for k in range(len(m)):
            m[k, k] = m[k, k] - s
        seen.append(shim.det(m))
        return E.array([s])
    shim.HOOKS["eigvals"] = roots_of
    df = c.solve(E.array(vel), E.array(Y), dt)
    v = vel + E.dot(Y, df)
    c2 = df + f0
    if seen:
        E.true("sliding friction", E.EQ(seen[0], 0))
        E.true("sliding friction", E.AND(*[E.EQ(c2[i], f[i]) for i in range(4)]))
    else:
        tt = sum((c2[i] / eps[i]) ** 2 for i in range(3))
        g = [c2[i] / eps[i] ** 2 for i in range(3)]
        col = [E.EQ(v[i] * g[j], v[j] * g[i]) for i in range(3) for j in range(i)]
        rest = E.AND(*[E.EQ(v[i], 0) for i in range(3)])
        E.true("sliding friction", E.AND(E.EQ(sd + dt * v[3], 0), E.OR(
            E.AND(rest, E.LE(tt, mu * mu * c2[3] * c2[3])),
            E.AND(E.EQ(tt, mu * mu * c2[3] * c2[3]), *col))))


SL = ("any sliding state: cone radius (or normal force, when mu is any of 1/16..4) 0.1..3, any direction, -5<=s<=-2^-20, closing speed >=0.01; "
      "the state is a root of the code's eigenproblem and is what the code returns for it; ")
for tag, args in (("decoupled", (ANISO, 0.5)), ("coupled", (COUPLED, 0.5)),
                  ("ellipsoid", (COUPLED, 0.75, [1, 2, 0.5])),
                  ("warm", (COUPLED, 0.5, None, [1, -1, 0.5, 2])),
                  ("again", (COUPLED, 0.5, None, [0, 0, 0, 0], True)),
                  ("any_step", (ANISO, 0.5, None, [0, 0, 0, 0], False, None, True)),
                  ("any_step_coupled", (COUPLED, 0.5, [1, 2, 0.5], [1, -1, 0.5, 2], False, None, True)),
                  ("any_friction", (ANISO, None, None, [0, 0, 0, 0], False, 0.125, True))):
    obligation("P17", "slide_" + tag, SL + "admittance %s; mu (None: any), axes, previous force, an earlier correction, time step (None: any), gap (|d|<=1): %s" %
               (args[0], args[1:]), budget=300)(lambda E, args=args: sliding(E, *args))


def sticking(E, Y, mu, eps=None, f0=(0, 0, 0, 0), dt=0.5):
    """When a force inside the cone brings the contact to rest, that force is applied."""
    E.havoc = True
    eps = eps or [1, 1, 1]
    Y = E.array(Y)
    if mu is None:
        mu = E.real("mu", 0, 4)
    if dt is None:
        dt = E.real("dt", 0.001, 1)
    f0 = E.array(f0)
    c = contact(E, mu, eps, f0)
    u = E.vec("u", 3, -1, 1)
    n = E.real("n", 0.1, 3)
    sd = E.real("sdist", -1, 1)
    E.assume(E.LE(u[0] * u[0] + u[1] * u[1] + u[2] * u[2], 0.9375))
    f = E.arr(4)
    for i in range(3):
        f[i] = n * mu * eps[i] * u[i]
    f[3] = n
    # the velocity before the correction, such that f stops the sliding and closes the gap
    free = -E.dot(Y, f)
    free[3] = free[3] - sd / dt
    E.assume(sd + dt * free[3] <= -0.01)
    c._sdist = sd
    roots = E.choice("roots", 2) if E.symbolic else 0
    # the eigenproblem of the sliding motion may have a negative root or none
    shim.HOOKS["eigvals"] = lambda B: E.array([E.real("s", -50, -TINY)]) if roots else E.arr(0)
    df = c.solve(E.array(free + E.dot(Y, f0)), E.array(Y), dt)
    E.equal("the sticking force is applied", df + f0, f)
    E.equal("and recorded", c._force, f)
    v = free + E.dot(Y, f0) + E.dot(Y, df)
    E.equal("no sliding", v[0:3], E.arr(3))
    E.equal("the gap closes", sd + dt * v[3], 0)


ST = "any normal force 0.1..3, any tangential force up to 0.96 of the cone, gap |d|<=1, closing; "
for tag, args in (("decoupled", (ANISO, 0.5)), ("coupled", (COUPLED, 1.5)), ("frictionless", (COUPLED, 0)),
                  ("ellipsoid", (COUPLED, 0.75, [1, 2, 0.5])),
                  ("warm", (COUPLED, 0.5, None, [1, -1, 0.5, 2])),
                  ("any_step", (COUPLED, 0.5, [1, 2, 0.5], [1, -1, 0.5, 2], None)),
                  ("any_friction", (COUPLED, None, [1, 2, 0.5], [1, -1, 0.5, 2]))):
    obligation("P17", "stick_" + tag, ST + "admittance %s; mu (None: any up to 4), axes, previous force, time step (None: any): %s" %
               (args[0], args[1:]), budget=200)(lambda E, args=args: sticking(E, *args))


def one_dof(E, y, mu, f0=(0, 0, 0, 0)):
    """A mechanism with one degree of freedom: the admittance has rank one, and one force cannot both stop the sliding and
    close the gap, so that only what holds of any admittance is required."""
    E.havoc = True
    Y = E.array([[a * b for b in y] for a in y])
    c = contact(E, mu, None, f0)
    f0 = E.array(f0)
    dt = 0.5
    w, sd = E.real("w", -4, 4), E.real("sdist", -1, 1)
    c._sdist = sd
    free = E.array([a * w for a in y])

    def roots_of(B):
        # B is zero but along y_t: two known roots, four zeros
        k = E.sqrt(sum(a * a for a in y[:3]))
        gap = sd / dt
        an = y[3] * w + gap
        E.assume(E.NOT(E.EQ(an, 0)))
        beta, a, b = -gap * k / y[3], mu / (y[3] * y[3]) * an, mu * k / y[3]
        return E.array([beta * (1 - b) / a, -beta * (1 + b) / a, 0, 0, 0, 0])
    shim.HOOKS["eigvals"] = roots_of
    df = c.solve(E.array(free + E.dot(Y, f0)), E.array(Y), dt)
    f = f0 + df
    E.equal("the force accumulates", c._force, f)
    zero = E.AND(*[E.EQ(x, 0) for x in f])
    E.true("no force when the shapes separate", E.implies(sd + dt * free[3] > 0, zero))


for tag, y in (("steep", (0.5, 0, 0, 1)), ("shallow", (1, 0, 0, 1)), ("vertical", (0, 0, 0, 1)), ("oblique", (0.25, -0.5, 0.25, -1)),
               ("sideways", (1, 0, 0, 0))):
    obligation("P17", "one_dof_" + tag, "a mechanism with one degree of freedom that moves the contact along %s, mu=0.5; any "
               "speed and gap" % (y,))(lambda E, y=y: one_dof(E, y, 0.5))
