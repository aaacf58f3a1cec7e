"""P26 Energy and centre-of-mass observers."""
import types
from engine.harness import obligation
from engine import shim
from ._common import CORE, const_mass, stub_joint

OBS = "arboris.observers"


LINES, NAMES = [], []       # what is plotted, and the last legend


def stubs(E):
    """Plots are recorded."""
    m = types.ModuleType("pylab")
    for k in ("figure", "grid", "show", "xlabel", "ylabel", "title"):
        setattr(m, k, lambda *a, **k: None)
    m.plot = lambda *a, **k: LINES.append((a, k)) or [None]
    m.legend = lambda *a, **k: NAMES.extend([str(x) for x in (a or [k.get("labels", ())])[-1]])
    return {"pylab": m}


def com(E, M):
    m = M[5, 5]
    return E.array([M[2, 4], M[0, 5], M[1, 3]]) / m


def setup(E, masses, n, name="b%d"):
    """Bodies with arbitrary kinematics; eigenvectors of an inertia: any rotation."""
    core = E.mod(CORE)

    class StubBody(core.Body):
        pose = property(lambda s: E.array(s.S[0]))
        jacobian = property(lambda s: E.array(s.S[1]))
        djacobian = property(lambda s: E.array(s.S[2]))
        twist = property(lambda s: E.array(s.S[3]))
        nleffects = property(lambda s: E.arr((6, 6)))

        def update_dynamic(self, *a):
            pass
    class W(core.World):
        now = 0.
        current_time = property(lambda s: s.now)
    w = W()
    w.ground.update_dynamic = lambda *a: None
    w.up[:] = E.unit("up")
    bodies, last = [], w.ground
    for i, M in enumerate(masses):
        x = name % i if name and "%" in name else name
        b = StubBody(x, mass=M) if M is not None else StubBody(x)
        k = n if i == 0 else 0
        w.add_link(last, stub_joint(E, k, E.eye(4), E.arr(6), E.arr((6, k)), E.arr((6, k))), b)
        b.S = (E.pose("H%d" % i), E.mat("J%d" % i, 6, n), E.mat("dJ%d" % i, 6, n), E.vec("T%d" % i, 6))
        bodies.append(b)
        last = w.ground if i % 2 else b
    if E.symbolic:
        cnt = [0]

        def vectors(A, *a, **k):
            cnt[0] += 1
            return E.array([1., 1., 1.]), E.rot("V%d" % cnt[0])
        shim.HOOKS["eig"] = shim.HOOKS["eigh"] = vectors
    return w, bodies


def masses(E, which):
    """Body masses: an arbitrary one or a constant one, with massless bodies between."""
    if which == 0:
        E.patch("arboris.massmatrix", "ismassmatrix",
                lambda M, semi=False: bool(semi) or bool(M[5, 5] > 0))
        return [E.massmatrix("M")[0], None]
    if which == 2:
        return [const_mass(E, i % 4) if i % 3 != 1 else None for i in range(9)]
    return [const_mass(E, 0), None, const_mass(E, 1)]


def centre(E, which, jac):
    ob = E.mod(OBS)
    n = 2
    Ms = masses(E, which)
    w, bodies = setup(E, Ms, n)
    w.init()
    o = ob.CoMObserver(bodies) if jac else ob.CoMObserver(bodies, compute_Jacobians=False)
    o.init(w, [0., 1.])
    use = [(b, M) for b, M in zip(bodies, Ms) if M is not None]
    tot = sum(M[5, 5] for _, M in use)

    def pos(*Hs):
        return sum(M[5, 5] * (E.dot(H[0:3, 0:3], com(E, M)) + H[0:3, 3]) for H, (_, M) in zip(Hs, use)) / tot

    def jacobian(*HJ):
        k = len(use)
        r = E.arr((3, n))
        for H, J, (_, M) in zip(HJ[:k], HJ[k:], use):
            r = r + M[5, 5] / tot * E.dot(H[0:3, 0:3], J[3:6] - E.dot(E.hat(com(E, M)), J[0:3]))
        return r
    for rep in range(2):
        o.update(E.real("dt", 0.001, 1))
        S = [b.S for b, _ in use]
        E.equal("position", o.get_CoMPosition(), pos(*[s[0] for s in S]))
        if jac:
            E.equal("jacobian", o.get_CoMJacobian(), jacobian(*([s[0] for s in S] + [s[1] for s in S])))
            E.equal("jacobian derivative", o.get_CoMdJacobian(),
                    E.deriv(jacobian, [s[0] for s in S] + [s[1] for s in S],
                            [s[3] for s in S] + [s[2] for s in S]))
        first = o.get_CoMPosition()
        keep = E.array(first)
        for i, b in enumerate(bodies):           # the world moves on
            b.S = (E.pose("G%d" % i),) + b.S[1:]
        if rep == 0:
            o.update(E.real("dt2", 0.001, 1))
            E.equal("what was returned is not overwritten", first, keep)


obligation("P26", "com", "one body with any mass, centre of mass and inertia (and a massless one), any pose, "
           "twist, 2-column jacobian and derivative; two updates", stubs=stubs, budget=300)(
    lambda E: centre(E, 0, True))
obligation("P26", "com_several", "two generic constant masses with offset centres and a massless body, any "
           "poses, twists, jacobians", stubs=stubs, budget=300)(lambda E: centre(E, 1, True))
obligation("P26", "com_position_only", "as com_several without jacobians", stubs=stubs)(
    lambda E: centre(E, 1, False))


obligation("P26", "com_many", "six generic constant masses and three massless bodies, any poses, twists, jacobians", stubs=stubs,
           budget=300)(lambda E: centre(E, 2, True))


def drawn(E, o, want):
    """What is plotted is what was recorded, under its name."""
    del LINES[:], NAMES[:]
    o.plot()
    lines, names = list(LINES), list(NAMES)
    if len(lines) == 1:         # three curves at once
        lines = [(lines[0][0][k:k + 2], {}) for k in range(0, len(lines[0][0]), 2)]
    names = names or [k.get("label") for a, k in lines]
    E.true("three curves, each with a name", len(lines) == len(names) == 3 and len(set(names)) == 3)
    pick = {"kin": lambda w: w[1], "pot": lambda w: w[2], "mec": lambda w: w[1] + w[2]}
    for ((x, y), k), n in zip([(a[:2], k) for a, k in lines], names):
        E.equal("curve over time", E.array(list(x)), E.array([w[0] for w in want]))
        E.equal("curve of the %s energy" % n, E.array(list(y)), E.array([pick[n[:3].lower()](w) for w in want]))


def energy(E, which, name="b%d"):
    ob = E.mod(OBS)
    n = 2
    Ms = masses(E, which)
    w, bodies = setup(E, Ms, n, name)
    o = ob.EnergyMonitor()
    w.init()
    o.init(w, [0., 1., 2.])
    up = E.array(w.up)
    want = []
    for rep in range(2):
        v = E.vec("v%d" % rep, n)
        for i, b in enumerate(bodies):
            if rep:
                b.S = (E.pose("G_b%d" % i), E.mat("K_b%d" % i, 6, n)) + b.S[2:]
        bodies[0].parentjoint.gvel[:] = v
        w.now = E.real("t%d" % rep, -10, 10)
        w.update_dynamic()
        o.update(E.real("dt", 0.001, 1))
        ke = pe = 0
        for b, M in zip(bodies, Ms):
            if M is None:
                continue
            T = E.dot(b.S[1], v)
            ke = ke + E.dot(T, E.dot(M, T)) / 2
            h = E.dot(up, E.dot(b.S[0][0:3, 0:3], com(E, M)) + b.S[0][0:3, 3])
            pe = pe + M[5, 5] * 9.81 * h
        want.append((w.current_time, ke, pe))
        E.true("one record per step", len(o.time) == len(o.kinetic_energy) == len(o.potential_energy) ==
               len(o.mechanichal_energy) == rep + 1)
        for k in range(rep + 1):
            E.equal("time", o.time[k], want[k][0])
            E.equal("kinetic energy", o.kinetic_energy[k], want[k][1])
            E.equal("potential energy", o.potential_energy[k], want[k][2])
            E.equal("mechanical energy", o.mechanichal_energy[k], want[k][1] + want[k][2])
    drawn(E, o, want)
    o.init(w, [0., 1.])
    E.true("starts afresh", len(o.time) == len(o.kinetic_energy) == len(o.potential_energy) ==
           len(o.mechanichal_energy) == 0)


obligation("P26", "energy", "one body with any mass, centre of mass and inertia (and a massless one), any pose, "
           "any jacobian, velocity and up direction; two steps", stubs=stubs, budget=300)(
    lambda E: energy(E, 0))
obligation("P26", "energy_several", "two generic constant masses with offset centres and a massless body, any "
           "poses, jacobians, velocity, up; two steps", stubs=stubs, budget=300)(lambda E: energy(E, 1))


@obligation("P26", "energy_light", "a body of mass 2^-27 to 2^-20, any pose, jacobian, velocity, up; an energy and a centre-of-mass "
            "observer", stubs=stubs)
def energy_light(E):
    ob = E.mod(OBS)
    u = 2.0 ** -20
    m = E.real("m", 2.0 ** -7, 1)
    w, (b,) = setup(E, [E.eye(6) * m * u], 2)
    E.mod(CORE)
    o, c = ob.EnergyMonitor(), ob.CoMObserver([b], False)
    w.init()
    v = E.vec("v", 2)
    b.parentjoint.gvel[:] = v
    w.update_dynamic()
    for x in (o, c):
        x.init(w, [0., 1.])
        x.update(0.125)
    T = E.dot(b.S[1], v)
    E.equal("kinetic energy", o.kinetic_energy[0] / u, m * E.dot(T, T) / 2)
    E.equal("potential energy", o.potential_energy[0] / u, m * 9.81 * E.dot(w.up, b.S[0][0:3, 3]))
    E.equal("centre of mass", c.get_CoMPosition(), b.S[0][0:3, 3])


obligation("P26", "energy_many", "six generic constant masses and three massless bodies, any poses, jacobians, velocity, up; two "
           "steps", stubs=stubs, budget=300)(lambda E: energy(E, 2))


@obligation("P26", "energy_of_namesakes", "two generic constant masses of equal names, or without names, any poses, jacobians, "
            "velocity, up; two steps", stubs=stubs, budget=300)
def namesakes(E):
    core = E.mod(CORE)
    same = ("twin", None)[E.choice("name", 2)]
    energy(E, 1, same)


@obligation("P26", "com_observers", "two observers, of the same body or of others, in two worlds of the same size, asked in turn "
            "between updates; any poses, twists, jacobians", stubs=stubs, budget=300)
def com_observers(E):
    ob, core = E.mod(OBS), E.mod(CORE)
    n = 2
    w, bodies = setup(E, [const_mass(E, 0), const_mass(E, 1)], n)
    which = E.choice("of", 3)
    sets = [bodies[:1], [bodies[:1], bodies[1:], bodies][which]]
    w.init()
    obs = [ob.CoMObserver(s) for s in sets]
    for o in obs:
        o.init(w, [0., 1.])
    got = []
    for o, s in zip(obs, sets):
        o.update(0.5)
        got.append((o, s, [b.S for b in s]))
        for b in bodies[1:]:
            b.S = (b.S[0], E.mat("K%d" % len(got), 6, n), E.mat("dK%d" % len(got), 6, n), E.vec("U%d" % len(got), 6))
    for o, s, S in got:
        Ms = [b.mass for b in s]
        tot = sum(M[5, 5] for M in Ms)

        def pos(*Hs):
            return sum(M[5, 5] * (E.dot(H[0:3, 0:3], com(E, M)) + H[0:3, 3]) for H, M in zip(Hs, Ms)) / tot

        def jacobian(*HJ):
            k = len(Ms)
            r = E.arr((3, n))
            for H, J, M in zip(HJ[:k], HJ[k:], Ms):
                r = r + M[5, 5] / tot * E.dot(H[0:3, 0:3], J[3:6] - E.dot(E.hat(com(E, M)), J[0:3]))
            return r
        H, J = [x[0] for x in S], [x[1] for x in S]
        E.equal("its position", o.get_CoMPosition(), pos(*H))
        E.equal("its jacobian", o.get_CoMJacobian(), jacobian(*(H + J)))
        E.equal("its jacobian derivative", o.get_CoMdJacobian(),
                E.deriv(jacobian, H + J, [x[3] for x in S] + [x[2] for x in S]))
