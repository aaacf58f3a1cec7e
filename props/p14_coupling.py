"""P14 Constraint forces enter the equations of motion consistently."""
from engine.harness import obligation
from ._common import CORE
from .p13_step import plant, controller


def constraint(E, name, J, f0, dfs, active=True):
    """A constraint with arbitrary jacobian, initial force and force increments."""
    C = E.mod(CORE).Constraint
    k = J.shape[0]

    class Stub(C):
        ndol = property(lambda s: k)
        jacobian = property(lambda s: J)

        def init(self, world):
            pass

        def update(self, dt):
            self.log.append(("update", dt))
            self._force = E.array(f0)

        def is_active(self):
            return self.active

        def solve(self, vel, admittance, dt):
            i = sum(1 for x in self.log if x[0] == "solve")
            df = dfs[i] if i < len(dfs) else E.arr(k)
            self.log.append(("solve", E.array(vel), E.array(admittance), dt))
            self.order.append(self)
            self.states.append([E.array(c._force) for c in self.all])
            self._force = self._force + df
            return E.array(df)
    c = Stub(name)
    c.active = active
    c.J, c.f0, c.log = J, f0, []
    return c


def tie(cs):
    order, states = [], []
    for c in cs:
        c.order, c.all, c.states = order, cs, states
    return order, states


def coupled(E, n, ks, sweeps):
    cs = []
    for i, k in enumerate(ks):
        cs.append(constraint(E, "c%d" % i, E.mat("J%d" % i, k, n), E.vec("f%d" % i, k),
                             [E.vec("df%d_%d" % (i, s), k) for s in range(sweeps)]))
    order, states = tie(cs)
    g = E.vec("g", n)
    w, js, v, M, B, N = plant(E, n, cs, [controller(E, g, E.arr((n, n)))])
    dt = E.real("dt", 0.001, 1)
    w.update_controllers(dt)
    Y = w.admittance
    tol = E.real("tol", 1e-6, 1)
    w.update_constraints(dt, maxiters=sweeps, tol=tol)
    E.true("at least one sweep", len(order) >= len(cs))
    seen = {}
    for c, st in zip(order, states):
        i = seen.get(c.name, 0)
        seen[c.name] = i + 1
        _, vel, adm, d = [x for x in c.log if x[0] == "solve"][i]
        G = E.dot(M, v) / dt + g
        for o, f in zip(cs, st):
            G = G + E.dot(o.J.T, f)
        E.equal("velocity seen is the one the current forces give", vel, E.dot(c.J, Y, G))
        E.equal("admittance seen", adm, E.dot(c.J, Y, c.J.T))
        E.equal("dt", d, dt)
    E.true("every sweep corrects every constraint", len(set(seen[c.name] for c in cs)) == 1)
    G = g
    for c in cs:
        E.true("updated once", sum(1 for x in c.log if x[0] == "update") == 1)
        G = G + E.dot(c.J.T, c._force)
    E.equal("total force", w.gforce, G)
    w.integrate(dt)
    E.equal("equation of motion with constraint forces", E.dot(M / dt + B + N, w.gvel),
            E.dot(M, v) / dt + G)


obligation("P14", "two_constraints_1dof", "1 dof, 2 one-dimensional constraints, up to 2 sweeps; any "
           "jacobians, initial forces and increments |x|<=1000; 0.001<=dt<=1", allow_divzero=True)(
    lambda E: coupled(E, 1, [1, 1], 2))
obligation("P14", "mixed_sizes", "1 dof, constraints of dimension 2 and 1, up to 2 sweeps", allow_divzero=True)(
    lambda E: coupled(E, 1, [2, 1], 2))
obligation("P14", "many", "1 dof, 7 constraints of dimensions 1 and 2, up to 2 sweeps", allow_divzero=True, budget=200)(
    lambda E: coupled(E, 1, [1, 2, 1, 1, 2, 1, 1], 2))
obligation("P14", "two_dof", "2 dof, 2 one-dimensional constraints, 1 sweep", allow_divzero=True, budget=200)(
    lambda E: coupled(E, 2, [1, 1], 1))
obligation("P14", "two_dof_two_sweeps", "2 dof, constraints of dimension 1 and 2, up to 2 sweeps",
           allow_divzero=True, budget=600, tier="thorough")(lambda E: coupled(E, 2, [1, 2], 2))


@obligation("P14", "selection", "3 constraints each enabled/disabled and active/inactive in any combination",
            allow_divzero=True, max_paths=2000)
def selection(E):
    n = 1
    cs = []
    on = []
    for i in range(3):
        act = E.choice("active%d" % i, 2) == 1
        c = constraint(E, "c%d" % i, E.mat("J%d" % i, 1, n), E.vec("f%d" % i, 1), [E.vec("d%d" % i, 1)], act)
        cs.append(c)
    tie(cs)
    g = E.vec("g", n)
    w, js, v, M, B, N = plant(E, n, cs, [controller(E, g, E.arr((n, n)))])
    for i, c in enumerate(cs):
        E.true("enabled by default", c.is_enabled())
        k = E.choice("enabled%d" % i, 3)
        if k != 1:
            if i == 0:                  # not for the first time
                c.disable()
                c.enable()
                E.true("enabled", c.is_enabled())
            c.disable()
            E.true("disabled", not c.is_enabled())
        if k == 2:
            c.enable()
            E.true("enabled", c.is_enabled())
        on.append(k != 0)
    dt = E.real("dt", 0.001, 1)
    w.update_controllers(dt)
    w.update_constraints(dt, maxiters=1)
    G = g
    for c, o in zip(cs, on):
        used = o and c.active
        E.true("updated iff enabled", sum(1 for x in c.log if x[0] == "update") == (1 if o else 0))
        E.true("solved iff enabled and active",
               (sum(1 for x in c.log if x[0] == "solve") > 0) == used)
        if used:
            G = G + E.dot(c.J.T, c._force)
    E.equal("total force", w.gforce, G)


@obligation("P14", "stopping", "1 dof, 1 constraint, up to 4 sweeps; any increments |x|<=1000, any tol in "
            "[1e-6, 1]; unit mass and step", allow_divzero=True)
def stopping(E):
    J = E.arr((1, 1))
    J[0, 0] = E.real("J", 0.5, 2)
    dfs = [E.vec("d%d" % i, 1) for i in range(4)]
    c = constraint(E, "c", J, E.arr(1), dfs)
    tie([c])
    w, js, v, M, B, N = plant(E, 1, [c], [])
    E.assume(E.AND(E.EQ(M[0, 0], 1), E.EQ(B[0, 0], 0), E.EQ(N[0, 0], 0)))
    w.update_controllers(1)
    tol = E.real("tol", 1e-6, 1)
    mx = 1 + E.choice("maxiters", 4)
    w.update_constraints(1, maxiters=mx, tol=tol)
    n = sum(1 for x in c.log if x[0] == "solve")
    E.true("never more than maxiters", n <= mx)
    E.true("at least one", n >= 1)
    y = J[0, 0] * w.admittance[0, 0] * J[0, 0]
    if n < mx:
        e = y * dfs[n - 1][0]
        E.true("stops only when settled", E.AND(E.LE(e, tol), E.LE(-e, tol)))
    for k in range(1, n - 1):
        e = y * dfs[k][0]
        E.true("stops as soon as settled", E.OR(E.GE(e, tol), E.GE(-e, tol)))


@obligation("P14", "stopping_plane", "2 dofs, 1 constraint of dimension 2, up to 4 sweeps; any increments |x|<=1000, any tol in "
            "[1e-6, 1]; unit mass and step", allow_divzero=True)
def stopping_plane(E):
    J = E.eye(2)
    dfs = [E.vec("d%d" % i, 2) for i in range(4)]
    c = constraint(E, "c", J, E.arr(2), dfs)
    tie([c])
    w, js, v, M, B, N = plant(E, 2, [c], [], unit=True)
    w.update_controllers(1)
    tol = E.real("tol", 1e-6, 1)
    mx = 1 + E.choice("maxiters", 4)
    w.update_constraints(1, maxiters=mx, tol=tol)
    n = sum(1 for x in c.log if x[0] == "solve")
    E.true("never more than maxiters", n <= mx)
    E.true("at least one", n >= 1)
    if n < mx:
        e = dfs[n - 1]
        for y in e:
            E.true("stops only when settled", E.AND(E.LE(y, tol), E.LE(-y, tol)))
    for k in range(1, n - 1):
        e = dfs[k]
        E.true("stops as soon as settled", E.GE(abs(e[0]) + abs(e[1]), tol))


@obligation("P14", "selection_changes", "2 constraints of dimensions 2 and 1, each enabled/disabled and active/inactive in "
            "any combination in each of two successive steps; 1 dof, one sweep each", allow_divzero=True, max_paths=2000)
def selection_changes(E):
    n = 1
    cs = [constraint(E, "c%d" % i, E.mat("J%d" % i, k, n), E.vec("f%d" % i, k), [E.vec("d%d" % i, k)])
          for i, k in enumerate((2, 1))]
    g = E.vec("g", n)
    w, js, v, M, B, N = plant(E, n, cs, [controller(E, g, E.arr((n, n)))])
    for s in range(2):
        order, states = tie(cs)
        dt = (0.5, 0.25)[s]
        used = []
        for i, c in enumerate(cs):
            c.log = []
            k = E.choice("state%d%d" % (s, i), 3)      # followed, inactive, disabled
            c.active = k != 1
            (c.disable if k == 2 else c.enable)()
            used += [c] if k == 0 else []
        w.update_controllers(dt)
        Y = w.admittance
        w.update_constraints(dt, maxiters=1)
        E.true("exactly the active ones are solved", [id(c) for c in order] == [id(c) for c in used])
        G = g
        for c in used:
            G = G + E.dot(c.J.T, c.f0)
        for c in used:
            _, vel, adm, d = [x for x in c.log if x[0] == "solve"][0]
            E.equal("velocity seen", vel, E.dot(c.J, Y, E.dot(M, v) / dt + G))
            E.equal("admittance seen", adm, E.dot(c.J, Y, c.J.T))
            G = G + E.dot(c.J.T, c._force - c.f0)
        E.equal("total force", w.gforce, G)


@obligation("P14", "many_sweeps", "1 dof, 1 constraint whose increments stay above the tolerance for up to 1200 sweeps, any tolerance in "
            "[1/64, 1/2]; at most 3, 60, 150, 1100 sweeps or the default asked for", allow_divzero=True)
def many_sweeps(E):
    J = E.eye(1)
    c = constraint(E, "c", J, E.arr(1), [E.array([(-1.) ** i]) for i in range(1200)])
    tie([c])
    w, js, v, M, B, N = plant(E, 1, [c], [], unit=True)
    w.update_controllers(1)
    tol = E.real("tol", 0.015625, 0.5)
    k = E.choice("maxiters", 5)
    mx = [3, 60, 150, 1100, None][k]
    if mx:
        w.update_constraints(1, maxiters=mx, tol=tol)
    else:
        w.update_constraints(1, tol=tol)
    n = sum(1 for x in c.log if x[0] == "solve")
    E.true("unsettled constraints are solved again until the limit", n == (mx or 1000))
