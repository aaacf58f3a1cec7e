"""P25 The simulation loop."""
from engine.harness import obligation
from ._common import CORE


def schedule(E, steps, counts, unit=1):
    core = E.mod(CORE)
    ts = [E.real("t%d" % i, -10, 10) for i in range(steps + 1)]
    E.assume(E.AND(*[E.GE(ts[i + 1] - ts[i], 1e-3) for i in range(steps)]))
    ts = [t * unit for t in ts]
    log = []

    class Obs(core.Observer):
        def __init__(self, n):
            core.Observer.__init__(self)
            self.n = n

        def init(self, world, timeline):
            log.append(("obs init", self.n, world, timeline))

        def update(self, dt):
            log.append(("obs", self.n, dt))

        def finish(self):
            log.append(("finish", self.n))

    class W(core.World):
        def init(self):
            log.append(("init", self.current_time))
            core.World.init(self)

        def update_dynamic(self):
            log.append(("dynamic", self.current_time))
            core.World.update_dynamic(self)

        def update_controllers(self, dt):
            log.append(("controllers", dt))
            core.World.update_controllers(self, dt)

        def update_constraints(self, dt):
            log.append(("constraints", dt))
            core.World.update_constraints(self, dt)

        def integrate(self, dt):
            log.append(("integrate", dt))
            core.World.integrate(self, dt)
    w = W()
    n = counts[E.choice("observers", len(counts))]
    obs = [Obs(i) for i in range(n)]
    how = E.choice("container", 3)
    arg = [obs, tuple(obs), dict(("o%d" % i, o) for i, o in enumerate(obs))][how]
    # the world was run before, up to any time
    if E.choice("before", 2):
        t0 = E.real("t", -10, 10)
        core.simulate(w, [t0, t0 + 0.5])
        del log[:]
    line = E.array(ts) if E.choice("array", 2) else list(ts)
    if n == 0 and E.choice("none", 2):
        core.simulate(w, line)
    else:
        core.simulate(w, line, arg)
    ev = iter(log)

    def take(label, *what):
        e = next(ev, None)
        E.true(label, e is not None and e[0] == what[0] and len(e) > 0)
        return e
    e = take("initialization first", "init")
    E.equal("at the first instant", e[1] / unit, ts[0] / unit)
    for i in range(n):
        e = take("observers initialized once", "obs init")
        E.true("in order, with the world and the timeline", e[1] == i and e[2] is w and e[3] is line)
    for k in range(steps):
        dt = ts[k + 1] - ts[k]
        e = take("dynamics first", "dynamic")
        E.equal("time of the step", e[1] / unit, ts[k] / unit)
        e = take("then controllers", "controllers")
        E.equal("step of the controllers", e[1] / unit, dt / unit)
        e = take("then constraints", "constraints")
        E.equal("step of the constraints", e[1] / unit, dt / unit)
        for i in range(n):
            e = take("then observers", "obs")
            E.true("each once, in order", e[1] == i)
            E.equal("step of the observers", e[2] / unit, dt / unit)
        e = take("then integration", "integrate")
        E.equal("step of the integration", e[1] / unit, dt / unit)
    for i in range(n):
        e = take("observers finish once", "finish")
        E.true("in order", e[1] == i)
    E.true("nothing else", next(ev, None) is None)
    E.equal("ends at the last instant", w.current_time / unit, ts[steps] / unit)


obligation("P25", "schedule", "any timeline of 4 increasing instants, any start time; 0 to 2 observers in a list, tuple or "
           "dictionary", max_paths=2000)(lambda E: schedule(E, 3, [0, 1, 2]))
obligation("P25", "long_schedule", "any timeline of 12 increasing instants; 5 observers, in the same containers")(
    lambda E: schedule(E, 11, [5]))


obligation("P25", "fast_schedule", "any timeline of 4 increasing instants in units of 2^-20 s, any start time; 2 observers")(
    lambda E: schedule(E, 3, [2], 2.0 ** -20))


@obligation("P25", "degenerate", "a single instant: no step")
def degenerate(E):
    core = E.mod(CORE)
    seen = []

    class Obs(core.Observer):
        def init(self, world, timeline):
            seen.append("init")

        def update(self, dt):
            seen.append("update")

        def finish(self):
            seen.append("finish")
    w = core.World()
    t = E.real("t", -10, 10)
    core.simulate(w, [t], [Obs()])
    E.true("observers start and finish without a step", seen == ["init", "finish"])
    E.equal("time", w.current_time, t)


@obligation("P25", "start", "any current time and any first instant")
def start(E):
    import warnings
    core = E.mod(CORE)
    w = core.World()
    t0 = E.real("t", -10, 10)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        core.simulate(w, [t0, t0 + 0.5])
    E.equal("time after a run", w.current_time, t0 + 0.5)
    s = t0 + 0.5 if E.choice("continue", 2) else E.real("s", -10, 10)
    same = s == w.current_time
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        core.simulate(w, [s, s + 0.25, s + 0.5])
    E.true("a start at another time than the world's is warned about", bool(seen) != bool(same))
    E.equal("time after another run", w.current_time, s + 0.5)
