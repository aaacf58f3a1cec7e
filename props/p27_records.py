"""P27 Recorders and loggers."""
import os
import types
import numpy as np
from engine.harness import obligation
from engine import shim
from ._common import CORE, JOINTS, stub_joint

OBS = "arboris.observers"
FILES = {}
DUMPS = []


class DataSet(object):
    def __init__(self, shape, dtype):
        self.shape = tuple(shape)
        self.data = None
        self.double = np.dtype(dtype or "f4").kind == "f" and np.dtype(dtype or "f4").itemsize >= 8

    def __setitem__(self, k, v):
        assert k in (slice(None), Ellipsis, ())
        v = np.asarray(v)
        self.data = np.broadcast_to(v, self.shape).copy()    # as h5py: TypeError/ValueError otherwise


class Group(object):
    def __init__(self):
        self.items = {}
        self.closed = False

    def require_group(self, name):
        assert name
        head, _, rest = name.strip("/").partition("/")
        if rest:
            return self.require_group(head).require_group(rest)
        name = head
        g = self.items.setdefault(name, Group())
        if not isinstance(g, Group):
            raise TypeError("not a group")
        return g

    def require_dataset(self, name, shape, dtype=None, **k):
        d = self.items.setdefault(name, DataSet(shape, dtype))
        if d.shape != tuple(shape):
            raise TypeError("shapes do not match")
        return d

    create_group = require_group

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if data is not None:
            data = np.asarray(data)
            dtype = dtype or ("f8" if data.dtype == object else data.dtype)
        d = self.items[name] = DataSet(shape if shape is not None else data.shape, dtype)
        if data is not None:
            d[:] = data
        return d

    def __getitem__(self, name):
        return self.items[name]

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def __contains__(self, name):
        return name in self.items

    def keys(self):
        return self.items.keys()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def flush(self):
        pass

    def close(self):
        self.closed = True


PLOTS = []


def stubs(E):
    """Plots are recorded; files are recorded, never written."""
    m = types.ModuleType("pylab")
    for k in ("show", "legend", "xlabel", "ylabel", "title", "figure", "grid"):
        setattr(m, k, lambda *a, **k: None)
    m.plot = lambda *a, **k: PLOTS.append(a)
    h = types.ModuleType("h5py")

    def opened(name, mode="r", *a, **k):
        if name not in FILES or mode == "w":
            FILES[name] = Group()
        return FILES[name]
    h.File = opened
    p = types.ModuleType("pickle")
    p.dump = lambda obj, f, protocol=None: DUMPS.append(obj)
    return {"pylab": m, "h5py": h, "pickle": p}


def plant(E, sub):
    """ground -RzRy- b0 -Free- b1, a moving frame; every state is an arbitrary number."""
    core, jm = E.mod(CORE), E.mod(JOINTS)
    nd = 8

    class W(core.World):
        now = 0.
        S = None
        current_time = property(lambda s: s.now)
        gvel = property(lambda s: s.S[0])
        gforce = property(lambda s: s.S[1])
        mass = property(lambda s: s.S[2])
        nleffects = property(lambda s: s.S[3])
        admittance = property(lambda s: s.S[4])
    w = W()
    a, b = core.Body("one"), core.Body("two")
    j1, j2 = jm.RzRyJoint(name="first"), jm.FreeJoint(name="second")
    fa = core.SubFrame(w.ground, E.pose("Ha"), "fa") if sub else w.ground
    fb = core.SubFrame(b, E.pose("Hb"), "fb") if sub else b
    w.add_link(fa, j1, a)
    w.add_link(a, j2, fb)
    mf = core.MovingSubFrame(a, E.pose("Hm"), "moving")
    w.register(mf)
    w.init()
    return w, (a, b), (j1, j2), (fa, fb), mf


def state(E, w, js, mf, r):
    """Moves the world to an arbitrary state, in place (as a simulation does)."""
    j1, j2 = js
    for k in range(2):
        j1.gpos[k] = E.angle("q%d_%d" % (r, k))
    j2.gpos[:] = E.pose("P%d" % r)
    j1.gvel[:] = E.vec("v%d" % r, 2)
    j2.gvel[:] = E.vec("u%d" % r, 6)
    mf.bpose = E.pose("M%d" % r)
    w.now = E.real("t%d" % r, -10, 10)
    S = [E.vec("gv%d" % r, 8), E.vec("gf%d" % r, 8)]
    for k in range(3):
        m = E.arr((8, 8))
        m[0:2, 0:2] = E.mat("m%d_%d" % (r, k), 2, 2)
        S.append(m)
    if w.S is None:
        w.S = S
    else:
        for x, y in zip(w.S, S):
            x[...] = y
    w.update_geometric()


def logger(E, kind, flat, sub, parts=(True, True, True)):
    ob = E.mod(OBS)
    FILES.clear()
    del DUMPS[:]
    w, bodies, js, fs, mf = plant(E, sub)
    kw = dict(save_transforms=parts[0], save_state=parts[1], save_model=parts[2], flat=flat)
    if kind == 0:
        o = ob.PickleLogger(os.devnull, **kw)
    else:
        o = ob.Hdf5Logger("scratch.h5", group="/some/place", **kw)
    nt = 3
    o.init(w, [0., 0.25, 0.5])
    want = {}

    def put(*path):
        want.setdefault(path[:-1], []).append(E.array(path[-1]))
    for r in range(nt - 1):
        state(E, w, js, mf, r)
        want.setdefault(("timeline",), []).append(w.now)
        if parts[1]:
            for j in js:
                put("gpositions", j.name, j.gpos)
                put("gvelocities", j.name, j.gvel)
        if parts[2]:
            for k, x in zip(("gvel", "gforce", "mass", "nleffects", "admittance"), w.S):
                put("model", k, x)
        if parts[0]:
            if flat:
                for b in (w.ground,) + bodies:
                    put("transforms", b.name, b.pose)
                put("transforms", "moving", E.dot(bodies[0].pose, mf.bpose))
            else:
                put("transforms", "one", js[0].pose)
                put("transforms", fs[1].name, js[1].pose)
                put("transforms", "moving", mf.bpose)
        o.update(E.real("dt", 0.001, 1))
    o.finish()
    got = {}
    if kind == 0:
        E.true("one dump", len(DUMPS) == 1)
        for k, v in DUMPS[0].items():
            if isinstance(v, dict):
                for x, y in v.items():
                    got[(k, x)] = y
            else:
                got[(k,)] = v
        E.true("kept in double precision", all(np.asarray(v).dtype.itemsize >= 8 for v in got.values()))
    else:
        root = FILES["scratch.h5"]
        E.true("file closed", root.closed)
        g = root.items["some"].items["place"]
        for k, v in g.items.items():
            if isinstance(v, Group):
                for x, y in v.items.items():
                    E.true("stored in double precision", y.double)
                    got[(k, x)] = y.data
            else:
                E.true("stored in double precision", v.double)
                got[(k,)] = v.data
    E.true("exactly the data asked for", set(got) == set(want))
    for k in sorted(want):
        n = len(want[k])
        E.true("one entry per step", np.shape(got[k]) == (n,) + np.shape(want[k][0]))
        for i in range(n):
            E.equal("step %d of %s" % (i, "/".join(k)), got[k][i], want[k][i])


OVER = "two steps between arbitrary states (positions, velocities, model matrices, moving frame)"
obligation("P27", "pickle_tree", OVER + "; one transform per joint; joint frames offset", stubs=stubs)(
    lambda E: logger(E, 0, False, True))
obligation("P27", "pickle_flat", OVER + "; one transform per body", stubs=stubs)(
    lambda E: logger(E, 0, True, True))
obligation("P27", "hdf5_tree", OVER + "; one transform per joint", stubs=stubs)(
    lambda E: logger(E, 1, False, False))
obligation("P27", "hdf5_flat", OVER + "; one transform per body", stubs=stubs)(
    lambda E: logger(E, 1, True, False))


@obligation("P27", "many_things", "11 bodies in a chain, a star or two branches, joints of 0 to 3 dof, moving frames, over 7 steps between "
            "arbitrary positions of some of the joints; both loggers, tree and flat", stubs=stubs, budget=200)
def many_things(E):
    core, jm, ob = E.mod(CORE), E.mod(JOINTS), E.mod(OBS)
    FILES.clear()
    del DUMPS[:]
    parents = [list(range(11)), [0] * 11, [0 if i < 2 else i - 1 for i in range(11)]][E.choice("tree", 3)]
    flat, kind = bool(E.choice("flat", 2)), E.choice("kind", 2)
    w = core.World()
    bodies, js, mfs = [w.ground], [], []
    for i, p in enumerate(parents):
        j = getattr(jm, ["TxJoint", "TxTyTzJoint", "FixedJoint", "TzJoint"][i % 4])(name="j%d" % i)
        b = core.Body("b%d" % i)
        w.add_link(bodies[p], j, b)
        bodies.append(b)
        js.append(j)
        if i % 2:
            m = core.MovingSubFrame(b, E.eye(4), "m%d" % i)
            w.register(m)
            mfs.append(m)
    w.init()
    o = ob.PickleLogger(os.devnull, save_state=True, flat=flat) if kind else ob.Hdf5Logger("scratch.h5", save_state=True, flat=flat)
    o.init(w, [k / 4. for k in range(8)])
    want = {}
    for r in range(7):
        for i, j in enumerate(js):
            for k in range(j.ndof):
                j.gpos[k] = E.real("q%d_%d" % (r, i)) if (i + r) % 3 == k == 0 else (i + r + k) / 8.
                j.gvel[k] = E.real("v%d_%d" % (r, i)) if (i + r) % 3 == k == 1 else (i - r + k) / 8.
        for i, m in enumerate(mfs):
            H = E.eye(4)
            H[0, 3] = E.real("x%d_%d" % (r, i)) if i == r % 3 else i + r
            m.bpose = H
        w.update_geometric()
        for i, j in enumerate(js):
            want.setdefault(("gpositions", "j%d" % i), []).append(E.array(j.gpos))
            want.setdefault(("gvelocities", "j%d" % i), []).append(E.array(j.gvel))
            if not flat:
                want.setdefault(("transforms", "b%d" % i), []).append(E.array(j.pose))
        if flat:
            for b in bodies:
                want.setdefault(("transforms", b.name), []).append(E.array(b.pose))
        for m in mfs:
            want.setdefault(("transforms", m.name), []).append(E.array(m.pose if flat else m.bpose))
        o.update(0.25)
    o.finish()
    got = {}
    for k, v in (DUMPS[0].items() if kind else FILES["scratch.h5"].items.items()):
        for x, y in (v.items() if kind and isinstance(v, dict) else v.items.items() if isinstance(v, Group) else ()):
            got[(k, x)] = y if kind else y.data
    E.true("everything is there", set(got) == set(want))
    for k in sorted(want):
        E.true("one entry per step", np.shape(got[k]) == (7,) + np.shape(want[k][0]))
        for r in range(7):
            E.equal("step %d of %s" % (r, "/".join(k)), got[k][r], want[k][r])


@obligation("P27", "log_parts", "any subset of transforms, state and model, both loggers", stubs=stubs)
def parts(E):
    sel = tuple(bool(E.choice("part%d" % i, 2)) for i in range(3))
    logger(E, E.choice("kind", 2), False, False, sel)


@obligation("P27", "recorders", "every recorder, over two arbitrary states; the world moves on afterwards",
            stubs=stubs)
def recorders(E):
    ob, core, cn, sh = E.mod(OBS), E.mod(CORE), E.mod("arboris.constraints"), E.mod("arboris.shapes")
    w, bodies, js, fs, mf = plant(E, True)
    sub = core.SubFrame(bodies[0], E.pose("Hs"), "sub")
    w.register(sub)
    c = cn.BallAndSocketConstraint((w.ground, bodies[0]))
    p0, p1 = sh.Plane(w.ground, (0., 1., 0., 0.5)), sh.Point(mf)
    recs = [ob.RecordJointGpos(js[0]), ob.RecordJointGpos(js[1]), ob.RecordJointGvel(js[0]),
            ob.RecordJointGvel(js[1]), ob.RecordFramePose(bodies[0]), ob.RecordFramePose(sub),
            ob.RecordFramePose(mf), ob.RecordFramePose(w.ground), ob.RecordConstForce(c),
            ob.RecordDistance(p0, p1)]
    for rnd in range(2):            # a recorder used for a second simulation starts afresh
        want = [[] for r in recs]
        n = 2 - rnd
        for r in recs:
            r.init(w, [0.25 * k for k in range(n + 1)])
        for k in range(n):
            state(E, w, js, mf, 2 * rnd + k)
            c._force = E.vec("f%d%d" % (rnd, k), 3) if k == 0 else c._force
            if k:
                c._force[:] = E.vec("g", 3)
            Ha = E.array(bodies[0].pose)
            Hm = E.dot(Ha, mf.bpose)
            for i, x in enumerate([js[0].gpos, js[1].gpos, js[0].gvel, js[1].gvel, Ha,
                                   E.dot(Ha, sub.bpose), Hm, E.eye(4), c._force,
                                   Hm[1, 3] - 0.5]):
                want[i].append(E.array(x))
            for r in recs:
                r.update(E.real("dt", 0.001, 1))
        state(E, w, js, mf, 9)
        for i, r in enumerate(recs):
            r.finish()
            got = r.get_record()
            E.true("one entry per step", len(got) == n)
            for k in range(n):
                E.equal("entry %d of %s %d" % (k, type(r).__name__, i), E.array(got[k]), want[i][k])


@obligation("P27", "twist_recorder", "two arbitrary twists", stubs=stubs)
def twist(E):
    ob, core = E.mod(OBS), E.mod(CORE)
    w = core.World()
    b = core.Body("b")
    j = stub_joint(E, 1, E.pose("H"), E.vec("T0", 6), E.mat("J", 6, 1), E.arr((6, 1)))
    w.add_link(w.ground, j, b)
    w.init()
    r = ob.RecordFrameTwist(b)
    r.init(w, [0, 1, 2])
    T = [E.vec("T%d" % k, 6) for k in range(2)]
    for k in range(2):
        j.T = T[k]
        w.update_dynamic()
        r.update(E.real("dt", 0.001, 1))
    j.T = E.vec("T2", 6)
    w.update_dynamic()
    r.finish()
    for k in range(2):
        E.equal("entry %d" % k, r.get_record()[k], T[k])


@obligation("P27", "socket", "0 to 2 busy ports before a free one; the viewer connects, does not, or leaves",
            stubs=lambda E: dict(stubs(E), socket=fake_socket(E)))
def sock(E):
    ob = E.mod(OBS)
    busy, come = E.choice("busy", 3), E.choice("viewer", 3)
    NET.update(busy=busy, come=come, log=[], open=True, bound=None)
    o = ob.SocketCom(port=5000)
    E.true("first free port", NET["bound"] == ("127.0.0.1", 5000 + busy) and
           (o.host, o.port) == ("127.0.0.1", 5000 + busy))
    o.init(E.mod(CORE).World(), [0., 1.])
    o.finish()
    sent = [x for k, x in NET["log"] if k == "send"]
    if come == 0:
        E.true("no viewer, nothing sent", sent == [])
    elif come == 1:
        E.true("the viewer is told", sent == [b"close_connection"])
    if come < 2:
        E.true("socket closed", not NET["open"])


NET = {}


def fake_socket(E):
    m = types.ModuleType("socket")
    import socket as real
    m.error, m.AF_INET, m.SOCK_STREAM, m.SOL_SOCKET, m.SO_REUSEADDR, m.timeout = (
        real.error, 2, 1, 1, 2, real.timeout)

    class Conn(object):
        def send(self, x):
            if not isinstance(x, (bytes, bytearray, memoryview)):
                raise TypeError("a bytes-like object is required, not %r" % type(x).__name__)
            if NET["come"] == 2:
                raise real.error("broken pipe")
            NET["log"].append(("send", bytes(x)))
            return len(x)
        sendall = send

        def close(self):
            pass

    class Sock(object):
        def __init__(self, *a, **k):
            self.tries = 0

        def setsockopt(self, *a):
            pass

        def settimeout(self, t):
            pass

        def bind(self, addr):
            self.tries += 1
            if self.tries <= NET["busy"]:
                raise real.error("address in use")
            NET["bound"] = addr

        def listen(self, n=1):
            NET["log"].append(("listen", n))

        def accept(self):
            if not any(k == "listen" for k, _ in NET["log"]):
                raise real.error("Invalid argument")
            if NET["come"] == 0:
                raise real.timeout("timed out")
            return Conn(), ("127.0.0.1", 1)

        def close(self):
            NET["open"] = False

        def shutdown(self, *a):
            pass
    m.socket = Sock
    return m


class _Clock(object):
    now = 0.


def clock_stubs(E):
    m = types.ModuleType("time")
    m.time = m.perf_counter = m.monotonic = m.process_time = lambda: _Clock.now
    return dict(stubs(E), time=m)


@obligation("P27", "performance", "three steps ending at any clock readings", stubs=clock_stubs)
def performance(E):
    ob = E.mod(OBS)
    w, bodies, js, fs, mf = plant(E, False)
    o = ob.PerfMonitor(log=bool(E.choice("log", 2)))
    o._logger = None if o._logger is None else types.SimpleNamespace(info=lambda *a: None)
    t = [E.real("t0", 0, 10)]
    _Clock.now = t[0]
    o.init(w, [0., 1., 2., 3.])
    for k in range(3):
        t.append(t[-1] + E.real("d%d" % k, 0.0078125, 100))
        _Clock.now = t[-1]
        o.update(1.)
        _Clock.now = t[-1]
        d = [b - a for a, b in zip(t, t[1:])]
        got = [l.split(": ")[1] for l in o.get_summary().splitlines()]
        for what, x, y in zip(("total", "smallest", "mean", "largest"), got, (sum(d), least(d), sum(d) / len(d), -least([-x for x in d]))):
            E.equal("summary: %s" % what, shim._float(x) if E.symbolic else float(x), y)
    o.finish()
    del PLOTS[:]
    o.plot()
    E.true("one curve", len(PLOTS) == 1)
    E.equal("time spent in each step", E.array(list(PLOTS[0][-1])), E.array([b - a for a, b in zip(t, t[1:])]))
    if len(PLOTS[0]) > 1:
        E.true("against the step", len(PLOTS[0]) == 2 and [int(x) for x in PLOTS[0][0]] in ([0, 1, 2], [1, 2, 3]))


def least(xs):
    m = xs[0]
    for x in xs[1:]:
        if x < m:
            m = x
    return m


@obligation("P27", "com_recorder", "two arbitrary states; the world moves on afterwards", stubs=stubs)
def com_recorder(E):
    ob, core = E.mod(OBS), E.mod(CORE)
    w, bodies, js, fs, mf = plant(E, True)
    from ._common import const_mass
    ms = []
    for k, b in enumerate(bodies):
        b.mass = const_mass(E, k)
        M = b.mass
        ms.append((M[5, 5], E.array([M[2, 4] / M[5, 5], M[0, 5] / M[5, 5], M[1, 3] / M[5, 5], 1])))
    if E.symbolic:
        from engine import shim
        cnt = [0]

        def vectors(A, *a, **k):
            cnt[0] += 1
            return E.array([1., 1., 1.]), E.rot("V%d" % cnt[0])
        shim.HOOKS["eig"] = shim.HOOKS["eigh"] = vectors
    r = ob.RecordCoMPosition(list(bodies))
    r.init(w, [0., 0.25, 0.5])
    want = []
    for k in range(2):
        state(E, w, js, mf, k)
        r.update(0.25)
        x = sum(m * E.dot(b.pose, c)[0:3] for b, (m, c) in zip(bodies, ms))
        want.append(x / sum(m for m, _ in ms))
    state(E, w, js, mf, 9)
    r.finish()
    got = r.get_record()
    E.true("one entry per step", len(got) == 2)
    for k in range(2):
        E.equal("entry %d" % k, got[k], want[k])


@obligation("P27", "log_defaults", "both loggers without options; joints and bodies with and without names", stubs=stubs)
def log_defaults(E):
    ob, core, jm = E.mod(OBS), E.mod(CORE), E.mod(JOINTS)
    FILES.clear()
    del DUMPS[:]
    w = core.World()
    # names that are not given are made up; the data are complete all the same
    from ._common import const_mass
    a, b = (core.Body("one" if E.choice("named body", 2) else None, mass=const_mass(E, 0)),
            core.Body("two", mass=const_mass(E, 1)))
    j1, j2 = jm.RzRyJoint(name="first" if E.choice("named joint", 2) else None), jm.RzJoint()
    w.add_link(w.ground, j1, a)
    w.add_link(a, j2, b)
    mf = core.MovingSubFrame(a, E.pose("Hm"))
    w.register(mf)
    w.init()
    kind, opt = E.choice("kind", 2), E.choice("options", 4)
    kw = [{}, dict(flat=True), dict(save_state=True), dict(save_model=True)][opt]
    o = ob.PickleLogger(os.devnull, **kw) if kind == 0 else ob.Hdf5Logger("scratch.h5", **kw)
    o.init(w, [0., 0.25])
    if opt < 3:
        j1.gpos[0] = E.angle("q")
    w.update_dynamic()
    if opt == 3:
        w.update_controllers(0.25)
        w.update_constraints(0.25)
    o.update(0.25)
    Ha, P1, P2 = E.array(a.pose), E.array(j1.pose), E.array(j2.pose)
    o.finish()
    if kind == 0:
        got = DUMPS[0]
    else:
        root = FILES["scratch.h5"]
        got = {k: v.data if isinstance(v, DataSet) else {x: y.data for x, y in v.items.items()}
               for k, v in root.items.items()}
    want = {"timeline", "transforms"}
    if opt == 2:
        want |= {"gpositions", "gvelocities"}
    if opt == 3:
        want |= {"model"}
    E.true("only what was asked for", set(got) == want)
    T = got["transforms"]
    E.true("every name is a string", all(isinstance(k, str) and k for k in T))
    E.true("one transform each", len(T) == (4 if opt == 1 else 3))
    E.equal("transform of the first body", T[a.name][0], Ha if opt == 1 else P1)
    E.equal("transform of the second body", T["two"][0], E.dot(Ha, P2) if opt == 1 else P2)
    E.equal("transform of the moving frame", T[mf.name][0], E.dot(Ha, mf.bpose) if opt == 1 else mf.bpose)
    if opt == 2:
        E.true("one entry per joint", len(got["gpositions"]) == 2 and len(got["gvelocities"]) == 2)
        E.equal("joint position", got["gpositions"][j1.name][0], j1.gpos)


@obligation("P27", "same_names", "two bodies, joints or moving frames of one name; both loggers, tree and flat", stubs=stubs)
def same_names(E):
    ob, core, jm = E.mod(OBS), E.mod(CORE), E.mod(JOINTS)
    FILES.clear()
    w = core.World()
    what, flat = E.choice("what", 3), bool(E.choice("flat", 2))
    n = E.name("name")
    a, b = (core.Body(n), core.Body(n)) if what == 0 else (core.Body("one"), core.Body("two"))
    j1, j2 = (jm.RzJoint(name=n), jm.RzJoint(name=n)) if what == 1 else (jm.RzJoint(), jm.RzJoint())
    w.add_link(w.ground, j1, a)
    w.add_link(a, j2, b)
    for k in range(2):
        w.register(core.MovingSubFrame(a, E.eye(4), n if what == 2 else "frame%d" % k))
    w.init()
    kw = dict(save_state=True, flat=flat)
    o = ob.PickleLogger(os.devnull, **kw) if E.choice("kind", 2) else ob.Hdf5Logger("scratch.h5", **kw)
    E.raises("refused rather than lost", core.DuplicateNameError, lambda: o.init(w, [0., 0.25]))


@obligation("P27", "side_by_side", "two loggers and every recorder, on two worlds of the same names in turn, over two arbitrary "
            "states each; tree and flat", stubs=stubs)
def side(E):
    ob, core = E.mod(OBS), E.mod(CORE)
    flat = bool(E.choice("flat", 2))
    P = [plant(E, False), plant(E, False)]
    sets = []
    for w, bodies, js, fs, mf in P:
        lg = ob.PickleLogger(os.devnull, save_transforms=True, save_state=True, save_model=True, flat=flat)
        o = [lg, ob.RecordJointGpos(js[0]), ob.RecordJointGvel(js[1]), ob.RecordFramePose(bodies[1])]
        sets.append(o)
    for o, p in zip(sets, P):
        for x in o:
            x.init(p[0], [0., 0.25, 0.5])
    want = [[], []]
    for r in range(2):
        for i in range(2):
            w, bodies, js, fs, mf = P[i]
            state(E, w, js, mf, 2 * r + i)
            want[i].append([E.array(js[0].gpos), E.array(js[1].gvel), E.array(bodies[1].pose)] + [w.now] + [E.array(x) for x in w.S])
            for x in sets[i]:
                x.update(0.25)
    for i in range(2):
        for n in range(3):
            got = sets[i][1 + n].get_record()
            E.true("one entry per step", len(got) == 2)
            for r in range(2):
                E.equal("recorder %d of world %d" % (n, i), got[r], want[i][r][n])
        del DUMPS[:]
        sets[i][0].finish()
        E.true("one dump", len(DUMPS) == 1)
        d = DUMPS[0]
        for r in range(2):
            E.equal("time", d["timeline"][r], want[i][r][3])
            E.equal("position", d["gpositions"]["first"][r], want[i][r][0])
            E.equal("velocity", d["gvelocities"]["second"][r], want[i][r][1])
            for k, x in zip(("gvel", "gforce", "mass", "nleffects", "admittance"), want[i][r][4:]):
                E.equal(k, d["model"][k][r], x)
            if flat:
                E.equal("pose", d["transforms"]["two"][r], want[i][r][2])
