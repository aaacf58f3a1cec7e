"""P12 Proportional-derivative control."""
from engine.harness import obligation
from ._common import CORE, JOINTS


def build(E, kinds):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    last = w.ground
    js = []
    for i, k in enumerate(kinds):
        cls = getattr(jm, k)
        if k == "FixedJoint":
            j = cls()
        elif k == "FreeJoint":
            j = cls(gpos=E.eye(4), gvel=E.vec("v%d" % i, 6))
        else:
            n = cls().ndof
            j = cls(gpos=E.vec("q%d" % i, n), gvel=E.vec("v%d" % i, n))
        b = core.Body()
        w.add_link(last, j, b)
        js.append(j)
        last = b if i % 2 == 0 else w.ground
    w.init()
    return w, js


def law(E, kinds, pick):
    w, js = build(E, kinds)
    P = E.mod("arboris.controllers").ProportionalDerivativeController
    sel = [js[i] for i in pick]
    n = sum(j.ndof for j in sel)
    kp, kd = E.mat("kp", n, n), E.mat("kd", n, n)
    qd, vd = E.vec("qd", n), E.vec("vd", n)
    ctl = P(sel, kp, kd, qd, vd)
    w.register(ctl)
    w.init()
    dt = E.real("dt", 0.001, 1)
    idx, q = [], []
    for j in sel:
        idx += list(range(j.dof.start, j.dof.stop))
        q += list(j.gpos)
    q = E.array(q)
    vn = E.vec("vn", w.ndof)        # velocity at the end of the step
    for rep in range(2):
        gf, Z = ctl.update(dt)
        tau = gf + E.dot(Z, vn)
        x = vn[idx]
        ref = E.arr(w.ndof)
        t = E.dot(kp, qd - q - dt * x) + E.dot(kd, vd - x)
        for a, i in enumerate(idx):
            ref[i] = t[a]
        E.equal("force at the end of the step %d" % rep, tau, ref)


CASES = [(("RzJoint", "RzJoint"), (0, 1)), (("RzJoint", "RyJoint", "RxJoint"), (2, 0)),
         (("RzJoint", "RzRyJoint", "TxJoint"), (0, 1)), (("FreeJoint", "RzRyRxJoint", "RxJoint"), (2, 1)),
         (("RzRyJoint", "FixedJoint", "TxTyTzJoint"), (2,)),
         (("RzJoint", "FreeJoint", "RzRyJoint", "TxJoint", "FixedJoint", "RyJoint", "TxTyTzJoint", "RxJoint", "TzJoint", "RzJoint"),
          (7, 2, 0, 6, 9, 3, 8))]
for _k, _p in CASES:
    obligation("P12", "law_" + "_".join(x.replace("Joint", "") for x in _k) + "_" + "".join(map(str, _p)),
               "these joints, the numbered ones controlled; any positions, gains and targets |x|<=1000")(
        lambda E, _k=_k, _p=_p: law(E, _k, _p))


@obligation("P12", "reindexed", "joints whose dof numbers change between construction and init")
def reindexed(E):
    core, jm = E.mod(CORE), E.mod(JOINTS)
    w = core.World()
    j = jm.RzJoint(gpos=E.vec("q", 1))
    w.add_link(w.ground, j, core.Body())
    w.init()
    kp, kd, qd = E.real("kp", 0, 5), E.real("kd", 0, 5), E.vec("qd", 1)
    ctl = E.mod("arboris.controllers").ProportionalDerivativeController([j], kp, kd, qd)
    w.register(ctl)
    # a new first joint shifts every dof
    k = jm.RzRyJoint()
    w.add_link(w.ground, k, core.Body())
    w.ground.childrenjoints.reverse()
    w.init()
    gf, Z = ctl.update(0.5)
    ref = E.arr(3)
    ref[2] = kp * (qd[0] - j.gpos[0])
    E.equal("force goes to the joint's current dof", gf, ref)
    R = E.arr((3, 3))
    R[2, 2] = -(kp / 2 + kd)
    E.equal("impedance too", Z, R)


@obligation("P12", "defaults", "no gains or targets given; only linear joints accepted")
def defaults(E):
    w, js = build(E, ("RzJoint", "FreeJoint"))
    P = E.mod("arboris.controllers").ProportionalDerivativeController
    ctl = P([js[0]])
    w.register(ctl)
    w.init()
    gf, Z = ctl.update(0.1)
    E.equal("no force", gf, E.arr(7))
    E.equal("no impedance", Z, E.arr((7, 7)))
    E.raises("free joint refused", ValueError, lambda: P([js[1]]))
    E.raises("mixed refused", ValueError, lambda: P([js[0], js[1]]))


@obligation("P12", "two_controllers", "two controllers of joints of 1 to 3 dof in one world, with gains and targets given or not; any "
            "numbers; used in turn, twice")
def two(E):
    w, js = build(E, ("RzJoint", "TxTyTzJoint", "RxJoint"))
    P = E.mod("arboris.controllers").ProportionalDerivativeController
    picks = [(0, 1, 2)[E.choice("a", 3)], (0, 1, 2)[E.choice("b", 3)]]
    cs = []
    for i, p in enumerate(picks):
        n = js[p].ndof
        given = E.choice("given%d" % i, 4)
        v = [E.mat("kp%d" % i, n, n), E.mat("kd%d" % i, n, n), E.vec("qd%d" % i, n), E.vec("vd%d" % i, n)][:given + 1 if given else 0]
        cs.append((P([js[p]], *v), js[p], v + [E.arr((n, n))] * max(0, 2 - len(v)) + [E.arr(n)] * min(2, 4 - len(v)) if len(v) < 4 else v))
        w.register(cs[-1][0])
    w.init()
    vn = E.vec("vn", w.ndof)
    for rep in range(2):
        for c, j, (kp, kd, qd, vd) in cs:
            gf, Z = c.update(0.25)
            x = vn[list(range(j.dof.start, j.dof.stop))]
            ref = E.arr(w.ndof)
            t = E.dot(kp, qd - j.gpos - x / 4) + E.dot(kd, vd - x)
            for a, i in enumerate(range(j.dof.start, j.dof.stop)):
                ref[i] = t[a]
            E.equal("its own force %d" % rep, gf + E.dot(Z, vn), ref)


@obligation("P12", "own_numbers", "gains and targets given as arrays that are changed afterwards; any numbers")
def own_numbers(E):
    w, js = build(E, ("RzJoint", "TxTyTzJoint"))
    k = E.choice("which", 2)
    j = js[k]
    n = j.ndof
    a = [E.mat("kp", n, n), E.mat("kd", n, n), E.vec("qd", n), E.vec("vd", n)]
    kp, kd, qd, vd = [E.array(x) for x in a]
    c = E.mod("arboris.controllers").ProportionalDerivativeController([j], *a)
    w.register(c)
    w.init()
    for rep in range(2):
        for x in a:
            x[:] = 7
        gf, Z = c.update(0.25)
        f = E.arr(w.ndof)
        f[list(range(j.dof.start, j.dof.stop))] = E.dot(kp, qd - j.gpos) + E.dot(kd, vd)
        E.equal("the law of the numbers given", gf, f)
        S = E.arr((w.ndof, w.ndof))
        S[j.dof.start:j.dof.stop, j.dof.start:j.dof.stop] = -(kp / 4 + kd)
        E.equal("and its impedance", Z, S)
