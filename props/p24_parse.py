"""P24 Walking a world: every element once, in hierarchical order."""
from engine.harness import obligation
from ._common import CORE, JOINTS
from .p21_model import Tree, large


class Log(object):
    def __init__(self):
        self.calls = []

    def init_parse(self, *a):
        self.calls.append(("init",) + a)

    def add_link(self, *a):
        self.calls.append(("link",) + a)

    def register(self, *a):
        self.calls.append(("register",) + a)


def walk(E, n, extra, parents=None, name=False):
    core, cn, sh, ct = (E.mod(CORE), E.mod("arboris.constraints"), E.mod("arboris.shapes"),
                        E.mod("arboris.controllers"))
    t = Tree(E, n, [1], parents=parents)
    w = t.w
    subs = [f for f in t.f0 + t.f1 if f.body is not f]
    shapes = []
    for k in range(extra):
        b = t.bodies[k * 5 % (n + 1) if parents else E.choice("body%d" % k, n + 1)]
        kind = k // 2 % 4 if parents else E.choice("kind%d" % k, 4)
        if kind == 0:
            f = core.SubFrame(b, E.eye(4))
            w.register(f)
        elif kind == 1:
            f = core.MovingSubFrame(b, E.eye(4))
            w.register(f)
        elif kind == 2:                 # a shape brings its subframe
            f = core.SubFrame(b, E.eye(4))
        else:
            f = b
        if f is not b:
            subs.append(f)
        if kind != 0:
            s = [sh.Point(f), sh.Sphere(f)][k % 2]
            w.register(s)
            shapes.append(s)
    pair = [sh.Plane(w.ground), sh.Sphere(t.bodies[1])]
    cons = [cn.BallAndSocketConstraint((w.ground, t.bodies[1])),
            cn.SoftFingerContact(pair, 1)]
    ctrl = [ct.WeightController(), core.Controller()]
    for x in cons + ctrl:
        w.register(x)
    if name is not False:
        for x in t.bodies + t.joints + subs + shapes + pair + cons + ctrl:
            x.name = name
    off = E.choice("disabled", 3)
    if off:
        cons[off - 1].disable()
    # a contact brings its own frames
    E.true("the world knows these elements", all(any(o is x for x in w.itersubframes()) for o in subs) and
           all(any(o is x for x in w.itershapes()) for o in shapes))
    subs, shapes = list(w.itersubframes()), list(w.itershapes())
    log = Log()
    w.parse(log)
    calls = log.calls
    E.true("starts with the ground, the up direction and the time",
           calls[0][0] == "init" and calls[0][1] is w.ground and len(calls[0]) == 4)
    E.equal("up and time", E.array(list(calls[0][2]) + [calls[0][3]]),
            E.array(list(w.up) + [w.current_time]))
    E.true("one start", sum(c[0] == "init" for c in calls) == 1)
    reg = [(i, c[1]) for i, c in enumerate(calls) if c[0] == "register"]
    pos = {}
    for i, o in reg:
        pos.setdefault(id(o), []).append(i)
    links = [(i, c) for i, c in enumerate(calls) if c[0] == "link"]
    everything = t.bodies + subs + shapes + cons + ctrl
    E.true("every element registered exactly once",
           len(reg) == len(everything) and all(len(pos.get(id(o), [])) == 1 for o in everything))
    at = lambda o: pos[id(o)][0]
    E.true("every link exactly once", len(links) == n and
           all(sum(c[2] is j for _, c in links) == 1 for j in t.joints))
    for i, c in links:
        k = [x for x in range(n) if t.joints[x] is c[2]][0]
        E.true("with its two frames", c[1] is t.f0[k] and c[3] is t.f1[k])
        E.true("a link follows its parent body and frame", i > at(t.bodies[t.parent[k]]) and i > at(t.f0[k]))
        E.true("a body follows its link", at(t.bodies[k + 1]) > i)
    E.true("frames follow their body", all(at(f) > at(f.body) for f in subs))
    E.true("shapes follow their frame", all(at(s) > at(s.frame) for s in shapes))
    E.true("constraints then controllers come last, in order",
           [o for _, o in reg][-4:] == cons + ctrl and at(cons[0]) == len(calls) - 4)
    # depth first: what is below a body comes in one block
    for k in range(1, n + 1):
        below = [at(t.bodies[x]) for x in [k] + t.order(k)]
        E.true("depth first", all((min(below) <= at(t.bodies[x]) <= max(below)) == (x in [k] + t.order(k))
                                  for x in range(1, n + 1)))


obligation("P24", "walk", "any tree of 2 bodies, 2 more frames or shapes on any of them, a constraint disabled or not", max_paths=4000,
           budget=300)(lambda E: walk(E, 2, 2))
obligation("P24", "walk_3", "any tree of 3 bodies, 1 more frame or shape on any of them, a constraint disabled or not", max_paths=4000,
           budget=300)(lambda E: walk(E, 3, 1))
obligation("P24", "walk_large", "16 bodies in a chain, a star, a binary tree, a comb or two long branches, 20 frames and shapes, "
           "a constraint disabled or not", budget=200)(lambda E: walk(E, 16, 20, large(E)))
obligation("P24", "walk_same_names", "any tree of 2 bodies, 2 more frames or shapes on any of them; every element has the same name, "
           "an empty one or none", max_paths=8000, budget=300)(
    lambda E: walk(E, 2, 2, name=["x", "", None][E.choice("name", 3)]))
obligation("P24", "walk_4", "any tree of 4 bodies, 2 more frames or shapes", max_paths=20000, budget=600,
           tier="thorough")(lambda E: walk(E, 4, 2))
