"""P20 Contact discovery: which pairs of shapes can collide and which solver handles them."""
from engine.harness import obligation
from ._common import CORE, JOINTS

CO, CN, SH = "arboris.collisions", "arboris.constraints", "arboris.shapes"
KINDS = ["Sphere", "Point", "Plane", "Box", "Cylinder"]
# pairs a solver exists for, whatever the order
PAIRS = [("Sphere", "Sphere"), ("Sphere", "Point"), ("Sphere", "Plane"), ("Sphere", "Box"),
         ("Point", "Plane"), ("Point", "Box")]


def supported(a, b):
    return (a, b) in PAIRS or (b, a) in PAIRS


@obligation("P20", "solver_choice", "every ordered pair of the 5 shape classes, with subclasses; solvers "
            "run on generic poses")
def choice(E):
    core, co, sh = E.mod(CORE), E.mod(CO), E.mod(SH)
    k = [KINDS[E.choice("a", 5)], KINDS[E.choice("b", 5)]]
    derived = E.choice("derived", 2)
    s = []
    for i in range(2):
        cls = getattr(sh, k[i])
        if derived:
            cls = type("My" + k[i], (cls,), {})
        b = core.Body("b%d" % i)
        H = E.eye(4)
        H[0:3, 3] = E.array([[0.5, -0.25, 1], [2, 3, -1]][i])
        b.update_geometric(H)
        s.append(cls(b))
    if not supported(*k):
        E.raises("no solver for this pair", NotImplementedError, lambda: co.choose_solver(*s))
        E.raises("nor in the other order", NotImplementedError, lambda: co.choose_solver(s[1], s[0]))
        return
    got, solver = co.choose_solver(s[0], s[1])
    swap, solver2 = co.choose_solver(s[1], s[0])
    E.true("the two shapes", len(got) == 2 and set(map(id, got)) == set(map(id, s)))
    E.true("same solver in both orders", solver is solver2)
    if k[0] == k[1]:
        E.true("identical classes keep the given order", got[0] is s[0] and swap[0] is s[1])
    else:
        E.true("same order of the shapes in both orders",
               got[0] is swap[0] and got[1] is swap[1])
    # the solver accepts the shapes in the order it is given them
    sd, H0, H1 = solver(tuple(got))
    E.true("finite distance", E.LE(sd, 100))
    g = [tuple(got), tuple(swap)][k[0] == k[1]]
    sd2, G0, G1 = solver2(g)
    E.equal("same distance", sd2, sd)


def build(E, n, kinds, nbodies, owners):
    core, jm, sh = E.mod(CORE), E.mod(JOINTS), E.mod(SH)
    w = core.World()
    bodies = [w.ground]
    for i in range(nbodies - 1):
        b = core.Body("b%d" % i)
        w.add_link(bodies[-1], jm.FreeJoint(), b)
        bodies.append(b)
    shapes = []
    for i in range(n):
        f = bodies[owners[i]]
        if i % 2:
            f = core.SubFrame(f, E.eye(4), "f%d" % i)
        x = getattr(sh, kinds[i])(f)
        w.register(x)
        shapes.append(x)
    return w, bodies, shapes


def discovery(E, n, classes, nbodies, custom, scene=None):
    cn = E.mod(CN)
    kinds, owners = scene or ([classes[E.choice("k%d" % i, len(classes))] for i in range(n)],
                              [E.choice("o%d" % i, nbodies) for i in range(n)])
    w, bodies, shapes = build(E, n, kinds, nbodies, owners)
    before = len(list(w.iterconstraints()))
    made = []

    class Mine(cn.SoftFingerContact):
        def __init__(self, pair, *a, **k):
            cn.SoftFingerContact.__init__(self, pair, *a, **k)
            made.append((pair, a, k))
    if custom:
        r = cn.get_all_contacts(w, Mine, friction_coeff=0.25, proximity=0.125)
        E.true("the class asked for", all(type(c) is Mine for c in r) and len(made) == len(r))
        E.true("arguments passed on", all(x[2] == {"friction_coeff": 0.25, "proximity": 0.125}
                                          and not x[1] for x in made))
        pairs = [x[0] for x in made]
    else:
        r = cn.get_all_contacts(w, friction_coeff=0.5)
        E.true("soft finger contacts by default", all(isinstance(c, cn.SoftFingerContact) for c in r))
        pairs = [c._shapes for c in r]
    want = set()
    for i in range(n):
        for j in range(i + 1, n):
            if owners[i] != owners[j] and supported(kinds[i], kinds[j]):
                want.add(frozenset((id(shapes[i]), id(shapes[j]))))
    have = [frozenset((id(p[0]), id(p[1]))) for p in pairs]
    E.true("every pair that can touch, once", len(have) == len(set(have)) and set(have) == want)
    E.true("nothing registered", len(list(w.iterconstraints())) == before)
    again = cn.get_all_contacts(w, friction_coeff=1.)
    E.true("looking again finds as many, and leaves the first list alone", len(again) == len(want) == len(r) and again is not r)


obligation("P20", "all_pairs", "2 shapes, each of any class, on any of 3 bodies or of their subframes",
           max_paths=4000)(lambda E: discovery(E, 2, KINDS, 3, True))
obligation("P20", "three_shapes", "3 shapes, each a sphere, plane or box, on either of 2 bodies",
           max_paths=4000)(lambda E: discovery(E, 3, ["Sphere", "Plane", "Box"], 2, False))
obligation("P20", "four_shapes", "4 shapes, each a point, sphere or plane, on any of 3 bodies",
           max_paths=9000, budget=600, tier="thorough")(
    lambda E: discovery(E, 4, ["Point", "Sphere", "Plane"], 3, True))


obligation("P20", "many_shapes", "14 shapes of every class on 6 bodies")(
    lambda E: discovery(E, 14, KINDS, 6, E.choice("custom", 2) == 1, (
        [KINDS[i * (1 + E.choice("kinds", 2)) % len(KINDS)] for i in range(14)], [i * i % 6 for i in range(14)])))


@obligation("P20", "wrong_arguments", "not a world, not a contact class, not shapes")
def wrong(E):
    core, cn, co = E.mod(CORE), E.mod(CN), E.mod(CO)
    w = core.World()
    E.raises("not a world", AssertionError, lambda: cn.get_all_contacts(None))
    E.raises("not a contact class", AssertionError,
             lambda: cn.get_all_contacts(w, cn.JointLimits))
    E.raises("not shapes", AssertionError, lambda: co.choose_solver(w.ground, w.ground))
    E.true("no shape, no contact", cn.get_all_contacts(w, friction_coeff=1) == [])
