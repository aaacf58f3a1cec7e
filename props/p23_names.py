"""P23 Access by name."""
from engine.harness import obligation
from ._common import CORE, JOINTS
from .p27_records import stubs


def items(E, n, plain=True):
    """Named, unnamed and (possibly) foreign objects; the names are arbitrary strings."""
    core = E.mod(CORE)
    out, names = [], []
    for i in range(n):
        kind = E.choice("kind%d" % i, 4 if plain else 3)
        if kind == 3:
            out.append("plain object %d" % i)
            names.append(None)
        else:
            s = [E.name("name%d" % i), None, ""][kind]
            out.append(core.NamedObject(s))
            names.append(s)
    return out, names


@obligation("P23", "lookup", "lists of 3 objects, named by any strings or the empty one, unnamed or foreign; any queried name",
            max_paths=2000)
def lookup(E):
    core = E.mod(CORE)
    objs, names = items(E, 3)
    l = core.NamedObjectsList(objs)
    E.true("keeps the elements", len(l) == 3 and all(x is y for x, y in zip(l, objs)))
    E.true("integer access", all(l[i] is objs[i] for i in range(3)) and l[-1] is objs[2]
           and list(l[0:2]) == objs[0:2])
    q = E.name("query")
    hits = [o for o, s in zip(objs, names) if s is not None and s == q]
    found = l.find(q)
    E.true("find returns all the objects of that name, in order",
           len(found) == len(hits) and all(x is y for x, y in zip(found, hits)))
    keep = list(found)
    found.append(None)              # the list is the caller's
    E.true("and again", [id(x) for x in l.find(q)] == [id(x) for x in keep])
    E.true("another list has its own", list(core.NamedObjectsList(objs[:0]).find(q)) == [])
    if hits:
        E.true("access by name gives the first object of that name", l[q] is hits[0])
    else:
        E.raises("no such name", KeyError, lambda: l[q])


@obligation("P23", "as_dict", "lists of 3 objects as above", max_paths=2000)
def as_dict(E):
    core = E.mod(CORE)
    objs, names = items(E, 3)
    l = core.NamedObjectsList(objs)
    named = [(s, o) for s, o in zip(names, objs) if s is not None]
    dup = any(bool(named[i][0] == named[j][0]) for i in range(len(named)) for j in range(i))
    if dup:
        E.raises("duplicate names", core.DuplicateNameError, l.as_dict)
        try:
            l.as_dict()
        except core.DuplicateNameError as e:
            E.true("the error has a message", len(str(e)) > 0)
        return
    d = l.as_dict()
    E.true("exactly the named objects", len(d) == len(named) and
           all(d[s] is o for s, o in named))
    e = core.NamedObjectsList(objs[1:]).as_dict()
    E.true("another list has its own", len(e) == len([o for o in objs[1:] if any(o is x for _, x in named)]))
    E.true("which changes nothing to the first", len(d) == len(named))


@obligation("P23", "naming", "lists of 0 to 3 objects, named by any strings or the empty one, or unnamed; with and without "
            "duplicate check; given as a list or a generator", max_paths=4000)
def naming(E):
    core = E.mod(CORE)
    objs, names = items(E, 3, False)
    n = E.choice("length", 4)
    objs, names = objs[:n], names[:n]
    check = bool(E.choice("check", 2))
    given = [s for s in names if s is not None]
    dup = any(bool(given[i] == given[j]) for i in range(len(given)) for j in range(i))
    # lists and generators alike (the world's iterators are generators)
    lazy = bool(E.choice("generator", 2))
    f = lambda: core.name_all_elements((o for o in objs) if lazy else core.NamedObjectsList(objs), check)
    if dup and check:
        E.raises("duplicate names", core.DuplicateNameError, f)
        try:
            f()
        except core.DuplicateNameError as e:
            E.true("the error has a message", len(str(e)) > 0)
    else:
        f()
    E.true("given names are kept", all(o.name is s for o, s in zip(objs, names) if s is not None))
    E.true("every object has a name", all(isinstance(o.name, str) and (o.name or s == "")
                                           for o, s in zip(objs, names)))
    auto = [o.name for o, s in zip(objs, names) if s is None]
    E.true("automatic names are distinct", len(auto) == len(set(auto)))


@obligation("P23", "many", "lists of 60 objects, named but for every third, one name given twice or not, one of the names any string")
def many(E):
    core = E.mod(CORE)
    twice = bool(E.choice("twice", 2))
    x = E.name("name")
    names = [None if i % 3 == 1 else "n%d" % i for i in range(60)]
    names[33] = x
    if twice:
        names[51] = "n12"
    objs = [core.NamedObject(s) for s in names]
    l = core.NamedObjectsList(objs)
    same = [i for i, s in enumerate(names) if s is not None and i != 33 and bool(x == s)]
    for q in ("n0", "n12", "n59", x):
        hit = [i for i, s in enumerate(names) if s is not None and bool(s == q)]
        E.true("first of this name", l[q] is objs[hit[0]])
        E.true("all of this name", [id(o) for o in l.find(q)] == [id(objs[i]) for i in hit])
    if twice or same:
        E.raises("duplicates", core.DuplicateNameError, l.as_dict)
        E.raises("duplicates when naming", core.DuplicateNameError, lambda: core.name_all_elements(l, True))
    else:
        E.true("all the named ones", len(l.as_dict()) == 40)
        core.name_all_elements(l, True)
    core.name_all_elements(l)
    E.true("given names are kept", all(o.name is s for o, s in zip(objs, names) if s is not None))
    auto = [o.name for o, s in zip(objs, names) if s is None]
    E.true("the others have names of their own", all(isinstance(n, str) for n in auto) and
           len(set(auto) | set(s for i, s in enumerate(names) if s is not None and i != 33)) == 59 - twice)


@obligation("P23", "world", "a world with every kind of object, each named or unnamed",
            max_paths=2000, budget=200)
def world(E):
    core, jm, sh, cn, ct = (E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes"),
                            E.mod("arboris.constraints"), E.mod("arboris.controllers"))

    def nm(x):
        return x if E.choice("has_" + x, 2) else None
    w = core.World()
    b, j = core.Body(nm("body")), jm.RzJoint(name=nm("joint"))
    w.add_link(w.ground, j, b)
    f = core.SubFrame(b, E.eye(4), nm("frame"))
    s = sh.Point(f, nm("shape"))
    c = cn.JointLimits(j, -1, 1, name=nm("limits"))
    k = ct.WeightController(name=nm("weight"))
    for x in (s, c, k):
        w.register(x)
    objs = [b, j, f, s, c, k]
    before = [x.name for x in objs]
    w.init()
    w.name_all_elements(True)
    E.true("every object has a name", all(isinstance(x.name, str) and x.name for x in objs))
    E.true("given names are kept", all(x.name == n for x, n in zip(objs, before) if n is not None))
    E.true("the ground keeps its name", w.ground.name == "ground")
    E.true("found by name", w.getbodies()[b.name] is b and w.getjoints()[j.name] is j and
           w.getframes()[f.name] is f and w.getshapes()[s.name] is s and
           w.getconstraints()[c.name] is c and w.getcontrollers()[k.name] is k)


@obligation("P23", "constructors", "every class of named objects, with any name and without", stubs=stubs)
def constructors(E):
    core, jm, sh, cn, ct = (E.mod(CORE), E.mod(JOINTS), E.mod("arboris.shapes"),
                            E.mod("arboris.constraints"), E.mod("arboris.controllers"))
    ob = E.mod("arboris.observers")
    n = E.name("name") if E.choice("named", 2) else None
    w = core.World(name=n)
    b, c = core.Body(name=n), core.Body()
    w.add_link(w.ground, jm.FreeJoint(), b)
    w.add_link(b, jm.RzJoint(), c)
    w.init()
    j = c.parentjoint
    p, q = sh.Plane(w.ground, name=n), sh.Sphere(b, name=n)
    things = [w, b, p, q, core.SubFrame(b, E.eye(4), n), core.SubFrame(b, name=n), core.MovingSubFrame(b, E.eye(4), n),
              sh.Point(b, n), sh.Box(b, name=n), sh.Cylinder(b, name=n),
              cn.JointLimits(j, -1., 1., name=n), cn.BallAndSocketConstraint((b, c), name=n),
              cn.SoftFingerContact((p, q), 0.5, name=n),
              ct.WeightController(name=n), ct.ProportionalDerivativeController([j], name=n)]
    things += [getattr(jm, k)(name=n) for k in (
        "FreeJoint", "FixedJoint", "RzJoint", "RyJoint", "RxJoint", "RzRyRxJoint", "RzRyJoint", "RzRxJoint",
        "RyRxJoint", "TxTyTzJoint", "TxJoint", "TyJoint", "TzJoint")]
    things += [ob.EnergyMonitor(name=n), ob.PerfMonitor(name=n), ob.PickleLogger("/dev/null", name=n),
               ob.CoMObserver([b], name=n), ob.RecordJointGpos(j, name=n), ob.RecordJointGvel(j, name=n),
               ob.RecordFramePose(b, name=n), ob.RecordFrameTwist(b, name=n),
               ob.RecordConstForce(things[10], name=n), ob.RecordDistance(p, q, name=n),
               ob.RecordCoMPosition([b], name=n)]
    for x in things:
        E.true("%s has the name it was given" % type(x).__name__, x.name is n)
