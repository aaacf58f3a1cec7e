"""P29 Colours."""
from engine.harness import obligation
from .p28_drawer import WD, stubs


@obligation("P29", "hsv", "any hue in [0,360], saturation and value in [0,1]", max_paths=500, stubs=stubs)
def hsv(E):
    wd = E.mod(WD)
    h, s, v = E.real("h", 0, 360), E.real("s", 0, 1), E.real("v", 0, 1)
    rgb = wd.hsv_to_rgb((h, s, v))
    E.true("three values", len(rgb) == 3)
    # chroma form of the standard definition
    for k, x in zip((5, 3, 1), rgb):
        u = h / 60 + k
        for lap in (0, 6):
            y = u - lap
            f = E.implies
            lo = E.AND(E.GE(y, 0), E.LE(y, 6))
            E.true("component: zero part", f(E.AND(lo, E.LE(y, 0)), E.EQ(x, v)))
            E.true("component: rising", f(E.AND(lo, E.GE(y, 0), E.LE(y, 1)), E.EQ(x, v - v * s * y)))
            E.true("component: plateau", f(E.AND(E.GE(y, 1), E.LE(y, 3)), E.EQ(x, v - v * s)))
            E.true("component: falling", f(E.AND(E.GE(y, 3), E.LE(y, 4)), E.EQ(x, v - v * s * (4 - y))))
            E.true("component: full", f(E.AND(E.GE(y, 4), E.LE(y, 6)), E.EQ(x, v)))
        E.true("in range", E.AND(E.GE(x, 0), E.LE(x, 1)))


@obligation("P29", "generator", "palettes of 1 to 4 colours; any request order over two bodies, a frame and a "
            "shape; colours set by object or by name, or not", max_paths=4000, stubs=stubs, budget=200)
def generator(E):
    core, sh, wd = E.mod("arboris.core"), E.mod("arboris.shapes"), E.mod(WD)
    a, b = core.Body("a"), core.Body("b")
    f = core.SubFrame(a, E.eye(4), "f")
    s = sh.Sphere(f, 1., "s")
    objs = [a, b, f, s]
    n = 1 + E.choice("colours", 4)
    given = (0.5, 0.25, 1.)
    who = E.choice("set", 5)                # 4: nobody
    by_name = who < 4 and bool(E.choice("by_name", 2))
    key = None if who == 4 else objs[who].name if by_name else objs[who]
    if who == 4:
        g = wd.ColorGenerator(nb_colors=n)
    elif E.choice("at_creation", 2):
        g = wd.ColorGenerator({key: given}, nb_colors=n)
    else:
        g = wd.ColorGenerator(nb_colors=n)
        g.set_color(key, given)
    order = [E.choice("r%d" % i, 4) for i in range(2)]
    first = {}
    for i in order:
        c = tuple(g.get_color(objs[i]))
        E.true("a colour", len(c) == 3 and all(0 <= x <= 1 for x in c))
        E.true("the same every time", first.setdefault(i, c) == c)
    col = [tuple(g.get_color(o)) for o in objs]
    E.true("the same every time", all(col[i] == c for i, c in first.items()))
    if who < 4:
        E.true("the colour that was set", col[who] == given)
    # a frame or shape without its own colour has the one of its body
    for i in (2, 3):
        if i != who:
            E.true("the colour of its body", col[i] == col[0])
    if n >= 2:
        E.true("bodies have different colours", col[0] != col[1])
    E.raises("not a colour", AssertionError, lambda: g.set_color(a, (0.5, 2., 0.)))
    E.raises("not a colour, three components", AssertionError, lambda: g.set_color(a, (0.5, 0.)))


@obligation("P29", "palette", "palettes of 1 to 24 colours", stubs=stubs, max_paths=100)
def palette(E):
    core, wd = E.mod("arboris.core"), E.mod(WD)
    n = 1 + E.choice("n", 24)
    g = wd.ColorGenerator(nb_colors=n)
    cols = [g.get_color(core.Body("b%d" % i)) for i in range(n + 2)]
    E.true("distinct colours", len(set(cols[:n])) == n)
    E.true("white once exhausted", all(tuple(c) == (1., 1., 1.) for c in cols[n:]))


@obligation("P29", "many_requests", "palettes of 2, 9 or 30 colours, 12 bodies with a frame and a shape each, asked in several orders; colours "
            "given to some, by object or name", stubs=stubs, max_paths=100)
def many_requests(E):
    core, sh, wd = E.mod("arboris.core"), E.mod("arboris.shapes"), E.mod(WD)
    n = [9, 30, 2][E.choice("n", 3)]
    bodies = [core.Body("b%d" % i) for i in range(12)]
    frames = [core.SubFrame(b, E.eye(4), "f%d" % i) for i, b in enumerate(bodies)]
    shapes = [sh.Point(f, "s%d" % i) for i, f in enumerate(frames)]
    given = {}
    if E.choice("given", 2):
        given = {bodies[3]: (0.5, 0.25, 1.), "b7": (0.25, 0.5, 1.), frames[8]: (0., 0.5, 0.25), "s10": (0.75, 0.5, 0.)}
    g = wd.ColorGenerator(dict(given), nb_colors=n)
    order = [lambda k: k, lambda k: 35 - k, lambda k: k * 7 % 36][E.choice("order", 3)]
    things = bodies + frames + shapes
    col = {}
    for rep in range(2):
        for k in range(36):
            i = order(k)
            c = tuple(g.get_color(things[i]))
            E.true("the same every time", col.setdefault(i, c) == c)
    own = {3: (0.5, 0.25, 1.), 7: (0.25, 0.5, 1.)} if given else {}
    for i in range(12):
        if i in own:
            E.true("the given colour", col[i] == own[i])
        E.true("a frame like its body", col[12 + i] == ((0., 0.5, 0.25) if given and i == 8 else col[i]))
        E.true("a shape like its frame's body", col[24 + i] == (
            (0.75, 0.5, 0.) if given and i == 10 else (0., 0.5, 0.25) if given and i == 8 and col[24 + i] != col[i] else col[i]))
    rest = [col[i] for i in range(12) if i not in own]
    white = (1., 1., 1.)
    E.true("different colours while the palette lasts", len(set(c for c in rest if c != white)) == len([c for c in rest if c != white]) == (
        min(n, len(rest))))


@obligation("P29", "two_palettes", "two generators of 1 to 4 and 1 to 4 colours, used in turn or one after the other", stubs=stubs,
            max_paths=200)
def two_palettes(E):
    core, wd = E.mod("arboris.core"), E.mod(WD)
    n, m = 1 + E.choice("n", 4), 1 + E.choice("m", 4)
    alone = wd.ColorGenerator(nb_colors=n)
    want = [tuple(alone.get_color(core.Body())) for i in range(6)]
    turns = E.choice("turns", 2)
    one = wd.ColorGenerator({"x": (0.5, 0.25, 1.)}, nb_colors=n)
    if not turns:
        got = [tuple(one.get_color(core.Body())) for i in range(6)]
    two = wd.ColorGenerator(nb_colors=m)
    other = []
    if turns:
        got = []
        for i in range(6):
            got.append(tuple(one.get_color(core.Body())))
            other.append(tuple(two.get_color(core.Body())))
    else:
        other = [tuple(two.get_color(core.Body())) for i in range(6)]
    E.true("the same colours as alone", got == want)
    E.true("colours of its own", len(set(other[:m])) == m and other[m:] == [(1., 1., 1.)] * (6 - m))
    b = core.Body("x")
    E.true("a colour set there is not set here", tuple(one.get_color(b)) == (0.5, 0.25, 1.) and
           tuple(two.get_color(b)) == (1., 1., 1.))
    b, c = core.Body("same"), core.Body("same")
    three = wd.ColorGenerator(nb_colors=4)
    E.true("bodies of the same name are two bodies", tuple(three.get_color(b)) != tuple(three.get_color(c)))
