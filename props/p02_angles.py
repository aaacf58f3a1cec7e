"""P02 Orientation extraction: roll-pitch-yaw angles and aligned frames."""
from engine.harness import obligation

HG = "arboris.homogeneousmatrix"


@obligation("P02", "rpy_regular", "any rotation (written as Rz Ry Rx, any angles) whose "
            "first column is >= 2e-9 away from the z axis")
def rpy(E):
    Hg = E.mod(HG)
    H = E.eye(4)
    for n in "zyx":
        s, c = E.sincos(E.angle(n))
        H = E.dot(H, E.ref_rot(n, s, c))
    H[0:3, 3] = E.vec("p", 3)
    E.assume(E.OR(H[0, 0] >= 2e-9, H[0, 0] <= -2e-9, H[1, 0] >= 2e-9, H[1, 0] <= -2e-9))
    az, ay, ax = Hg.rotzyx_angles(H)
    sz, cz = E.sincos(az)
    sy, cy = E.sincos(ay)
    sx, cx = E.sincos(ax)
    R = E.dot(E.ref_rot("z", sz, cz), E.ref_rot("y", sy, cy), E.ref_rot("x", sx, cx))
    E.equal("angles rebuild the rotation", R[0:3, 0:3], H[0:3, 0:3])
    E.true("pitch in [-pi/2, pi/2]", E.GE(cy, 0))


@obligation("P02", "rpy_singular", "any rotation with pitch exactly +-pi/2")
def rpy_singular(E):
    Hg = E.mod(HG)
    a = E.angle("a")
    s, c = E.sincos(a)
    up = 1 if E.choice("side", 2) else -1
    H = E.dot(E.ref_rot("y", up, 0), E.ref_rot("x", s, c))
    H[0:3, 3] = E.vec("p", 3)
    az, ay, ax = Hg.rotzyx_angles(H)
    sz, cz = E.sincos(az)
    sy, cy = E.sincos(ay)
    sx, cx = E.sincos(ax)
    R = E.dot(E.ref_rot("z", sz, cz), E.ref_rot("y", sy, cy), E.ref_rot("x", sx, cx))
    E.equal("angles rebuild the rotation", R[0:3, 0:3], H[0:3, 0:3])


@obligation("P02", "zaligned", "any unit vector")
def zaligned(E):
    Hg = E.mod(HG)
    n = E.unit("n")
    H = Hg.zaligned(n)
    E.equal("z axis", H[0:3, 2], n)
    E.equal("orthonormal", E.dot(H[0:3, 0:3].T, H[0:3, 0:3]), E.eye(3))
    E.equal("right handed", E.dot(E.hat(H[0:3, 0]), H[0:3, 1]), n)
    E.equal("no translation", H[0:3, 3], E.arr(3))
    E.equal("last row", H[3, :], E.array([0, 0, 0, 1]))


@obligation("P02", "zaligned_axes", "the vectors with one or two zero components")
def zaligned_axes(E):
    Hg = E.mod(HG)
    a = E.angle("a")
    s, c = E.sincos(a)
    i = E.choice("i", 3)
    n = E.arr(3)
    if E.choice("axis", 2):
        n[i] = 1 - 2 * E.choice("neg", 2)
    else:
        n[(i + 1) % 3], n[(i + 2) % 3] = s, c
    H = Hg.zaligned(n)
    E.equal("z axis", H[0:3, 2], n)
    E.equal("orthonormal", E.dot(H[0:3, 0:3].T, H[0:3, 0:3]), E.eye(3))
    E.equal("right handed", E.dot(E.hat(H[0:3, 0]), H[0:3, 1]), n)


@obligation("P02", "zaligned_refuses", "vectors whose norm differs from 1 by more than 1e-8")
def zaligned_refuses(E):
    Hg = E.mod(HG)
    n = E.unit("n")
    k = E.real("k", 0, 3)
    E.assume(E.OR(k >= 1 + 1e-8, k <= 1 - 1e-8))
    E.raises("refused", AssertionError, lambda: Hg.zaligned(k * n))
