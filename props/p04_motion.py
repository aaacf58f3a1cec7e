"""P04 Derived quantities of a rigid motion."""
from engine.harness import obligation


def motion(E, H, T):
    RM = E.mod("arboris.rigidmotion").RigidMotion

    class M(RM):
        pose = property(lambda s: E.array(H))
        twist = property(lambda s: E.array(T))
    return M()


@obligation("P04", "inverse_motion", "any pose, any twist with |x_i|<=1000")
def inverse(E):
    H, T = E.pose("H"), E.vec("T", 6)
    m = motion(E, H, T)
    E.equal("ipose", m.ipose, E.inv4(H))
    # body twist of the inverse motion: (H^-1)^-1 d/dt(H^-1)
    dHi = E.deriv(lambda X: E.inv4(X), [H], [T])
    E.equal("itwist", E.hat4(m.itwist), E.dot(H, dHi))
    E.equal("adjoint", m.adjoint, E.Ad(H))
    E.equal("iadjoint", m.iadjoint, E.Ad(E.inv4(H)))
    E.equal("adjacency", m.adjacency, E.ad(T))
    E.equal("iadjacency", m.iadjacency, E.ad(m.itwist))


@obligation("P04", "derivatives", "any pose, any twist with |x_i|<=1000")
def derivatives(E):
    H, T = E.pose("H"), E.vec("T", 6)
    m = motion(E, H, T)
    E.equal("dadjoint", m.dadjoint, E.deriv(lambda X: E.Ad(X), [H], [T]))
    E.equal("idadjoint", m.idadjoint, E.deriv(lambda X: E.Ad(E.inv4(X)), [H], [T]))


@obligation("P04", "adjoint_matrices", "any pose; off-block entries changed by d, 1e-6<=|d|<=1")
def adjointmatrix(E):
    A = E.mod("arboris.adjointmatrix")
    H = E.pose("H")
    Ad = E.Ad(H)
    E.equal("inv", A.inv(Ad), E.Ad(E.inv4(H)))
    E.equal("inv is an inverse", E.dot(A.inv(Ad), Ad), E.eye(6))
    E.true("recognized", A.isadjointmatrix(Ad))
    d = E.real("d", 1e-6, 1)
    i, j = E.choice("i", 3), E.choice("j", 3)
    B = E.array(Ad)
    if E.choice("where", 2):
        B[i, 3 + j] += d
    else:
        B[3 + i, 3 + j] += d
    E.true("changed block refused", not A.isadjointmatrix(B))
