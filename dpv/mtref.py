"""Independent reference for sources: planes, axes, eigenvalues, lune and Hudson coordinates, stiffness."""
import math
import numpy as np
R2, R3, R6 = math.sqrt(2), math.sqrt(3), math.sqrt(6)


def six(M):
    M = np.asarray(M, float)
    return np.array([M[0, 0], M[1, 1], M[2, 2], R2 * M[0, 1], R2 * M[0, 2], R2 * M[1, 2]])


def mat(m):
    m = np.asarray(m, float).ravel()
    return np.array([[m[0], m[3] / R2, m[4] / R2], [m[3] / R2, m[1], m[5] / R2], [m[4] / R2, m[5] / R2, m[2]]])


def normal(s, d):
    return np.array([-math.sin(d) * math.sin(s), math.sin(d) * math.cos(s), -math.cos(d)])


def slip(s, d, r):
    return np.array([math.cos(r) * math.cos(s) + math.cos(d) * math.sin(r) * math.sin(s),
                     math.cos(r) * math.sin(s) - math.cos(d) * math.sin(r) * math.cos(s), -math.sin(d) * math.sin(r)])


def dc(s, d, r):
    """unit double-couple matrix of a plane"""
    n, u = normal(s, d), slip(s, d, r)
    return (np.outer(n, u) + np.outer(u, n)) / R2


def tpmat(T, P):
    T, P = np.asarray(T, float).ravel(), np.asarray(P, float).ravel()
    return (np.outer(T, T) - np.outer(P, P)) / R2


def lam(g, d):
    """unit eigenvalues (largest first) of a lune point"""
    b = math.pi / 2 - d
    x, y, z = math.sin(b) * math.cos(g), math.sin(b) * math.sin(g), math.cos(b)
    return np.array([R3 * x - y + R2 * z, 2 * y + R2 * z, -R3 * x - y + R2 * z]) / R6


def tape(g, d, k, h, s):
    dip = math.acos(h)
    n, u = normal(k, dip), slip(k, dip, s)
    T, P = (n + u) / R2, (n - u) / R2
    N = np.cross(T, P)
    l = lam(g, d)
    return l[0] * np.outer(T, T) + l[1] * np.outer(N, N) + l[2] * np.outer(P, P)


def hudson(E):
    """u, v of eigenvalues, from the closed form (normalised by the largest absolute eigenvalue)"""
    E = np.sort(np.asarray(E, float).ravel())[::-1]
    E = E / np.max(np.abs(E))
    return -2. / 3 * (E[0] + E[2] - 2 * E[1]), (E[0] + E[1] + E[2]) / 3


VI = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 2): 3, (2, 1): 3, (0, 2): 4, (2, 0): 4, (0, 1): 5, (1, 0): 5}


def c66(c):
    """6x6 Voigt matrix of the 21 elements (upper triangle, row by row)"""
    V, k = np.zeros((6, 6)), 0
    for i in range(6):
        for j in range(i, 6):
            V[i, j] = V[j, i] = c[k]
            k += 1
    return V


def stiff(c, D):
    """M_ij = c_ijkl D_kl"""
    V = c66(c)
    return np.array([[sum(V[VI[i, j], VI[k, l]] * D[k][l] for k in range(3) for l in range(3)) for j in range(3)] for i in range(3)])


def rot(rng):
    q = np.linalg.qr(rng.randn(3, 3))[0]
    return q * np.sign(np.linalg.det(q))


def spectrum(rng):
    """eigenvalues of every kind: generic, repeated, zero, DC, CLVD, isotropic and near"""
    k = rng.randint(9)
    if k == 0:
        return rng.randn(3)
    if k == 1:
        return np.array([1., 0, -1]) * rng.choice([1., .3])
    if k == 2:
        return np.array([1., 1, 1]) * rng.choice([1., -1, .2])
    if k == 3:
        return np.array([2., -1, -1]) * rng.choice([1., -1])
    if k == 4:
        a, c = rng.randn(2)
        return np.array([a, a, c])
    if k == 5:
        return np.array([0., 0, 1]) * rng.choice([1., -1])
    if k == 6:
        return np.array([rng.randn(), rng.randn(), 0.])
    if k == 7:
        return np.ones(3) * rng.choice([1., -1]) + rng.randn(3) * 10 ** rng.uniform(-16, -6)
    return np.array(rng.choice([-1., 0, 1, 2], 3)) + np.array([0, 0, 1e-3])


def angdiff(a, c):
    return abs((a - c + math.pi) % (2 * math.pi) - math.pi)
