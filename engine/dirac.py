"""Explicit Dirac spinors and matrices over any ring of numbers (lists of lists)."""


def mat(n, m, f):
    return [[f(i, j) for j in range(m)] for i in range(n)]


def add(*ms):
    return mat(len(ms[0]), len(ms[0][0]), lambda i, j: sum(m[i][j] for m in ms))


def scale(a, m):
    return [[a * x if not (type(x) is int and x == 0) else 0 for x in r] for r in m]


def dot(row, col):
    s = 0
    for a, b in zip(row, col):
        if type(a) is int and a == 0 or type(b) is int and b == 0:
            continue
        s = s + a * b
    return s


def mul(*ms):
    r = ms[0]
    for m in ms[1:]:
        cols = list(zip(*m))
        r = [[dot(row, c) for c in cols] for row in r]
    return r


def unit(n):
    return mat(n, n, lambda i, j: int(i == j))


def block(a, b, c, d):
    return [r + s for r, s in zip(a, b)] + [r + s for r, s in zip(c, d)]


Z2, I2 = [[0, 0], [0, 0]], [[1, 0], [0, 1]]
PAULI = [[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]
neg = lambda m: scale(-1, m)
G = [block(I2, Z2, Z2, neg(I2))] + [block(Z2, s, neg(s), Z2) for s in PAULI]  # Dirac representation, upper index
G5 = block(Z2, I2, I2, Z2)
ONE = unit(4)
METRIC = [1, -1, -1, -1]


def slash(p):
    """p: contravariant components"""
    return add(*[scale(METRIC[m] * p[m], G[m]) for m in range(4)])


def mdot(a, b):
    return sum(METRIC[m] * a[m] * b[m] for m in range(4))


def sigma(m, n):
    """sigma^{mu nu} = i/2 [gamma^mu, gamma^nu]"""
    return scale(0.5j, add(mul(G[m], G[n]), neg(mul(G[n], G[m]))))


def bra(w):
    """ubar from the (real) column u"""
    return mul([w], G[0])[0]
