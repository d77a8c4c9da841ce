"""Helpers shared by the contracts."""


def dims(V, n, base="n"):
    return [V.dim("%s%d" % (base, k)) for k in range(n)]


def dot(V, row, n, col):
    """sum_k row(k)*col(k), k<n"""
    r = row(0) * col(0)
    for k in range(1, n):
        r = r + row(k) * col(k)
    return r


def det3(m):
    return (m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0))
            + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)))


def is_rotation(V, m):
    """m(i,j): orthonormal with determinant one"""
    cs = []
    for i in range(3):
        for j in range(i, 3):
            cs.append(V.eq(dot(V, lambda k: m(k, i), 3, lambda k: m(k, j)), 1 if i == j else 0))
    cs.append(V.eq(det3(m), 1))
    return V.and_(*cs)


def last_row(V, m):
    return V.and_(*[V.eq(m(3, k), 1 if k == 3 else 0) for k in range(4)])
