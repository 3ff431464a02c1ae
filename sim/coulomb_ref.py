"""Independent evaluation of the two-dimensional Coulomb elements (Anisimovas & Matulis 1998).

Run as a script (compiled) it writes the table for all sizes up to the given one:
the elements of a smaller number of orbitals are a corner of those of a larger one.
"""
import math
import sys

import numba
import numpy as np


@numba.njit
def _nm(p):
    k = 0
    while (k + 1) * (k + 2) // 2 <= p:
        k += 1
    i = p - k * (k + 1) // 2
    m = -k + 2 * i
    return (k - abs(m)) // 2, m


@numba.njit
def _lf(k):
    return math.lgamma(k + 1.0)


@numba.njit
def _lb(a, b):
    return math.lgamma(a + 1.0) - math.lgamma(b + 1.0) - math.lgamma(a - b + 1.0)


@numba.njit
def _pos(m):
    return m if m > 0 else 0


@numba.njit
def element(n1, m1, n2, m2, n3, m3, n4, m4):
    if m1 + m2 != m3 + m4:
        return 0.0
    tot = 0.0
    for a in range(n1 + 1):
        for b in range(n2 + 1):
            for c in range(n3 + 1):
                for d in range(n4 + 1):
                    g1 = a + d + _pos(m1) + _pos(-m4)
                    g2 = b + c + _pos(m2) + _pos(-m3)
                    g3 = c + b + _pos(m3) + _pos(-m2)
                    g4 = d + a + _pos(m4) + _pos(-m1)
                    G = g1 + g2 + g3 + g4
                    lg = -0.5 * (G + 1) * math.log(2.0) - _lf(a) - _lf(b) - _lf(c) - _lf(d)
                    lg += _lf(n1 + abs(m1)) - _lf(n1 - a) - _lf(a + abs(m1))
                    lg += _lf(n2 + abs(m2)) - _lf(n2 - b) - _lf(b + abs(m2))
                    lg += _lf(n3 + abs(m3)) - _lf(n3 - c) - _lf(c + abs(m3))
                    lg += _lf(n4 + abs(m4)) - _lf(n4 - d) - _lf(d + abs(m4))
                    t = 0.0
                    for x in range(g1 + 1):
                        for y in range(g2 + 1):
                            for z in range(g3 + 1):
                                w = x + y - z
                                if w < 0 or w > g4:
                                    continue
                                L = 2 * (x + y)
                                v = math.exp(_lb(g1, x) + _lb(g2, y) + _lb(g3, z) + _lb(g4, w)
                                             + math.lgamma(1 + 0.5 * L) + math.lgamma(0.5 * (G - L + 1)))
                                if (g2 + g3 - y - z) % 2 == 0:
                                    t += v
                                else:
                                    t -= v
                    v = math.exp(lg) * t
                    if (a + b + c + d) % 2 == 0:
                        tot += v
                    else:
                        tot -= v
    nrm = 0.0
    for n, m in ((n1, m1), (n2, m2), (n3, m3), (n4, m4)):
        nrm += _lf(n) - _lf(n + abs(m))
    return tot * math.exp(0.5 * nrm)


@numba.njit
def table(l):
    u = np.zeros((l, l, l, l))
    for p in range(l):
        n1, m1 = _nm(p)
        for q in range(l):
            n2, m2 = _nm(q)
            for r in range(l):
                n4, m4 = _nm(r)
                for s in range(l):
                    n3, m3 = _nm(s)
                    u[p, q, r, s] = element(n1, m1, n2, m2, n3, m3, n4, m4)
    return u


if __name__ == "__main__":
    np.save(sys.argv[2], table(int(sys.argv[1])))
