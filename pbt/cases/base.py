"""Helpers shared by the case functions (PyPy side). No code under test here."""
import math

_labels = []
_nt = [False]


class Violation(Exception):
    pass


class Reject(Exception):
    """The generated case is outside the property's domain."""


def begin_case():
    del _labels[:]
    _nt[0] = False


def label(s):
    if s not in _labels:
        _labels.append(s)


def labels():
    return list(_labels)


def nontriv(flag=True):
    """Mark the current case as non-trivial by the check's rule."""
    if flag:
        _nt[0] = True


def nontrivial():
    return _nt[0]


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def fl(x):
    return [float(v) for v in x]


def isfinite(x):
    return not (math.isnan(x) or math.isinf(x))


def close(a, b, rtol=1e-9, atol=1e-9):
    a = float(a)
    b = float(b)
    if a == b:
        return True
    if not (isfinite(a) and isfinite(b)):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def req_close(a, b, what, rtol=1e-9, atol=1e-9):
    if not close(a, b, rtol, atol):
        raise Violation("%s: got %r, expected %r" % (what, float(a), float(b)))


def vclose(a, b, rtol=1e-9, atol=1e-9):
    a = fl(a)
    b = fl(b)
    if len(a) != len(b):
        return False
    m = max([abs(x) for x in a + b if isfinite(x)] or [0.])
    for x, y in zip(a, b):
        if x == y:
            continue
        if not (isfinite(x) and isfinite(y)) or abs(x - y) > atol + rtol * m:
            return False
    return True


def req_vclose(a, b, what, rtol=1e-9, atol=1e-9):
    if not vclose(a, b, rtol, atol):
        raise Violation("%s: got %r, expected %r" % (what, fl(a), fl(b)))


def must_raise(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    raise Violation("%s: expected %s, returned %r" % (what, exc, r))


# ---- small pure-Python linear algebra used by the oracles ----
def vadd(a, b): return [x + y for x, y in zip(a, b)]
def vsub(a, b): return [x - y for x, y in zip(a, b)]
def vmul(a, s): return [x * s for x in a]
def vdot(a, b): return sum(x * y for x, y in zip(a, b))
def vlen(a): return math.sqrt(vdot(a, a))
def vcross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vnorm(a):
    n = vlen(a)
    return [x / n for x in a]


def mident(n=4):
    return [[1. if i == j else 0. for j in range(n)] for i in range(n)]


def mmul(a, b):
    n, k, m = len(a), len(b), len(b[0])
    return [[sum(a[i][x] * b[x][j] for x in range(k)) for j in range(m)] for i in range(n)]


def mT(a): return [list(r) for r in zip(*a)]


def minv(a):
    """Gauss-Jordan with partial pivoting."""
    n = len(a)
    m = [list(map(float, a[i])) + [1. if i == j else 0. for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if m[p][c] == 0.:
            raise ZeroDivisionError
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [x / d for x in m[c]]
        for r in range(n):
            if r != c:
                f = m[r][c]
                if f != 0.:
                    m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return [r[n:] for r in m]


def mapply_point(m, p):
    x = [sum(m[i][j] * q for j, q in enumerate(list(p) + [1.])) for i in range(4)]
    return [x[0] / x[3], x[1] / x[3], x[2] / x[3]]


def mapply_vec(m, v):
    return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]


def mtranslate(t):
    m = mident()
    for i in range(3):
        m[i][3] = float(t[i])
    return m


def mscale(s):
    m = mident()
    for i in range(3):
        m[i][i] = float(s[i])
    return m


def mrotate(deg, axis):
    """Rodrigues."""
    a = vnorm(axis)
    t = math.radians(deg)
    c, s = math.cos(t), math.sin(t)
    x, y, z = a
    K = [[0, -z, y], [z, 0, -x], [-y, x, 0]]
    K2 = mmul(K, K)
    m = mident()
    for i in range(3):
        for j in range(3):
            m[i][j] += s * K[i][j] + (1 - c) * K2[i][j]
    return m


def m3det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def mchain(ops):
    """Matrix of an op list [[kind, ...], ...] applied left-to-right as a product."""
    m = mident()
    for op in ops:
        m = mmul(m, mop(op))
    return m


def mop(op):
    k = op[0]
    if k == "T":
        return mtranslate(op[1])
    if k == "S":
        return mscale(op[1])
    if k == "R":
        return mrotate(op[1], op[2])
    raise ValueError(k)


class LCG(object):
    """Deterministic auxiliary stream for oracles (never used to generate cases)."""

    def __init__(self, seed):
        self.s = (int(seed) * 2862933555777941757 + 3037000493) & ((1 << 64) - 1)

    def u(self):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        return (self.s >> 11) / float(1 << 53)


def lattice(n):
    return [((i + .5) / n, (j + .5) / n) for i in range(n) for j in range(n)]


def moments(vs):
    """mean and matrix of second moments"""
    k, n = len(vs[0]), float(len(vs))
    return [sum(v[i] for v in vs) / n for i in range(k)], [[sum(v[i] * v[j] for v in vs) / n for j in range(k)] for i in range(k)]


def req_moments(vs, mean, second, what, tol):
    m, s = moments(vs)
    req_vclose(m, mean, what + ": mean over the unit square", 0, tol)
    for i in range(len(m)):
        req_vclose(s[i], second[i], what + ": second moments over the unit square", 0, tol)


def about(axis, c1, c2):
    """moments of unit vectors of uniform azimuth about an axis: E[cos] = c1, E[cos^2] = c2"""
    q = (1 - c2) / 2
    return vmul(axis, c1), [[(q if i == j else 0.) + (c2 - q) * axis[i] * axis[j] for j in range(3)] for i in range(3)]


def about_cone(axis, ct):
    """uniform directions within a cone"""
    return about(axis, (1 + ct) / 2, (1 + ct + ct * ct) / 3)
