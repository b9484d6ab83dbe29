"""Exact Gaussian-rational linear algebra used by the network driver to decide
which calls it makes (the result must exist and have small denominators so that
it can be read back exactly from floats).  It does not judge any result."""
from fractions import Fraction as F
from core import P, IM


class Q(object):
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re, self.im = F(re), F(im)

    def __add__(s, o): o = q(o); return Q(s.re + o.re, s.im + o.im)
    __radd__ = __add__
    def __sub__(s, o): o = q(o); return Q(s.re - o.re, s.im - o.im)
    def __rsub__(s, o): return q(o) - s
    def __mul__(s, o): o = q(o); return Q(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)
    __rmul__ = __mul__
    def __neg__(s): return Q(-s.re, -s.im)
    def conj(s): return Q(s.re, -s.im)
    def norm(s): return s.re * s.re + s.im * s.im
    def inv(s): n = s.norm(); return Q(s.re / n, -s.im / n)
    def __truediv__(s, o): return s * q(o).inv()
    def __bool__(s): return bool(s.re) or bool(s.im)
    def __eq__(s, o): o = q(o); return s.re == o.re and s.im == o.im
    def __complex__(s): return complex(float(s.re), float(s.im))
    def den(s): return max(s.re.denominator, s.im.denominator)
    def size(s): return max(abs(s.re), abs(s.im))
    def residues(s):
        if s.re.denominator % P == 0 or s.im.denominator % P == 0:
            return 0, 0
        a = s.re.numerator * pow(s.re.denominator, P - 2, P)
        b = s.im.numerator * pow(s.im.denominator, P - 2, P)
        return (a + IM * b) % P, (a - IM * b) % P
    def regular(s): return bool(s) and all(s.residues())
    def __repr__(s): return "(%s,%s)" % (s.re, s.im)


def q(x):
    return x if isinstance(x, Q) else Q(x)


def mul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), Q(0)) for j in range(len(B[0]))] for i in range(len(A))]


def vec(A, x):
    return [sum((A[i][k] * x[k] for k in range(len(x))), Q(0)) for i in range(len(A))]


def t(A):
    return [list(r) for r in zip(*A)]


def hc(A):
    return [[x.conj() for x in r] for r in zip(*A)]


def scale(s, A):
    return [[q(s) * x for x in r] for r in A]


def det(A):
    A = [r[:] for r in A]
    n, d = len(A), Q(1)
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c]), None)
        if p is None:
            return Q(0)
        if p != c:
            A[c], A[p] = A[p], A[c]
            d = -d
        d = d * A[c][c]
        iv = A[c][c].inv()
        for r in range(c + 1, n):
            f = A[r][c] * iv
            A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return d


def inv(A):
    """inverse, None when singular (also modulo P)"""
    n = len(A)
    if not det(A).regular():
        return None
    M = [list(A[i]) + [Q(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c])
        M[c], M[p] = M[p], M[c]
        iv = M[c][c].inv()
        M[c] = [x * iv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def unit(n, k):
    return [Q(1 if r == k else 0) for r in range(n)]


def bx(kind, z, v, i):
    bw = [a - z * b for a, b in zip(v, i)]
    aw = [a + z * b for a, b in zip(v, i)]
    return {"Z": lambda: (v, i), "Y": lambda: (i, v), "S": lambda: (bw, aw), "G": lambda: ([i[0], v[1]], [v[0], i[1]]),
            "H": lambda: ([v[0], i[1]], [i[0], v[1]]), "A": lambda: ([v[0], i[0]], [v[1], -i[1]]),
            "T": lambda: ([bw[0], aw[0]], [aw[1], bw[1]]), "Tp": lambda: ([aw[0], bw[0]], [bw[1], aw[1]])}[kind]()


def waves(z, bw, aw):
    return [(a + b) / 2 for a, b in zip(aw, bw)], [(a - b) / (2 * z) for a, b in zip(aw, bw)]


def vi(kind, z, b, x):
    return {"Z": lambda: (b, x), "Y": lambda: (x, b), "S": lambda: waves(z, b, x), "G": lambda: ([x[0], b[1]], [b[0], x[1]]),
            "H": lambda: ([b[0], x[1]], [x[0], b[1]]), "A": lambda: ([b[0], x[0]], [b[1], -x[1]]),
            "T": lambda: waves(z, [b[0], x[1]], [b[1], x[0]]), "Tp": lambda: waves(z, [b[1], x[0]], [b[0], x[1]])}[kind]()


def conv(k1, z1, M, k2, z2):
    """M of kind k1 expressed as k2, None when that does not exist"""
    n = len(M)
    cols = []
    for k in range(n):
        v, i = vi(k1, z1, [M[r][k] for r in range(n)], unit(n, k))
        cols.append(bx(k2, z2, v, i))
    X, B = t([c[1] for c in cols]), t([c[0] for c in cols])
    Xi = inv(X)
    return None if Xi is None else mul(B, Xi)


def noise_conv(k1, z1, M, C, k2, z2):
    """correlation matrix C of (k1, M) expressed in k2 (scaled waves)"""
    n = len(M)
    cols = []
    for k in range(n):
        v, i = vi(k2, z2, unit(n, k), [Q(0)] * n)
        b, x = bx(k1, z1, v, i)
        mx = vec(M, x)
        cols.append([b[r] - mx[r] for r in range(n)])
    Wi = inv(t(cols))
    if Wi is None:
        return None
    s = lambda kk, zz: 4 * zz if kk in ("S", "T", "Tp") else 1
    return scale(Q(F(s(k1, z1), s(k2, z2))), mul(mul(Wi, C), hc(Wi)))


def join(A, B):
    d = 1 - A[1][1] * B[0][0]
    if not d.regular():
        return None
    d = d.inv()
    out = []
    for k in (0, 1):
        a1, a2 = Q(1 - k), Q(k)
        b2 = d * (A[1][0] * a1 + A[1][1] * (B[0][1] * a2))
        b1p = B[0][0] * b2 + B[0][1] * a2
        out.append([A[0][0] * a1 + A[0][1] * b1p, B[1][0] * b2 + B[1][1] * a2])
    return t(out)


def small(M, maxden, maxnum=4000):
    return M is not None and all(x.den() <= maxden and x.size() <= maxnum for r in M for x in r)


# ---- the same in floating point, to estimate how much rounding is amplified
import numpy as np


def fl(M):
    return np.array([[complex(x) for x in r] for r in M])


def fconv(k1, z1, M, k2, z2):
    n = len(M)
    cols = [bx(k2, z2, *[list(u) for u in vi(k1, z1, list(M[:, k]), list(np.eye(n)[k] + 0j))]) for k in range(n)]
    return np.array([c[0] for c in cols]).T.dot(np.linalg.inv(np.array([c[1] for c in cols]).T))


def fjoin(A, B, sh):
    """cascade; every product is shaken"""
    p = lambda *v: sh(np.array([[np.prod(v)]]))[0, 0]
    d = 1 - p(A[1, 1], B[0, 0])
    da = p(A[0, 0], A[1, 1]) - p(A[0, 1], A[1, 0])
    db = p(B[0, 0], B[1, 1]) - p(B[0, 1], B[1, 0])
    return np.array([[A[0, 0] - p(B[0, 0], da), p(A[0, 1], B[0, 1])], [p(A[1, 0], B[1, 0]), B[1, 1] - p(A[1, 1], db)]]) / d


def funjoin(X_, e, side, sh):
    """S-matrix left when e is removed from one side of X_; every product is shaken"""
    p = lambda *v: sh(np.array([[np.prod(v)]]))[0, 0]
    x1, e1 = (X_[0, 0], e[1, 1]) if side == "l" else (X_[1, 1], e[0, 0])
    d = p(e[0, 1], e[1, 0]) - p(e[0, 0], e[1, 1]) + p(e1, x1)
    far = p(-X_[0, 1], X_[1, 0], e1) / d
    near = (x1 - (e[0, 0] if side == "l" else e[1, 1])) / d
    a, b = p(X_[0, 1], e[1, 0]) / d, p(X_[1, 0], e[0, 1]) / d
    if side == "l":
        return np.array([[near, a], [b, far + X_[1, 1]]])
    return np.array([[far + X_[0, 0], a], [b, near]])


def amplification(fn, rng, eps=1e-8):
    """largest change of fn(shake) per relative change of any of its intermediate matrices"""
    try:
        base = fn(lambda M: M)
        worst = 0.
        for _ in range(2):
            r = np.random.RandomState(rng.randrange(2 ** 31))

            def shake(M):
                return M + eps * np.abs(M).max() * (r.choice([-1, 1], M.shape) + 1j * r.choice([-1, 1], M.shape))
            worst = max(worst, np.abs(fn(shake) - base).max() / eps)
        return worst
    except np.linalg.LinAlgError:
        return 1e99
