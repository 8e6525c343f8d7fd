"""Curves with any parameters, of the classes under contract."""
from cryptopy.ecc.ecc import SmallWeierstrassCurveFp, KoblitzCurveFp, TwistedEdwardsCurveFp, EdwardsCurveFp, MontgomeryCurveFp


def weierstrass(pp, aa, bb, nn):
    class Curve(SmallWeierstrassCurveFp):
        p = pp
        a = aa
        b = bb
        n = nn
    return Curve()


def koblitz(pp, bb, nn):
    class Curve(KoblitzCurveFp):
        p = pp
        b = bb
        n = nn
    return Curve()


def twisted(pp, aa, dd):
    class Curve(TwistedEdwardsCurveFp):
        p = pp
        a = aa
        d = dd
    return Curve()


def edwards(pp, dd):
    class Curve(EdwardsCurveFp):
        p = pp
        d = dd
    return Curve()


def montgomery(pp, aa):
    class Curve(MontgomeryCurveFp):
        p = pp
        a = aa
    return Curve()


class Group(object):
    """the integers modulo n as a curve: multiples of one point, (0, k) for k times the point"""
    def on_curve(curve, point):
        return True

    def identity(curve):
        return curve.point(0, 0)

    def add_points(curve, p1, p2):
        return curve.point(0, (p1.y + p2.y) % curve.n)

    def double_point(curve, point):
        return curve.point(0, (point.y + point.y) % curve.n)

    def negate(curve, point):
        return curve.point(0, -point.y % curve.n)


def group(nn):
    class Curve(Group, SmallWeierstrassCurveFp):
        a = 0
        b = 0
        p = 7
        n = nn
    return Curve()


def edwards_group(nn):
    class Curve(Group, TwistedEdwardsCurveFp):
        a = 0
        d = 0
        p = 7
        n = nn
    return Curve()


def montgomery_group(nn):
    class Curve(Group, MontgomeryCurveFp):
        a = 0
        p = 7
        n = nn
    return Curve()


def find(curve, x, y):
    """a point near the coordinates given"""
    for i in range(curve.p ** 2):
        try:
            return curve.point((x + (y + i) // curve.p) % curve.p, (y + i) % curve.p)
        except AssertionError:
            pass


def multiple_agrees(curve, x, y, e):
    """scalar multiplication against repeated addition, on the curve itself"""
    P = find(curve, x, y)
    if P is None:
        return True
    O = curve.identity()
    n, Q = 1, P
    while Q != O:
        n, Q = n + 1, Q + P
    curve.n = n
    R = O
    for i in range(e % n):
        R = R + P
    return P * e == R
