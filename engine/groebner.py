"""Membership in an ideal of Z[x..] plus (m), with integer certificates: only monic steps are taken, and
steps through generators c*mono... - 1 whose coefficient c is a unit modulo m (the target is multiplied by c).
Polynomials: dict from exponent tuples to integers."""
import time, heapq


class Limit(Exception):
    pass


def key(m):
    """graded reverse lexicographic"""
    return (sum(m), tuple(-e for e in reversed(m)))


def lead(p):
    return max(p, key=key)


def sub_scaled(p, q, c, s):
    """p - c * x^s * q"""
    r = dict(p)
    for m, v in q.items():
        k = tuple(a + b for a, b in zip(m, s))
        w = r.get(k, 0) - c * v
        if w:
            r[k] = w
        else:
            r.pop(k, None)
    return r


def divides(a, b):
    for x, y in zip(a, b):
        if x > y:
            return False
    return True


class Ideal(object):
    def __init__(self, gens, n, seconds=20, cap=400, units=()):
        self.n = n
        self.deadline = time.time() + seconds
        self.cap = cap
        self.units = set(units)          # integers invertible modulo m
        self.basis = []
        gens = [g for g in gens if g]
        zero = (0,) * n
        for g in gens:
            c = g.get(zero, 0)
            if abs(c) == 1 and len(g) > 1:
                d = 0
                for m, v in g.items():
                    if m != zero:
                        d = gcd(d, v)
                if d > 1:
                    self.units.add(d)
        self.build(gens)

    def tick(self):
        if time.time() > self.deadline:
            raise Limit()

    def unit(self, c):
        c = abs(c)
        for u in self.units:
            while u > 1 and c % u == 0:
                c //= u
        return c == 1

    def add(self, g):
        lm = lead(g)
        c = g[lm]
        if c < 0:
            g = {m: -v for m, v in g.items()}
        self.basis.append((lm, abs(c), g))
        return True

    def nf(self, p, full=True):
        """c*p for some unit c, reduced"""
        p = dict(p)
        out = {}
        heap = [(tuple(-x for x in (sum(m),)) + m[::-1], m) for m in p]
        heapq.heapify(heap)
        steps = 0
        while heap:
            _, mm = heapq.heappop(heap)
            c = p.get(mm)
            if not c:
                continue
            for lm, lc, g in self.basis:
                if divides(lm, mm):
                    s = tuple(a - b for a, b in zip(mm, lm))
                    if c % lc:
                        if not self.unit(lc):
                            continue
                        for k in p:
                            p[k] *= lc
                        for k in out:
                            out[k] *= lc
                        c = p[mm]
                    c //= lc
                    for m, v in g.items():
                        k = tuple(a + b for a, b in zip(m, s))
                        old = p.get(k)
                        w = (old or 0) - c * v
                        if w:
                            p[k] = w
                            if old is None:
                                heapq.heappush(heap, ((-sum(k),) + k[::-1], k))
                        else:
                            p.pop(k, None)
                    break
            else:
                out[mm] = c
                del p[mm]
                if not full:
                    out.update(p)
                    return out
            steps += 1
            if steps % 200 == 0:
                self.tick()
                if len(p) > 60000:
                    raise Limit()
        return out

    def build(self, gens):
        pend = []
        for g in sorted(gens, key=lambda g: key(lead(g))):
            r = self.nf(g)
            if r:
                if self.add(r):
                    pend += [(i, len(self.basis) - 1) for i in range(len(self.basis) - 1)]
        self.pend = pend

    def pairs(self):
        """one more critical pair; False when the basis is complete"""
        if not self.pend:
            return False
        def deg(ij):
            a, b = self.basis[ij[0]][0], self.basis[ij[1]][0]
            return sum(max(x, y) for x, y in zip(a, b))
        ij = min(self.pend, key=deg)
        self.pend.remove(ij)
        (la, ca, a), (lb, cb, b) = self.basis[ij[0]], self.basis[ij[1]]
        if all(x == 0 or y == 0 for x, y in zip(la, lb)) and ca == cb == 1:
            return True
        l = tuple(max(x, y) for x, y in zip(la, lb))
        s = {}
        s = sub_scaled(s, a, -cb, tuple(x - y for x, y in zip(l, la)))
        s = sub_scaled(s, b, ca, tuple(x - y for x, y in zip(l, lb)))
        r = self.nf(s)
        if r and self.add(r):
            k = len(self.basis) - 1
            self.pend += [(i, k) for i in range(k)]
        return True

    def member(self, p):
        """is (unit)*p in the ideal: sound, complete only as far as the limits allow"""
        try:
            r = self.nf(p)
            n = 0
            while r:
                if not self.pairs():
                    return False
                n += 1
                if n > self.cap:
                    return False
                if not self.pend or n % 8 == 0:
                    self.tick()
                    r = self.nf(r)
            return True
        except Limit:
            return False


def gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)
