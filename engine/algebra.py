"""Polynomial consequence of the equalities on a path: multivariate division over the integers.

goal == 0 is concluded only when goal = sum(q_i * g_i) with integer-coefficient q_i and g_i == 0 on
the path, or (for remainders) when both sides are congruent modulo the same positive modulus and both
lie in [0, modulus)."""
import time
from . import ir, groebner
from .ir import T

LIMIT = 4000


def mkey(m):
    return (len(m), tuple(x.id for x in m))


def mdiv(m, d):
    """monomial quotient m/d as a tuple, or None"""
    m = list(m)
    for x in d:
        try:
            m.remove(x)
        except ValueError:
            return None
    return tuple(m)


def mmul(a, b):
    return tuple(sorted(a + b, key=lambda z: z.id))


def has_pow(m):
    return False


def generators(ctx):
    out = []
    for c in ctx.conds:
        if not isinstance(c, T):
            continue
        for x in (c.a if c.op == 'band' else (c,)):
            if x.op == 'eq' and isinstance(x.a[0], T):
                d = ir._terms(x.a[0])
                if len(d) <= 60:
                    out.append(d)
    return out


def lead(d):
    best = None
    for m in d:
        if m != () and (best is None or mkey(m) > mkey(best)):
            best = m
    return best


def reduce(d, gens):
    """normal form of d modulo gens (list of (lead, coef, dict))"""
    d = dict(d)
    steps = 0
    done = {}
    while d:
        m = max(d, key=mkey)
        c = d[m]
        hit = False
        for lm, lc, g in gens:
            if len(lm) > len(m) or c % lc:
                continue
            q = mdiv(m, lm)
            if q is None:
                continue
            f = c // lc
            for gm, gc in g.items():
                k = mmul(gm, q)
                v = d.get(k, 0) - f * gc
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
            hit = True
            break
        if not hit:
            done[m] = c
            del d[m]
        steps += 1
        if steps > LIMIT or len(d) > LIMIT:
            d.update(done)
            return d
    return done


def prep(gens):
    out = []
    for g in gens:
        lm = lead(g)
        if lm is None:
            continue
        out.append((lm, g[lm], g))
    # the same equality usable with every monomial of top degree would be a Groebner basis question;
    # a second orientation is added for two-term leads
    return out


def inter_reduce(gens):
    """triangularise: reduce every generator by the earlier ones"""
    out = []
    for g in sorted(gens, key=lambda g: mkey(lead(g)) if lead(g) is not None else (0, ())):
        r = reduce(g, prep(out))
        if r and lead(r) is not None:
            out.append(r)
    return out


def expand_mods(p, depth=3):
    """replace x % m (symbolic m) by x - m*(x//m)"""
    if not isinstance(p, T):
        return p
    for _ in range(depth):
        d = ir._terms(p)
        m = {}
        for mono in d:
            for x in mono:
                if x.op == 'mod' and isinstance(x.a[1], T):
                    m[x] = ir.sub(x.a[0], ir.mul(x.a[1], ir._mk('div', (x.a[0], x.a[1]))))
        if not m:
            return p
        parts = []
        for mono, c in d.items():
            t = c
            for x in mono:
                t = ir.mul(t, m.get(x, x))
            parts.append(t)
        p = ir.add(*parts)
        if not isinstance(p, T):
            return p
    return p


def reduces_to_zero(ctx, p):
    if not isinstance(p, T):
        return p == 0
    gens = generators(ctx)
    if gens and len(ir._terms(p)) <= 200:
        if _zero(p, gens):
            return True
        q = expand_mods(p)
        if q is not p:
            g2 = []
            for g in gens:
                e = expand_mods(ir._from_terms(g))
                if isinstance(e, T):
                    g2.append(ir._terms(e))
            if _zero(q, g2):
                return True
    return congruent(ctx, p, gens)


def _zero(p, gens):
    if not isinstance(p, T):
        return p == 0
    d = ir._terms(p)
    r = reduce(d, prep(gens))
    if not r:
        return True
    r = reduce(d, prep(inter_reduce(gens)))
    return not r


def congruent(ctx, p, gens):
    """p = (P % m) - r with 0 <= r < m, and P - r in the ideal of the path equalities and m"""
    d = ir._terms(p)
    for mono, c in d.items():
        if len(mono) == 1 and mono[0].op == 'mod' and c in (1, -1):
            P, m = mono[0].a
            rest = ir._from_terms({k: -v * c for k, v in d.items() if k != mono})
            if isinstance(m, T) and ir.lo(m) < 1 and not ctx.quick(ir.ge(m, 1)):
                continue
            if not isinstance(m, T) and m < 1:
                continue
            if not in_range(ctx, rest, m):
                continue
            diff = ir.sub(P, rest)
            if isinstance(rest, T) and rest.op == 'mod' and rest.a[1] is m or (isinstance(rest, T) and rest.op == 'mod' and rest.a[1] == m):
                diff = ir.sub(P, rest.a[0])
            if multiple_of(ctx, diff, m, gens):
                return True
            e = expand_mods(strip_mods(diff, m))
            if isinstance(e, T) and e is not diff:
                g2 = [ir._terms(x) for x in (expand_mods(strip_mods(ir._from_terms(g), m)) for g in gens) if isinstance(x, T)]
                if multiple_of(ctx, e, m, g2):
                    return True
    return False


def in_range(ctx, r, m):
    if isinstance(r, T) and r.op == 'mod' and (r.a[1] is m or (not isinstance(m, T) and not isinstance(r.a[1], T) and r.a[1] == m)):
        return True
    a, b = ir.ge(r, 0), ir.lt(r, m)
    for t in (a, b):
        if t is True:
            continue
        if t is False:
            return False
        if ctx.quick(t) is not True:
            from . import solver
            if solver.check_sat(ctx.relevant(t) + [ir.not_(t)], 1500)[0] != 'unsat':
                return False
    return True


def multiple_of(ctx, diff, m, gens):
    if not isinstance(diff, T):
        return ir.mod(diff, m) == 0 if not isinstance(m, T) else diff == 0
    if isinstance(m, T):
        md = ir._terms(m)
    else:
        md = {(): m}
    # strip inner remainders by the same modulus
    diff = strip_mods(diff, m)
    if not isinstance(diff, T):
        return diff == 0 or (not isinstance(m, T) and diff % m == 0)
    g = []
    for x in gens:
        e = strip_mods(ir._from_terms(x), m)
        if isinstance(e, T):
            g.append(ir._terms(e))
    for e in mod_facts(ctx, m):
        g.append(ir._terms(strip_mods(e, m)) if isinstance(strip_mods(e, m), T) else {})
    g = [x for x in g if x]

    def final(r):
        if isinstance(m, T):
            r = reduce(r, prep([md]))
            return not r
        return all(c % m == 0 for c in r.values())

    def red(gg):
        if not isinstance(m, T):
            return reduce_mod(ir._terms(diff), prep_mod(gg, m), m)
        return reduce(ir._terms(diff), prep(gg + [md]))
    if final(red(g)):
        return True
    if g:
        if isinstance(m, T):
            if final(reduce(ir._terms(diff), prep(inter_reduce(g + [md])))):
                return True
            return bool(ctx.ideal) and in_ideal(ctx, ir._terms(diff), g, m)
        return final(reduce_mod(ir._terms(diff), prep_mod(inter_reduce_mod(g, m), m), m))
    return False


_ideals = {}


def in_ideal(ctx, diff, gens, m):
    """diff = 0 modulo m and the generators (Groebner basis over Z, see groebner.py)"""
    def drop(d):
        return {k: c for k, c in d.items() if m not in k}
    diff, gens = drop(diff), [drop(g) for g in gens]
    names = set()
    for k in diff:
        names.update(k)
    use, rest = [], [g for g in gens if any(k for k in g)]
    while True:
        more = [g for g in rest if any(x in names for k in g for x in k)]
        if not more:
            break
        rest = [g for g in rest if g not in more]
        use += more
        for g in more:
            for k in g:
                names.update(k)
    if len(names) > 40 or len(use) > 40:
        return False
    order = sorted(names, key=lambda x: -x.id)
    idx = {x: i for i, x in enumerate(order)}

    def conv(d):
        out = {}
        for k, c in d.items():
            e = [0] * len(order)
            for x in k:
                e[idx[x]] += 1
            out[tuple(e)] = c
        return out
    units = ctx.ideal if isinstance(ctx.ideal, (tuple, list)) else ()
    polys = [conv(g) for g in use]
    ident = (tuple(order), tuple(tuple(sorted(q.items())) for q in polys))
    I = _ideals.get(ident)
    if I is None:
        if len(_ideals) > 200:
            _ideals.clear()
        I = _ideals[ident] = groebner.Ideal(polys, len(order), 8, 3000, units)
    I.deadline = time.time() + 8
    return I.member(conv(diff))


def mod_facts(ctx, m):
    """polynomials e with e == 0 (mod m) from path facts (x % m) == c"""
    out = []
    for c in ctx.conds:
        if not isinstance(c, T):
            continue
        for x in (c.a if c.op == 'band' else (c,)):
            if x.op == 'eq' and isinstance(x.a[0], T):
                d = ir._terms(x.a[0])
                if any(len(k) == 1 and k[0].op == 'mod' and (k[0].a[1] is m or (not isinstance(m, T) and k[0].a[1] == m and not isinstance(k[0].a[1], T))) for k in d):
                    out.append(x.a[0])
    return out


def strip_mods(p, m):
    """replace x % m by x (valid modulo m), everywhere outside other operators"""
    for _ in range(6):
        if not isinstance(p, T):
            return p
        d = ir._terms(p)
        hit = False
        parts = []
        for mono, c in d.items():
            t = c
            for x in mono:
                if x.op == 'mod' and (x.a[1] is m or (not isinstance(m, T) and not isinstance(x.a[1], T) and x.a[1] == m)):
                    t = ir.mul(t, x.a[0])
                    hit = True
                else:
                    t = ir.mul(t, x)
            parts.append(t)
        if not hit:
            return p
        p = ir.add(*parts)
    return p


def prep_mod(gens, m):
    """generators made monic modulo m when the leading coefficient is invertible"""
    out = []
    for g in gens:
        lm = lead(g)
        if lm is None:
            continue
        lc = g[lm] % m
        try:
            iv = pow(lc, -1, m)
        except ValueError:
            continue
        out.append((lm, 1, {k: (v * iv) % m for k, v in g.items() if (v * iv) % m}))
    return out


def inter_reduce_mod(gens, m):
    out = []
    for g in sorted(gens, key=lambda g: mkey(lead(g)) if lead(g) is not None else (0, ())):
        r = reduce_mod(g, prep_mod(out, m), m)
        if r and lead(r) is not None:
            out.append(r)
    return out


def reduce_mod(d, gens, m):
    d = {k: v % m for k, v in d.items() if v % m}
    done = {}
    steps = 0
    while d:
        mm = max(d, key=mkey)
        c = d[mm]
        for lm, lc, g in gens:
            if len(lm) > len(mm):
                continue
            q = mdiv(mm, lm)
            if q is None:
                continue
            for gm, gc in g.items():
                k = mmul(gm, q)
                v = (d.get(k, 0) - c * gc) % m
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
            break
        else:
            done[mm] = c
            del d[mm]
        steps += 1
        if steps > 20000:
            d.update(done)
            return d
    return done
