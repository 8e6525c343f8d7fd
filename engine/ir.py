"""Hash-consed term language used by the verification-condition generator.

Integers are mathematical integers (Python 2 int/long semantics).  A term is
either a plain Python int / bool or a T.  Constructors keep a canonical form
(polynomials with integer coefficients over atoms; masks and shifts become
floor-division and remainder by powers of two; rotations become disjoint sums)
so that most obligations about bit-twiddling code close syntactically.

Every rewriting rule used here is listed in RULES with the side condition it
needs; engine/selftest.py evaluates every rule on random integers.
"""
from math import gcd

INF = float('inf')


class T(object):
    __slots__ = ('op', 'a', 'id', 'lo', 'hi', 'fv')

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('symbolic term used as a Python bool: %s' % show(self))
    # no __eq__: identity comparison (hash-consed)
    def __add__(self, o): return add(self, o)
    __radd__ = __add__
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    __rmul__ = __mul__
    def __neg__(self): return neg(self)
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return mod(o, self)
    def __floordiv__(self, o): return div(self, o)
    def __rfloordiv__(self, o): return div(o, self)
    def __pow__(self, o): return pow_(self, o)
    def __rpow__(self, o): return pow_(o, self)
    def __xor__(self, o): return xor(self, o)
    __rxor__ = __xor__
    def __and__(self, o): return and_(self, o)
    __rand__ = __and__
    def __or__(self, o): return or_(self, o)
    __ror__ = __or__
    def __lshift__(self, o): return shl(self, o)
    def __rshift__(self, o): return shr(self, o)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return gt(self, o)
    def __ge__(self, o): return ge(self, o)


_table = {}
_next = [0]


def reset():
    _table.clear()
    _memo.clear()
    _next[0] = 0


def _mk(op, a, lo=-INF, hi=INF):
    key = (op, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _next[0]
        _next[0] += 1
        t.lo = lo
        t.hi = hi
        t.fv = None
        _table[key] = t
    else:
        if lo > t.lo:
            t.lo = lo
        if hi < t.hi:
            t.hi = hi
    return t


BOOL_OPS = {'le', 'eq', 'not', 'band', 'bor', 'bvar', 'bapp'}


def is_bool(t):
    return isinstance(t, bool) or (isinstance(t, T) and t.op in BOOL_OPS)


def is_term(t):
    return isinstance(t, T)


def isconst(t):
    return not isinstance(t, T)


def lo(t):
    return t.lo if isinstance(t, T) else t


def hi(t):
    return t.hi if isinstance(t, T) else t


def var(name, lo=-INF, hi=INF):
    t = _table.get(('v', (name,)))
    if t is not None:
        if t.lo != lo or t.hi != hi:
            raise ValueError('variable %s declared with two ranges' % name)
        return t
    return _mk('v', (name,), lo, hi)


_fresh = [0]


def fresh(prefix='t', lo=-INF, hi=INF):
    _fresh[0] += 1
    if lo == -INF and hi == INF:
        return var('%s!%d' % (prefix, _fresh[0]))
    return var('%s!%d[%s,%s]' % (prefix, _fresh[0], lo, hi), lo, hi)


def bvar(name):
    return _mk('bvar', (name,), 0, 1)


# ---------------------------------------------------------------- polynomials
# poly term: op 'poly', a = ((mono, coef), ...) sorted by mono ids; mono is a
# tuple of atoms sorted by id (with repetition); () is the constant monomial.

def _terms(t):
    if not isinstance(t, T):
        t = int(t)
        return {(): t} if t else {}
    if t.op == 'poly':
        return dict(t.a)
    return {(t,): 1}


def _mono_key(m):
    return (len(m), tuple(x.id for x in m))


def _imul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0
        if x in (INF, -INF) or y in (INF, -INF):
            return INF if (x > 0) == (y > 0) else -INF
        return x * y
    c = (m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1]))
    return min(c), max(c)


def _mono_iv(m):
    l, h = 1, 1
    i = 0
    n = len(m)
    while i < n:
        j = i
        while j < n and m[j] is m[i]:
            j += 1
        e = j - i
        al, ah = m[i].lo, m[i].hi
        if e % 2 == 0:
            # even power is non-negative
            x = max(abs(al), abs(ah))
            mn = 0 if al <= 0 <= ah else min(abs(al), abs(ah))
            pl, ph = _safe_pow(mn, e), _safe_pow(x, e)
        else:
            pl, ph = _safe_pow(al, e), _safe_pow(ah, e)
        l, h = _imul((l, h), (pl, ph))
        i = j
    return l, h


def _safe_pow(x, e):
    if x in (INF, -INF):
        return x if e % 2 else INF
    return x ** e


def _recombine(d):
    """m*(x//m) + x%m  ->  x"""
    for mono, c in list(d.items()):
        if len(mono) == 1 and mono[0].op == 'mod' and mono in d:
            x, m = mono[0].a
            if isinstance(m, T):
                if m.op == 'poly' or m.lo < 1:
                    continue
                q = _table.get(('div', (x, m)))
                if q is None:
                    continue
                k, f = tuple(sorted((m, q), key=lambda z: z.id)), 1
            else:
                q = div(x, m)
                if not isinstance(q, T) or q.op == 'poly':
                    continue
                k, f = (q,), m
            if d.get(k) == c * f:
                d = dict(d)
                del d[k]
                del d[mono]
                for mm, cc in _terms(x).items():
                    d[mm] = d.get(mm, 0) + cc * c
                return _recombine({mm: cc for mm, cc in d.items() if cc})
    return d


def _from_terms(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return 0
    if len(d) > 1:
        for m in d:
            if len(m) == 1 and m[0].op == 'mod':
                d = _recombine(d)
                break
        if not d:
            return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return c
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0])))
    key = ('poly', items)
    t = _table.get(key)
    if t is not None:
        return t
    l = h = 0
    for m, c in items:
        if m == ():
            a = b = c
        else:
            a, b = _imul(_mono_iv(m), (c, c))
        # an infinite bound stays infinite (huge integers do not convert to float)
        l = l if l == -INF else a if a == -INF else l + a
        h = h if h == INF else b if b == INF else h + b
    return _mk('poly', items, l, h)


def add(*xs):
    d = {}
    for x in xs:
        if not isinstance(x, T):
            if x:
                d[()] = d.get((), 0) + int(x)
        elif x.op == 'poly':
            for m, c in x.a:
                d[m] = d.get(m, 0) + c
        else:
            if is_bool(x):
                x = b2i(x)
            m = (x,)
            d[m] = d.get(m, 0) + 1
    return _from_terms(d)


def scale(x, k):
    if not isinstance(x, T):
        return x * k
    if k == 1:
        return x
    return _from_terms({m: c * k for m, c in _terms(x).items()})


def neg(x):
    return scale(x, -1)


def sub(x, y):
    return add(x, neg(y))


MUL_LIMIT = 600


def mul(x, y):
    if not isinstance(x, T):
        if not isinstance(y, T):
            return x * y
        return scale(y, x)
    if not isinstance(y, T):
        return scale(x, y)
    if is_bool(x):
        x = b2i(x)
    if is_bool(y):
        y = b2i(y)
    a, b = _terms(x), _terms(y)
    if len(a) * len(b) > MUL_LIMIT:
        # keep as an opaque product of two atoms
        xa = _opaque(x)
        ya = _opaque(y)
        return _from_terms({tuple(sorted((xa, ya), key=lambda z: z.id)): 1})
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            coef = c1 * c2
            m = _mono_mul(m1, m2)
            if isinstance(m, tuple) and len(m) == 2 and isinstance(m[0], int):
                coef *= m[0]
                m = m[1]
            d[m] = d.get(m, 0) + coef
    return _from_terms(d)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    m = m1 + m2
    # combine powers of the same constant base: b^e1 * b^e2 = b^(e1+e2)
    pows = {}
    rest = []
    extra = 1
    for x in m:
        if x.op == 'pow' and not isinstance(x.a[0], T):
            pows.setdefault(x.a[0], []).append(x)
        else:
            rest.append(x)
    changed = False
    for b, xs in pows.items():
        if len(xs) > 1:
            p = pow_(b, add(*[x.a[1] for x in xs]))
            changed = True
            for mm, cc in _terms(p).items():
                rest.extend(mm)
                extra *= cc
        else:
            rest.extend(xs)
    rest = tuple(sorted(rest, key=lambda z: z.id))
    if changed and extra != 1:
        return (extra, rest)
    return rest


def _opaque(x):
    if x.op == 'poly':
        return _mk('opq', (x,), x.lo, x.hi)
    return x


def unopaque(x):
    return x.a[0] if x.op == 'opq' else x


def square(x):
    return mul(x, x)


POWMOD = [None]      # b ** e % m in canonical form


def pow_(b, e):
    """b ** e for e >= 0."""
    if not isinstance(e, T):
        if not isinstance(b, T):
            return b ** e
        if e <= 4:
            r = 1
            for _ in range(e):
                r = mul(r, b)
            return r
        return _mk('pow', (b, e), 0 if e % 2 == 0 else -INF, INF) if b.lo < 0 else _mk('pow', (b, e), _safe_pow(b.lo, e), _safe_pow(b.hi, e))
    if b == -1 and not isinstance(b, T):
        return sub(1, mul(2, mod(e, 2)))
    if not isinstance(b, T) and b in (0, 1):
        if b == 1:
            return 1
    # split constant part
    d = _terms(e)
    c = d.get((), 0)
    if c > 0 and not isinstance(b, T):
        d = dict(d)
        d.pop(())
        rest = _from_terms(d)
        # only where the remaining exponent is certainly nonnegative
        if lo(rest) >= 0:
            return scale(pow_(b, rest), b ** c)
    if isinstance(b, T):
        l = 1 if b.lo >= 1 else -INF
        if b.lo >= 0:
            l = max(l, 0)
        return _mk('pow', (b, e), l, INF)
    l = -INF
    h = INF
    if b >= 1 and e.lo >= 0:
        l = b ** e.lo if e.lo < 4096 else 1
        if e.hi < 4096:
            h = b ** e.hi
    elif b >= 1:
        l = 0
    return _mk('pow', (b, e), l, h)


# ---------------------------------------------------------------- div / mod

def _split_div(d, g):
    """Split monomial dict into (multiples of g, rest)."""
    A, B = {}, {}
    for m, c in d.items():
        if c % g == 0:
            A[m] = c
        else:
            if m == ():
                q, r = divmod(c, g)
                if q:
                    A[m] = q * g
                B[m] = r
            else:
                B[m] = c
    return A, B


def _iv_terms(d):
    t = _from_terms(d)
    return lo(t), hi(t)


def is_pow2(n):
    return n > 0 and n & (n - 1) == 0


def mod(x, m):
    """Python (floor) remainder, m != 0."""
    if not isinstance(m, T):
        if not isinstance(x, T):
            return x % m
        if is_bool(x):
            x = b2i(x)
        if m < 0:
            return _mk('mod', (x, m), m + 1, 0)
        if m == 1:
            return 0
        if x.lo >= 0 and x.hi < m:
            return x
        key = ('modc', x.id, m)
        r = _memo.get(key)
        if r is None:
            r = _mod_const(x, m)
            _memo[key] = r
        return r
    if not isinstance(x, T):
        if x == 0:
            return 0
    if is_bool(x):
        x = b2i(x)
    if isinstance(x, T) and x.op == 'pow' and isinstance(x.a[0], T) and POWMOD[0] is not None and m.lo >= 1 and lo(x.a[1]) >= 0:
        return POWMOD[0](x.a[0], x.a[1], m)
    ml, mh = m.lo, m.hi
    if ml >= 1 and lo(x) >= 0 and hi(x) < ml:
        return x
    # symbolic modulus: drop monomials containing m, strip inner mods by m
    if ml >= 1 and isinstance(x, T):
        d = _terms(x)
        changed = False
        out = {}
        if m.op == 'poly':
            # m = sum; try to cancel when x is k*m exactly
            q = _exact_div(x, m)
            if q is not None:
                return 0
        rest = []
        mset = None
        if m.op == 'poly' and len(m.a) == 1:
            mset = m.a[0]
        for mm, c in d.items():
            if m.op != 'poly' and m in mm:
                changed = True
                continue
            if mset is not None and c % mset[1] == 0 and _sub_multiset(mset[0], mm):
                changed = True
                continue
            inner = None
            if len(mm) == 1 and mm[0].op == 'mod' and mm[0].a[1] is m:
                inner = mm[0].a[0]
            if inner is not None:
                rest.append(scale(inner, c) if isinstance(inner, T) else inner * c)
                changed = True
            else:
                out[mm] = c
        if changed:
            return mod(add(_from_terms(out), *rest), m)
        if x.op == 'ite':
            return ite(x.a[0], mod(x.a[1], m), mod(x.a[2], m))
    l, h = -INF, INF
    if ml >= 1:
        l = 0
        h = mh - 1
        if lo(x) >= 0:
            h = min(h, hi(x))
    return _mk('mod', (x, m), l, h)


def _sub_multiset(a, b):
    b = list(b)
    for x in a:
        if x in b:
            b.remove(x)
        else:
            return False
    return True


def _exact_div(x, m):
    """x == q*m for a constant q?  returns q or None."""
    dx, dm = _terms(x), _terms(m)
    if set(dx) != set(dm):
        return None
    q = None
    for k, c in dm.items():
        if dx[k] % c:
            return None
        qq = dx[k] // c
        if q is None:
            q = qq
        elif q != qq:
            return None
    return q


_memo = {}


def _strip_mod(z, M):
    """z without inner reductions modulo multiples of M (equal to z modulo M), None when there are none"""
    out, extra = {}, []
    for mm, c in _terms(z).items():
        a = mm[0] if len(mm) == 1 else None
        if a is not None and a.op == 'mod' and not isinstance(a.a[1], T) and a.a[1] > 0 and (a.a[1] * c) % M == 0:
            extra.append(scale(a.a[0], c))
        else:
            out[mm] = c
    return add(_from_terms(out), *extra) if extra else None


def _mod_const(x, m):
    d = _terms(x)
    out = {}
    extra = []
    for mm, c in d.items():
        cc = c % m
        if cc == 0:
            continue
        if len(mm) == 1:
            a = mm[0]
            if a.op == 'mod' and not isinstance(a.a[1], T) and a.a[1] > 0 and (a.a[1] * cc) % m == 0:
                extra.append(scale(a.a[0], cc))
                continue
            if a.op == 'ite' and len(d) == 1 and cc == 1:
                return ite(a.a[0], mod(a.a[1], m), mod(a.a[2], m))
        if any(a.op == 'mod' and not isinstance(a.a[1], T) and a.a[1] == m for a in mm) and len(mm) == 1:
            extra.append(scale(mm[0].a[0], cc))
            continue
        out[mm] = cc
    if extra:
        return mod(add(_from_terms(out), *extra), m)
    if () in out:
        out[()] %= m
    # prefer small negative coefficients?  keep residues in [0, m)
    y = _from_terms(out)
    if not isinstance(y, T):
        return y % m
    if y.lo >= 0 and y.hi < m:
        return y
    if y.op in ('xor', 'and', 'or') and is_pow2(m):
        f = {'xor': xor, 'and': and_, 'or': or_}[y.op]
        return f(*[mod(z, m) for z in y.a])
    d = _terms(y)
    # e*(z // c) modulo m depends on z modulo c*m/gcd(e, m) only: inner reductions by multiples of that are dropped
    changed, keep = [], {}
    for mm, e in d.items():
        a = mm[0] if len(mm) == 1 else None
        if a is not None and a.op == 'div' and not isinstance(a.a[1], T) and a.a[1] > 0:
            z = _strip_mod(a.a[0], a.a[1] * (m // gcd(e, m)))
            if z is not None:
                changed.append(scale(div(z, a.a[1]), e))
                continue
        keep[mm] = e
    if changed:
        return mod(add(_from_terms(keep), *changed), m)
    # common factor
    g = m
    for c in d.values():
        g = gcd(g, c)
    if g > 1:
        return scale(mod(_from_terms({k: c // g for k, c in d.items()}), m // g), g)
    # c*A + B with 0 <= B < c, c | m
    cands = sorted({gcd(c, m) for c in d.values()} - {1, m})
    for c in cands:
        A, B = _split_div(d, c)
        if not A:
            continue
        bl, bh = _iv_terms(B)
        if bl >= 0 and bh < c:
            return add(scale(mod(_from_terms({k: v // c for k, v in A.items()}), m // c), c), _from_terms(B))
    if y.op == 'opq':
        return mod(y.a[0], m)
    h = m - 1
    if y.lo >= 0:
        h = min(h, y.hi)
    return _mk('mod', (y, m), 0, h)


def div(x, m):
    """Python floor division, m != 0."""
    if not isinstance(m, T):
        if not isinstance(x, T):
            return x // m
        if is_bool(x):
            x = b2i(x)
        if m < 0:
            return div(neg(x), -m)
        if m == 1:
            return x
        key = ('divc', x.id, m)
        r = _memo.get(key)
        if r is None:
            r = _div_const(x, m)
            _memo[key] = r
        return r
    if is_bool(x):
        x = b2i(x)
    ml = m.lo
    if ml >= 1:
        if lo(x) >= 0 and hi(x) < ml:
            return 0
        if isinstance(x, T):
            # pull out multiples of m (single-atom or single-monomial m)
            mm0, c0 = None, 1
            if m.op != 'poly':
                mm0 = (m,)
            elif len(m.a) == 1:
                mm0, c0 = m.a[0]
            if mm0 is not None:
                q, r = {}, {}
                for mm, c in _terms(x).items():
                    if c % c0 == 0 and _sub_multiset(mm0, mm):
                        z = list(mm)
                        for w in mm0:
                            z.remove(w)
                        q[tuple(z)] = c // c0
                    else:
                        r[mm] = c
                if q:
                    return add(_from_terms(q), div(_from_terms(r), m))
            if x.op == 'div' and lo(x.a[1]) >= 1:
                return div(x.a[0], mul(x.a[1], m))
            # g*X + r over g*M
            if c0 > 1:
                A, B = _split_div(_terms(x), c0)
                bl, bh = _iv_terms(B)
                if bl >= 0 and bh < c0:
                    return div(_from_terms({k: v // c0 for k, v in A.items()}), _from_terms({mm0: 1}))
    l, h = -INF, INF
    if ml >= 1:
        if lo(x) >= 0:
            l = 0
            h = hi(x) // ml if hi(x) != INF else INF
    return _mk('div', (x, m), l, h)


def _fdiv(v, m):
    if v in (INF, -INF):
        return v
    return v // m


def _div_const(x, m):
    if x.lo >= 0 and x.hi < m:
        return 0
    d = _terms(x)
    A, B = _split_div(d, m)
    if A:
        q = _from_terms({k: c // m for k, c in A.items()})
        return add(q, div(_from_terms(B), m))
    if x.op == 'div':
        if not isinstance(x.a[1], T) and x.a[1] > 0:
            return div(x.a[0], x.a[1] * m)
        if isinstance(x.a[1], T) and x.a[1].lo >= 1:
            return div(x.a[0], scale(x.a[1], m))
    if x.op == 'mod' and not isinstance(x.a[1], T) and x.a[1] > 0 and x.a[1] % m == 0:
        return mod(div(x.a[0], m), x.a[1] // m)
    if x.op in ('xor', 'and', 'or') and is_pow2(m):
        f = {'xor': xor, 'and': and_, 'or': or_}[x.op]
        return f(*[div(z, m) for z in x.a])
    if x.op == 'ite':
        return ite(x.a[0], div(x.a[1], m), div(x.a[2], m))
    # floor((g*A + B)/(g*m')) with 0 <= B < g
    cands = sorted({gcd(c, m) for c in d.values()} - {1}, reverse=True)
    for g in cands:
        A, B = _split_div(d, g)
        if not A:
            continue
        bl, bh = _iv_terms(B)
        if bl >= 0 and bh < g:
            return div(_from_terms({k: v // g for k, v in A.items()}), m // g)
    # negative coefficients / parts known to be inside one residue: x = m*A' + B
    if x.op == 'opq':
        return div(x.a[0], m)
    l, h = _fdiv(x.lo, m), _fdiv(x.hi, m)
    if l == h:
        return l
    return _mk('div', (x, m), l, h)


# ---------------------------------------------------------------- bit operations

def shl(x, k):
    if isinstance(k, T):
        return mul(x, pow_(2, k))
    return scale(x, 1 << k) if isinstance(x, T) else x << k


def shr(x, k):
    if isinstance(k, T):
        return div(x, pow_(2, k))
    return div(x, 1 << k)


def inv(x):
    return sub(neg(x), 1)


def xor(*xs):
    c = 0
    cnt = {}
    st = list(xs)
    while st:
        x = st.pop()
        if not isinstance(x, T):
            c ^= int(x)
        elif x.op == 'xor':
            st.extend(x.a)
        else:
            if is_bool(x):
                x = b2i(x)
                if not isinstance(x, T):
                    c ^= x
                    continue
            cnt[x] = cnt.get(x, 0) ^ 1
    items = [x for x, n in cnt.items() if n]
    if not items:
        return c
    if c == -1 and len(items) == 1:
        return inv(items[0])
    if len(items) == 1 and c == 0:
        return items[0]
    if all(x.lo >= 0 for x in items) and c >= 0:
        # disjoint operands: xor is a sum
        if len(items) + (1 if c else 0) == 2:
            a = items[0]
            b = items[1] if len(items) == 2 else c
            r = _disjoint_sum(a, b)
            if r is not None:
                return r
        # common power-of-two factor
        g = c
        for x in items:
            g = gcd(g, _content(x))
        if g:
            g &= -g
        if g > 1:
            return scale(xor(*[div(x, g) for x in items] + [c // g]), g)
        if is_bit_complement(items, c):
            return sub(c, items[0])
        h = max([x.hi for x in items] + [c])
        h = INF if h == INF else (1 << int(h).bit_length()) - 1
        l = 0
    else:
        l, h = -INF, INF
        if all(x.lo != -INF and x.hi != INF for x in items):
            n = max([max(abs(x.lo), abs(x.hi)) for x in items] + [abs(c)])
            n = 1 << int(n).bit_length()
            l, h = -n, n
    a = tuple(sorted(items, key=lambda z: z.id))
    if c:
        a = a + (c,)
    return _mk('xor', a, l, h)


def is_bit_complement(items, c):
    return len(items) == 1 and c > 0 and is_pow2(c + 1) and items[0].hi <= c


def _content(x):
    """largest integer known to divide x (0 for 0)."""
    if not isinstance(x, T):
        return abs(x)
    g = 0
    for m, c in _terms(x).items():
        g = gcd(g, c)
    return g


def _low_zero(x):
    g = _content(x)
    return g & -g if g else 0


def _disjoint_sum(a, b):
    """a + b when a, b >= 0 have no common set bit by interval/divisibility; else None."""
    for p, q in ((a, b), (b, a)):
        z = _low_zero(p)
        if z == 0:
            return q
        if lo(q) >= 0 and hi(q) < z:
            return add(p, q)
    # block-wise disjointness: all monomials of a and b occupy disjoint bit ranges
    ra, rb = _bit_ranges(a), _bit_ranges(b)
    if ra is not None and rb is not None:
        for (l1, h1) in ra:
            for (l2, h2) in rb:
                if l1 < h2 and l2 < h1:
                    return None
        return add(a, b)
    return None


def _bit_ranges(x):
    """Disjoint bit ranges covering the set bits of x >= 0, or None."""
    if not isinstance(x, T):
        if x < 0:
            return None
        r, i = [], 0
        while x >> i:
            if (x >> i) & 1:
                j = i
                while (x >> j) & 1:
                    j += 1
                r.append((i, j))
                i = j
            else:
                i += 1
        return r
    r = []
    for m, c in _terms(x).items():
        if c < 0:
            return None
        if m == ():
            r.extend(_bit_ranges(c))
            continue
        l, h = _mono_iv(m)
        if l < 0 or h == INF:
            return None
        z = (c & -c).bit_length() - 1
        r.append((z, int(h * c).bit_length()))
    r.sort()
    for i in range(len(r) - 1):
        if r[i][1] > r[i + 1][0]:
            return None
    return r


def _mask_runs(c):
    runs, i = [], 0
    while c >> i:
        if (c >> i) & 1:
            j = i
            while (c >> j) & 1:
                j += 1
            runs.append((i, j))
            i = j
        else:
            i += 1
    return runs


def and_(*xs):
    c = -1
    items = []
    st = list(xs)
    while st:
        x = st.pop()
        if not isinstance(x, T):
            c &= int(x)
        elif x.op == 'and':
            st.extend(x.a)
        else:
            if is_bool(x):
                x = b2i(x)
                if not isinstance(x, T):
                    c &= x
                    continue
            if x not in items:
                items.append(x)
    if c == 0:
        return 0
    if not items:
        return c
    if c > 0:
        runs = _mask_runs(c)
        if len(items) == 1 and len(runs) <= 20:
            x = items[0]
            return add(*[scale_any(mod(div(x, 1 << i), 1 << (j - i)), 1 << i) for i, j in runs])
        if len(runs) == 1 and runs[0][0] == 0:
            items2 = [mod(x, c + 1) for x in items]
            if any(not isinstance(x, T) for x in items2):
                return and_(*items2)
            items = []
            for x in items2:
                if x not in items:
                    items.append(x)
            if len(items) == 1:
                return items[0]
            c = -1
    elif c == -1:
        if len(items) == 1:
            return items[0]
    else:
        # clearing mask: x & ~m  = x - (x & m)
        if len(items) == 1:
            return sub(items[0], and_(items[0], ~c))
    # disjoint -> 0
    if len(items) == 2 and c == -1 and items[0].lo >= 0 and items[1].lo >= 0:
        for p, q in ((items[0], items[1]), (items[1], items[0])):
            z = _low_zero(p)
            if hi(q) < z:
                return 0
    nn = [x for x in items if x.lo >= 0]
    if nn or c >= 0:
        l = 0
        h = min([x.hi for x in nn] + ([c] if c >= 0 else []))
    else:
        l, h = -INF, INF
    a = tuple(sorted(items, key=lambda z: z.id))
    if c != -1:
        a = a + (c,)
    return _mk('and', a, l, h)


def scale_any(x, k):
    return scale(x, k) if isinstance(x, T) else x * k


def or_(*xs):
    c = 0
    items = []
    st = list(xs)
    while st:
        x = st.pop()
        if not isinstance(x, T):
            c |= int(x)
        elif x.op == 'or':
            st.extend(x.a)
        else:
            if is_bool(x):
                x = b2i(x)
                if not isinstance(x, T):
                    c |= x
                    continue
            if x not in items:
                items.append(x)
    if not items:
        return c
    if c == 0 and len(items) == 1:
        return items[0]
    if c == -1:
        return -1
    if c == 1 and len(items) == 1 and items[0].hi == INF:
        # x | 1 = x - x mod 2 + 1
        return add(items[0], neg(mod(items[0], 2)), 1)
    if all(x.lo >= 0 for x in items) and c >= 0:
        # merge disjoint operands greedily
        ops = items + ([c] if c else [])
        merged = True
        while merged and len(ops) > 1:
            merged = False
            for i in range(len(ops)):
                for j in range(i + 1, len(ops)):
                    r = _disjoint_sum(ops[i], ops[j])
                    if r is not None:
                        ops = [o for k, o in enumerate(ops) if k not in (i, j)] + [r]
                        merged = True
                        break
                if merged:
                    break
        if len(ops) == 1:
            return ops[0]
        items = [o for o in ops if isinstance(o, T)]
        c = 0
        for o in ops:
            if not isinstance(o, T):
                c |= o
        g = c
        for x in items:
            g = gcd(g, _content(x))
        g &= -g
        if g > 1:
            return scale(or_(*[div(x, g) for x in items] + [c // g]), g)
        h = max([x.hi for x in items] + [c])
        h = INF if h == INF else (1 << int(h).bit_length()) - 1
        l = max([x.lo for x in items] + [c])
    else:
        l, h = -INF, INF
    a = tuple(sorted(items, key=lambda z: z.id))
    if c:
        a = a + (c,)
    return _mk('or', a, l, h)


# ---------------------------------------------------------------- booleans

def not_(b):
    if isinstance(b, bool):
        return not b
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le':       # not (p <= 0)  ==  p >= 1  ==  1-p <= 0
        return le(sub(1, b.a[0]), 0)
    return _mk('not', (b,), 0, 1)


def and_b(*bs):
    out = []
    st = list(reversed(bs))
    while st:
        b = st.pop()
        if b is True:
            continue
        if b is False:
            return False
        if b.op == 'band':
            st.extend(reversed(b.a))
            continue
        if b not in out:
            out.append(b)
    for b in out:
        if not_(b) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mk('band', tuple(sorted(out, key=lambda z: z.id)), 0, 1)


def or_b(*bs):
    out = []
    st = list(reversed(bs))
    while st:
        b = st.pop()
        if b is False:
            continue
        if b is True:
            return True
        if b.op == 'bor':
            st.extend(reversed(b.a))
            continue
        if b not in out:
            out.append(b)
    for b in out:
        if not_(b) in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mk('bor', tuple(sorted(out, key=lambda z: z.id)), 0, 1)


def implies(a, b):
    return or_b(not_(a), b)


def le(x, y):
    p = sub(x, y)
    if not isinstance(p, T):
        return p <= 0
    if p.hi <= 0:
        return True
    if p.lo > 0:
        return False
    # divide by gcd of the non-constant coefficients (integers): g*q + c <= 0 <=> q <= floor(-c/g)
    d = _terms(p)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, c)
    if g > 1:
        c = d.get((), 0)
        dd = {m: v // g for m, v in d.items() if m != ()}
        k = -((-c) // g)      # ceil(c/g)
        dd[()] = k
        p = _from_terms(dd)
        if p.hi <= 0:
            return True
        if p.lo > 0:
            return False
    return _mk('le', (p,), 0, 1)


def lt(x, y):
    return le(add(x, 1), y)


def ge(x, y):
    return le(y, x)


def gt(x, y):
    return lt(y, x)


def eq(x, y):
    if is_bool(x) and is_bool(y):
        if isinstance(x, bool):
            return y if x else not_(y)
        if isinstance(y, bool):
            return x if y else not_(x)
        if x is y:
            return True
        return or_b(and_b(x, y), and_b(not_(x), not_(y)))
    p = sub(x, y)
    if not isinstance(p, T):
        return p == 0
    if p.lo > 0 or p.hi < 0:
        return False
    d = _terms(p)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, c)
    c = d.get((), 0)
    if c % g:
        return False
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    lead = items[-1][1]
    s = g if lead > 0 else -g
    p = _from_terms({m: v // s for m, v in d.items()})
    return _mk('eq', (p,), 0, 1)


def ne(x, y):
    return not_(eq(x, y))


def b2i(b):
    if isinstance(b, bool):
        return 1 if b else 0
    return _mk('ite', (b, 1, 0), 0, 1)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b or (not isinstance(a, T) and not isinstance(b, T) and a == b and type(a) == type(b)):
        return a
    if is_bool(a) and is_bool(b):
        return or_b(and_b(c, a), and_b(not_(c), b))
    if c.op == 'not':
        return ite(c.a[0], b, a)
    return _mk('ite', (c, a, b), min(lo(a), lo(b)), max(hi(a), hi(b)))


def app(name, *args, **kw):
    """Uninterpreted / specification function application (integer result)."""
    return _mk('app', (name,) + args, kw.get('lo', -INF), kw.get('hi', INF))


def bapp(name, *args):
    return _mk('bapp', (name,) + args, 0, 1)


# ---------------------------------------------------------------- traversal

def children(t):
    op = t.op
    if op == 'poly':
        for m, c in t.a:
            for x in m:
                yield x
    elif op in ('v', 'bvar'):
        return
    elif op in ('app', 'bapp'):
        for x in t.a[1:]:
            for y in _arg_terms(x):
                yield y
    else:
        for x in t.a:
            if isinstance(x, T):
                yield x


def _arg_terms(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            for z in _arg_terms(y):
                yield z


def free_vars(t):
    """frozenset of 'v'/'bvar' terms in t."""
    if not isinstance(t, T):
        return frozenset()
    if t.fv is not None:
        return t.fv
    stack = [t]
    order = []
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen or x.fv is not None:
            continue
        seen.add(x)
        order.append(x)
        stack.extend(children(x))
    for x in sorted(order, key=lambda z: z.id):
        if x.op in ('v', 'bvar'):
            x.fv = frozenset((x,))
        else:
            s = set()
            for y in children(x):
                if y.fv is None:
                    free_vars(y)
                s |= y.fv
            x.fv = frozenset(s)
    return t.fv


def subst(t, m, memo=None):
    """Substitute variables (dict T->term)."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    fv = free_vars(t)
    if not any(v in fv for v in m):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t] = r
    return r


KEY_NORM = [None]


def _norm(x, old):
    if isinstance(x, tuple) and x != old and KEY_NORM[0] is not None:
        return KEY_NORM[0](x)
    return x


APP_HOOKS = {}     # name -> function(*args) rebuilding the application canonically


def rebuild(t, f):
    op = t.op
    if op == 'poly':
        parts = []
        for mono, c in t.a:
            p = c
            for x in mono:
                p = mul(p, f(x))
            parts.append(p)
        return add(*parts)
    if op in ('v', 'bvar'):
        return t
    if op == 'div':
        return div(f(t.a[0]), f(t.a[1]))
    if op == 'mod':
        return mod(f(t.a[0]), f(t.a[1]))
    if op == 'xor':
        return xor(*[f(x) for x in t.a])
    if op == 'and':
        return and_(*[f(x) for x in t.a])
    if op == 'or':
        return or_(*[f(x) for x in t.a])
    if op == 'pow':
        return pow_(f(t.a[0]), f(t.a[1]))
    if op == 'opq':
        return f(t.a[0])
    if op == 'ite':
        return ite(f(t.a[0]), f(t.a[1]), f(t.a[2]))
    if op == 'app':
        args = tuple(_norm(f(x), x) for x in t.a[1:])
        h = APP_HOOKS.get(t.a[0])
        if h is not None:
            return h(*args)
        return _mk('app', (t.a[0],) + args, t.lo, t.hi)
    if op == 'bapp':
        args = tuple(_norm(f(x), x) for x in t.a[1:])
        h = APP_HOOKS.get(t.a[0])
        if h is not None:
            return h(*args)
        return _mk('bapp', (t.a[0],) + args, 0, 1)
    if op == 'le':
        return le(f(t.a[0]), 0)
    if op == 'eq':
        return eq(f(t.a[0]), 0)
    if op == 'not':
        return not_(f(t.a[0]))
    if op == 'band':
        return and_b(*[f(x) for x in t.a])
    if op == 'bor':
        return or_b(*[f(x) for x in t.a])
    raise AssertionError(op)


def evaluate(t, env, apps=None, memo=None):
    """Concrete evaluation.  env: dict from variable name to int/bool.
    apps: dict name -> python function on evaluated args."""
    if memo is None:
        memo = {}

    def ev(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(ev(y) for y in x)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op in ('v', 'bvar'):
            r = env[x.a[0]]
        elif op == 'poly':
            r = 0
            for mono, c in x.a:
                p = c
                for y in mono:
                    p *= ev(y)
                    if p == 0:
                        break
                r += p
        elif op == 'div':
            r = ev(x.a[0]) // ev(x.a[1])
        elif op == 'mod':
            r = ev(x.a[0]) % ev(x.a[1])
        elif op == 'xor':
            r = 0
            for y in x.a:
                r ^= ev(y)
        elif op == 'and':
            r = -1
            for y in x.a:
                r &= ev(y)
        elif op == 'or':
            r = 0
            for y in x.a:
                r |= ev(y)
        elif op == 'pow':
            r = ev(x.a[0]) ** ev(x.a[1])
        elif op == 'opq':
            r = ev(x.a[0])
        elif op == 'ite':
            r = ev(x.a[1]) if ev(x.a[0]) else ev(x.a[2])
        elif op in ('app', 'bapp'):
            r = apps[x.a[0]](*[ev(y) for y in x.a[1:]])
        elif op == 'le':
            r = ev(x.a[0]) <= 0
        elif op == 'eq':
            r = ev(x.a[0]) == 0
        elif op == 'not':
            r = not ev(x.a[0])
        elif op == 'band':
            r = all(ev(y) for y in x.a)
        elif op == 'bor':
            r = any(ev(y) for y in x.a)
        else:
            raise AssertionError(op)
        memo[x] = r
        return r
    return ev(t)


def show(t, depth=12):
    if not isinstance(t, T):
        return hex(t) if isinstance(t, int) and not isinstance(t, bool) and abs(t) > 65536 else str(t)
    if depth <= 0:
        return '...'
    s = lambda x: show(x, depth - 1)
    op = t.op
    if op in ('v', 'bvar'):
        return t.a[0]
    if op == 'poly':
        out = []
        for m, c in t.a:
            f = [s(x) for x in m]
            if c != 1 or not f:
                f.insert(0, s(c))
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if op in ('app', 'bapp'):
        return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[1:]))
    if op in ('le', 'eq'):
        return '(%s %s 0)' % (s(t.a[0]), {'le': '<=', 'eq': '=='}[op])
    sym = {'div': '//', 'mod': '%', 'xor': '^', 'and': '&', 'or': '|', 'pow': '**',
           'band': 'and', 'bor': 'or'}
    if op in sym:
        return '(' + (' %s ' % sym[op]).join(s(x) for x in t.a) + ')'
    if op == 'not':
        return 'not ' + s(t.a[0])
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(s(x) for x in t.a)
    return '%s%r' % (op, tuple(s(x) for x in t.a))
