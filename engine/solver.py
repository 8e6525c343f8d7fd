"""Discharging obligations with z3 (integer mode with uninterpreted specification
functions, or exact bit-vector mode when every subterm is bounded)."""
import time
import z3
from . import ir
from .ir import T, INF

PAIRS = {}          # spec function name -> f(args, other args) -> boolean facts relating two applications
FACTS = {}          # spec function name -> f(*args) -> list of boolean facts about that application
stats = {'queries': 0, 'time': 0.0, 'cache': 0, 'proved_z3': 0, 'proved_syntactic': 0, 'unknown': 0}
TIMEOUT_MS = 8000


class Lower(object):
    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.seen_axiom = set()
        self.pows = {}
        self.funcs = {}
        self.depth = 0
        self.apps = []

    def fun(self, name, n, sort=None):
        k = (name, n)
        f = self.funcs.get(k)
        if f is None:
            f = z3.Function(name, *([z3.IntSort()] * n + [z3.IntSort() if sort is None else sort]))
            self.funcs[k] = f
        return f

    def bound(self, t, z):
        if t.lo != -INF:
            self.axioms.append(z >= int(t.lo))
        if t.hi != INF:
            self.axioms.append(z <= int(t.hi))

    def low(self, t):
        if not isinstance(t, T):
            if isinstance(t, bool):
                return z3.BoolVal(t)
            return z3.IntVal(t)
        r = self.memo.get(t)
        if r is None:
            # iterative post-order to avoid deep recursion
            stack = [t]
            while stack:
                x = stack[-1]
                if x in self.memo:
                    stack.pop()
                    continue
                todo = [y for y in self.kids(x) if y not in self.memo]
                if todo:
                    stack.extend(todo)
                    continue
                self.memo[x] = self.one(x)
                stack.pop()
            r = self.memo[t]
        return r

    def kids(self, t):
        if t.op in ('app', 'bapp'):
            return [x for x in t.a[1:] if isinstance(x, T)]
        return list(ir.children(t))

    def g(self, x):
        if isinstance(x, T):
            return self.memo[x]
        if isinstance(x, bool):
            return z3.BoolVal(x)
        return z3.IntVal(x)

    def one(self, t):
        op = t.op
        g = self.g
        if op == 'v':
            z = z3.Int(t.a[0])
            self.bound(t, z)
            return z
        if op == 'bvar':
            return z3.Bool(t.a[0])
        if op == 'poly':
            parts = []
            for m, c in t.a:
                fs = [g(x) for x in m]
                if not fs:
                    parts.append(z3.IntVal(c))
                else:
                    p = fs[0]
                    for f in fs[1:]:
                        p = p * f
                    parts.append(p if c == 1 else c * p)
            z = parts[0] if len(parts) == 1 else z3.Sum(parts)
            if any(len(m) > 1 for m, c in t.a):
                for m, c in t.a:
                    if len(m) > 1:
                        l, h = ir._mono_iv(m)
                        if l != -INF or h != INF:
                            p = g(m[0])
                            for f in m[1:]:
                                p = p * g(f)
                            if l != -INF:
                                self.axioms.append(p >= int(l))
                            if h != INF:
                                self.axioms.append(p <= int(h))
            return z
        if op in ('div', 'mod'):
            x, m = t.a
            if not isinstance(m, T) and m > 0:
                return (g(x) / m) if op == 'div' else (g(x) % m)
            return self.divmod(x, m)[0 if op == 'div' else 1]
        if op in ('xor', 'and', 'or'):
            args = [g(x) for x in t.a]
            f = self.fun('bit_' + op, 2)
            z = args[0]
            for y in args[1:]:
                z = f(z, y)
            self.bound(t, z)
            return z
        if op == 'pow':
            b, e = t.a
            z = self.fun('pow', 2)(g(b), g(e))
            self.pow_axioms(b, e, z, t)
            return z
        if op == 'opq':
            return g(t.a[0])
        if op == 'ite':
            return z3.If(g(t.a[0]), g(t.a[1]), g(t.a[2]))
        if op in ('app', 'bapp'):
            ints, key = [], [t.a[0]]
            for x in t.a[1:]:
                if isinstance(x, tuple):
                    key.append(x)
                else:
                    key.append(None)
                    ints.append(g(x))
            name = t.a[0]
            if any(k is not None for k in key[1:]):
                name = name + '@' + str(_keyid(tuple(key)))
            f = self.fun(name, len(ints), z3.BoolSort() if op == 'bapp' else None)
            z = f(*ints) if ints else z3.Const(name, z3.BoolSort() if op == 'bapp' else z3.IntSort())
            if op == 'app':
                self.bound(t, z)
            self.apps.append(t)
            return z
        if op == 'le':
            return g(t.a[0]) <= 0
        if op == 'eq':
            return g(t.a[0]) == 0
        if op == 'not':
            return z3.Not(g(t.a[0]))
        if op == 'band':
            return z3.And([g(x) for x in t.a])
        if op == 'bor':
            return z3.Or([g(x) for x in t.a])
        raise AssertionError(op)

    def divmod(self, x, m):
        k = ('dm', x if not isinstance(x, T) else x.id, not isinstance(x, T), m if not isinstance(m, T) else m.id, not isinstance(m, T))
        r = self.memo.get(k)
        if r is None:
            q = self.fun('idiv', 2)(self.g(x), self.g(m))
            s = self.fun('imod', 2)(self.g(x), self.g(m))
            zx, zm = self.g(x), self.g(m)
            self.axioms.append(z3.Implies(zm != 0, zx == zm * q + s))
            self.axioms.append(z3.Implies(zm > 0, z3.And(s >= 0, s < zm)))
            self.axioms.append(z3.Implies(zm < 0, z3.And(s <= 0, s > zm)))
            # non-linear consequences the solver does not find by itself
            self.axioms.append(z3.Implies(z3.And(zm > 0, zx >= 0), z3.And(q >= 0, q <= zx)))
            self.axioms.append(z3.Implies(z3.And(zm > 1, zx > 0), q < zx))
            self.axioms.append(z3.Implies(z3.And(zm > 0, zx >= 0, zx < zm), z3.And(q == 0, s == zx)))
            self.axioms.append(z3.Implies(z3.And(zm > 0, zx >= zm), q >= 1))
            # nested division by a constant multiple:  x // (c*M) == (x // M) // c
            if isinstance(m, T) and m.op == 'poly' and len(m.a) == 1 and m.a[0][1] > 1 and m.lo >= 1:
                c = m.a[0][1]
                M = ir._from_terms({m.a[0][0]: 1})
                self.low(M)
                q2 = self.divmod(x, M)[0]
                self.axioms.append(q == q2 / c)
            r = (q, s)
            self.memo[k] = r
        return r

    def pow_axioms(self, b, e, z, t):
        zb, ze = self.g(b), self.g(e)
        self.axioms.append(z3.Implies(ze == 0, z == 1))
        self.axioms.append(z3.Implies(ze == 1, z == zb))
        self.axioms.append(z3.Implies(z3.And(zb >= 1, ze >= 0), z >= 1))
        if not isinstance(b, T) and b >= 2:
            self.axioms.append(z3.Implies(ze >= 0, z > ze))
            for (e2, z2) in self.pows.get(b, []):
                self.axioms.append(z3.Implies(z3.And(ze >= 0, ze < self.g(e2)), z * b <= z2))
                self.axioms.append(z3.Implies(z3.And(self.g(e2) >= 0, self.g(e2) < ze), z2 * b <= z))
                d = ir.sub(e, e2)
                if not isinstance(d, T):
                    if d > 0:
                        self.axioms.append(z3.Implies(self.g(e2) >= 0, z == z2 * (b ** d)))
                    else:
                        self.axioms.append(z3.Implies(self.g(e) >= 0, z2 == z * (b ** -d)))
                self.axioms.append(z3.Implies(self.g(e2) == ze, z2 == z))
            self.pows.setdefault(b, []).append((e, z))

    def spec_facts(self, rounds=2):
        """instances of the registered facts for the applications that occur"""
        out = []
        done = set()

        def add(b):
            if b is not True and b not in self.seen_axiom:
                self.seen_axiom.add(b)
                out.append(self.low(b))
        for _ in range(rounds):
            apps, self.apps = self.apps, []
            for t in apps:
                if t in done:
                    continue
                f = FACTS.get(t.a[0])
                if f is not None:
                    for b in f(*t.a[1:]):
                        add(b)
                f = PAIRS.get(t.a[0])
                if f is not None:
                    for u in done:
                        if u.a[0] == t.a[0]:
                            for b in f(t.a[1:], u.a[1:]):
                                add(b)
                done.add(t)
        return out


_keyids = {}


def _keyid(k):
    i = _keyids.get(k)
    if i is None:
        i = len(_keyids)
        _keyids[k] = i
    return i


def reset():
    _keyids.clear()
    _cache.clear()


_cache = {}


class Model(object):
    def __init__(self, m, lower):
        self.m, self.lower = m, lower

    def int(self, t):
        if not isinstance(t, T):
            return t
        L = Lower()
        L.memo = self.lower.memo
        L.funcs = self.lower.funcs
        z = L.low(t)
        v = self.m.eval(z, model_completion=True)
        try:
            return v.as_long()
        except AttributeError:
            return bool(z3.is_true(v))


def limits(s, ms):
    """work limit, so that answers do not depend on the load of the machine; the time limit is only a safety net"""
    s.set('rlimit', 3000 * ms)
    s.set('timeout', 6 * ms)


def check_sat(conds, timeout=None, want_model=False):
    """satisfiability of a conjunction: 'unsat' | 'sat' | 'unknown' (and a model)"""
    live = []
    for c in conds:
        if c is True:
            continue
        if c is False:
            return ('unsat', None)
        live.append(c)
    key = (frozenset(c.id for c in live), want_model)
    r = _cache.get(key)
    if r is not None:
        stats['cache'] += 1
        return r
    t0 = time.time()
    stats['queries'] += 1
    res = None
    bv = None
    if any(_has_bitops(c) for c in live):
        bv = _try_bv(live, timeout or TIMEOUT_MS, want_model)
    if bv is not None and bv[0] == 'unsat':
        res = bv
    else:
        L = Lower()
        zs = [L.low(c) for c in live]
        extra = L.spec_facts()
        s = z3.Solver()
        limits(s, timeout or TIMEOUT_MS)
        s.add(zs)
        s.add(extra)
        s.add(L.axioms)
        r = s.check()
        if r == z3.unsat:
            res = ('unsat', None)
        elif bv is not None and bv[0] == 'sat':
            res = bv
        elif r == z3.sat:
            res = ('sat', Model(s.model(), L) if want_model else None)
        else:
            stats['unknown'] += 1
            res = ('unknown', s.reason_unknown())
    stats['time'] += time.time() - t0
    _cache[key] = res
    return res


_hb = {}


def _has_bitops(t):
    if not isinstance(t, T):
        return False
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('xor', 'and', 'or'):
            return True
        st.extend(y for y in (x.a[1:] if x.op in ('app', 'bapp') else ir.children(x)) if isinstance(y, T))
    return False


# ---------------------------------------------------------------- bit-vector mode

class _NoBV(Exception):
    pass


def _try_bv(conds, timeout, want_model):
    try:
        return _bv(conds, timeout, want_model)
    except _NoBV:
        return None


def _bv(conds, timeout, want_model):
    # width: every subterm must have a finite interval
    seen = set()
    st = list(conds)
    mx = 2
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if len(seen) > 6000:
            raise _NoBV()
        if x.op in ('pow',):
            raise _NoBV()
        if not ir.is_bool(x):
            if x.lo == -INF or x.hi == INF:
                raise _NoBV()
            mx = max(mx, abs(x.lo), abs(x.hi))
        if x.op == 'poly':
            tot = 0
            for m, c in x.a:
                l, h = ir._mono_iv(m) if m else (1, 1)
                tot += max(abs(l), abs(h)) * abs(c)
            mx = max(mx, tot)
        if x.op in ('div', 'mod') and (isinstance(x.a[1], T) or x.a[1] <= 0):
            raise _NoBV()
        if x.op in ('div', 'mod'):
            mx = max(mx, x.a[1])
        st.extend(y for y in (x.a[1:] if x.op in ('app', 'bapp') else ir.children(x)) if isinstance(y, T))
        for y in x.a if x.op != 'poly' else ():
            if isinstance(y, int):
                mx = max(mx, abs(y))
    W = int(mx).bit_length() + 2
    if W > 600:
        raise _NoBV()
    memo = {}
    axioms = []
    C = lambda n: z3.BitVecVal(n, W)

    def low(t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        if not isinstance(t, T):
            return C(t)
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ('v', 'app'):
            if op == 'app' and all(not isinstance(y, tuple) for y in t.a[1:]):
                f = z3.Function('bv_' + t.a[0], *([z3.BitVecSort(W)] * (len(t.a) - 1) + [z3.BitVecSort(W)]))
                r = f(*[low(y) for y in t.a[1:]]) if len(t.a) > 1 else z3.BitVec('a_' + t.a[0], W)
            else:
                r = z3.BitVec('%s_%d' % (t.op, t.id), W)
            axioms.append(r >= C(int(t.lo)))
            axioms.append(r <= C(int(t.hi)))
        elif op == 'bvar':
            r = z3.Bool(t.a[0])
        elif op == 'bapp':
            r = z3.Bool('bapp_%d' % t.id)
        elif op == 'poly':
            r = None
            for m, c in t.a:
                p = C(c)
                for x in m:
                    p = p * low(x)
                r = p if r is None else r + p
        elif op == 'div':
            x, m = low(t.a[0]), t.a[1]
            if ir.is_pow2(m):
                r = x >> (m.bit_length() - 1)
            elif ir.lo(t.a[0]) >= 0:
                r = z3.UDiv(x, C(m))
            else:
                raise _NoBV()
        elif op == 'mod':
            x, m = low(t.a[0]), t.a[1]
            if ir.is_pow2(m):
                r = x & C(m - 1)
            elif ir.lo(t.a[0]) >= 0:
                r = z3.URem(x, C(m))
            else:
                raise _NoBV()
        elif op in ('xor', 'and', 'or'):
            r = low(t.a[0])
            for y in t.a[1:]:
                y = low(y)
                r = (r ^ y) if op == 'xor' else (r & y) if op == 'and' else (r | y)
        elif op == 'opq':
            r = low(t.a[0])
        elif op == 'ite':
            r = z3.If(low(t.a[0]), low(t.a[1]), low(t.a[2]))
        elif op == 'le':
            r = low(t.a[0]) <= C(0)
        elif op == 'eq':
            r = low(t.a[0]) == C(0)
        elif op == 'not':
            r = z3.Not(low(t.a[0]))
        elif op == 'band':
            r = z3.And([low(x) for x in t.a])
        elif op == 'bor':
            r = z3.Or([low(x) for x in t.a])
        else:
            raise _NoBV()
        memo[t] = r
        return r
    zs = [low(c) for c in conds]
    s = z3.Solver()
    limits(s, timeout)
    s.add(zs)
    s.add(axioms)
    r = s.check()
    if r == z3.unsat:
        return ('unsat', None)
    if r == z3.sat:
        return ('sat', BVModel(s.model(), memo, low) if want_model else None)
    return ('unknown', 'bv timeout')


class BVModel(object):
    def __init__(self, m, memo, low):
        self.m, self.memo, self._low = m, memo, low

    def int(self, t):
        if not isinstance(t, T):
            return t
        if t not in self.memo:
            if t.lo == -INF or t.hi == INF:
                return max(0, int(t.lo)) if t.lo != -INF else 0
            try:
                z = self._low(t)
            except Exception:
                return max(0, int(t.lo)) if t.lo != -INF else 0
        else:
            z = self.memo[t]
        v = self.m.eval(z, model_completion=True)
        if z3.is_bool(v):
            return z3.is_true(v)
        n = v.as_signed_long()
        if not ir.is_bool(t) and not (t.lo <= n <= t.hi):
            n = int(min(max(n, t.lo), t.hi))
        return n
