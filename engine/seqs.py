"""Operations on sequences of symbolic length; every side condition goes through ctx
(decide = entailed by the path, branch = explore both outcomes)."""
from . import ir
from .ir import T
from .values import *


def known(ctx, t):
    """True/False when the path decides t, else None"""
    if isinstance(t, bool):
        return t
    return ctx.decide(t)


def sure(ctx, t):
    """decide t, splitting the path when it is open"""
    if isinstance(t, bool):
        return t
    return ctx.branch(t)


def plen(p):
    if isinstance(p, E):
        return 1
    if isinstance(p, Cat):
        return ir.mul(p.n, p.seq.length())
    return p.n


def min_len(ctx, a, b):
    """the smaller of two lengths (splits the path when open); concrete when they are equal"""
    d = ir.sub(a, b)
    if not isinstance(d, T):
        return b if d > 0 else a
    if isinstance(b, T) and not isinstance(a, T):
        a, b = b, a
    if known(ctx, ir.ge(a, b)):
        return b
    if ctx.branch(ir.le(a, b)):
        return a
    return b


def split_piece(ctx, p, off):
    """split a run at off, 0 <= off <= len(p) known"""
    if isinstance(p, Run):
        return Seq([Run(off, p.body, p.v)]), Seq([p.shifted(ir.sub(p.n, off), off)])
    c = p.seq.length()
    q, r = ir.div(off, c), ir.mod(off, c)
    # off == n*c: nothing on the right
    if known(ctx, ir.eq(r, 0)):
        return mkcat(q, p.seq, p.v), mkcat(ir.sub(p.n, q), seq_subst(p.seq, {p.v: ir.add(p.v, q)}), p.v)
    if not sure(ctx, ir.lt(q, p.n)):
        return Seq([p]), Seq([])
    l, rr = split_at(ctx, p.block(q), r)
    left = Seq(mkcat(q, p.seq, p.v).pieces + l.pieces)
    k = ir.add(q, 1)
    right = Seq(rr.pieces + mkcat(ir.sub(p.n, k), seq_subst(p.seq, {p.v: ir.add(p.v, k)}), p.v).pieces)
    return left, right


def split_at(ctx, seq, pos):
    """(first pos elements, rest); 0 <= pos <= len(seq) known"""
    left = []
    ps = list(seq.pieces)
    i = 0
    while i < len(ps):
        if not isinstance(pos, T) and pos <= 0:
            break
        p = ps[i]
        n = plen(p)
        d = ir.sub(pos, n)
        if isinstance(p, E):
            if not sure(ctx, ir.ge(pos, 1)):
                break
            left.append(p)
            pos = d
            i += 1
            continue
        if not isinstance(d, T) and d == 0:
            left.append(p)
            i += 1
            pos = 0
            break
        k = known(ctx, ir.ge(d, 0))
        if k is None and isinstance(p, Run) and known(ctx, ir.le(d, 0)):
            k = False
        if k is None:
            # zero offset is common (remaining part empty)
            if known(ctx, ir.le(pos, 0)):
                break
            k = ctx.branch(ir.ge(d, 0))
        if k:
            if isinstance(d, T) and known(ctx, ir.le(d, 0)):
                # exactly the whole piece
                left.append(Run(pos, p.body, p.v) if isinstance(p, Run) and not isinstance(pos, T) else p)
                i += 1
                pos = 0
                break
            left.append(p)
            pos = d
            i += 1
            continue
        l, r = split_piece(ctx, p, pos)
        return Seq(left + list(l.pieces)), Seq(list(r.pieces) + ps[i + 1:])
    return Seq(left), Seq(ps[i:])


def slice_seq(ctx, seq, lo_, hi_):
    """seq[lo:hi] for 0 <= lo <= hi <= len known"""
    a, _ = split_at(ctx, seq, hi_)
    _, b = split_at(ctx, a, lo_)
    return b


TABLES = {}


def table_app(values, i):
    n = len(values)
    if not isinstance(i, T):
        return values[i]
    if n >= 2:
        d = values[1] - values[0]
        if all(values[k + 1] - values[k] == d for k in range(n - 1)):
            return ir.add(values[0], ir.scale(i, d))
    return ir.app('tbl', ('t',) + tuple(values), i, lo=min(values), hi=max(values))


def _tbl_hook(key, i):
    if isinstance(i, T):
        return table_app(list(key[1:]), i)
    if 0 <= i < len(key) - 1:
        return key[1 + i]
    return ir._mk('app', ('tbl', key, i))


ir.APP_HOOKS['tbl'] = _tbl_hook


def tbl_eval(key, i):
    return key[1 + i]


def index_seq(ctx, seq, i):
    """element i, 0 <= i < len known"""
    ps = seq.pieces
    off = 0
    k = 0
    while k < len(ps):
        p = ps[k]
        if isinstance(p, E):
            if isinstance(i, T):
                # a stretch of concrete integers is a table
                m = k
                while m < len(ps) and isinstance(ps[m], E) and isinstance(ps[m].v, int) and not isinstance(ps[m].v, bool):
                    m += 1
                if m - k > 4:
                    end = ir.add(off, m - k)
                    if m == len(ps) or sure(ctx, ir.lt(i, end)):
                        return table_app([q.v for q in ps[k:m]], ir.sub(i, off))
                    off = end
                    k = m
                    continue
            if k == len(ps) - 1:
                return p.v
            if sure(ctx, ir.le(i, off)):
                return p.v
            off = ir.add(off, 1)
            k += 1
            continue
        n = plen(p)
        if k == len(ps) - 1 or sure(ctx, ir.lt(i, ir.add(off, n))):
            j = ir.sub(i, off)
            if isinstance(p, Run):
                return p.at(j)
            c = p.seq.length()
            return index_seq(ctx, p.block(ir.div(j, c)), ir.mod(j, c))
        off = ir.add(off, n)
        k += 1
    raise Unsupported('index outside the sequence')


def reverse_seq(seq):
    out = []
    for p in reversed(seq.pieces):
        if isinstance(p, E):
            out.append(p)
        elif isinstance(p, Run):
            out.append(Run(p.n, vsubst(p.body, {p.v: ir.sub(ir.sub(p.n, 1), p.v)}), p.v))
        else:
            inner = reverse_seq(seq_subst(p.seq, {p.v: ir.sub(ir.sub(p.n, 1), p.v)}))
            out.extend(mkcat(p.n, inner, p.v).pieces)
    return Seq(out)


# ------------------------------------------------------------------ equality

class Prover(object):
    """equality of values under the path condition of ctx"""

    def __init__(self, ctx, depth=6):
        self.ctx = ctx
        self.depth = depth
        self.why = None

    def fail(self, why):
        if self.why is None:
            self.why = why
        return False

    def value(self, a, b):
        if same_value(a, b):
            return True
        isstr = lambda v: isinstance(v, (bytes, SStr))
        isnum = lambda v: isinstance(v, (int, T))
        if isstr(a) and isstr(b):
            return self.seq(strseq(a), strseq(b))
        if isinstance(a, VHex) and isinstance(b, VHex):
            return self.seq(a.seq, b.seq)
        if isnum(a) and isnum(b):
            return self.num(a, b)
        if isinstance(a, VList) and isinstance(b, VList):
            return self.seq(a.getseq(), b.getseq())
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return self.fail('tuple lengths %d and %d' % (len(a), len(b)))
            return all(self.value(x, y) for x, y in zip(a, b))
        if isinstance(a, VRat) or isinstance(b, VRat):
            x = a if isinstance(a, VRat) else VRat(a) if isnum(a) else None
            y = b if isinstance(b, VRat) else VRat(b) if isnum(b) else None
            if x is not None and y is not None:
                return self.num(ir.mul(x.num, y.den), ir.mul(y.num, x.den))
        if isinstance(a, VObj) and isinstance(b, VObj) and a.cls is b.cls:
            if a is b:
                return True
            if set(a.attrs) != set(b.attrs):
                return self.fail('attributes differ')
            return all(self.value(a.attrs[k], b.attrs[k]) for k in a.attrs)
        if isinstance(a, float) and isnum(b) and not isinstance(b, T):
            return a == b
        if isinstance(b, float) and isnum(a) and not isinstance(a, T):
            return a == b
        return self.fail('%s is not %s' % (kind(a), kind(b)))

    def num(self, a, b):
        if ir.is_bool(a) != ir.is_bool(b):
            a = ir.b2i(a) if ir.is_bool(a) else a
            b = ir.b2i(b) if ir.is_bool(b) else b
        e = ir.eq(a, b)
        if isinstance(e, bool):
            return e or self.fail('%s != %s' % (short(a), short(b)))
        a1, b1 = self.decided(a), self.decided(b)
        m = self.ctx.rewrites()
        for _ in range(4 if m else 0):
            a2, b2 = replace(a1, m), replace(b1, m)
            if a2 is a1 and b2 is b1:
                break
            a1, b1 = a2, b2
        if a1 is not a or b1 is not b:
            a, b = a1, b1
            e = ir.eq(a, b)
            if isinstance(e, bool):
                return e or self.fail('%s != %s' % (short(a), short(b)))
        if self.ctx.entails(e):
            return True
        if self.depth > 0:
            a2, b2 = self.unify(a, b)
            if a2 is not a or b2 is not b:
                e = ir.eq(a2, b2)
                if e is True or (e is not False and self.ctx.entails(e)):
                    return True
        return self.fail('%s =?= %s' % (short(a), short(b)))

    def decided(self, t):
        """conditional expressions whose condition the path condition decides are replaced by the branch taken"""
        for _ in range(8):
            m = {}
            for x in all_ops(t, 'ite'):
                if self.ctx.entails(x.a[0]):
                    m[x] = x.a[1]
                elif self.ctx.entails(ir.not_(x.a[0])):
                    m[x] = x.a[2]
            if not m:
                break
            t = replace(t, m)
            if not isinstance(t, T):
                break
        return t

    def unify(self, a, b):
        """rewrite applications of the same function to provably equal arguments into one another"""
        xs = [t for t in all_apps(a)]
        ys = [t for t in all_apps(b)]
        xset = set(xs)
        m = {}
        self.depth -= 1
        try:
            for y in ys:
                if y in xset:
                    continue
                for x in xs:
                    if x.a[0] == y.a[0] and len(x.a) == len(y.a) and x is not y:
                        if all(self.arg(p, q) for p, q in zip(x.a[1:], y.a[1:])):
                            m[y] = x
                            break
        finally:
            self.depth += 1
        if not m:
            return a, b
        return a, replace(b, m)

    def arg(self, p, q):
        if p is q or (not isinstance(p, T) and not isinstance(q, T) and p == q):
            return True
        if isinstance(p, tuple) != isinstance(q, tuple):
            return False
        if isinstance(p, tuple):
            if p[:1] != q[:1] or p[:1] == ('t',):
                return False
            w = self.why
            self.why = None
            r = self.value(unkey(p), unkey(q))
            self.why = w
            return r
        w = self.why
        r = self.num(p, q)
        self.why = w
        return r

    def seq(self, a, b):
        return self.pieces(list(a.pieces), list(b.pieces), 12)

    def pieces(self, A, B, fuel):
        ctx = self.ctx
        A, B = list(A), list(B)
        while True:
            # drop pieces that are certainly empty
            while A and not isinstance(A[0], E) and known(ctx, ir.le(plen(A[0]), 0)):
                A.pop(0)
            while B and not isinstance(B[0], E) and known(ctx, ir.le(plen(B[0]), 0)):
                B.pop(0)
            if not A and not B:
                return True
            if not A or not B:
                r = (A or B)[0]
                return self.fail('lengths differ: %s left over' % short(plen(r)))
            p, q = A[0], B[0]
            if isinstance(p, E) and isinstance(q, E):
                if not self.value(p.v, q.v):
                    return False
                A.pop(0)
                B.pop(0)
                continue
            n, m = plen(p), plen(q)
            d = ir.sub(n, m)
            if not isinstance(d, T) and d == 0:
                c = 0
            elif isinstance(d, T) and known(ctx, ir.eq(d, 0)):
                c = 0
            else:
                ge = known(ctx, ir.ge(d, 0))
                if ge is None:
                    if fuel <= 0:
                        return self.fail('piece lengths not ordered')
                    t = ir.ge(d, 0)
                    for cond in (t, ir.not_(t)):
                        ctx.push(cond)
                        try:
                            if ctx.infeasible():
                                continue
                            if not self.pieces(A, B, fuel - 1):
                                return False
                        finally:
                            ctx.pop()
                    return True
                c = 1 if ge else -1
            if c == 0:
                if not self.same_len(p, q, fuel):
                    return False
                A.pop(0)
                B.pop(0)
                continue
            # split the longer one
            if c > 0:
                r = self.cut(p, m, q)
                if r is None:
                    return self.fail('cannot split a block sequence')
                A[0:1] = list(r[0]) + list(r[1])
                if len(r[0]) == 1 and isinstance(A[0], type(p)) and A[0] is p:
                    return self.fail('no progress')
            else:
                r = self.cut(q, n, p)
                if r is None:
                    return self.fail('cannot split a block sequence')
                B[0:1] = list(r[0]) + list(r[1])
            fuel -= 1
            if fuel < -200:
                return self.fail('piece matching did not finish')

    def cut(self, p, n, other):
        """split p so that its first part has length n (or at least makes progress)"""
        if isinstance(p, Run):
            return Seq([Run(n, p.body, p.v)]).pieces, Seq([p.shifted(ir.sub(p.n, n), n)]).pieces
        if isinstance(p, Cat):
            if isinstance(other, E):
                # peel the first block
                return p.block(0).pieces, mkcat(ir.sub(p.n, 1), seq_subst(p.seq, {p.v: ir.add(p.v, 1)}), p.v).pieces
            c = p.seq.length()
            q, r = ir.div(n, c), ir.mod(n, c)
            if (not isinstance(r, T) and r == 0) or known(self.ctx, ir.eq(r, 0)):
                return mkcat(q, p.seq, p.v).pieces, mkcat(ir.sub(p.n, q), seq_subst(p.seq, {p.v: ir.add(p.v, q)}), p.v).pieces
            if known(self.ctx, ir.lt(n, c)):
                return p.block(0).pieces, mkcat(ir.sub(p.n, 1), seq_subst(p.seq, {p.v: ir.add(p.v, 1)}), p.v).pieces
            try:
                self.ctx.nobranch += 1
                l, rr = split_piece(self.ctx, p, n)
            except NoBranch:
                return None
            finally:
                self.ctx.nobranch -= 1
            return l.pieces, rr.pieces
        return None

    def same_len(self, p, q, fuel):
        ctx = self.ctx
        n = plen(p)
        if isinstance(p, E):
            return self.pieces([p], list(Seq([Run(1, q.body, q.v)]).pieces) if isinstance(q, Run) else list(q.block(0).pieces), fuel - 1)
        if isinstance(q, E):
            return self.pieces(list(Seq([Run(1, p.body, p.v)]).pieces) if isinstance(p, Run) else list(p.block(0).pieces), [q], fuel - 1)
        if isinstance(p, Run) and isinstance(q, Run):
            i = ir.fresh('i', 0, max(0, ir.hi(n) - 1))
            ctx.push(ir.lt(i, n))
            try:
                if ctx.infeasible():
                    return True
                return self.value(p.at(i), q.at(i))
            finally:
                ctx.pop()
        # at least one Cat: go block by block
        if isinstance(p, Cat) and isinstance(q, Cat):
            c1, c2 = p.seq.length(), q.seq.length()
            if c1 is not c2 and not (not isinstance(c1, T) and not isinstance(c2, T) and c1 == c2) and not known(ctx, ir.eq(c1, c2)):
                return self.fail('blocks of different sizes')
        b = p if isinstance(p, Cat) else q
        o = q if b is p else p
        c = b.seq.length()
        i = ir.fresh('i', 0)
        ctx.push(ir.lt(i, b.n))
        try:
            if ctx.infeasible():
                return True
            blk = b.block(i)
            if isinstance(o, Cat):
                ob = o.block(i)
            else:
                ob = Seq([Run(c, vsubst(o.body, {o.v: ir.add(o.v, ir.mul(i, c))}), o.v)])
            x, y = (blk, ob) if b is p else (ob, blk)
            return self.pieces(x.pieces, y.pieces, fuel - 1)
        finally:
            ctx.pop()


class NoBranch(Exception):
    pass


def kind(v):
    return {int: 'int', T: 'int', bytes: 'str', SStr: 'str', tuple: 'tuple', VList: 'list'}.get(type(v), type(v).__name__ if v is not None else 'None')


SHORT = 300


def short(t):
    s = ir.show(t) if isinstance(t, (int, T)) else repr(t)
    return s if len(s) < SHORT else s[:SHORT] + '...'


def all_ops(t, op):
    seen, out = set(), []

    def walk(x):
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        for y in (x.a[1:] if x.op in ('app', 'bapp') else ir.children(x)):
            walk(y)
        if x.op == op:
            out.append(x)
    walk(t)
    return out


def subterms(t):
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
        if isinstance(x, T) and x not in seen:
            seen.add(x)
            for y in (x.a if x.op in ('app', 'bapp') else ir.children(x)):
                walk(y)
    walk(t)
    return seen


def all_apps(t):
    """applications occurring in t, innermost first"""
    seen, out = set(), []

    def walk(x):
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        for y in (x.a[1:] if x.op in ('app', 'bapp') else ir.children(x)):
            if isinstance(y, T):
                walk(y)
        if x.op in ('app', 'bapp') and x.a[0] != 'tbl':
            out.append(x)
        elif x.op == 'app':
            out.append(x)
    walk(t)
    return out


def replace(t, m, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(replace(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is None:
        r = ir.rebuild(t, lambda x: replace(x, m, memo))
        memo[t] = r
    return r
