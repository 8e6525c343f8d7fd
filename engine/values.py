"""Run-time values of the symbolic interpreter (Python 2 semantics).

Concrete values stay concrete: int, bool, None, float, bytes (a Python 2 str),
tuple.  Symbolic integers and booleans are ir.T.  Symbolic byte strings are
SStr, mutable lists are VList.  Both use Seq: a finite list of pieces, each an
element ('e', value) or a run Run(n, body): n values body[#i := 0..n-1].
"""
from . import ir
from .ir import T

IDX = None   # bound index variable of string/list runs
_BINDERS = {}


def idx():
    return ir.var('#i', 0)


class Unsupported(Exception):
    """the construct is outside the supported subset: obligation undecided"""


def jdx():
    """bound index variable of list runs (their elements may be strings with runs of their own)"""
    return ir.var('#j', 0)


def unused(*vs):
    """an index variable that occurs in none of the values"""
    f = frozenset().union(*[vfree(v) for v in vs])
    n = 0
    while ir.var('#u%d' % n, 0) in f:
        n += 1
    return ir.var('#u%d' % n, 0)


class Run(object):
    __slots__ = ('n', 'body', 'v')

    def __init__(self, n, body, v=None):
        self.n, self.body = n, body
        self.v = v if v is not None else idx()

    def at(self, i):
        return vsubst(self.body, {self.v: i})

    def shifted(self, n, off):
        """run of n elements starting at offset off"""
        if off == 0 and not isinstance(off, T):
            return Run(n, self.body, self.v)
        if isinstance(off, T) and self.v in ir.free_vars(off):
            self = self.rebind(unused(self.body, off))
        return Run(n, vsubst(self.body, {self.v: ir.add(self.v, off)}), self.v)

    def rebind(self, v):
        return self if self.v is v else Run(self.n, vsubst(self.body, {self.v: v}), v)


class E(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Cat(object):
    """concatenation over v = 0..n-1 of a sequence (whose length does not depend on v)"""
    __slots__ = ('n', 'seq', 'v')

    def __init__(self, n, seq, v):
        self.n, self.seq, self.v = n, seq, v

    def block(self, k):
        return seq_subst(self.seq, {self.v: k})

    def shifted(self, n, off):
        if off == 0 and not isinstance(off, T):
            return Cat(n, self.seq, self.v)
        if isinstance(off, T) and self.v in ir.free_vars(off):
            self = self.rebind(unused(SStr(self.seq), off))
        return Cat(n, seq_subst(self.seq, {self.v: ir.add(self.v, off)}), self.v)

    def rebind(self, v):
        return self if self.v is v else Cat(self.n, seq_subst(self.seq, {self.v: v}), v)


def cat_depth(s):
    d = 0
    for p in s.pieces:
        if isinstance(p, Cat):
            d = max(d, 1 + cat_depth(p.seq))
        elif isinstance(p, Run) and isinstance(p.body, SStr):
            d = max(d, cat_depth(p.body.seq))
        elif isinstance(p, E) and isinstance(p.v, SStr):
            d = max(d, cat_depth(p.v.seq))
    return d


class _NoAnti(Exception):
    pass


def _anti(x, y, i):
    """template t with t[i:=0] = x, t[i:=1] = y (a guess, verified by the caller)"""
    if x is y:
        return x
    if isinstance(x, bool) or isinstance(y, bool):
        raise _NoAnti()
    if isinstance(x, (int, T)) and isinstance(y, (int, T)):
        if isinstance(x, T) and ir.is_bool(x) or isinstance(y, T) and ir.is_bool(y):
            raise _NoAnti()
        d = ir.sub(y, x)
        if not isinstance(d, T):
            return ir.add(x, ir.scale(i, d)) if d else x
        if not isinstance(x, T) or not isinstance(y, T) or x.op != y.op:
            raise _NoAnti()
        op = x.op
        if op == 'poly':
            p, q = dict(x.a), dict(y.a)
            common = ir._from_terms({m: c for m, c in p.items() if q.get(m) == c})
            pr = [(m, c) for m, c in p.items() if q.get(m) != c]
            qr = [(m, c) for m, c in q.items() if p.get(m) != c]
            out = common
            if len(pr) != len(qr):
                raise _NoAnti()
            for m, c in pr:
                for k, (m2, c2) in enumerate(qr):
                    if c2 == c and len(m2) == len(m):
                        try:
                            r = c
                            for a, b in _pair(m, m2):
                                r = ir.mul(r, _anti(a, b, i))
                        except _NoAnti:
                            continue
                        out = ir.add(out, r)
                        del qr[k]
                        break
                else:
                    raise _NoAnti()
            return out
        if op in ('xor', 'and', 'or'):
            if len(x.a) != len(y.a):
                raise _NoAnti()
            r = [_anti(a, b, i) for a, b in _pair(x.a, y.a)]
            return getattr(ir, {'xor': 'xor', 'and': 'and_', 'or': 'or_'}[op])(*r)
        if op == 'app':
            if x.a[0] != y.a[0] or len(x.a) != len(y.a):
                raise _NoAnti()
            ch = {}
            args = [_anti(a, b, i) for a, b in zip(x.a[1:], y.a[1:])]
            return ir.app(x.a[0], *args, lo=x.lo, hi=x.hi)
        if op in ('div', 'mod', 'pow'):
            return getattr(ir, {'div': 'div', 'mod': 'mod', 'pow': 'pow_'}[op])(_anti(x.a[0], y.a[0], i), _anti(x.a[1], y.a[1], i))
        raise _NoAnti()
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(_anti(a, b, i) for a, b in zip(x, y))
    if x == y:
        return x
    raise _NoAnti()


def _pair(xs, ys):
    """match the members of two multisets by shape"""
    xs, ys = list(xs), list(ys)
    out = []
    for a in list(xs):
        if any(a is b for b in ys):
            out.append((a, a))
            xs.remove(a)
            ys = [b for b in ys if b is not a] + [a] * (sum(1 for b in ys if b is a) - 1)

    def key(t):
        return (t.op, t.a[0] if t.op in ('app', 'bapp') else '') if isinstance(t, T) else ('c', '')
    for a in xs:
        for k, b in enumerate(ys):
            if key(a) == key(b):
                out.append((a, b))
                del ys[k]
                break
        else:
            raise _NoAnti()
    return out


def refold(seq):
    """stretches of eight or more elements that are instances of one template become runs"""
    ps = seq.pieces
    if sum(1 for p in ps if isinstance(p, E)) < 8:
        return seq
    out = []
    k = 0
    i = idx()
    while k < len(ps):
        if not isinstance(ps[k], E) or not isinstance(ps[k].v, T):
            out.append(ps[k])
            k += 1
            continue
        m = k
        while m < len(ps) and isinstance(ps[m], E) and isinstance(ps[m].v, T):
            m += 1
        done = k
        while m - done >= 8:
            t = None
            try:
                if i in ir.free_vars(ps[done].v):
                    raise _NoAnti()
                t = _anti(ps[done].v, ps[done + 1].v, i)
            except _NoAnti:
                pass
            c = done
            if isinstance(t, T):
                while c < m and vsubst(t, {i: c - done}) is ps[c].v:
                    c += 1
            if c - done >= 8:
                out.append(Run(c - done, t, i))
                done = c
            else:
                out.append(ps[done])
                done += 1
        out.extend(ps[done:m])
        k = m
    return Seq(out)


def mkcat(n, seq, v):
    """Seq for the concatenation over v in [0, n) of seq"""
    seq = refold(seq)
    c = seq.length()
    if v in vfree(c):
        raise Unsupported('blocks of varying length')
    nv = ir.var('#k%d' % cat_depth(seq), 0)
    if nv in seq_free(seq) and nv is not v:
        nv = ir.fresh('#kk', 0)
    if nv is not v:
        seq = seq_subst(seq, {v: nv})
    return Seq([Cat(n, seq, nv)])


def continues(q, p):
    """run p goes on with the values of run q"""
    b = vsubst(q.body, {q.v: ir.add(q.v, q.n)})
    if same_value(b, p.body):
        return True
    h = ir.hi(p.n) if isinstance(p.n, T) else p.n
    if h > 4096 or not isinstance(b, T) or not isinstance(p.body, T) or b.op != p.body.op:
        return False
    if b.op == 'app' and b.a[0] != p.body.a[0]:
        return False
    # the index stays below the length: quotients and remainders by larger numbers disappear
    i = ir.var('#i[%d]' % h, 0, max(0, h - 1))
    return same_value(vsubst(b, {q.v: i}), vsubst(p.body, {p.v: i}))


class Seq(object):
    __slots__ = ('pieces', '_len')

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, Cat):
                n = p.n
                ps = p.seq.pieces
                if not ps:
                    continue
                if not isinstance(n, T):
                    if n <= 0:
                        continue
                    if n <= 4:
                        for i in range(n):
                            out.extend(p.block(i).pieces)
                        continue
                if len(ps) == 1 and isinstance(ps[0], E):
                    b = idx() if is_simple(ps[0].v) else jdx()
                    p = Run(n, vsubst(ps[0].v, {p.v: b}), b)
                elif len(ps) == 1 and isinstance(ps[0], Run) and is_simple(ps[0].body):
                    r = ps[0]
                    b = idx()
                    c = r.n
                    if not isinstance(c, T) or ir.lo(c) >= 1:
                        # simultaneous substitution of both indices
                        tmp = ir.fresh('#t', 0)
                        body = vsubst(vsubst(r.body, {r.v: tmp}), {p.v: ir.div(b, c)})
                        p = Run(ir.mul(n, c), vsubst(body, {tmp: ir.mod(b, c)}), b)
                if isinstance(p, Cat):
                    if out and isinstance(out[-1], Cat) and out[-1].v is p.v and same_seq(seq_subst(out[-1].seq, {p.v: ir.add(p.v, out[-1].n)}), p.seq):
                        out[-1] = Cat(ir.add(out[-1].n, p.n), out[-1].seq, p.v)
                        continue
                    out.append(p)
                    continue
            if isinstance(p, Run):
                n = p.n
                if not isinstance(n, T):
                    if n <= 0:
                        continue
                    if n <= 4:
                        out.extend(E(p.at(i)) for i in range(n))
                        continue
                if out and isinstance(out[-1], Run):
                    q = out[-1]
                    # contiguous runs of the same body merge
                    if q.v is p.v and is_simple(q.body) and is_simple(p.body) and continues(q, p):
                        out[-1] = Run(ir.add(q.n, p.n), q.body, q.v)
                        continue
            out.append(p)
        self.pieces = tuple(out)
        self._len = None

    def length(self):
        if self._len is None:
            n = 0
            for p in self.pieces:
                n = ir.add(n, p.n if isinstance(p, Run) else ir.mul(p.n, p.seq.length()) if isinstance(p, Cat) else 1)
            self._len = n
        return self._len

    def concrete(self):
        """python list of the elements when the length is concrete, else None"""
        out = []
        for p in self.pieces:
            if isinstance(p, E):
                out.append(p.v)
            elif not isinstance(p.n, T):
                if p.n > 200000:
                    return None
                if isinstance(p, Cat):
                    for i in range(p.n):
                        c = p.block(i).concrete()
                        if c is None:
                            return None
                        out.extend(c)
                    continue
                out.extend(p.at(i) for i in range(p.n))
            else:
                return None
        return out

    def __repr__(self):
        return 'Seq' + repr([('e', p.v) if isinstance(p, E) else ('cat', p.n, p.seq) if isinstance(p, Cat) else ('run', p.n, p.body) for p in self.pieces])


def is_simple(v):
    return isinstance(v, (int, T))


def seq_of(items):
    return Seq([E(x) for x in items])


def concat(a, b):
    return Seq(a.pieces + b.pieces)


class SStr(object):
    """symbolic byte string"""
    __slots__ = ('seq', 'uni')

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return 'SStr(%r)' % (self.seq,)


def mkstr(seq):
    c = seq.concrete()
    if c is not None and all(isinstance(x, int) for x in c):
        return bytes(c)
    return SStr(seq)


def strseq(v):
    if isinstance(v, bytes):
        return Seq([E(x) for x in v]) if len(v) < 5 or len(set(v)) > 1 else Seq([Run(len(v), v[0])])
    return v.seq


class VHex(object):
    """the hexadecimal rendering of a byte sequence"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq


class VList(object):
    __slots__ = ('items', 'seq', 'tag', 'ro')

    def __init__(self, items=None, seq=None):
        self.items = items        # python list, or None when symbolic
        self.seq = seq
        self.tag = None
        self.ro = False
        if items is None:
            c = seq.concrete()
            if c is not None:
                self.items, self.seq = c, None

    def getseq(self):
        return self.seq if self.items is None else seq_of(self.items)

    def set_seq(self, seq):
        c = seq.concrete()
        if c is not None:
            self.items, self.seq = c, None
        else:
            self.items, self.seq = None, seq

    def __repr__(self):
        return 'VList(%r)' % (self.items if self.items is not None else self.seq,)


class VTupleSeq(object):
    """immutable sequence of symbolic length (a tuple)"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq


class VRange(object):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def count(self):
        s = self.step
        if s > 0:
            n = ir.div(ir.add(ir.sub(self.stop, self.start), s - 1), s)
        else:
            n = ir.div(ir.add(ir.sub(self.start, self.stop), -s - 1), -s)
        return n          # may be negative: treat as 0

    def at(self, k):
        return ir.add(self.start, ir.mul(k, self.step))


class VDict(object):
    def __init__(self, d=None):
        self.d = d if d is not None else {}


class VSet(object):
    def __init__(self, items=None):
        self.items = items or []


class VModule(object):
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.ns = {}
        self.future_division = False
        self.absolute_import = False

    def __repr__(self):
        return '<module %s>' % self.name


class VClass(object):
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = [self]
        for b in bases:
            for c in b.mro:
                if c in self.mro:
                    self.mro.remove(c)
                self.mro.append(c)

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


class _Missing(object):
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


class VObj(object):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.tag = None
        self.ro = False
        self.ghost = None

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, ', '.join('%s=%r' % (k, v) for k, v in sorted(self.attrs.items()) if not isinstance(v, VObj)))


class VFunc(object):
    def __init__(self, name, node, module, closure, cls=None, defaults=()):
        self.name, self.node, self.module, self.closure, self.cls = name, node, module, closure, cls
        self.defaults = defaults
        self.qual = None

    def __repr__(self):
        return '<function %s>' % (self.qual or self.name)


class VBound(object):
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class VClassMethod(object):
    def __init__(self, f):
        self.f = f


class VStaticMethod(object):
    def __init__(self, f):
        self.f = f


class VProperty(object):
    def __init__(self, f):
        self.f = f


class VSuper(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class VBuiltin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class VType(object):
    """a builtin type object"""
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<type %s>' % self.name


class VIter(object):
    """an iterator / generator already reduced to a list value"""
    def __init__(self, v):
        self.v = v
        self.pos = 0


class VRat(object):
    """a float known exactly: num/den (num an integer term)"""
    def __init__(self, num, den=1):
        self.num, self.den = num, den


class VOpaqueFloat(object):
    """a float about which nothing is known"""
    def __init__(self, lo=None):
        self.lo = lo


class PyRaise(Exception):
    """a Python-level exception in the interpreted program"""
    def __init__(self, name, value=None, bases=None):
        Exception.__init__(self, name)
        self.name = name
        self.value = value
        self.bases = bases or EXC_BASES.get(name, ('Exception', 'BaseException'))


EXC_BASES = {}
for _n, _b in [('AssertionError', 'StandardError'), ('ValueError', 'StandardError'), ('TypeError', 'StandardError'),
               ('ZeroDivisionError', 'ArithmeticError'), ('OverflowError', 'ArithmeticError'), ('ArithmeticError', 'StandardError'),
               ('IndexError', 'LookupError'), ('KeyError', 'LookupError'), ('LookupError', 'StandardError'), ('NameError', 'StandardError'),
               ('AttributeError', 'StandardError'), ('RuntimeError', 'StandardError'), ('NotImplementedError', 'RuntimeError'),
               ('ImportError', 'StandardError'), ('StopIteration', 'Exception'), ('StandardError', 'Exception'),
               ('UnboundLocalError', 'NameError'), ('Exception', 'BaseException'), ('struct.error', 'Exception'),
               ('UnicodeDecodeError', 'ValueError'), ('KeyboardInterrupt', 'BaseException'), ('SystemExit', 'BaseException')]:
    EXC_BASES[_n] = (_b,)


def exc_ancestors(name, extra=()):
    out, st = [], [name] + list(extra)
    while st:
        n = st.pop(0)
        if n in out:
            continue
        out.append(n)
        st.extend(EXC_BASES.get(n, ()))
    return out


# ---------------------------------------------------------------- helpers

def vsubst(v, m, memo=None):
    if isinstance(v, T):
        return ir.subst(v, m, {})
    if isinstance(v, (int, bytes, float, str)) or v is None:
        return v
    if isinstance(v, SStr):
        return mkstr(seq_subst(v.seq, m))
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, VList):
        r = VList([])
        r.set_seq(seq_subst(v.getseq(), m))
        return r
    if isinstance(v, VHex):
        return VHex(seq_subst(v.seq, m))
    if isinstance(v, VRat):
        return VRat(vsubst(v.num, m), v.den)
    return v


def seq_subst(s, m):
    out = []
    for p in s.pieces:
        if isinstance(p, E):
            out.append(E(vsubst(p.v, m)))
        else:
            n = vsubst(p.n, m)
            m2 = m
            if p.v in m:
                m2 = {k: x for k, x in m.items() if k is not p.v}
            iscat = isinstance(p, Cat)
            if not m2:
                out.append(Cat(n, p.seq, p.v) if iscat else Run(n, p.body, p.v))
                continue
            fv = seq_free(p.seq) if iscat else vfree(p.body)
            m2 = {k: x for k, x in m2.items() if k in fv}
            if any(isinstance(x, T) and p.v in ir.free_vars(x) for x in m2.values()):
                nv = ir.fresh('#c', 0)
                p = p.rebind(nv)
            if iscat:
                out.append(Cat(n, seq_subst(p.seq, m2) if m2 else p.seq, p.v))
            else:
                out.append(Run(n, vsubst(p.body, m2) if m2 else p.body, p.v))
    return Seq(out)


def vfree(v):
    """variables in a value"""
    if isinstance(v, T):
        return ir.free_vars(v)
    if isinstance(v, SStr):
        return seq_free(v.seq)
    if isinstance(v, VHex):
        return seq_free(v.seq)
    if isinstance(v, VList):
        return seq_free(v.getseq())
    if isinstance(v, tuple):
        s = frozenset()
        for x in v:
            s |= vfree(x)
        return s
    return frozenset()


def seq_free(s):
    r = frozenset()
    for p in s.pieces:
        if isinstance(p, E):
            r |= vfree(p.v)
        elif isinstance(p, Cat):
            r |= vfree(p.n) | seq_free(p.seq)
        else:
            r |= vfree(p.n) | vfree(p.body)
    return r


def same_value(a, b):
    """syntactic equality of values"""
    if isinstance(a, T) or isinstance(b, T):
        return a is b
    if isinstance(a, SStr) and isinstance(b, SStr):
        return same_seq(a.seq, b.seq)
    if isinstance(a, VHex) and isinstance(b, VHex):
        return same_seq(a.seq, b.seq)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            return a == b
        return False
    if isinstance(a, (int, float, bytes, str)) or a is None:
        return a == b
    return a is b


def same_seq(a, b):
    if len(a.pieces) != len(b.pieces):
        return False
    for p, q in zip(a.pieces, b.pieces):
        if type(p) is not type(q):
            return False
        if not isinstance(p, E) and p.v is not q.v and p.v in vfree(SStr(q.seq) if isinstance(q, Cat) else q.body):
            v = unused(*[x for r in (p, q) for x in (SStr(r.seq) if isinstance(r, Cat) else r.body,)])
            p, q = p.rebind(v), q.rebind(v)
        if isinstance(p, E):
            if not same_value(p.v, q.v):
                return False
        elif isinstance(p, Cat):
            if not (same_value(p.n, q.n) and same_seq(p.seq, q.rebind(p.v).seq)):
                return False
        elif not (same_value(p.n, q.n) and same_value(p.body, q.rebind(p.v).body)):
            return False
    return True


# ---- canonical keys: sequences as arguments of specification functions

def _level(v):
    n = 0
    for x in vfree(v):
        nm = x.a[0]
        if nm.startswith('#b'):
            n = max(n, int(nm[2:]) + 1)
    return n


def key_of(v):
    """hash-consable argument form of a value."""
    if isinstance(v, (bytes, SStr)):
        return seq_key(strseq(v))
    if isinstance(v, Seq):
        return seq_key(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, T)):
        return v
    if isinstance(v, tuple):
        return ('tup',) + tuple(key_of(x) for x in v)
    if isinstance(v, VList):
        return ('list', seq_key(v.getseq()))
    if v is None:
        return ('none',)
    raise Unsupported('no key for %r' % (v,))


def seq_key(s):
    out = ['seq']
    for p in s.pieces:
        if isinstance(p, E):
            out.append(('e', key_of(p.v)))
        elif isinstance(p, Cat):
            lv = 0
            for x in seq_free(p.seq):
                if x.a[0].startswith('#b'):
                    lv = max(lv, int(x.a[0][2:]) + 1)
            b = ir.var('#b%d' % lv, 0)
            out.append(('c', p.n, seq_key(seq_subst(p.seq, {p.v: b})), b))
        else:
            lv = _level(p.body)
            b = ir.var('#b%d' % lv, 0)
            h = ir.hi(p.n)
            body = p.body
            if isinstance(body, T) and h <= 4096:
                body = tighten(body, p.v, h)
            out.append(('r', p.n, key_of(vsubst(body, {p.v: b})), b))
    return tuple(out)


_TIGHT = {}


def tighten(body, v, h):
    """body for indices below h: quotients and remainders by larger numbers disappear"""
    r = _TIGHT.get((body, v, h))
    if r is None:
        r = body
        if v in ir.free_vars(body) and has_div(body, v):
            i = ir.var('#i[%d]' % h, 0, max(0, h - 1))
            r = vsubst(vsubst(body, {v: i}), {i: v})
        _TIGHT[body, v, h] = r
    return r


def has_div(t, v):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen or v not in ir.free_vars(x):
            continue
        seen.add(x)
        if x.op in ('div', 'mod'):
            return True
        st.extend(ir.children(x))
    return False


def unkey(k, raw=False):
    """inverse of key_of (sequence keys back to Seq of values)"""
    if isinstance(k, tuple):
        if k[0] == 'seq':
            out = []
            for p in k[1:]:
                if p[0] == 'e':
                    out.append(E(unkey(p[1])))
                elif p[0] == 'c':
                    inner = strseq(unkey(p[2]))
                    out.extend(mkcat(p[1], inner, p[3]).pieces)
                else:
                    body = unkey(p[2])
                    v = idx() if is_simple(body) else jdx()
                    out.append(Run(p[1], body, p[3]).rebind(unused(body) if v in vfree(body) and v is not p[3] else v))
            return Seq(out) if raw else mkstr(Seq(out))
        if k[0] == 'tup':
            return tuple(unkey(x) for x in k[1:])
        if k[0] == 'list':
            r = VList([])
            r.set_seq(unkey(k[1], True))
            return r
        if k[0] == 'none':
            return None
    return k


def _key_norm(k):
    if k and k[0] in ('seq', 'tup', 'list'):
        return key_of(unkey(k))
    return k


ir.KEY_NORM[0] = _key_norm
