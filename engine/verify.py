"""Contracts as harnesses over the real code, with three back ends sharing one text:

  SymV   arbitrary inputs, the code interpreted symbolically from its current source
         (every obligation must be discharged on every path);
  the same SymV over concrete inputs (self-test of the interpreter);
  RealV  concrete inputs, the code executed by Jython (replay of counterexamples,
         search for a failing input, conformance run).
"""
import random, time, hashlib, hmac, os, re
from . import ir, solver, seqs
from .ir import T
from .values import *
from .core import Ctx, ConcreteCtx
from .interp import Interp, PathEnd, Budget, Frame
from .seqs import NoBranch
from . import builtins2 as B
from .jy import server, RealExc, Handle, Ref, enc, ServerDied
from . import astload, theory


class Mismatch(Exception):
    """a contract clause is false on concrete inputs of the real code"""
    def __init__(self, name, detail):
        Exception.__init__(self, '%s: %s' % (name, detail))
        self.name, self.detail = name, detail


class Skip(Exception):
    """the drawn inputs are outside the precondition"""


class Obl(object):
    __slots__ = ('name', 'ok', 'why', 'model', 'path', 'how')

    def __init__(self, name, ok, why=None, model=None, path=None, how=None):
        self.name, self.ok, self.why, self.model, self.path, self.how = name, ok, why, model, path, how


def show(v):
    if isinstance(v, bytes):
        return 'hex:' + v.hex() if len(v) <= 80 else 'hex:%s...(%d bytes)' % (v[:40].hex(), len(v))
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'


# ------------------------------------------------------------------ shared specification helpers

class Base(object):
    """value helpers that work on concrete and symbolic values alike"""

    def cat(self, *xs):
        if all(isinstance(x, bytes) for x in xs):
            return b''.join(xs)
        ps = []
        for x in xs:
            ps.extend(strseq(x).pieces)
        return mkstr(Seq(ps))

    def len(self, s):
        if isinstance(s, (bytes, list, tuple)):
            return len(s)
        if isinstance(s, SStr):
            return s.seq.length()
        if isinstance(s, VList):
            return s.getseq().length()
        raise TypeError(repr(s))

    def at(self, s, i):
        """octet i of a string / element i of a list"""
        if isinstance(s, (bytes, list, tuple)) and not isinstance(i, T):
            return s[i]
        q = strseq(s) if isinstance(s, (bytes, SStr)) else s.getseq()
        return seqs.index_seq(self.ctx, q, i)

    def octet(self, s, i):
        """octet i of a string as an expression (conditional on i where the string has several parts); 0 outside"""
        if isinstance(s, bytes) and not isinstance(i, T):
            return s[i] if 0 <= i < len(s) else 0
        r, off, parts = 0, 0, []
        for p in strseq(s).pieces:
            n = seqs.plen(p)
            j = ir.sub(i, off)
            if isinstance(p, seqs.E):
                v = p.v
            elif isinstance(p, Run):
                v = p.at(j)
            else:
                raise Unsupported('get of a nested sequence')
            off = ir.add(off, n)
            parts.append((off, v))
        for end, v in reversed(parts):
            r = ir.ite(ir.lt(i, end), v, r)
        return ir.ite(ir.ge(i, 0), r, 0)

    def sl(self, s, i, j):
        if isinstance(s, bytes) and not isinstance(i, T) and not isinstance(j, T):
            return s[i:j]
        return mkstr(seqs.slice_seq(self.ctx, strseq(s), i, j))

    def byte(self, x):
        if isinstance(x, T):
            return SStr(Seq([E(x)]))
        return bytes((x,))

    def bytes_of(self, xs):
        if all(isinstance(x, int) for x in xs):
            return bytes(xs)
        return mkstr(seq_of(xs))

    def rep(self, b, n):
        """n copies of octet b"""
        if isinstance(n, T):
            return mkstr(Seq([Run(n, b)]))
        return bytes((b,)) * n if not isinstance(b, T) else mkstr(Seq([Run(n, b)]))

    def run(self, n, f):
        """f(0) f(1) ... f(n-1) as an octet string"""
        if not isinstance(n, T) and (n <= 64 or not self.sym):
            return self.bytes_of([f(i) for i in range(n)])
        return mkstr(Seq([Run(n, f(idx()))]))

    def pick(self, table, i):
        """table[i], 0 <= i < len(table)"""
        return seqs.table_app(list(table), i)

    def blocks(self, n, f):
        """f(0) || f(1) || ... || f(n-1), strings"""
        if not isinstance(n, T) and (n <= 8 or not self.sym):
            return self.cat(*[f(i) for i in range(n)])
        v = ir.fresh('#kk', 0)
        return mkstr(mkcat(n, strseq(f(v)), v))

    def items(self, v):
        """python list of the elements of a list/tuple/string of known length"""
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, SStr):
            c = v.seq.concrete()
        elif isinstance(v, VList):
            c = v.items
        else:
            raise Unsupported('items of %r' % (v,))
        if c is None:
            raise Unsupported('items of a sequence of unknown length')
        return list(c)

    def le(self, s):
        """little-endian value of a string of known length"""
        r = 0
        for i, x in enumerate(self.items(s)):
            r = r + x * (1 << (8 * i))
        return r

    def be(self, s):
        r = 0
        for x in self.items(s):
            r = r * 256 + x
        return r

    def to_le(self, x, n):
        return self.bytes_of([ir.mod(ir.div(x, 1 << (8 * i)), 256) if isinstance(x, T) else (x >> (8 * i)) & 255 for i in range(n)])

    def fdiv(self, x, m):
        return ir.div(x, m) if isinstance(x, T) or isinstance(m, T) else x // m

    def power(self, b, e):
        return ir.pow_(b, e) if isinstance(b, T) or isinstance(e, T) else b ** e

    def to_be(self, x, n):
        return self.bytes_of([ir.mod(ir.div(x, 1 << (8 * i)), 256) if isinstance(x, T) else (x >> (8 * i)) & 255 for i in reversed(range(n))])

    def xorb(self, a, b):
        n = self.len(a)
        if not isinstance(n, T) and (n <= 64 or not self.sym):
            return self.bytes_of([self.at(a, i) ^ self.at(b, i) for i in range(n)])
        return mkstr(self._xor_seqs(strseq(a), strseq(b)))

    def _xor_seqs(self, a, b):
        out = []
        A, Bs = a, b
        while A.pieces:
            p = A.pieces[0]
            q = Bs.pieces[0]
            n, m = seqs.plen(p), seqs.plen(q)
            d = ir.sub(n, m)
            if isinstance(d, T):
                if self.ctx.decide(ir.ge(n, m)) or not self.ctx.branch(ir.le(n, m)):
                    n = m
            elif d > 0:
                n = m
            x, A = seqs.split_at(self.ctx, A, n)
            y, Bs = seqs.split_at(self.ctx, Bs, n)
            out.extend(self._xor_piece(n, x, y))
        return Seq(out)

    def _xor_piece(self, n, x, y):
        if len(x.pieces) == 1 and len(y.pieces) == 1:
            p, q = x.pieces[0], y.pieces[0]
            if isinstance(p, Run) and isinstance(q, Run):
                return [Run(n, ir.xor(p.at(idx()), q.at(idx())))]
            if isinstance(p, Cat) and isinstance(q, Cat):
                inner = self._xor_seqs(p.seq, seq_subst(q.seq, {q.v: p.v}))
                return mkcat(p.n, inner, p.v).pieces
            if isinstance(p, Cat) and isinstance(q, Run):
                c = p.seq.length()
                other = Seq([Run(c, q.at(ir.add(ir.mul(p.v, c), idx())))])
                return mkcat(p.n, self._xor_seqs(p.seq, other), p.v).pieces
            if isinstance(p, Run) and isinstance(q, Cat):
                return self._xor_piece(n, y, x)
        i = idx()
        return [Run(n, ir.xor(seqs.index_seq(self.ctx, x, i), seqs.index_seq(self.ctx, y, i)))]

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (SStr, bytes)):
            n = self.len(a)
            if isinstance(n, T):
                raise Unsupported('ite of strings of unknown length')
            return self.bytes_of([ir.ite(c, self.at(a, i), self.at(b, i)) for i in range(n)])
        return ir.ite(c, a, b)

    def entry(self, xs, i):
        """element i of a list of integers"""
        if isinstance(xs, (list, tuple)):
            return xs[i]
        if not isinstance(xs, VList):
            raise Unsupported('entry of %r' % (xs,))
        s = xs.getseq()
        if len(s.pieces) == 1 and isinstance(s.pieces[0], Run):
            return s.pieces[0].at(i)
        if not isinstance(i, T):
            return self.items(xs)[i]
        raise Unsupported('entry of a composite list')

    def powmod(self, b, e, m):
        return B.powmod(b, e, m) if any(isinstance(x, T) for x in (b, e, m)) else pow(b, e, m)

    def gcd(self, a, b):
        return theory.gcd(a, b)

    def lcm(self, a, b):
        return theory.lcm(a, b)

    def jac(self, a, n):
        return theory.jac(a, n)

    def prime(self, p):
        return self.eqv(theory.prime(p), 1)

    def rem(self, a, m):
        return ir.mod(a, m) if isinstance(a, T) or isinstance(m, T) else a % m

    def ne(self, a, b):
        return ir.ne(a, b) if isinstance(a, T) or isinstance(b, T) else a != b

    def eqv(self, a, b):
        return ir.eq(a, b) if isinstance(a, T) or isinstance(b, T) else a == b

    def both(self, *cs):
        return ir.and_b(*cs)

    def either(self, *cs):
        return ir.or_b(*cs)

    def no(self, c):
        return ir.not_(c)

    def isnum(self, v):
        return isinstance(v, int) or (isinstance(v, T))


# ------------------------------------------------------------------ symbolic back end

def in_name(name):
    return 'in:' + name


class SymV(Base):
    sym = True

    def __init__(self, I, harness=None, draw=None):
        self.I, self.ctx = I, I.ctx
        self.draw = draw             # concrete inputs for interpreter self-tests
        self.inputs = {}
        self.obls = []
        self.seen = {}

    # ---- inputs
    def _decl(self, name, spec):
        self.inputs[name] = spec

    def int(self, name, lo=None, hi=None, gen=None):
        if self.draw is not None:
            return self.draw.int(name, lo, hi, gen)
        l, h = -ir.INF if lo is None else lo, ir.INF if hi is None else hi
        nm = in_name(name)
        t = ir._table.get(('v', (nm,)))
        if t is not None and (t.lo, t.hi) != (l, h):
            nm += '[%s,%s]' % (l, h)
        v = ir.var(nm, l, h)
        self._decl(name, ('int', v))
        return v

    def bytes(self, name, n, gen=None):
        if self.draw is not None:
            return self.draw.bytes(name, n, gen)
        body = ir.app(in_name(name), idx(), lo=0, hi=255)
        self._decl(name, ('bytes', n, in_name(name)))
        return mkstr(Seq([Run(n, body)]))

    def digits(self, name, n, gen=None):
        """an arbitrary string of n octets with its big-endian value: (string, value).
        Every string is the base 256 digits of exactly one value below 256^n (lean/Digits.lean)"""
        if self.draw is not None:
            s = self.draw.bytes(name, n, gen)
            return s, int.from_bytes(s, 'big')
        N = ir.var(in_name(name) + '.N', 0, ir.INF if isinstance(n, T) else 256 ** n - 1)
        if isinstance(n, T):
            self.ctx.assume(ir.lt(N, ir.pow_(256, n)))
        self._decl(name, ('digits', n, N))
        return mkstr(Seq([Run(n, ir.mod(ir.div(N, ir.pow_(256, ir.sub(ir.sub(n, 1), idx()))), 256))])), N

    def strings(self, name, n, top=1 << 47, gen=None):
        """list of n strings of any lengths (n concrete or symbolic)"""
        if self.draw is not None:
            return VList(draw_strings(self.draw, name, n, top, gen))
        nm = in_name(name)
        self._decl(name, ('strings', n, nm, top))
        j = jdx()

        def elem(j):
            return mkstr(Seq([Run(ir.app(nm + '.len', j, lo=0, hi=top), ir.app(nm, j, idx(), lo=0, hi=255))]))
        if not isinstance(n, T):
            return VList([elem(i) for i in range(n)])
        r = VList([])
        r.set_seq(Seq([Run(n, elem(j), j)]))
        return r

    def ints(self, name, n, lo=None, hi=None, gen=None):
        """list of n integers (n concrete or symbolic)"""
        if self.draw is not None:
            return VList(self.draw.ints(name, n, lo, hi, gen))
        l, h = -ir.INF if lo is None else lo, ir.INF if hi is None else hi
        self._decl(name, ('ints', n, in_name(name), l, h))
        if not isinstance(n, T):
            return VList([ir.app(in_name(name), i, lo=l, hi=h) for i in range(n)])
        r = VList([])
        r.set_seq(Seq([Run(n, ir.app(in_name(name), idx(), lo=l, hi=h))]))
        return r

    def nat(self, name, lo=0, hi=1 << 48, gen=None):
        if self.draw is not None and gen is None and isinstance(self.draw, Random):
            gen = lambda r: small_len(r, lo, hi, self.draw.size, ())
        return self.int(name, lo, hi, gen)

    def length(self, name, unit, hi=1 << 48):
        """an arbitrary length 0..hi, written unit*q + r"""
        if self.draw is not None:
            return self.draw.int(name, 0, hi, None) if not isinstance(self.draw, Random) else self.draw.int(name, 0, hi, lambda r: small_len(r, 0, hi, self.draw.size, ()))
        q = ir.var(in_name(name) + '.q', 0, hi // unit)
        r = ir.var(in_name(name) + '.r', 0, unit - 1)
        n = ir.add(ir.mul(q, unit), r)
        if hi % unit != unit - 1:
            self.ctx.assume(ir.le(n, hi))
        self._decl(name, ('int', n))
        return n

    def enabled(self, qual):
        return self.draw is None and qual in self.I.summaries and qual not in self.I.active

    def has(self, mod, name):
        v = self.mod(mod)
        for a in name.split('.'):
            try:
                v = B.getattr_(self.I, v, a)
            except PyRaise:
                return False
        return True

    def choice(self, name, options):
        if self.draw is not None:
            return self.draw.choice(name, options)
        i = self.ctx.choose(len(options))
        self._decl(name, ('choice', i))
        return options[i]

    def assume(self, c):
        self.ctx.assume(c)

    def case(self, c):
        return self.ctx.branch(c)

    def lst(self, xs):
        return VList(list(xs))

    def strs(self, xs):
        return VList(list(xs))

    # ---- running the code
    def mod(self, mod):
        return self.I.load(mod)

    module = mod

    def get(self, mod, name):
        v = self.mod(mod)
        for a in name.split('.'):
            v = B.getattr_(self.I, v, a)
        return v

    def call(self, mod, name, *args, **kw):
        return self.I.call(self.get(mod, name), list(args), kw)

    def method(self, o, name, *args, **kw):
        return self.I.call(B.getattr_(self.I, o, name), list(args), kw)

    def callobj(self, o, *args):
        return self.I.call(o, list(args), {})

    def attr(self, o, name):
        return B.getattr_(self.I, o, name)

    def setattr(self, o, name, v):
        B.setattr_(self.I, o, name, v)

    def op(self, f, a, b):
        if f in ('==', '!='):
            r = self.I.compare('Eq' if f == '==' else 'NotEq', a, b)
            return self.I.truth_term(r)
        return self.I.binop(f, a, b)

    def neg(self, a):
        f = a.cls.lookup('__neg__')
        return self.I.call(B.bind(self.I, f, a), [], {})

    def toint(self, o):
        return self.I.call(B.BUILTINS['int'], [o], {})

    def active(self, *quals):
        """the contracts of these functions are being verified: their bodies are used"""
        self.I.active = list(quals)

    def recursive(self, qual, measure, summary):
        """recursive calls of qual are replaced by summary(*args) after checking that the measure has decreased"""
        if self.ctx.symbolic:
            self.I.rec[qual] = {'measure': measure, 'summary': summary, 'outer': None, 'used': False}

    def plain(self, on=True):
        """no closed forms for the integers changed by loops: they are described by candidate invariants only"""
        self.ctx.plain = on

    def cut_ranges(self, on=True):
        """loops over ranges of known length are summarised by invariants, not unrolled"""
        self.ctx.cut_ranges = on

    def ideal(self, *units):
        """decide congruences with a Groebner basis of the known ones; units: integers invertible modulo every modulus used"""
        self.ctx.ideal = tuple(units) or True

    def some(self, name, lo=-ir.INF, hi=ir.INF):
        """an arbitrary integer (in summaries)"""
        return ir.fresh(name, lo, hi)

    def inv(self, n, f, name=None, free=0):
        """candidate loop invariant f(x1..xn, y1..ym), tried for every choice of n integers the loop changes
        and of m = free integers it does not change"""
        import itertools
        from .loops import Cand

        def h(loop, opq):
            xs = [p for p in loop.prims() if p.kind == 'int' and (p.closed is None or n > 0 and getattr(f, 'closed', False))]
            fixed = []
            if free:
                fixed = [v for nm, v in loop.fr.locals.items() if nm not in loop.assigned and isinstance(v, T) and not ir.is_bool(v)]
                fixed = list(dict.fromkeys(fixed))
            for ps in itertools.permutations(xs, n):
                for ys in itertools.permutations(fixed, free):
                    yield Cand(name or 'inv', list(ps), (lambda *a, ys=ys: f(*(a + ys))) if ys else f)
        self.ctx.hints.append(h)

    def pool(self, f):
        self.ctx.pool_fns.append(f)

    def hint(self, f):
        self.ctx.hints.append(f)

    def ufb(self, name, n, *args):
        """n octets of an uninterpreted / external function of the arguments"""
        return uf(self.I, name, n, args)

    def fold(self, name, step, init, params, k, lo=-ir.INF, hi=ir.INF):
        return fold(name, step, init, params, k, lo, hi)

    def sfold(self, name, width, step, init, params, k):
        return sfold(name, width, step, init, params, k)

    def defined(self, qual, name, width, f, *params):
        """f(*params), `width` octets; where the contract of `qual` is in use only its name is known"""
        if self.enabled(qual):
            return uf(self.I, name, width, params)
        return f(*params)

    # ---- obligations
    def _add(self, name, ok, why=None, neg=None):
        model = None
        how = None
        if not ok and neg is not None:
            model = self.model_of(neg)
        self.obls.append(Obl(name, bool(ok), why, model, list(self.ctx.dec.taken), how))

    def check(self, name, c):
        self.check_live()
        if isinstance(c, bool):
            self._add(name, c, None if c else 'false', [] if not c else None)
            return
        ok = self.ctx.entails(c)
        self._add(name, ok, None if ok else ir.show(c)[:400], None if ok else [ir.not_(c)])

    def plainval(self, v):
        """the Python value of a fully known result"""
        if isinstance(v, VDict):
            return {self.plainval(k): self.plainval(x) for k, x in v.d.items()}
        if isinstance(v, VList):
            return [self.plainval(x) for x in self.items(v)]
        if isinstance(v, tuple):
            return tuple(self.plainval(x) for x in v)
        if isinstance(v, T):
            raise Unsupported('unknown value')
        return v

    def twice(self, v):
        """2*v for a multiple of one half, as an integer"""
        if isinstance(v, float):
            v = B.VRat(*(v.as_integer_ratio()))
        if isinstance(v, B.VRat):
            if 2 % v.den:
                raise Unsupported('denominator')
            return ir.mul(v.num, 2 // v.den)
        return ir.mul(2, v)

    def derive(self, *eqs):
        """adds those of the equations that follow from what is known (helps the polynomial prover)"""
        for c in eqs:
            if isinstance(c, T) and c not in self.ctx.cset and self.ctx.entails(c):
                self.ctx.push(c)

    def lemma(self, name, c):
        """an obligation that later obligations may use"""
        self.check(name, c)
        if isinstance(c, T) and self.obls[-1].ok:
            self.ctx.push(c)
            if c.op == 'eq':
                from . import algebra
                d = ir._terms(c.a[0])
                ms = [m[0] for m in d if len(m) == 1 and m[0].op == 'mod']
                if len(ms) == 1 and len(d) == 1:
                    self.ctx.push(ir.eq(ir.mod(algebra.strip_mods(ms[0].a[0], ms[0].a[1]), ms[0].a[1]), 0))

    def eq(self, name, a, b):
        self.check_live()
        if isinstance(a, list):
            a = VList(a)
        if isinstance(b, list):
            b = VList(b)
        ok, why = self.ctx.equal(a, b)
        neg = None
        if not ok:
            neg = [x for x in diff_conds(self, a, b)] or []
        self._add(name, ok, why, neg)

    def check_live(self):
        pass

    def same(self, name, a, b):
        """both objects are in the same state, attribute by attribute (stated about the code's own data, so it is
        checked only where the values are symbolic; pair it with clauses on what the objects return)"""
        seen = set()
        todo = [(a, b, 'object')]
        while todo:
            x, y, where = todo.pop()
            if x is y or (id(x), id(y)) in seen:
                continue
            seen.add((id(x), id(y)))
            if isinstance(x, VObj) and isinstance(y, VObj):
                if x.cls is not y.cls or set(x.attrs) != set(y.attrs):
                    self._add(name, False, '%s: class or attribute names differ' % where, [])
                    return
                todo.extend((x.attrs[k], y.attrs[k], '%s.%s' % (where, k)) for k in x.attrs)
            elif isinstance(x, VDict) and isinstance(y, VDict) and set(x.d) == set(y.d):
                todo.extend((x.d[k], y.d[k], '%s[%r]' % (where, k)) for k in x.d)
            elif isinstance(x, VList) and isinstance(y, VList) and x.items is not None and y.items is not None and len(x.items) == len(y.items):
                todo.extend((p, q, '%s[%d]' % (where, i)) for i, (p, q) in enumerate(zip(x.items, y.items)))
            else:
                ok, why = self.ctx.equal(x, y)
                if not ok:
                    self._add(name, False, '%s: %s' % (where, why), diff_conds(self, x, y) or [])
                    return
        self._add(name, True)

    def raises(self, name, thunk, kinds=None):
        try:
            r = thunk()
        except PyRaise as e:
            if kinds is None or set(exc_ancestors(e.name, e.bases)) & set(kinds):
                self._add(name, True)
            else:
                self._add(name, False, 'raised %s' % e.name, [])
            return
        if self.ctx.symbolic and self.ctx.infeasible():
            raise PathEnd('infeasible')
        self._add(name, False, 'returned normally', [])

    def outcome(self, thunk):
        """('ok', value) or ('raise', exception class name)"""
        try:
            return ('ok', thunk())
        except PyRaise as e:
            return ('raise', e.name)

    # ---- models
    def model_of(self, extra):
        tries = extra if extra and isinstance(extra[0], list) else [extra]
        for ex in tries[:6]:
            r, m = solver.check_sat([c for c in self.ctx.conds if c is not True] + list(ex), 4000, True)
            if r == 'sat':
                try:
                    d = self.extract(m)
                    if d is not None:
                        return d
                except Exception:
                    pass
        return None

    def extract(self, m):
        out = {}
        for name, d in self.inputs.items():
            if d[0] == 'int':
                out[name] = m.int(d[1])
            elif d[0] == 'choice':
                out[name] = d[1]
            elif d[0] == 'digits':
                n = m.int(d[1]) if isinstance(d[1], T) else d[1]
                if n > 100000 or n < 0:
                    return None
                out[name] = (m.int(d[2]) % 256 ** n).to_bytes(n, 'big')
            elif d[0] == 'strings':
                n = m.int(d[1]) if isinstance(d[1], T) else d[1]
                if n > 1000 or n < 0:
                    return None
                lens = [m.int(ir.app(d[2] + '.len', i, lo=0, hi=d[3])) for i in range(n)]
                if sum(lens) > 100000 or any(x < 0 for x in lens):
                    return None
                out[name + '.len'] = lens
                for i in range(n):
                    out['%s.%d' % (name, i)] = bytes(m.int(ir.app(d[2], i, k, lo=0, hi=255)) & 255 for k in range(lens[i]))
            elif d[0] in ('bytes', 'ints'):
                n = m.int(d[1]) if isinstance(d[1], T) else d[1]
                if n > 100000 or n < 0:
                    return None
                lo, hi = (0, 255) if d[0] == 'bytes' else (d[3], d[4])
                xs = []
                for i in range(n):
                    xs.append(m.int(ir.app(d[2], i, lo=lo, hi=hi)) if i < 4096 else 0)
                out[name] = bytes(x & 255 for x in xs) if d[0] == 'bytes' else xs
        return out


def draw_strings(draw, name, n, top, gen=None):
    big = getattr(draw, 'size', 40)
    lens = draw.ints(name + '.len', n, 0, top, gen or (lambda r, n: [small_len(r, 0, top, big, ()) for _ in range(n)]))
    return [draw.bytes('%s.%d' % (name, i), lens[i], None) for i in range(n)]


def diff_conds(V, a, b):
    """some conditions under which two values differ (for counterexample search only)"""
    out = []
    try:
        if isinstance(a, (int, T)) and isinstance(b, (int, T)):
            n = ir.ne(a if not ir.is_bool(a) else ir.b2i(a), b if not ir.is_bool(b) else ir.b2i(b))
            return [[n]] if n is not False else []
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                out += diff_conds(V, x, y)
            return out
        sa = strseq(a) if isinstance(a, (bytes, SStr)) else a.getseq()
        sb = strseq(b) if isinstance(b, (bytes, SStr)) else b.getseq()
        la, lb = sa.length(), sb.length()
        n = ir.ne(la, lb)
        if n is True:
            return [[]]
        if isinstance(n, T):
            out.append([n])
        ca, cb = sa.concrete(), sb.concrete()
        if ca is not None and cb is not None:
            ds = [ir.ne(x, y) for x, y in zip(ca, cb) if isinstance(x, (int, T)) and isinstance(y, (int, T))]
            if any(x is True for x in ds):
                return [[]]
            out += [[x] for x in ds if isinstance(x, T)][:8]
        else:
            out.append([])
    except Exception:
        return out or [[]]
    return out


# ------------------------------------------------------------------ uninterpreted and recursive specification functions

def uf(I, name, n, args):
    if not I.ctx.symbolic or all(isinstance(a, (bytes, int)) and not isinstance(a, T) for a in args):
        f = UF_IMPL.get(name)
        if f is not None:
            r = f(*args)
            assert len(r) == n
            return r
    return mkstr(Seq([Run(n, ir.app(name, *([key_of(a) for a in args] + [idx()]), lo=0, hi=255))]))


def _builtin_uf(I, a, k):
    return uf(I, a[0].decode(), a[1], a[2:])


B.BUILTINS['__uf__'] = VBuiltin('__uf__', _builtin_uf)


def _aes(key, block):
    return aes_ecb(key, block)


_aes_cache = {}


def aes_ecb(key, block):
    from . import aes
    return aes.encrypt(key, block)


UF_IMPL = {
    'sha1': lambda d: hashlib.sha1(d).digest(),
    'md5': lambda d: hashlib.md5(d).digest(),
    'sha384': lambda d: hashlib.sha384(d).digest(),
    'prf48': lambda k, d: hmac.new(k, d, hashlib.sha384).digest(),
    'prf7': lambda k, d: hmac.new(k, d, hashlib.sha1).digest()[:7],
    'hmac_sha': lambda k, d: hmac.new(k, d, hashlib.sha1).digest(),
    'hmac_md5': lambda k, d: hmac.new(k, d, hashlib.md5).digest(),
    'aes': _aes,
    'othercipher': lambda k, b: _aes(bytes(x ^ 0x55 for x in k), b),
}

FOLDS = {}       # name -> (step, init, arity): integer-valued recursion on the last argument


def fold(name, step, init, params, k, lo=-ir.INF, hi=ir.INF):
    """F(params, k):  F(p, 0) = init(p),  F(p, k+1) = step(p, F(p, k), k)"""
    if name not in FOLDS:
        FOLDS[name] = (step, init, lo, hi)
        ir.APP_HOOKS[name] = lambda *a: _fold_mk(name, a[:-1], a[-1])
    if (lo, hi) != (-ir.INF, ir.INF):
        # the range is justified by induction: the first value and one step from any value in range
        pv = [unkey(key_of(p)) for p in params]
        for v in (init(*pv), step(*(pv + [ir.fresh('acc', lo, hi), ir.fresh('i', 0)]))):
            if ir.lo(v) < lo or ir.hi(v) > hi:
                raise Unsupported('range of %s' % name)
    return _fold_mk(name, tuple(key_of(p) for p in params), k)


def _fold_mk(name, pk, k):
    step, init, lo, hi = FOLDS[name]
    pv = [unkey(x) for x in pk]
    if not isinstance(k, T):
        r = init(*pv)
        for i in range(k):
            r = step(*(pv + [r, i]))
        return r
    c = min(ir._terms(k).get((), 0), ir.lo(k))
    if c > 0 and c != ir.INF:
        c = int(c)
        base = ir.sub(k, c)
        r = _fold_mk(name, pk, base)
        for i in range(c):
            r = step(*(pv + [r, ir.add(base, i)]))
        return r
    return ir._mk('app', (name,) + tuple(pk) + (k,), lo, hi)


def sfold(name, width, step, init, params, k):
    """string-valued recursion:  F(p, 0) = init(p),  F(p, k+1) = step(p, F(p, k), k), all of one width"""
    if name not in FOLDS:
        FOLDS[name] = (step, init, width, None)
        ir.APP_HOOKS[name] = lambda *a: _sfold_at(name, a[:-2], a[-2], a[-1])
    return _sfold_str(name, tuple(key_of(p) for p in params), k)


def _sfold_str(name, pk, k):
    step, init, width, _ = FOLDS[name]
    pv = [unkey(x) for x in pk]
    if not isinstance(k, T):
        r = init(*pv)
        for i in range(k):
            r = step(*(pv + [r, i]))
        return r
    c = min(ir._terms(k).get((), 0), ir.lo(k))
    if c > 0 and c != ir.INF:
        c = int(c)
        base = ir.sub(k, c)
        r = _sfold_str(name, pk, base)
        for i in range(c):
            r = step(*(pv + [r, ir.add(base, i)]))
        return r
    return mkstr(Seq([Run(width, ir._mk('app', (name,) + tuple(pk) + (k, idx()), 0, 255))]))


def _sfold_at(name, pk, k, i):
    width = FOLDS[name][2]
    c = min(ir._terms(k).get((), 0), ir.lo(k)) if isinstance(k, T) else 1
    if c > 0:
        s = strseq(_sfold_str(name, pk, k))
        if len(s.pieces) == 1 and isinstance(s.pieces[0], Run):
            return s.pieces[0].at(i)
        cs = s.concrete()
        if cs is not None and not isinstance(i, T):
            return cs[i]
        if cs is not None and all(isinstance(x, int) for x in cs):
            return seqs.table_app(cs, i)
    return ir._mk('app', (name,) + tuple(pk) + (k, i), 0, 255)


# ------------------------------------------------------------------ running a contract

class Report(object):
    def __init__(self, name):
        self.name = name
        self.obls = []           # Obl
        self.undecided = []      # (what, why)
        self.paths = 0
        self.functions = set()
        self.time = 0.0
        self.termination = {}

    @property
    def ok(self):
        return not self.undecided and bool(self.obls) and all(o.ok for o in self.obls)

    def failed(self):
        return [o for o in self.obls if not o.ok]


class Engine(object):
    """one interpreter instance with the modules under verification loaded"""

    def __init__(self, modules, stubs=True):
        ir_reset_all()
        astload.SYM = True
        self.ctx = Ctx()
        self.I = Interp(self.ctx)
        for m in modules:
            self.I.load(m)
        self.I.take_snapshot()
        self.summaries = {}

    def prove(self, harness, name=None, budget=300, maxpaths=3000, summaries=None, solver_timeout=None, unroll_while=0):
        rep = Report(name or harness.__name__)
        t0 = time.time()
        ctx, I = self.ctx, self.I
        ctx.solver_timeout = solver_timeout
        ctx.deadline = t0 + budget
        ctx.unroll_while = unroll_while
        ctx.termination = {}
        I.summaries = dict(summaries or {})
        I.coverage = set()
        work = [()]
        I.steps = 0
        while work:
            prefix = work.pop()
            rep.paths += 1
            if rep.paths > maxpaths:
                rep.undecided.append(('paths', 'more than %d paths' % maxpaths))
                break
            if time.time() > ctx.deadline:
                rep.undecided.append(('budget', 'time budget of %ds exhausted' % budget))
                break
            ctx.hints = []
            ctx.fresh_path(prefix)
            I.restore_snapshot()
            I.roots = []
            I.active = []
            I.rec = {}
            V = SymV(I)
            try:
                harness(V)
            except PathEnd:
                pass
            except PyRaise as e:
                if not ctx.infeasible():
                    d = e.value
                    V._add('no-exception', False, 'raises %s %s' % (e.name, d if isinstance(d, (str, bytes)) else ''), [])
            except (Unsupported, Budget) as e:
                if not ctx.infeasible():
                    rep.undecided.append((type(e).__name__, str(e)))
            except NoBranch:
                rep.undecided.append(('NoBranch', 'internal'))
            except RecursionError:
                rep.undecided.append(('RecursionError', 'engine recursion'))
            except ZeroDivisionError as e:
                rep.undecided.append(('internal', 'ZeroDivisionError in the engine'))
            except (AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError) as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                rep.undecided.append(('internal', '%s: %s at %s:%s' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)))
            finally:
                while ctx.logs:
                    ctx.end_log(True)
            rep.obls.extend(V.obls)
            work.extend(ctx.dec.alts)
            if len(rep.failed()) + len(rep.undecided) > 8:
                break
        rep.functions = set(I.coverage)
        for (q, ln), ok in ctx.termination.items():
            rep.termination[(q, ln)] = ok
        rep.time = time.time() - t0
        return rep

    def concrete(self, harness, draw, seedname=''):
        """run the harness with concrete inputs inside the interpreter"""
        saved = self.I.ctx
        I = self.I
        I.ctx = ConcreteCtx()
        I.restore_snapshot()
        I.summaries = {}
        I.rec = {}
        try:
            V = SymV(I, draw=draw)
            harness(V)
            return V.obls
        finally:
            I.ctx = saved


def ir_reset_all():
    pass


# ------------------------------------------------------------------ concrete inputs

class Given(object):
    """inputs from a counterexample or a replay file; what is missing gets a default"""
    def __init__(self, d, rng=None):
        self.d, self.rng = d, rng or random.Random(0)
        self.used = {}

    def int(self, name, lo, hi, gen):
        v = self.d.get(name, lo if lo is not None else (hi if hi is not None else 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        self.used[name] = v
        return v

    def bytes(self, name, n, gen):
        v = self.d.get(name)
        if v is None:
            v = bytes(n)
        v = bytes(v[:n]) + bytes(max(0, n - len(v)))
        self.used[name] = v
        return v

    def ints(self, name, n, lo, hi, gen):
        v = list(self.d.get(name) or [])
        d = lo if lo is not None else 0
        v = (v + [d] * n)[:n]
        self.used[name] = v
        return v

    def choice(self, name, options):
        i = self.d.get(name, 0)
        self.used[name] = i
        return options[i % len(options)]


class Random(object):
    """boundary-weighted random inputs; consts: integers found in the source"""
    def __init__(self, rng, consts=(), size=200):
        self.rng, self.consts, self.size = rng, list(consts), size
        self.used = {}

    def int(self, name, lo, hi, gen):
        r = self.rng
        if gen is not None:
            v = gen(r)
        else:
            v = self._int(lo, hi)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            v = self._clamp(v, lo, hi)
        self.used[name] = v
        return v

    def _clamp(self, v, lo, hi):
        if lo is not None and hi is not None:
            return lo + (v - lo) % (hi - lo + 1)
        if lo is not None:
            return lo + abs(v - lo)
        return hi - abs(v - hi)

    def _int(self, lo, hi):
        r = self.rng
        c = r.randrange(10)
        L = lo if lo is not None else -(1 << 70)
        H = hi if hi is not None else (1 << 70)
        if c < 2:
            return min(H, max(L, L + r.randrange(6)))
        if c < 3:
            return min(H, max(L, H - r.randrange(6)))
        if c < 5 and self.consts:
            v = r.choice(self.consts) + r.choice((-2, -1, 0, 0, 0, 1, 2))
            if r.random() < 0.15:
                v *= r.choice((2, 8, 16, 64, 256))
            if L <= v <= H:
                return v
        if c < 6:
            v = (1 << r.randrange(1, max(2, H.bit_length() + 1))) + r.choice((-1, 0, 1))
            if L <= v <= H:
                return v
        if c < 8:
            b = r.randrange(1, max(2, (H - L).bit_length() + 1))
            return min(H, L + r.getrandbits(b))
        if H - L > 400 and c < 9:
            return r.randint(L, L + 400)
        return r.randint(L, H)

    big = False

    def length(self, lo=0, hi=None):
        return lo + self.rng.randrange(self.size)

    def bytes(self, name, n, gen):
        r = self.rng
        if gen is not None:
            v = gen(r, n)
        else:
            c = r.randrange(12)
            if c == 0:
                v = bytes(n)
            elif c == 1:
                v = b'\xff' * n
            elif c == 2:
                v = bytes((r.choice((0, 255, 128, 127, 1)) for _ in range(n)))
            elif c == 3:
                v = bytearray(n)
                if n:
                    v[r.randrange(n)] = 1 << r.randrange(8)
                v = bytes(v)
            elif c == 4 and n:
                # leading / trailing zeros
                k = r.randrange(n + 1)
                v = bytes(k) + r.randbytes(n - k)
                if r.random() < 0.5:
                    v = v[::-1]
            elif c == 5 and n:
                v = b'\xff' * r.randrange(n + 1)
                v = (v + r.randbytes(n))[:n]
                if r.random() < 0.5:
                    v = v[::-1]
            else:
                v = r.randbytes(n)
        self.used[name] = v
        return v

    def ints(self, name, n, lo, hi, gen):
        v = gen(self.rng, n) if gen is not None else [self._int(lo, hi) for _ in range(n)]
        self.used[name] = v
        return v

    def choice(self, name, options):
        i = self.rng.randrange(len(options))
        self.used[name] = i
        return options[i]


# ------------------------------------------------------------------ the real code

class RealV(Base):
    sym = False

    def __init__(self, draw, timeout=30):
        self.draw = draw
        self.timeout = timeout
        self.nchecks = 0
        self.folds = {}
        self.ctx = None

    def int(self, name, lo=None, hi=None, gen=None):
        return self.draw.int(name, lo, hi, gen)

    def nat(self, name, lo=0, hi=1 << 48, gen=None):
        if gen is None and isinstance(self.draw, Random):
            size = self.draw.size
            gen = lambda r: small_len(r, lo, hi, size, self.draw.consts)
        return self.draw.int(name, lo, hi, gen)

    def length(self, name, unit, hi=1 << 48):
        d = self.draw
        if isinstance(d, Random) and d.big and d.rng.random() < 0.1:
            k = d.rng.choice((8, 8, 8, 9, 10, 11, 12, 12, 13, 16, 16))
            n = (1 << k) + d.rng.randrange(-2, 3) * d.rng.choice((1, 1, unit))
            if n <= hi:
                return d.int(name, n, n, None)
        return self.nat(name, 0, hi)

    def enabled(self, qual):
        return False

    def has(self, mod, name):
        try:
            self.get(mod, name)
            return True
        except RealExc:
            return False

    def bytes(self, name, n, gen=None):
        return self.draw.bytes(name, n, gen)

    def digits(self, name, n, gen=None):
        s = self.draw.bytes(name, n, gen)
        return s, int.from_bytes(s, 'big')

    def ints(self, name, n, lo=None, hi=None, gen=None):
        return self.draw.ints(name, n, lo, hi, gen)

    def strings(self, name, n, top=1 << 47, gen=None):
        return draw_strings(self.draw, name, n, top, gen)

    def choice(self, name, options):
        return self.draw.choice(name, options)

    def assume(self, c):
        if not c:
            raise Skip()

    def case(self, c):
        return bool(c)

    def lst(self, xs):
        return list(xs)

    strs = lst

    def _m(self, mod):
        return 'cryptopy.' + mod if mod.split('.')[0] in ('cipher', 'ecc', 'fmath', 'hash', 'analysis') else mod

    def get(self, mod, name):
        return server.run(self.timeout, op='get', mod=self._m(mod), name=name)

    def ref(self, mod, name):
        return Ref(self._m(mod), name)

    def module(self, mod):
        return Ref(self._m(mod), '')

    def call(self, mod, name, *args, **kw):
        return server.run(self.timeout, op='call', mod=self._m(mod), name=name, args=[enc(a) for a in args], kw={k: enc(v) for k, v in kw.items()})

    def method(self, o, name, *args, **kw):
        return server.run(self.timeout, op='method', obj=enc(o), name=name, args=[enc(a) for a in args], kw={k: enc(v) for k, v in kw.items()})

    def callobj(self, o, *args):
        return server.run(self.timeout, op='callobj', obj=enc(o), args=[enc(a) for a in args])

    def attr(self, o, name):
        return server.run(self.timeout, op='attr', obj=enc(o), name=name)

    def setattr(self, o, name, v):
        server.run(self.timeout, op='setattr', obj=enc(o), name=name, val=enc(v))

    def op(self, f, a, b):
        return server.run(self.timeout, op='binop', f=f, a=enc(a), b=enc(b))

    def neg(self, a):
        return server.run(self.timeout, op='unop', f='-', a=enc(a))

    def toint(self, o):
        if isinstance(o, int):
            return o
        return server.run(self.timeout, op='unop', f='int', a=enc(o))

    def active(self, *q):
        pass

    def pool(self, f):
        pass

    def inv(self, n, f, name=None, free=0):
        pass

    def plain(self, *a):
        pass

    def cut_ranges(self, *a):
        pass

    def plainval(self, v):
        return v

    def twice(self, v):
        self.check('multiple of one half', 2 * v == int(2 * v))
        return int(2 * v)

    ideal = plain
    derive = plain

    def recursive(self, *a):
        pass

    def lemma(self, name, c):
        self.check(name, c)

    hint = pool

    def ufb(self, name, n, *args):
        return UF_IMPL[name](*args)

    def octet(self, s, i):
        return s[i] if 0 <= i < len(s) else 0

    def fold(self, name, step, init, params, k, lo=None, hi=None):
        try:
            acc = self.folds.setdefault((name,) + tuple(params), [])
        except TypeError:
            acc = []
        if not acc:
            acc.append(init(*params))
        while len(acc) <= k:
            acc.append(step(*(list(params) + [acc[-1], len(acc) - 1])))
        return acc[k]

    def sfold(self, name, width, step, init, params, k):
        return self.fold(name, step, init, params, k)

    def defined(self, qual, name, width, f, *params):
        return f(*params)

    def check(self, name, c):
        self.nchecks += 1
        if not c:
            raise Mismatch(name, 'clause is false')

    def eq(self, name, a, b):
        self.nchecks += 1
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
            ok = norm(a) == norm(b)
        elif isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
            ok = type(a) is type(b) and a == b
        elif isinstance(a, (list, tuple)) != isinstance(b, (list, tuple)):
            ok = False
        else:
            ok = a == b
        if not ok:
            raise Mismatch(name, 'code gives %s, contract requires %s' % (show(a), show(b)))

    def raises(self, name, thunk, kinds=None):
        self.nchecks += 1
        try:
            r = thunk()
        except RealExc as e:
            if kinds is None or set([e.name] + list(e.bases)) & set(kinds):
                return
            raise Mismatch(name, 'raised %s' % e.name)
        raise Mismatch(name, 'returned %s, contract requires an exception' % show(r))

    def same(self, name, a, b):
        pass

    def outcome(self, thunk):
        try:
            return ('ok', thunk())
        except RealExc as e:
            return ('raise', e.name)


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def small_len(r, lo, hi, size, consts):
    c = r.randrange(8)
    hi = lo + (1 << 64) if hi is None else hi
    top = min(hi, lo + size)
    if c < 3:
        return min(top, lo + r.randrange(9))
    if c < 5:
        v = r.choice((15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 8, 20, 40, 41))
        if lo <= v <= top:
            return v
    if c < 6 and consts:
        v = r.choice(consts) + r.choice((-1, 0, 1))
        if lo <= v <= top:
            return v
    return r.randint(lo, top)


def run_real(harness, draw, timeout=30):
    """None if the contract holds on these inputs, ('skip',), or (clause, detail)"""
    V = RealV(draw, timeout)
    try:
        harness(V)
        return None
    except Skip:
        return ('skip',)
    except Mismatch as m:
        return (m.name, m.detail)
    except RealExc as e:
        return ('no-exception', 'raises %s: %s' % (e.name, e.msg))
    except ServerDied as e:
        return ('terminates', 'the real code did not return: %s' % e)
    except RecursionError:
        return ('skip',)
    except (TypeError, ValueError, AttributeError, IndexError, KeyError, ZeroDivisionError) as e:
        return ('result-form', 'the contract is not applicable to what the code returned: %s: %s' % (type(e).__name__, e))


def source_consts(paths):
    out = set()
    for p in paths:
        try:
            src = open(p, 'rb').read().decode('latin-1')
        except OSError:
            continue
        for m in re.findall(r'0[xX][0-9a-fA-F]+|\b\d+\b', src):
            try:
                v = int(m, 16) if m[:2] in ('0x', '0X') else int(m)
            except ValueError:
                continue
            if v > 1:
                out.add(v)
    return sorted(out)


def fuzz(harness, seed, seconds=None, count=None, consts=(), size=200, timeout=30, first=()):
    """search for inputs on which the real code breaks the contract
    -> (inputs, clause, detail) or None, and the number of runs"""
    t0 = time.time()
    n = ran = 0
    for d in first:
        g = Given(d)
        r = run_real(harness, g, timeout)
        n += 1
        if r is not None and r[0] != 'skip':
            return (g.used, r[0], r[1]), n
    server_reset()
    while True:
        if count is not None and ran >= count:
            break
        if seconds is not None and time.time() - t0 > seconds:
            break
        n += 1
        if n > 40 * max(1, (count or 10 ** 9)):
            break
        rng = random.Random('%s/%s' % (seed, n))
        g = Random(rng, consts, size if n % 7 else 8 * size if n % 3 == 0 else size)
        g.big = seconds is not None and n > 40
        r = run_real(harness, g, timeout)
        if r is None:
            ran += 1
            if ran % 50 == 0:
                server_reset()
            continue
        if r[0] == 'skip':
            continue
        return (g.used, r[0], r[1]), ran
    return None, ran


def server_reset():
    try:
        server.request({'op': 'reset'})
    except Exception:
        pass
