"""Path context: path condition, decisions, undo log, proof obligations."""
import time
from . import ir, solver, seqs
from .ir import T
from .values import *
from .interp import PathEnd, Budget
from .seqs import NoBranch, Prover


class Decisions(object):
    """decision prefix being replayed and the alternatives met while running"""
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []          # list of full prefixes still to explore


class Fork(Exception):
    pass


class Ctx(object):
    symbolic = True

    def __init__(self):
        self.in_module = False
        self.max_unroll = 3000
        self.unroll_while = 0
        self.cut_reduce = None
        self.hints = []
        self.plain = False
        self.ideal = False
        self.termination = {}        # loop line -> True/False
        self.solver_timeout = None
        self.deadline = None
        self.pool_fns = []
        self.poolmemo = {}           # which contract-supplied values were right for a loop the last time
        self.trusted = set()
        self.sat_assumptions = set()
        self.fresh_path(())

    # ------------------------------------------------------------ path state
    def fresh_path(self, prefix):
        ir._fresh[0] = 0
        self.dec = Decisions(prefix)
        self.conds = []
        self.cset = set()
        self.ub = {}
        self.nobranch = 0
        self.logs = []
        self.rand = 0
        self.pos = {}
        self.dcache = {}
        self.ghost = {}
        self.pool_fns = []
        self.loopstack = []

    def pools(self, loop):
        return self.pool_fns

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget')

    def push(self, c):
        self.conds.append(c)
        self.dcache = {}
        if isinstance(c, T):
            self.cset.add(c)
            for x in (c.a if c.op == 'band' else (c,)):
                self.cset.add(x)
        return c

    def pop(self):
        self.conds.pop()
        self.cset = set()
        for c in self.conds:
            if isinstance(c, T):
                self.cset.add(c)
                for x in (c.a if c.op == 'band' else (c,)):
                    self.cset.add(x)
        self.dcache = {}

    def mark(self):
        return len(self.conds)

    def rollback(self, n):
        del self.conds[n:]
        self.conds.append(True)
        self.pop()

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd('assumption is false')
            return
        d = self.decide(c)
        if d is False:
            raise PathEnd('assumption contradicts the path')
        if d is None:
            self.push(c)

    def rewrites(self):
        """equations of the path condition, solved for one of their atoms"""
        r = self.dcache.get('rewrites')
        if r is None:
            r = {}
            for c in self.conds:
                if not isinstance(c, T):
                    continue
                for e in (c.a if c.op == 'band' else (c,)):
                    if e.op != 'eq':
                        continue
                    d = ir._terms(e.a[0])
                    if len(d) > 3:
                        continue
                    for m in sorted((m for m in d if len(m) == 1), key=lambda m: -m[0].id):
                        if abs(d[m]) == 1 and m[0].op in ('app', 'var') and m[0] not in r:
                            rest = ir._from_terms({k: -v * d[m] for k, v in d.items() if k != m})
                            if not (isinstance(rest, T) and m[0] in seqs.subterms(rest)):
                                r[m[0]] = rest
                                break
            self.dcache['rewrites'] = r
        return r

    # ------------------------------------------------------------ deciding
    def relevant(self, t):
        """path conditions connected to t through shared variables"""
        fv = set(ir.free_vars(t)) if isinstance(t, T) else set()
        rest = [c for c in self.conds if isinstance(c, T)]
        out = []
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for c in rest:
                f = ir.free_vars(c)
                if not f or (fv & f):
                    out.append(c)
                    if not f <= fv:
                        fv |= f
                        changed = True
                else:
                    keep.append(c)
            if len(keep) != len(rest):
                changed = True
            rest = keep
        return out

    def quick(self, t):
        if isinstance(t, bool):
            return t
        if t in self.cset:
            return True
        n = ir.not_(t)
        if isinstance(n, bool):
            return not n
        if n in self.cset:
            return False
        if t.op == 'band':
            rs = [self.quick(x) for x in t.a]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        elif t.op == 'bor':
            rs = [self.quick(x) for x in t.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def align(self, t):
        """powers of one base whose exponents differ by constants: written over the lowest exponent"""
        ps = {}
        seen = set()

        def walk(x):
            if not isinstance(x, T) or x in seen:
                return
            seen.add(x)
            if x.op == 'pow' and not isinstance(x.a[0], T) and isinstance(x.a[1], T):
                d = dict(ir._terms(x.a[1]))
                c = d.pop((), 0)
                ps.setdefault((x.a[0], ir._from_terms(d)), {})[c] = x
            for y in ir.children(x):
                walk(y)
        walk(t)
        m = {}
        ks = list(ps)
        if 2 <= len(ks) <= 5:
            # exponents equal up to a small constant on this path
            for i in range(len(ks)):
                for j in range(i):
                    (b, e), (b2, e2) = ks[i], ks[j]
                    if b != b2 or (b, e) not in ps or (b2, e2) not in ps:
                        continue
                    c0, c2 = min(ps[(b, e)]), min(ps[(b2, e2)])
                    for c in (0, 1, -1):
                        if self.decide(ir.eq(ir.sub(ir.add(e, c0), ir.add(e2, c2)), c)) is True:
                            # e = e2 + (c2 + c - c0)
                            for cc, x in ps.pop((b, e)).items():
                                c3 = cc - c0 + c2 + c
                                y = ir.pow_(b, ir.add(e2, c3))
                                if isinstance(y, T) and y.op == 'pow':
                                    ps[(b2, e2)].setdefault(c3, y)
                                    m[x] = y
                            break
        for (b, e), cs in ps.items():
            if len(cs) > 1:
                low = min(cs)
                if self.decide(ir.ge(ir.add(e, low), 0)) is True:
                    for c, x in cs.items():
                        if c != low:
                            m[x] = ir.scale(cs[low], b ** (c - low))
                    for x, y in list(m.items()):
                        if y in m and x is not y:
                            m[x] = m[y]
        return seqs.replace(t, m) if m else t

    def entails(self, t):
        """is t a consequence of the path condition? (proved only)"""
        if isinstance(t, bool):
            return t
        q = self.quick(t)
        if q is not None:
            return q
        if t.op == 'eq':
            u = self.align(t)
            if u is not t:
                if u is True:
                    return True
                if isinstance(u, T) and self.entails(u):
                    return True
        k = ('e', t)
        r = self.dcache.get(k)
        if r is None:
            self.check_deadline()
            if isinstance(t, T) and t.op == 'eq' and self.poly_zero(t.a[0]):
                r = True
            else:
                n = ir.not_(t)
                r = solver.check_sat(self.relevant(n) + [n], self.solver_timeout)[0] == 'unsat'
            self.dcache[k] = r
        return r

    def decide(self, t):
        if isinstance(t, bool):
            return t
        q = self.quick(t)
        if q is not None:
            return q
        k = ('d', t)
        if k in self.dcache:
            return self.dcache[k]
        self.check_deadline()
        r = None
        n = ir.not_(t)
        for x, v in ((t, True), (n, False)):
            if self.ideal and isinstance(x, T) and x.op == 'eq' and self.poly_zero(x.a[0]):
                self.dcache[k] = v
                return v
        rel = self.relevant(t)
        a = solver.check_sat(rel + [t], min(self.solver_timeout or solver.TIMEOUT_MS, 3000))[0]
        if a == 'unsat':
            r = False
        else:
            b = solver.check_sat(rel + [n], min(self.solver_timeout or solver.TIMEOUT_MS, 3000))[0]
            if b == 'unsat':
                r = True
            elif t.op == 'eq' and self.poly_zero(t.a[0]):
                r = True
        self.dcache[k] = r
        return r

    def infeasible(self):
        return solver.check_sat([c for c in self.conds if c is not True], 2000)[0] == 'unsat'

    # ------------------------------------------------------------ polynomial reasoning
    def poly_zero(self, p):
        """p == 0 by reduction with the polynomial equalities on the path"""
        from . import algebra
        return algebra.reduces_to_zero(self, p)

    # ------------------------------------------------------------ branching
    def branch(self, t):
        if isinstance(t, bool):
            return t
        d = self.decide(t)
        if d is not None:
            e = t if d else ir.not_(t)
            if isinstance(e, T) and e.op == 'eq' and not self.nobranch and e not in self.cset:
                self.push(e)         # a consequence, kept as an equation
            return d
        if self.nobranch:
            raise NoBranch()
        if any(x.op == 'v' and x.a[0].startswith('#') and not x.a[0].startswith('#b') for x in ir.free_vars(t)):
            raise Unsupported('case split on a bound index')
        dec = self.dec
        i = len(dec.taken)
        if i < len(dec.prefix):
            v = dec.prefix[i]
        else:
            v = 1
            dec.alts.append(dec.taken + [0])
        dec.taken.append(v)
        self.push(t if v else ir.not_(t))
        return bool(v)

    def choose(self, n):
        """free n-way choice (all alternatives explored)"""
        if n <= 1:
            return 0
        if self.nobranch:
            raise NoBranch()
        dec = self.dec
        i = len(dec.taken)
        if i < len(dec.prefix):
            v = dec.prefix[i]
        else:
            v = 0
            for j in range(n - 1, 0, -1):
                dec.alts.append(dec.taken + [j])
        dec.taken.append(v)
        return v

    def concretize(self, t, limit):
        if not isinstance(t, T):
            return t
        l, h = t.lo, t.hi
        if l == -ir.INF or h == ir.INF or h - l > 4 * limit:
            return None
        if h - l + 1 > limit:
            return None
        # bisect with branches so that the number of queries stays small
        l, h = int(l), int(h)
        while l < h:
            if l + 1 == h or h - l <= 4:
                if self.branch(ir.eq(t, l)):
                    return l
                l += 1
            else:
                m = (l + h) // 2
                if self.branch(ir.le(t, m)):
                    h = m
                else:
                    l = m + 1
        return l

    def refine(self, t):
        """a term equal to t whose interval records that the path makes it positive"""
        if not isinstance(t, T) or t.lo >= 1:
            return t
        r = self.pos.get(t)
        if r is not None and ir.eq(r, t) in self.cset:
            return r
        if self.decide(ir.ge(t, 1)) is True:
            if r is None:
                r = ir.fresh('pos', 1, t.hi)
            self.push(ir.eq(r, t))
            self.pos[t] = r
            return r
        return t

    def unknown_bool(self):
        ir._fresh[0] += 1
        return ir.bvar('ub!%d' % ir._fresh[0])

    def random_bytes(self, n):
        self.rand += 1
        b = ir.app('rand', self.rand, idx(), lo=0, hi=255)
        return mkstr(Seq([Run(n, b)]))

    # ------------------------------------------------------------ heap log
    def born(self, o):
        pass

    def touch(self, o):
        if getattr(o, 'ro', False):
            raise Unsupported('change of an object rebuilt from a loop invariant')
        for log in self.logs:
            if id(o) not in log:
                log[id(o)] = (o, save(o))

    def begin_log(self):
        self.logs.append({})

    def end_log(self, undo):
        log = self.logs.pop()
        if undo:
            for o, st in log.values():
                load(o, st)
        return log

    # ------------------------------------------------------------ loops
    def loop_enter(self, I, key, fr, s):
        return None

    def unroll(self, key, n):
        return n < self.unroll_while

    cut_ranges = False

    def force_cut(self, key, n, it=None):
        return self.cut_ranges and n > 1 and type(it).__name__ == 'VRange'

    def cut_while(self, I, s, fr, key):
        from . import loops
        return loops.cut_while(self, I, s, fr, key)

    def cut_for(self, I, s, fr, key, it):
        from . import loops
        return loops.cut_for(self, I, s, fr, key, it)

    # ------------------------------------------------------------ equality of values
    def equal(self, a, b):
        p = Prover(self)
        r = p.value(a, b)
        return r, p.why


def save(o):
    if isinstance(o, VList):
        return (list(o.items) if o.items is not None else None, o.seq)
    if isinstance(o, VDict):
        return dict(o.d)
    if isinstance(o, VSet):
        return list(o.items)
    if isinstance(o, VObj):
        return dict(o.attrs)
    if isinstance(o, (VClass, VModule)):
        return dict(o.ns)
    raise Unsupported('heap log of %r' % (o,))


def load(o, st):
    if isinstance(o, VList):
        o.items, o.seq = (list(st[0]) if st[0] is not None else None), st[1]
    elif isinstance(o, VDict):
        o.d = dict(st)
    elif isinstance(o, VSet):
        o.items = list(st)
    elif isinstance(o, VObj):
        o.attrs = dict(st)
    elif isinstance(o, (VClass, VModule)):
        o.ns.clear()
        o.ns.update(st)


class ConcreteCtx(object):
    """concrete execution inside the interpreter (differential tests of the engine)"""
    symbolic = False
    in_module = False
    max_unroll = 10 ** 9
    unroll_while = 0
    cut_reduce = None
    nobranch = 0

    def __init__(self):
        self.rng = None
        self.conds = []
        self.pool_fns = []
        self.hints = []
        self.plain = False
        self.ideal = False
        self.dec = Decisions()
        self.logs = []

    def equal(self, a, b):
        p = Prover(self)
        return p.value(a, b), p.why

    def assume(self, c):
        if c is not True:
            raise PathEnd('precondition')

    def branch(self, t):
        if isinstance(t, bool):
            return t
        raise Unsupported('symbolic condition in concrete run: %s' % ir.show(t))

    def decide(self, t):
        return t if isinstance(t, bool) else None

    def entails(self, t):
        return t is True

    def push(self, c):
        pass

    pop = lambda self: None

    def rewrites(self):
        return {}

    def infeasible(self):
        return False

    def concretize(self, t, limit):
        return t if not isinstance(t, T) else None

    def refine(self, t):
        return t

    def unknown_bool(self):
        raise Unsupported('unknown')

    def random_bytes(self, n):
        return bytes(n)

    def born(self, o):
        pass

    def touch(self, o):
        pass

    def loop_enter(self, I, key, fr, s):
        return None

    def unroll(self, key, n):
        return True

    cut_ranges = False

    def force_cut(self, key, n, it=None):
        return self.cut_ranges and n > 1 and type(it).__name__ == 'VRange'

    def cut_for(self, *a):
        raise Unsupported('symbolic for loop in concrete run')

    cut_while = cut_for

    def begin_log(self):
        self.logs.append({})

    def end_log(self, undo):
        return self.logs.pop()
