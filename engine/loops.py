"""Loops of symbolic length: generic iteration, inferred closed forms, candidate invariants.

At a loop the interpreter
  1. runs the body from a generic state "after k iterations" (k >= 0 arbitrary) and records
     what it modifies;
  2. guesses closed forms (value as a function of k) and invariants, from the shape of the
     update and from candidates a contract supplies;
  3. checks every guess: it must hold at k = 0 and be preserved by every path of the body;
     rejected guesses are dropped and the loop is run again until nothing changes (Houdini);
  4. continues after the loop from the generic state, the remaining (proved) invariants and
     the negated condition; bodies that leave by break/return/raise continue from there too.
Nothing guessed is used unless step 3 proved it for every iteration.
"""
import os
from . import ir, seqs, theory
from .ir import T
from .values import *
from .interp import ReturnEx, BreakEx, ContinueEx, PathEnd, UNDEF
from .seqs import NoBranch
from .core import Decisions
from . import builtins2 as B


class ShapeChange(Exception):
    pass


MAXROUNDS = 60
DEBUG = bool(os.environ.get('VERIF_LOOPS'))


# ------------------------------------------------------------------ shapes of modified state

class Prim(object):
    """a modified integer / boolean / string / list content"""
    def __init__(self, kind, v0):
        self.kind, self.v0 = kind, v0
        self.closed = None       # (template, var)
        self.rule = None
        self.dead = set()
        self.pos = None
        self.cur = None
        self.nodef = False

    def at(self, k):
        if self.closed is not None:
            t, v = self.closed
            return sub1(t, v, k, self.kind)
        return self.cur

    def make_opaque(self):
        if self.kind == 'int':
            self.cur = ir.fresh('s')
        elif self.kind == 'bool':
            ir._fresh[0] += 1
            self.cur = ir.bvar('sb!%d' % ir._fresh[0])
        else:
            n = ir.fresh('n', 0)
            ir._fresh[0] += 1
            if self.kind == 'str':
                self.cur = SStr(Seq([Run(n, ir.app('opq!%d' % ir._fresh[0], idx(), lo=0, hi=255))]))
            else:
                self.cur = Seq([Run(n, ir.app('opq!%d' % ir._fresh[0], idx()))])

    def prims(self):
        return [self]

    def value(self, k):
        return self.at(k)

    def pair(self, N):
        return [(self, check_kind(self.kind, N))]


def sub1(t, v, k, kind):
    if kind == 'seq':
        return seq_subst(t, {v: k})
    return vsubst(t, {v: k})


def kind_of(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, T):
        return 'bool' if ir.is_bool(v) else 'int'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (bytes, SStr)):
        return 'str'
    return None


def check_kind(kind, v):
    if kind == 'seq':
        return v
    k = kind_of(v)
    if k == kind:
        return v
    if kind == 'int' and k == 'bool':
        return ir.b2i(v)
    raise ShapeChange('%s became %r' % (kind, v))


class Const(object):
    def __init__(self, v):
        self.v = v

    def prims(self):
        return []

    def value(self, k):
        return self.v

    def pair(self, N):
        if N is self.v or same_value(N, self.v):
            return []
        raise ShapeChange('constant part changed')


class Tup(object):
    def __init__(self, kids):
        self.kids = kids

    def prims(self):
        return [p for c in self.kids for p in c.prims()]

    def value(self, k):
        return tuple(c.value(k) for c in self.kids)

    def pair(self, N):
        if not isinstance(N, tuple) or len(N) != len(self.kids):
            raise ShapeChange('tuple')
        return [x for c, n in zip(self.kids, N) for x in c.pair(n)]


class Obj(object):
    def __init__(self, cls, kids):
        self.cls, self.kids = cls, kids

    def prims(self):
        return [p for c in self.kids.values() for p in c.prims()]

    def value(self, k):
        o = VObj(self.cls)
        o.attrs = {a: c.value(k) for a, c in self.kids.items()}
        o.ro = True
        return o

    def pair(self, N):
        if not isinstance(N, VObj) or N.cls is not self.cls or set(N.attrs) != set(self.kids):
            raise ShapeChange('object')
        return [x for a, c in self.kids.items() for x in c.pair(N.attrs[a])]


class Lst(object):
    """a list value held by a rebound variable, fixed length"""
    def __init__(self, kids):
        self.kids = kids

    def prims(self):
        return [p for c in self.kids for p in c.prims()]

    def value(self, k):
        o = VList([c.value(k) for c in self.kids])
        o.ro = True
        return o

    def pair(self, N):
        if not isinstance(N, VList) or N.items is None or len(N.items) != len(self.kids):
            raise ShapeChange('list')
        return [x for c, n in zip(self.kids, N.items) for x in c.pair(n)]


class LstSeq(object):
    """a list value held by a rebound variable, varying length"""
    def __init__(self, p):
        self.p = p

    def prims(self):
        return [self.p]

    def value(self, k):
        o = VList([])
        o.set_seq(self.p.value(k))
        o.ro = True
        return o

    def pair(self, N):
        if not isinstance(N, VList):
            raise ShapeChange('list')
        return [(self.p, N.getseq())]


def build(v0, N):
    """shape covering both the value before the loop and the value after one iteration"""
    a, b = kind_of(v0), kind_of(N)
    if a and b:
        if a == b:
            return Prim(a, v0)
        if {a, b} == {'int', 'bool'}:
            return Prim('int', v0 if a == 'int' else ir.b2i(v0))
        raise ShapeChange('%s / %s' % (a, b))
    if v0 is N or same_value(v0, N):
        return Const(v0)
    if isinstance(v0, tuple) and isinstance(N, tuple) and len(v0) == len(N):
        return Tup([build(x, y) for x, y in zip(v0, N)])
    if isinstance(v0, VObj) and isinstance(N, VObj) and v0.cls is N.cls and set(v0.attrs) == set(N.attrs):
        return Obj(v0.cls, {a: (Const(v0.attrs[a]) if v0.attrs[a] is N.attrs[a] else build(v0.attrs[a], N.attrs[a])) for a in v0.attrs})
    if isinstance(v0, VList) and isinstance(N, VList):
        if v0.items is not None and N.items is not None and len(v0.items) == len(N.items):
            return Lst([build(x, y) for x, y in zip(v0.items, N.items)])
        return LstSeq(Prim('seq', v0.getseq()))
    raise ShapeChange('%r / %r' % (v0, N))


# ------------------------------------------------------------------ leaves

class Leaf(object):
    """where a modified value lives"""
    def __init__(self, kind, holder, name):
        self.kind, self.holder, self.name = kind, holder, name
        self.shape = None
        self.bodyonly = False

    def key(self):
        return (self.kind, id(self.holder), self.name)

    def get(self, fr):
        k = self.kind
        if k == 'local':
            return fr.locals.get(self.name, MISSING)
        if k == 'attr':
            return self.holder.attrs.get(self.name, MISSING)
        if k == 'ns':
            return self.holder.ns.get(self.name, MISSING)
        if k == 'elem':
            return self.holder.items[self.name]
        if k == 'content':
            return self.holder.getseq()
        if k == 'key':
            return self.holder.d.get(self.name, MISSING)

    def put(self, ctx, fr, v):
        k = self.kind
        if k == 'local':
            fr.locals[self.name] = v
            return
        ctx.touch(self.holder)
        if k == 'attr':
            self.holder.attrs[self.name] = v
        elif k == 'ns':
            self.holder.ns[self.name] = v
        elif k == 'elem':
            self.holder.items[self.name] = v
        elif k == 'content':
            self.holder.set_seq(v)
        elif k == 'key':
            self.holder.d[self.name] = v


def assigned(node):
    """names a loop body may assign in its own frame"""
    c = node.__dict__.get('_assigned')
    if c is None:
        from .interp import collect_locals

        class W(object):
            pass
        w = W()
        w._ = 'Loop'
        w.body = list(node.body)
        if node._ == 'For':
            from .astload import N
            a = N()
            a._ = 'Assign'
            a.targets = [node.target]
            a.value = None
            w.body = [a] + w.body
        c = collect_locals(w)[0]
        node.__dict__['_assigned'] = c
    return c


def reachable(I, fr):
    seen = set()
    st = []
    for f in I.frames + [fr]:
        g = f
        while g is not None:
            st.extend(g.locals.values())
            if g.func is not None:
                st.extend(g.func.defaults)
            g = g.parent
    for m in I.modules.values():
        st.append(m)
    st.extend(I.roots)
    while st:
        v = st.pop()
        if isinstance(v, (VList, VObj, VDict, VModule, VClass, VSet)):
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, VList):
                if v.items is not None:
                    st.extend(x for x in v.items if not isinstance(x, (int, T, bytes)))
            elif isinstance(v, VObj):
                st.append(v.cls)
                st.extend(v.attrs.values())
            elif isinstance(v, VDict):
                st.extend(v.d.values())
            elif isinstance(v, VSet):
                st.extend(v.items)
            else:
                st.extend(v.ns.values())
        elif isinstance(v, tuple):
            st.extend(v)
        elif isinstance(v, VBound):
            st.append(v.self_)
        elif isinstance(v, VFunc):
            st.extend(v.defaults)
            if v.closure is not None and id(v.closure) not in seen:
                seen.add(id(v.closure))
                st.extend(v.closure.locals.values())
    return seen


# ------------------------------------------------------------------ the cut

class Outcome(object):
    def __init__(self, kind):
        self.kind = kind


class Loop(object):
    def __init__(self, ctx, I, s, fr, key, it=None):
        self.ctx, self.I, self.s, self.fr, self.key = ctx, I, s, fr, key
        self.leaves = []
        self.dead = set()
        self.pos = None
        self.cands = None
        self.k = None
        self.it = it
        self.n = None
        self.entry_locals = dict(fr.locals)
        self.measures_ok = None
        self.rejected = set()
        self.variant = False
        self.nbody = 0
        self.cond0 = []

    # ---- generic state
    def install(self, k):
        fr = self.fr
        for l in self.leaves:
            if l.bodyonly:
                if l.shape is not None and l.shape.prims() and all(p.closed is not None for p in l.shape.prims()) and self.it is not None:
                    l.put(self.ctx, fr, UNDEF)
                else:
                    l.put(self.ctx, fr, UNDEF)
            else:
                l.put(self.ctx, fr, l.shape.value(k))

    def prims(self):
        return [p for l in self.leaves if not l.bodyonly and l.shape is not None for p in l.shape.prims()]

    def restore(self):
        self.fr.locals.clear()
        self.fr.locals.update(self.entry_locals)

    # ---- one exploration of the body from the generic state
    def explore(self, onnext, k):
        ctx, I, fr = self.ctx, self.I, self.fr
        outer = ctx.dec
        mark0 = ctx.mark()
        saved_frames, saved_cs = list(I.frames), list(I.callstack)
        nob = ctx.nobranch
        ctx.nobranch = 0
        outcomes = []
        work = [()]
        nlogs = len(ctx.logs)
        count = 0
        try:
            while work:
                prefix = work.pop()
                count += 1
                if count > 400:
                    raise Unsupported('too many paths through a loop body')
                ctx.dec = Decisions(prefix)
                ctx.rollback(mark0)
                self.restore()
                ctx.begin_log()
                out = None
                try:
                    self.install(k)
                    self.push_invariants(k)
                    self.pre_state = {l.key(): l.get(fr) for l in self.leaves}
                    try:
                        if self.it is not None:
                            ctx.push(ir.lt(k, self.n))
                            x = self.item(k)
                            I.assign(self.s.target, x, fr)
                        else:
                            self.cond0 = self.cond_bounds()
                            c = I.truth(I.eval(self.s.test, fr))
                            if not c:
                                raise PathEnd('condition false')
                        I.exec_block(self.s.body, fr)
                        out = 'next'
                    except ContinueEx:
                        out = 'next'
                    except BreakEx:
                        out = 'break'
                    except ReturnEx:
                        out = 'return'
                    except PyRaise as e:
                        out = 'raise ' + e.name
                        if ctx.infeasible():
                            out = None
                    if out == 'next' and onnext is not None:
                        onnext(self, k)
                except PathEnd:
                    out = None
                finally:
                    work.extend(ctx.dec.alts)
                    ctx.end_log(True)
                    del I.frames[:]
                    I.frames.extend(saved_frames)
                    I.callstack[:] = saved_cs
                if out is not None:
                    outcomes.append(out)
        finally:
            ctx.nobranch = nob
            ctx.dec = outer
            while len(ctx.logs) > nlogs:
                ctx.end_log(True)
            ctx.rollback(mark0)
            self.restore()
            del I.frames[:]
            I.frames.extend(saved_frames)
            I.callstack[:] = saved_cs
        return outcomes

    def cond_bounds(self):
        """quantities the loop condition keeps >= 0"""
        ctx, I = self.ctx, self.I
        ctx.nobranch += 1
        try:
            c = I.truth_term(I.eval(self.s.test, self.fr))
        except (NoBranch, PyRaise, Unsupported):
            return []
        finally:
            ctx.nobranch -= 1
        out = []
        if isinstance(c, T):
            for x in (c.a if c.op == 'band' else (c,)):
                if x.op == 'le':
                    out.append(ir.neg(x.a[0]))
        return out

    def item(self, k):
        it = self.it
        if isinstance(it, VRange):
            return it.at(k)
        v = seqs.index_seq(self.ctx, self.itseq, k)
        return mkstr(Seq([E(v)])) if self.itstr else v

    def push_invariants(self, k):
        for c in self.cands or ():
            t = c.at(self, k, 'cur')
            if t is not True and t is not None:
                self.ctx.push(t)

    # ---- discovery of modified state
    def discover(self):
        ctx, fr = self.ctx, self.fr
        have = {l.key() for l in self.leaves}
        found = {}

        def onnext(self, k):
            log = ctx.logs[-1]
            for nm, v in fr.locals.items():
                a = self.entry_locals.get(nm, MISSING)
                l = Leaf('local', None, nm)
                if l.key() in have:
                    continue
                if nm not in self.assigned:
                    continue
                if a is MISSING or a is UNDEF:
                    l.bodyonly = True
                if l.key() not in found and isinstance(a, VObj) and isinstance(v, VObj) and a is not v:
                    try:
                        l.shape = build(a, v)        # here, while the new object still exists
                    except ShapeChange:
                        l.bodyonly = True
                found.setdefault(l.key(), (l, a, v))
            for o, st in list(log.values()):
                if id(o) not in self.reach:
                    continue
                for l, a, b in diff(o, st):
                    if l.key() in have or (isinstance(o, VList) and ('content', id(o), '*') in have):
                        continue
                    found.setdefault(l.key(), (l, a, b))
        self.explore(onnext, self.k)
        new = False
        for key, (l, a, b) in found.items():
            if l.kind == 'content':
                # element leaves of the same list are subsumed
                self.leaves = [x for x in self.leaves if not (x.kind == 'elem' and x.holder is l.holder)]
            if l.bodyonly:
                self.leaves.append(l)
                new = True
                continue
            if a is MISSING:
                raise ShapeChange('attribute created in the loop')
            if l.kind == 'content':
                l.shape = Prim('seq', a)
            elif l.shape is not None:
                pass
            else:
                l.shape = build(a, b)
            for p in l.shape.prims():
                p.make_opaque()
            if l.kind != 'content' and not isinstance(l.shape, Obj):
                self.guess(l, b)
            self.leaves.append(l)
            new = True
        if new:
            while self.use_pool(('str', 'seq')):
                pass
        return new

    def guess(self, l, b):
        """constant increments seen in the first iteration (checked like every other guess)"""
        try:
            pairs = l.shape.pair(b)
        except ShapeChange:
            return
        for p, n in pairs:
            if p.kind == 'int' and not self.ctx.plain:
                d = ir.sub(n, p.v0)
                if not isinstance(d, T):
                    p.rule = 'guess'
                    p.closed = (ir.add(p.v0, ir.mul(d, self.k)), self.k)

    # ---- inference + checking
    def analyse(self):
        self.ctx.loopstack.append(self)
        try:
            return self.analyse_()
        finally:
            self.ctx.loopstack.remove(self)

    def analyse_(self):
        ctx, I = self.ctx, self.I
        self.failed = set()          # combinations of contract-supplied values that are not invariant
        self.assigned = assigned(self.s)
        self.reach = reachable(I, self.fr)
        self.k = ir.fresh('k', 0)
        self.k0mark = ctx.mark()
        # names assigned in the body
        for _ in range(8):
            if not self.discover():
                break
        else:
            raise Unsupported('modified state of the loop does not stabilise')
        for l in self.leaves:
            if l.bodyonly:
                continue
        self.cands = []
        tried = False
        for rnd in range(MAXROUNDS):
            self.changed = False
            self.proposals = {}
            self.conflict = set()
            self.bad = set()
            self.newleaf = False
            self.meas = None
            outs = self.explore(step_check, self.k)
            if self.newleaf:
                nb = sum(l.bodyonly for l in self.leaves)
                if not self.discover() and nb == self.nbody:
                    raise Unsupported('loop state')
                self.nbody = nb
                continue
            if self.bad:
                self.failed.add(frozenset(self.pool_choices()))
                for b in self.bad:
                    if isinstance(b, Prim):
                        if not isinstance(b.rule, tuple):
                            b.dead.add(b.rule)
                        self.drop_closed(b)
                    else:
                        self.cands.remove(b)
                        self.rejected.add(b.name)
                continue
            prog = False
            for p, (rule, tmpl) in self.proposals.items():
                if p in self.conflict or p.closed is not None or ctx.plain and p.kind == 'int':
                    continue
                p.rule = rule
                p.closed = (tmpl, self.k)
                p.was = p.cur
                prog = True
            if prog:
                continue
            # contract-supplied values for what is still opaque
            took = False
            while self.use_pool():       # all at once: variables may depend on each other
                took = True
            if took:
                continue
            if not tried:
                tried = True
                cs = self.initial_candidates()
                if cs:
                    self.cands = cs
                    continue
            self.outs = outs
            if DEBUG:
                for c in self.cands:
                    print('    kept', c.name, str(c.at(self, self.k, 'cur'))[:300])
            for i, p in enumerate(self.prims()):
                if p.closed is not None and isinstance(p.rule, tuple):
                    ctx.poolmemo[self.s.lineno, i] = p.pos
            break
        else:
            raise Unsupported('loop invariants do not stabilise')
        if self.it is None:
            ok = bool(self.meas) and any(all(r) for r in self.meas.values()) if self.meas is not None else True
            k2 = (self.I.callstack[-1][0] if self.I.callstack else '?', self.s.lineno)
            ctx.termination[k2] = ctx.termination.get(k2, True) and ok
        return self.outs

    def drop_closed(self, b):
        b.closed = None
        b.make_opaque()
        # closed forms inferred from this one may be wrong too; they are re-checked anyway

    def pool_entries(self):
        """contract-supplied values; those with a second parameter are tried with the integers in scope (indices of outer loops)"""
        ints = None
        for i, f in enumerate(self.ctx.pools(self)):
            if f.__code__.co_argcount - len(f.__defaults__ or ()) < 2:
                yield ('pool', i), f, (), (i, 0)
                continue
            if ints is None:
                ints = []
                for v in list(self.entry_locals.values()):
                    if isinstance(v, T) and not ir.is_bool(v) and v not in ints:
                        ints.append(v)
                for l in self.ctx.loopstack:
                    if l is not self:
                        ints += [x for x in (l.k, ir.add(l.k, 1)) if x not in ints]
            for j, v in enumerate(ints):
                yield ('pool', i, v), f, (v,), (i, j)

    def pool_choices(self):
        return {(i, p.rule) for i, p in enumerate(self.prims()) if p.closed is not None and isinstance(p.rule, tuple)}

    def use_pool(self, kinds=None):
        ctx = self.ctx
        did = False
        chosen = self.pool_choices()
        for pi, p in enumerate(self.prims()):
            if p.closed is not None:
                continue
            if kinds is not None and p.kind not in kinds:
                continue
            memo = ctx.poolmemo.get((self.s.lineno, pi))
            for nm, f, extra, pos in sorted(self.pool_entries(), key=lambda x: x[3] != memo):
                if nm in p.dead or frozenset(chosen | {(pi, nm)}) in self.failed:
                    continue
                try:
                    v = f(self.k, *extra)
                except Unsupported:
                    p.dead.add(nm)
                    continue
                if p.kind == 'seq':
                    if isinstance(v, VList):
                        v = v.getseq()
                    if not isinstance(v, Seq):
                        p.dead.add(nm)
                        continue
                elif kind_of(v) != p.kind:
                    p.dead.add(nm)
                    continue
                v0 = sub1(v, self.k, 0, p.kind)
                if not self.same(p.kind, v0, p.v0):
                    p.dead.add(nm)
                    continue
                p.rule = nm
                p.pos = pos
                p.closed = (v, self.k)
                did = True
                break
            if did:
                break
        return did

    def same(self, kind, a, b):
        if kind == 'seq':
            return seqs.Prover(self.ctx).seq(a, b)
        return self.ctx.equal(a, b)[0]

    def initial_candidates(self):
        out = []
        ctx = self.ctx
        opq = [p for p in self.prims() if p.closed is None]
        for j, p in enumerate(opq):
            if p.kind == 'int':
                v0 = p.v0
                if ctx.entails(ir.ge(v0, 0)):
                    out.append(Cand('ge0', [p], lambda x: ir.ge(x, 0)))
                    if ctx.entails(ir.ge(v0, 1)):
                        out.append(Cand('ge1', [p], lambda x: ir.ge(x, 1)))
                out.append(Cand('le0', [p], lambda x, v0=v0: ir.le(x, v0)))
                out.append(Cand('gev', [p], lambda x, v0=v0: ir.ge(x, v0)))
            elif p.kind in ('str', 'seq'):
                n0 = (strseq(p.v0) if p.kind == 'str' else p.v0).length()
                out.append(Cand('len', [p], lambda x, n0=n0: ir.eq((strseq(x) if not isinstance(x, Seq) else x).length(), n0)))
        for h in ctx.hints:
            for c in h(self, opq) or ():
                out.append(c)
        good = []
        for c in out:
            t = c.at(self, 0, 'entry')
            if t is True or (t is not None and t is not False and ctx.entails(t)):
                good.append(c)
        return good


class Cand(object):
    """candidate invariant over primitives (re-read each time, so closed forms are used where known)"""
    def __init__(self, name, prims, f, withk=False):
        self.name, self.ps, self.f, self.withk = name, prims, f, withk

    def at(self, loop, k, which):
        if which == 'cur':
            vals = [p.at(k) for p in self.ps]
        elif which == 'entry':
            vals = [p.v0 for p in self.ps]
        else:
            vals = [loop.nextvals.get(p) for p in self.ps]
            if any(v is None for v in vals):
                return None
        try:
            if self.withk:
                return self.f(k, *vals)
            return self.f(*vals)
        except (Unsupported, TypeError):
            return None


def step_check(loop, k):
    """called at the end of a body path, with its path condition in place"""
    ctx, fr = loop.ctx, loop.fr
    log = ctx.logs[-1]
    have = {l.key() for l in loop.leaves}
    # new modified state?
    for nm in fr.locals:
        if nm in loop.assigned and ('local', id(None), nm) not in have:
            loop.newleaf = True
            return
    for o, st in list(log.values()):
        if id(o) not in loop.reach:
            continue
        for l, a, b in diff(o, st):
            if l.key() not in have and not (isinstance(o, VList) and ('content', id(o), '*') in have):
                loop.newleaf = True
                return
    pairs = []
    for l in loop.leaves:
        if l.bodyonly:
            v = l.get(fr)
            continue
        N = l.get(fr)
        if N is MISSING or N is UNDEF:
            raise ShapeChange('variable deleted')
        try:
            pairs.extend(l.shape.pair(N))
        except ShapeChange:
            if l.kind != 'local' or not isinstance(l.shape, Obj):
                raise
            l.bodyonly = True
            loop.newleaf = True
            return
    loop.nextvals = {p: n for p, n in pairs}
    k1 = ir.add(k, 1)
    opq = set()
    for p, n in pairs:
        if p.closed is None:
            opq |= free_of(p.kind, p.cur)
    for p, n in pairs:
        if p in loop.bad:
            continue
        if p.closed is not None:
            if not loop.same(p.kind, n, p.at(k1)):
                loop.bad.add(p)
            continue
        r = infer(loop, p, n, k, opq)
        if DEBUG:
            print('    infer', p.kind, 'rule', r and r[0], 'tmpl', str(r and r[1])[:600], '\n       cur', str(p.cur)[:300], '\n       next', str(n)[:1500], 'conflict' if p in loop.conflict else '')
        if r is None or p in loop.conflict:
            loop.conflict.add(p)
            loop.proposals.pop(p, None)
            continue
        old = loop.proposals.get(p)
        if old is None:
            loop.proposals[p] = r
        elif old[0] != r[0] or not loop.same(p.kind, old[1], r[1]):
            loop.conflict.add(p)
            loop.proposals.pop(p, None)
    for c in list(loop.cands or ()):
        if c in loop.bad:
            continue
        t = c.at(loop, k1, 'next')
        if t is None or t is False or (t is not True and not ctx.entails(t)):
            if DEBUG:
                print('    drop', c.name, str(t)[:400])
            loop.bad.add(c)
    # termination measures
    if loop.it is None:
        if loop.meas is None:
            loop.meas = {}
            first = True
        else:
            first = False
        ms = {}
        for i, (p, n) in enumerate(pairs):
            if p.kind == 'int':
                a, b = p.at(k), n
            elif p.kind in ('str', 'seq'):
                a = (strseq(p.at(k)) if p.kind == 'str' else p.at(k)).length()
                b = (strseq(n) if p.kind == 'str' else n).length()
            else:
                continue
            ms[i] = (a, b)
            if p.kind == 'int':
                ms['a%d' % i] = (theory.absv(a), theory.absv(b))
        bs = loop.cond_bounds()
        if len(bs) == len(loop.cond0):
            for i, (a, b) in enumerate(zip(loop.cond0, bs)):
                ms['c%d' % i] = (a, b)
        for i, (a, b) in ms.items():
            prev = loop.meas.get(i, [] if first else [False])
            if all(prev):
                prev = prev + [ctx.entails(ir.and_b(True if isinstance(i, str) else ir.ge(a, 0), ir.lt(b, a)))]
            loop.meas[i] = prev


def free_of(kind, v):
    if kind == 'seq':
        return set(opqs(seq_terms(v))) | set(seq_free(v))
    if kind == 'str':
        s = strseq(v)
        return set(opqs(seq_terms(s))) | set(seq_free(s))
    return set(vfree(v))


def seq_terms(s):
    out = []
    for p in s.pieces:
        if isinstance(p, E):
            out.append(p.v)
        elif isinstance(p, Cat):
            out.append(p.n)
            out.extend(seq_terms(p.seq))
        else:
            out.append(p.n)
            out.append(p.body)
    return [x for x in out if isinstance(x, T)] + [y for x in out if isinstance(x, SStr) for y in seq_terms(x.seq)]


def opqs(ts):
    """names of opaque sequences used"""
    out = []
    for t in ts:
        for a in seqs.all_apps(t):
            if isinstance(a.a[0], str) and a.a[0].startswith('opq!'):
                out.append(a.a[0])
    return out


def depends(kind, v, opq):
    if kind in ('str', 'seq'):
        f = free_of(kind, v)
    else:
        f = set(vfree(v)) | set(opqs([v] if isinstance(v, T) else []))
    return bool((f & opq) - {idx(), jdx()})


def infer(loop, p, n, k, opq):
    """(rule, template in k) for the value after k iterations, from the update cur -> n at iteration k"""
    def ok(rule):
        return rule not in p.dead
    v0 = p.v0
    cur = p.cur
    if p.kind in ('int', 'bool'):
        if n is cur:
            if ok('const'):
                return ('const', v0)
            return None
        if not isinstance(n, T) or not depends(p.kind, n, opq):
            # independent of the previous state
            g1 = ir.subst(n, {k: ir.sub(k, 1)}) if isinstance(n, T) else n
            if ok('shift'):
                base = ir.subst(g1, {k: 0}) if isinstance(g1, T) else g1
                same = (base is v0) or (not isinstance(base, T) and not isinstance(v0, T) and base == v0)
                if same:
                    return ('shift', g1)
            if ok('late'):
                return ('late', ir.ite(ir.eq(k, 0), v0, g1))
            return None
        if p.kind == 'bool':
            return None
        d = ir.sub(n, cur)
        if not (isinstance(d, T) and (depends('int', d, opq) or k in ir.free_vars(d))):
            if ok('lin'):
                return ('lin', ir.add(v0, ir.mul(d, k)))
            return None
        if isinstance(n, T) and n.op == 'div' and n.a[0] is cur and not (isinstance(n.a[1], T) and (depends('int', n.a[1], opq) or k in ir.free_vars(n.a[1]))):
            if ok('div'):
                return ('div', ir.div(v0, ir.pow_(n.a[1], k)))
            return None
        # n = c * cur
        dd = ir._terms(n)
        if all(cur in m for m in dd) and isinstance(cur, T):
            c = 0
            for m, co in dd.items():
                mm = list(m)
                mm.remove(cur)
                c = ir.add(c, ir._from_terms({tuple(mm): co}))
            if not (isinstance(c, T) and (depends('int', c, opq) or k in ir.free_vars(c))) and ok('geom'):
                return ('geom', ir.mul(v0, ir.pow_(c, k)))
        return None
    # sequences
    ns = strseq(n) if p.kind == 'str' else n
    cs = strseq(cur) if p.kind == 'str' else cur
    s0 = strseq(v0) if p.kind == 'str' else v0

    def wrap(s):
        return mkstr(s) if p.kind == 'str' else s
    if same_seq(ns, cs):
        return ('const', v0) if ok('const') else None
    nl, cl = list(ns.pieces), list(cs.pieces)
    if len(nl) > len(cl) and same_seq(Seq(nl[:len(cl)]), cs):
        S = Seq(nl[len(cl):])
        if depends('seq', S, opq) or not ok('app'):
            return None
        v = ir.fresh('#kk', 0)
        try:
            c = mkcat(k, seq_subst(S, {k: v}), v)
        except Unsupported:
            return None
        return ('app', wrap(Seq(s0.pieces + c.pieces)))
    if len(nl) > len(cl) and same_seq(Seq(nl[-len(cl):]), cs):
        S = Seq(nl[:-len(cl)])
        if depends('seq', S, opq) or not ok('pre'):
            return None
        v = ir.fresh('#kk', 0)
        try:
            c = mkcat(k, seq_subst(S, {k: ir.sub(ir.sub(k, 1), v)}), v)
        except Unsupported:
            return None
        return ('pre', wrap(Seq(c.pieces + s0.pieces)))
    if len(nl) == 1 and len(cl) == 1 and isinstance(nl[0], Run) and isinstance(cl[0], Run) and same_value(nl[0].body, cl[0].body):
        # truncated by a fixed amount from the end
        d = ir.sub(cl[0].n, nl[0].n)
        if not isinstance(d, T) and ok('trunc'):
            try:
                return ('trunc', wrap(seqs.slice_seq(loop.ctx, s0, 0, ir.sub(s0.length(), ir.mul(d, k)))))
            except (NoBranch, Unsupported):
                return None
    if not depends('seq', ns, opq):
        g1 = seq_subst(ns, {k: ir.sub(k, 1)})
        if ok('shift') and same_seq(seq_subst(g1, {k: 0}), s0):
            return ('shift', wrap(g1))
    r = map_update(loop, p, ns, cs, s0, k, opq)
    if r is not None and ok('map'):
        return ('map', wrap(r))
    return None


def map_update(loop, p, ns, cs, s0, k, opq):
    """element number f(k) replaced at iteration k, f(k) = k"""
    nl = list(ns.pieces)
    if len(nl) < 2 or len(cs.pieces) != 1:
        return None
    c = cs.pieces[0]
    if not isinstance(c, Run):
        return None
    off = 0
    hit = None
    for q in nl:
        if isinstance(q, E):
            if hit is not None:
                return None
            hit = (off, q.v)
            off = ir.add(off, 1)
        elif isinstance(q, Run):
            if not same_value(q.body, vsubst(c.body, {c.v: ir.add(c.v, off)})) and not same_value(q.body, vsubst(c.body, {c.v: ir.add(q.v, off)})):
                return None
            off = ir.add(off, q.n)
        else:
            return None
    if hit is None or hit[0] is not k or not is_simple(hit[1]) or depends('int', hit[1], opq):
        return None
    i = idx()
    new = Run(k, vsubst(hit[1], {k: i}), i)
    try:
        rest = seqs.slice_seq(loop.ctx, s0, k, s0.length())
    except (NoBranch, Unsupported):
        return None
    return Seq([new] + list(rest.pieces))


def diff(o, st):
    """(leaf, old, new) for what changed in a touched object"""
    out = []
    if isinstance(o, VList):
        items, seq = st
        if items is not None and o.items is not None and len(items) == len(o.items):
            for i, (a, b) in enumerate(zip(items, o.items)):
                if a is not b and not same_value(a, b):
                    out.append((Leaf('elem', o, i), a, b))
        else:
            a = seq_of(items) if items is not None else seq
            b = o.getseq()
            if not same_seq(a, b):
                out.append((Leaf('content', o, '*'), a, b))
    elif isinstance(o, VObj):
        for nm in set(st) | set(o.attrs):
            a, b = st.get(nm, MISSING), o.attrs.get(nm, MISSING)
            if a is not b and not same_value(a, b):
                if a is MISSING or b is MISSING:
                    raise ShapeChange('attribute set changes')
                out.append((Leaf('attr', o, nm), a, b))
    elif isinstance(o, (VModule, VClass)):
        for nm in set(st) | set(o.ns):
            a, b = st.get(nm, MISSING), o.ns.get(nm, MISSING)
            if a is not b and not same_value(a, b):
                if a is MISSING or b is MISSING:
                    raise ShapeChange('namespace changes')
                out.append((Leaf('ns', o, nm), a, b))
    elif isinstance(o, VDict):
        for nm in set(st) | set(o.d):
            a, b = st.get(nm, MISSING), o.d.get(nm, MISSING)
            if a is not b and not same_value(a, b):
                if a is MISSING or b is MISSING:
                    raise Unsupported('dictionary grows in a symbolic loop')
                out.append((Leaf('key', o, nm), a, b))
    else:
        raise Unsupported('modified %r in a loop' % (o,))
    return out


MAXPEEL = 4


def cut_while(ctx, I, s, fr, key):
    for peel in range(MAXPEEL):
        try:
            return _cut_while(ctx, I, s, fr, key)
        except ShapeChange as e:
            why = e
        # run one iteration for real, then try again
        if not I.truth(I.eval(s.test, fr)):
            I.exec_block(s.orelse, fr)
            return
        try:
            I.exec_block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
    raise Unsupported('loop at line %s: %s' % (s.lineno, why))


def _cut_while(ctx, I, s, fr, key):
    L = Loop(ctx, I, s, fr, key)
    outs = L.analyse()
    escapes = [o for o in outs if o != 'next']
    k = L.k
    step = ctx.choose(2) if escapes else 0
    L.install(k)
    L.push_invariants(k)
    if step:
        return run_step(ctx, I, L, s, fr, k)
    # leave through the condition
    ck = None
    ctx.nobranch += 1
    try:
        ck = I.truth_term(I.eval(s.test, fr))
    except (NoBranch, PyRaise, Unsupported):
        ck = None
    finally:
        ctx.nobranch -= 1
    if ck is None:
        if I.truth(I.eval(s.test, fr)):
            raise PathEnd('loop continues')
    else:
        ctx.assume(ir.not_(ck))
        nk = ir.not_(ck)
        if isinstance(nk, T) and nk.op == 'le' and ctx.entails(ir.ge(nk.a[0], 0)):
            ctx.push(ir.eq(nk.a[0], 0))
        opq = set()
        for p in L.prims():
            if p.closed is None:
                opq |= free_of(p.kind, p.cur)
        if isinstance(ck, T) and not depends('int', ck, opq) and k in ir.free_vars(ck) and not any(o != 'next' for o in outs):
            ctx.push(ir.or_b(ir.eq(k, 0), ir.subst(ck, {k: ir.sub(k, 1)})))
        elif isinstance(ck, T) and not depends('int', ck, opq) and k in ir.free_vars(ck):
            ctx.push(ir.or_b(ir.eq(k, 0), ir.subst(ck, {k: ir.sub(k, 1)})))
    for l in L.leaves:
        if l.bodyonly:
            fr.locals[l.name] = UNDEF
    I.exec_block(s.orelse, fr)


def run_step(ctx, I, L, s, fr, k):
    if L.it is not None:
        ctx.assume(ir.lt(k, L.n))
        I.assign(s.target, L.item(k), fr)
    elif not I.truth(I.eval(s.test, fr)):
        raise PathEnd('exit explored separately')
    try:
        I.exec_block(s.body, fr)
    except BreakEx:
        return
    except ContinueEx:
        pass
    raise PathEnd('inductive step')


def cut_for(ctx, I, s, fr, key, it):
    if isinstance(it, VRange):
        n = it.count()
        itseq, itstr = None, False
    else:
        itseq, _ = B.seq_view(I, it)
        itstr = isinstance(it, (bytes, SStr))
        n = itseq.length()
    if not ctx.branch(ir.ge(n, 1)):
        I.exec_block(s.orelse, fr)
        return
    for peel in range(2):
        try:
            return _cut_for(ctx, I, s, fr, key, it, itseq, itstr, n, peel)
        except ShapeChange as e:
            why = e
        # peel the first element
        x = it.at(0) if isinstance(it, VRange) else seqs.index_seq(ctx, itseq, 0)
        if itstr:
            x = mkstr(Seq([E(x)]))
        I.assign(s.target, x, fr)
        try:
            I.exec_block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
        n = ir.sub(n, 1)
        if isinstance(it, VRange):
            it = VRange(ir.add(it.start, it.step), it.stop, it.step)
        else:
            itseq = seqs.slice_seq(ctx, itseq, 1, itseq.length())
        if not ctx.branch(ir.ge(n, 1)):
            I.exec_block(s.orelse, fr)
            return
    raise Unsupported('loop at line %s: %s' % (s.lineno, why))


def _cut_for(ctx, I, s, fr, key, it, itseq, itstr, n, peel):
    def make(count):
        L = Loop(ctx, I, s, fr, key, it)
        L.itseq, L.itstr, L.n = itseq, itstr, count
        return L, L.analyse()

    def quality(L):
        return sum(1 for p in L.prims() if p.closed is None)
    L, outs = make(n)
    last = False
    if quality(L):
        # the last iteration often differs (a partial block): treat it separately
        try:
            L2, outs2 = make(ir.sub(n, 1))
            if quality(L2) < quality(L):
                L, outs, last = L2, outs2, True
        except (ShapeChange, Unsupported):
            pass
    escapes = [o for o in outs if o != 'next']
    step = ctx.choose(2) if escapes else 0
    if step:
        L.install(L.k)
        L.push_invariants(L.k)
        return run_step(ctx, I, L, s, fr, L.k)
    # all n iterations done; the last one bound the target to item n-1
    L.install(L.n)
    L.push_invariants(L.n)
    for l in L.leaves:
        if l.bodyonly:
            fr.locals[l.name] = UNDEF
    I.assign(s.target, L.item(ir.sub(n, 1)), fr)
    if last:
        try:
            I.exec_block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
    I.exec_block(s.orelse, fr)
