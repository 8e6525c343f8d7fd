"""Symbolic / concrete interpreter for the Python 2 subset the project is written in.

Paths are explored by re-execution: Ctx.branch consults a decision prefix.  Loops
whose condition is not decided syntactically are cut with invariants (loops.py).
"""
import math
from . import ir, solver
from .ir import T
from .values import *
from .astload import parse, find_module, N
from .seqs import NoBranch
from . import builtins2 as B


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """this path needs no continuation (infeasible, or an inductive step that closed)"""
    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class Restart(Exception):
    """loop information changed: verify again from the start"""


class Budget(Exception):
    pass


class Undefined(object):
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undefined()


class Frame(object):
    __slots__ = ('locals', 'module', 'func', 'parent', 'globals_decl', 'localnames', 'cls', 'site')

    def __init__(self, module, func=None, parent=None, localnames=(), cls=None):
        self.locals = {}
        self.module = module
        self.func = func
        self.parent = parent
        self.globals_decl = ()
        self.localnames = localnames
        self.cls = cls
        self.site = None


def collect_locals(node):
    """names bound in a function body (Python 2 scoping) and global declarations"""
    c = node.__dict__.get('_locals')
    if c is not None:
        return c
    names, globs = set(), set()

    def tgt(t):
        if t._ == 'Name':
            names.add(t.id)
        elif t._ in ('Tuple', 'List'):
            for e in t.elts:
                tgt(e)

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        if not isinstance(n, N):
            return
        k = n._
        if k in ('FunctionDef', 'ClassDef'):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if k in ('Lambda', 'GeneratorExp'):
            return
        if k == 'Global':
            globs.update(n.names)
        elif k == 'Assign':
            for t in n.targets:
                tgt(t)
        elif k == 'AugAssign':
            tgt(n.target)
        elif k in ('For', 'comprehension'):
            tgt(n.target)
        elif k in ('Import', 'ImportFrom'):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif k == 'With' and n.optional_vars is not None:
            tgt(n.optional_vars)
        elif k == 'ExceptHandler' and n.name is not None:
            if isinstance(n.name, N):
                tgt(n.name)
        for f, v in n.__dict__.items():
            if isinstance(v, (N, list)):
                walk(v)
    if node._ == 'Lambda':
        pass
    else:
        walk(node.body)
    r = (frozenset(names - globs), frozenset(globs))
    node.__dict__['_locals'] = r
    return r


BINOPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**',
          'LShift': '<<', 'RShift': '>>', 'BitOr': '|', 'BitXor': '^', 'BitAnd': '&'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '//': 'floordiv', '%': 'mod', '**': 'pow',
          '<<': 'lshift', '>>': 'rshift', '|': 'or', '^': 'xor', '&': 'and'}


class Interp(object):
    MAXSTEPS = 40000000

    def __init__(self, ctx):
        self.ctx = ctx
        self.modules = {}
        self.callstack = []
        self.frames = []
        self.externals = {}          # module name -> VModule (trusted stand-ins)
        self.rec = {}                # functions verified against their own contract at recursive calls
        self.summaries = {}          # qualified function name -> callee-side contract
        self.active = []             # qualified names whose body is being verified
        self.snap = None
        self.steps = 0
        self.coverage = set()
        self.roots = []              # objects held by the harness

    # ------------------------------------------------------------ modules
    def load(self, name, package=''):
        ext = self.externals.get(name)
        if ext is not None:
            return ext
        fm = find_module(name, package)
        if fm is None:
            ext = B.external_module(self, name)
            if ext is not None:
                self.modules[name] = ext
                return ext
            raise PyRaise('ImportError', 'No module named ' + name)
        nm, path, pkg = fm
        m = self.modules.get(path)
        if m is not None:
            return m
        m = VModule(nm, path)
        m.package = pkg
        self.modules[path] = m
        tree = parse(path)
        m.ns['__name__'] = nm
        m.ns['__doc__'] = None
        m.ns['__file__'] = path
        fr = Frame(m)
        fr.locals = m.ns
        saved = self.frames, self.callstack
        self.frames, self.callstack = [fr], [('module', nm)]
        was, self.ctx.in_module = self.ctx.in_module, True
        try:
            self.exec_block(tree.body, fr)
        except PyRaise:
            del self.modules[path]
            raise
        finally:
            self.frames, self.callstack = saved
            self.ctx.in_module = was
        return m

    def take_snapshot(self):
        """remember module-level state so that every path starts from the same one"""
        self.snap = []
        seen = set()

        def walk(v):
            if id(v) in seen:
                return
            if isinstance(v, VList):
                seen.add(id(v))
                self.snap.append(('list', v, list(v.items) if v.items is not None else None, v.seq))
                for x in v.items or ():
                    walk(x)
            elif isinstance(v, VDict):
                seen.add(id(v))
                self.snap.append(('dict', v, dict(v.d)))
                for x in v.d.values():
                    walk(x)
            elif isinstance(v, VObj):
                seen.add(id(v))
                self.snap.append(('obj', v, dict(v.attrs)))
                for x in v.attrs.values():
                    walk(x)
            elif isinstance(v, VClass):
                seen.add(id(v))
                self.snap.append(('cls', v, dict(v.ns)))
                for x in v.ns.values():
                    walk(x)
            elif isinstance(v, tuple):
                for x in v:
                    walk(x)
        for m in list(self.modules.values()):
            self.snap.append(('mod', m, dict(m.ns)))
            for x in m.ns.values():
                walk(x)

    def restore_snapshot(self):
        if self.snap is None:
            return
        for s in self.snap:
            if s[0] == 'list':
                s[1].items = list(s[2]) if s[2] is not None else None
                s[1].seq = s[3]
            elif s[0] == 'dict':
                s[1].d = dict(s[2])
            elif s[0] == 'obj':
                s[1].attrs = dict(s[2])
            elif s[0] in ('cls', 'mod'):
                s[1].ns.clear()
                s[1].ns.update(s[2])
        self.frames, self.callstack = [], []

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget('interpreter step budget')
        getattr(self, 'x_' + s._, self.x_unknown)(s, fr)

    def x_unknown(self, s, fr):
        raise Unsupported('statement %s at line %s' % (s._, getattr(s, 'lineno', '?')))

    def x_Expr(self, s, fr):
        if s.value._ == 'Str':
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def x_Global(self, s, fr):
        pass

    def x_Print(self, s, fr):
        for v in s.values:
            self.eval(v, fr)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def assign(self, t, v, fr):
        k = t._
        if k == 'Name':
            self.setname(t.id, v, fr)
        elif k in ('Tuple', 'List'):
            items = B.to_items(self, v)
            if items is None:
                raise Unsupported('unpacking a sequence of symbolic length')
            if len(items) != len(t.elts):
                raise PyRaise('ValueError', 'unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif k == 'Attribute':
            o = self.eval(t.value, fr)
            B.setattr_(self, o, self.mangle(t.attr, fr), v)
        elif k == 'Subscript':
            o = self.eval(t.value, fr)
            self.setitem(o, t.slice, v, fr)
        else:
            raise Unsupported('assignment target ' + k)

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            c = fr.cls
            f = fr
            while c is None and f is not None:
                c = f.cls
                f = f.parent
            if c is not None:
                return '_' + c.lstrip('_') + name
        return name

    def setname(self, name, v, fr):
        name = self.mangle(name, fr)
        if name in fr.globals_decl:
            self.ctx.touch(fr.module)
            fr.module.ns[name] = v
        else:
            fr.locals[name] = v

    def x_AugAssign(self, s, fr):
        op = BINOPS[s.op._]
        t = s.target
        if t._ == 'Name':
            cur = self.getname(t.id, fr)
            v = self.augop(op, cur, self.eval(s.value, fr), fr)
            self.setname(t.id, v, fr)
        elif t._ == 'Attribute':
            o = self.eval(t.value, fr)
            a = self.mangle(t.attr, fr)
            cur = B.getattr_(self, o, a)
            B.setattr_(self, o, a, self.augop(op, cur, self.eval(s.value, fr), fr))
        elif t._ == 'Subscript':
            o = self.eval(t.value, fr)
            if t.slice._ != 'Index':
                raise Unsupported('augmented slice assignment')
            i = self.eval(t.slice.value, fr)
            cur = B.getitem(self, o, i)
            B.setitem(self, o, i, self.augop(op, cur, self.eval(s.value, fr), fr))
        else:
            raise Unsupported('augassign')

    def augop(self, op, a, b, fr):
        if op == '+' and isinstance(a, VList):
            B.list_extend(self, a, b)
            return a
        if op == '*' and isinstance(a, VList):
            raise Unsupported('list *=')
        if isinstance(a, VObj):
            f = a.cls.lookup('__i%s__' % DUNDER[op])
            if f is not MISSING:
                return self.call(B.bind(self, f, a), [b], {})
        return self.binop(op, a, b, fr.module.future_division)

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyRaise('AssertionError')

    def package_of(self, fr):
        """where implicit relative imports look first"""
        return '' if fr.module.absolute_import else getattr(fr.module, 'package', '')

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.load(a.name, self.package_of(fr))
            if a.asname:
                self.setname(a.asname, m, fr)
            elif '.' in a.name:
                # bind the top-level package as a namespace holding the chain
                parts = a.name.split('.')
                top = fr.locals.get(parts[0])
                if not isinstance(top, VModule):
                    top = VModule(parts[0])
                cur = top
                for p in parts[1:-1]:
                    nx = cur.ns.get(p)
                    if not isinstance(nx, VModule):
                        nx = VModule(p)
                        cur.ns[p] = nx
                    cur = nx
                cur.ns[parts[-1]] = m
                self.setname(parts[0], top, fr)
            else:
                self.setname(a.name, m, fr)

    def x_ImportFrom(self, s, fr):
        mod = s.module or ''
        if mod == '__future__':
            for a in s.names:
                if a.name == 'division':
                    fr.module.future_division = True
                if a.name == 'absolute_import':
                    fr.module.absolute_import = True
            return
        if s.level:
            pk = getattr(fr.module, 'package', '').split('.')
            pk = pk[:len(pk) - (s.level - 1)]
            mod = '.'.join([p for p in pk if p] + ([mod] if mod else []))
            m = self.load(mod, '')
        else:
            m = self.load(mod, self.package_of(fr))
        for a in s.names:
            if a.name == '*':
                names = m.ns.get('__all__')
                if names is not None:
                    names = [n.decode('latin-1') for n in B.to_items(self, names)]
                else:
                    names = [n for n in m.ns if not n.startswith('_')]
                for n in names:
                    self.setname(n, m.ns[n], fr)
            else:
                if a.name not in m.ns:
                    try:
                        sub = self.load(mod + '.' + a.name, getattr(fr.module, 'package', ''))
                    except PyRaise:
                        raise PyRaise('ImportError', 'cannot import name ' + a.name)
                    self.setname(a.asname or a.name, sub, fr)
                    continue
                self.setname(a.asname or a.name, m.ns[a.name], fr)

    def x_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f], {})
        self.setname(s.name, f, fr)

    def mkfunc(self, node, fr):
        defaults = [self.eval(d, fr) for d in node.args.defaults]
        name = node.name if node._ == 'FunctionDef' else '<lambda>'
        closure = fr if fr.func is not None else None
        f = VFunc(name, node, fr.module, closure, fr.cls, defaults)
        prefix = fr.module.name + ':'
        if fr.func is not None:
            prefix = (fr.func.qual or '') + '.<locals>.'
        elif fr.cls is not None:
            prefix += fr.cls + '.'
        f.qual = prefix + name
        return f

    def x_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        cf = Frame(fr.module, None, fr if fr.func is not None else None)
        cf.cls = s.name
        cf.locals = {}
        self.exec_block(s.body, cf)
        vb = []
        exc = None
        for b in bases:
            if isinstance(b, VClass):
                vb.append(b)
            elif isinstance(b, VType):
                if b.name in EXC_BASES:
                    exc = b.name
            else:
                raise Unsupported('base class %r' % (b,))
        c = VClass(s.name, vb, cf.locals, fr.module)
        c.exc = exc
        for b in vb:
            if getattr(b, 'exc', None):
                c.exc = b.exc
        c.newstyle = bool(bases)
        c.ns.setdefault('__module__', fr.module.name.encode())
        for d in reversed(s.decorator_list):
            c = self.call(self.eval(d, fr), [c], {})
        self.setname(s.name, c, fr)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if t._ == 'Name':
                if t.id not in fr.locals:
                    raise PyRaise('NameError', t.id)
                del fr.locals[t.id]
            elif t._ == 'Subscript':
                o = self.eval(t.value, fr)
                if isinstance(o, VList) and o.items is not None and t.slice._ == 'Index':
                    i = self.eval(t.slice.value, fr)
                    if isinstance(i, int):
                        self.ctx.touch(o)
                        try:
                            del o.items[i]
                        except IndexError:
                            raise PyRaise('IndexError')
                        continue
                if isinstance(o, VList) and t.slice._ == 'Slice':
                    self.setitem(o, t.slice, VList([]), fr)
                    continue
                if isinstance(o, VDict):
                    k = B.dict_key(self.eval(t.slice.value, fr))
                    if k not in o.d:
                        raise PyRaise('KeyError')
                    self.ctx.touch(o)
                    del o.d[k]
                    continue
                raise Unsupported('del subscript')
            elif t._ == 'Attribute':
                o = self.eval(t.value, fr)
                a = self.mangle(t.attr, fr)
                if a not in o.attrs:
                    raise PyRaise('AttributeError', a)
                self.ctx.touch(o)
                del o.attrs[a]
            else:
                raise Unsupported('del')

    def x_Raise(self, s, fr):
        if s.type is None:
            if self.cur_exc:
                raise self.cur_exc[-1]
            raise PyRaise('TypeError')
        t = self.eval(s.type, fr)
        v = self.eval(s.inst, fr) if s.inst is not None else None
        raise self.make_exc(t, v)

    cur_exc = []

    def make_exc(self, t, v=None):
        if isinstance(t, VType) and t.name in EXC_BASES:
            return PyRaise(t.name, v)
        if isinstance(t, VClass):
            if getattr(t, 'exc', None):
                names = [c.name for c in t.mro[1:]] + [t.exc]
                return PyRaise(t.name, v, tuple(names))
            return PyRaise(t.name, v, ())
        if isinstance(t, VObj):
            return self.make_exc(t.cls, t)
        if isinstance(t, B.VExc):
            return PyRaise(t.name, t)
        # raise 'string' : TypeError in Python 2.6+
        return PyRaise('TypeError', 'exceptions must be old-style classes or derived from BaseException')

    def x_TryExcept(self, s, fr):
        try:
            self.exec_block(s.body, fr)
        except PyRaise as e:
            anc = exc_ancestors(e.name, e.bases)
            for h in s.handlers:
                ok = False
                if h.type is None:
                    ok = True
                else:
                    t = self.eval(h.type, fr)
                    for x in (t if isinstance(t, tuple) else (t,)):
                        if isinstance(x, (VType, VClass)) and x.name in anc:
                            ok = True
                if ok:
                    if h.name is not None:
                        ev = B.VExc(e.name, e.value)
                        if isinstance(h.name, N):
                            self.assign(h.name, ev, fr)
                        else:
                            self.setname(h.name, ev, fr)
                    self.cur_exc = self.cur_exc + [e]
                    try:
                        self.exec_block(h.body, fr)
                    finally:
                        self.cur_exc = self.cur_exc[:-1]
                    return
            raise
        else:
            self.exec_block(s.orelse, fr)

    def x_TryFinally(self, s, fr):
        try:
            self.exec_block(s.body, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(s.finalbody, fr)
            raise
        self.exec_block(s.finalbody, fr)

    # ------------------------------------------------------------ loops
    def loop_key(self, s):
        return (tuple(self.callstack), s._, s.lineno, s.col_offset)

    def x_While(self, s, fr):
        key = self.loop_key(s)
        n = 0
        rec = self.ctx.loop_enter(self, key, fr, s)
        forever = self.ctx.symbolic and (s.test._ in ('Num', 'Str') or (s.test._ == 'Name' and s.test.id == 'True'))
        while True:
            if forever and not self.ctx.unroll(key, n):
                r = self.probe_iteration(s, fr)
                if r == 'cut':
                    return self.ctx.cut_while(self, s, fr, key)
                if r == 'break':
                    return
                n += 1
                if n > self.ctx.max_unroll:
                    raise Unsupported('loop at line %s: unrolled %d times' % (s.lineno, n))
                continue
            if self.ctx.symbolic:
                c = self.cond_value(s.test, fr, probe=True)
                if isinstance(c, T) and not self.ctx.unroll(key, n):
                    return self.ctx.cut_while(self, s, fr, key)
            else:
                if rec is not None:
                    rec(n)
            if not self.truth(self.eval(s.test, fr)):
                self.exec_block(s.orelse, fr)
                return
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            n += 1
            if n > self.ctx.max_unroll and self.ctx.symbolic:
                raise Unsupported('loop at line %s: unrolled %d times' % (s.lineno, n))

    def probe_iteration(self, s, fr):
        """run one iteration of an endless loop if it needs no case split, else undo it"""
        ctx = self.ctx
        saved = dict(fr.locals)
        frames, cs = list(self.frames), list(self.callstack)
        m = ctx.mark()
        ctx.begin_log()
        ctx.nobranch += 1
        undo = True
        try:
            self.exec_block(s.body, fr)
            undo = False
        except NoBranch:
            pass
        except BreakEx:
            undo = False
            return 'break'
        except ContinueEx:
            undo = False
        except (ReturnEx, PyRaise):
            undo = False
            raise
        finally:
            ctx.nobranch -= 1
            ctx.end_log(undo)
            if undo:
                fr.locals.clear()
                fr.locals.update(saved)
                self.frames[:] = frames
                self.callstack[:] = cs
                ctx.rollback(m)
        return 'cut' if undo else 'next'

    def cond_value(self, e, fr, probe=False):
        """truth of an expression as bool/term without forking when possible; None-like Unsupported otherwise"""
        t = self.pure_cond(e, fr)
        return t

    def pure_cond(self, e, fr):
        """evaluate a side-effect-free condition to a boolean term; returns a fresh opaque if it is not one"""
        k = e._
        if k == 'BoolOp':
            vals = [self.pure_cond(x, fr) for x in e.values]
            # right operands may only be defined when the left ones hold: evaluated lazily by truth() later
            return ir.and_b(*vals) if e.op._ == 'And' else ir.or_b(*vals)
        if k == 'UnaryOp' and e.op._ == 'Not':
            return ir.not_(self.pure_cond(e.operand, fr))
        if k in ('Name', 'Num', 'Compare', 'Attribute', 'BinOp', 'Subscript', 'Str'):
            if self.is_pure(e):
                try:
                    return self.truth_term(self.eval(e, fr))
                except (PyRaise, Unsupported):
                    return ir.fresh('opaque') and ir.bvar('opaque')
            return ir.bvar('opaque')
        if k == 'Call' and self.is_pure(e):
            try:
                return self.truth_term(self.eval(e, fr))
            except (PyRaise, Unsupported):
                return ir.bvar('opaque')
        return ir.bvar('opaque')

    def is_pure(self, e):
        if isinstance(e, list):
            return all(self.is_pure(x) for x in e)
        if not isinstance(e, N):
            return True
        if e._ == 'Call':
            if not (e.func._ == 'Name' and e.func.id in ('len', 'abs', 'min', 'max', 'ord', 'chr', 'int', 'long', 'pow', 'divmod', 'isinstance', 'hasattr', 'range', 'xrange', 'sum')):
                return False
        if e._ in ('Lambda', 'ListComp', 'GeneratorExp', 'Yield'):
            return False
        return all(self.is_pure(v) for f, v in e.__dict__.items() if f not in ('_locals', 'value') or isinstance(v, (N, list)))

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        key = self.loop_key(s)
        if isinstance(it, VIter):
            it = it.v
        items = None
        if isinstance(it, VRange):
            n = it.count()
            if not isinstance(n, T) and not isinstance(it.start, T):
                items = range(it.start, it.start + n * it.step, it.step) if n > 0 else []
            elif not isinstance(n, T):
                items = [it.at(i) for i in range(max(n, 0))]
        else:
            items = B.to_items(self, it, lazy=True)
        rec = self.ctx.loop_enter(self, key, fr, s)
        if items is None or (self.ctx.symbolic and self.ctx.force_cut(key, len(items), it)):
            return self.ctx.cut_for(self, s, fr, key, it)
        if self.ctx.symbolic and len(items) > self.ctx.max_unroll:
            return self.ctx.cut_for(self, s, fr, key, it)
        n = 0
        live = isinstance(it, VList)
        i = 0
        while True:
            if live:
                # iterating a list sees later modifications
                if it.items is None:
                    raise Unsupported('list became symbolic while iterated')
                if i >= len(it.items):
                    break
                x = it.items[i]
            else:
                if i >= len(items):
                    break
                x = items[i]
            i += 1
            if rec is not None:
                rec(n)
            self.assign(s.target, x, fr)
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            n += 1
        if rec is not None:
            rec(n)
        self.exec_block(s.orelse, fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget('interpreter step budget')
        return getattr(self, 'e_' + e._, self.e_unknown)(e, fr)

    def e_unknown(self, e, fr):
        raise Unsupported('expression %s at line %s' % (e._, getattr(e, 'lineno', '?')))

    def e_Num(self, e, fr):
        return e.value

    def e_Str(self, e, fr):
        v = e.value
        if isinstance(v, str):
            return v.encode('latin-1', 'replace')
        return v

    def e_Name(self, e, fr):
        return self.getname(e.id, fr)

    def getname(self, name, fr):
        name = self.mangle(name, fr)
        f = fr
        if name not in fr.globals_decl:
            if name in f.locals:
                v = f.locals[name]
                if v is UNDEF:
                    raise Unsupported('read of %s, which only the loop body defines' % name)
                return v
            if fr.func is not None and name in fr.localnames:
                raise PyRaise('UnboundLocalError', name)
            f = f.parent
            while f is not None:
                if f.cls is None or f.func is not None:
                    if name in f.locals:
                        v = f.locals[name]
                        if v is UNDEF:
                            raise Unsupported('read of %s, which only the loop body defines' % name)
                        return v
                f = f.parent
        if name in fr.module.ns:
            return fr.module.ns[name]
        if name in B.BUILTINS:
            return B.BUILTINS[name]
        raise PyRaise('NameError', name)

    def e_Tuple(self, e, fr):
        return tuple(self.eval(x, fr) for x in e.elts)

    def e_List(self, e, fr):
        return VList([self.eval(x, fr) for x in e.elts])

    def e_Dict(self, e, fr):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, fr)
            d.d[B.dict_key(self.eval(k, fr))] = vv
        return d

    def e_Set(self, e, fr):
        return VSet([self.eval(x, fr) for x in e.elts])

    def e_Repr(self, e, fr):
        self.eval(e.value, fr)
        return b'?'

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(BINOPS[e.op._], a, b, fr.module.future_division)

    def binop(self, op, a, b, future_div=False):
        if isinstance(a, VObj) or isinstance(b, VObj):
            if isinstance(a, VObj):
                f = a.cls.lookup('__%s__' % DUNDER[op])
                if f is not MISSING:
                    r = self.call(B.bind(self, f, a), [b], {})
                    if r is not B.NOTIMPL:
                        return r
            if isinstance(b, VObj):
                f = b.cls.lookup('__r%s__' % DUNDER[op])
                if f is not MISSING:
                    r = self.call(B.bind(self, f, b), [a], {})
                    if r is not B.NOTIMPL:
                        return r
            raise PyRaise('TypeError', 'unsupported operand')
        return B.binop(self, op, a, b, future_div)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        k = e.op._
        if k == 'Not':
            return ir.not_(self.truth_term(v))
        if isinstance(v, VObj):
            f = v.cls.lookup({'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[k])
            if f is MISSING:
                raise PyRaise('TypeError')
            return self.call(B.bind(self, f, v), [], {})
        if isinstance(v, VRat):
            if k == 'USub':
                return VRat(ir.neg(v.num), v.den)
        if isinstance(v, float):
            return -v if k == 'USub' else v
        v = B.need_int(self, v)
        if k == 'USub':
            return ir.neg(v)
        if k == 'UAdd':
            return v
        if k == 'Invert':
            return ir.inv(v)
        raise Unsupported(k)

    def e_BoolOp(self, e, fr):
        isand = e.op._ == 'And'
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth_term(v)
            # combine boolean terms without forking when the rest is a pure comparison
            if isinstance(t, T) and isinstance(v, T) and ir.is_bool(v) and all(self.is_total(y) for y in e.values[i + 1:]):
                rest = []
                for y in e.values[i + 1:]:
                    z = self.eval(y, fr)
                    if not ir.is_bool(z):
                        break
                    rest.append(z)
                else:
                    return (ir.and_b if isand else ir.or_b)(v, *rest)
            tv = self.ctx.branch(t)
            if tv != isand:
                return v
        return v

    def is_total(self, e):
        """evaluation has no effects and cannot raise"""
        k = e._
        if k in ('Name', 'Num', 'Str'):
            return True
        if k == 'Compare':
            return all(o._ in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE', 'Is', 'IsNot') for o in e.ops) and self.is_total(e.left) and all(self.is_total(x) for x in e.comparators)
        if k == 'BinOp':
            return e.op._ in ('Add', 'Sub', 'Mult', 'BitAnd', 'BitOr', 'BitXor') and self.is_total(e.left) and self.is_total(e.right)
        if k == 'UnaryOp':
            return self.is_total(e.operand)
        if k == 'BoolOp':
            return all(self.is_total(x) for x in e.values)
        return False

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (o, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, fr)
            r = self.compare(o._, left, right)
            if len(e.ops) == 1:
                return r
            t = self.truth_term(r)
            if i < len(e.ops) - 1 and not all(self.is_total(x) for x in e.comparators[i + 1:]):
                if not self.ctx.branch(t):
                    return False
            else:
                res = ir.and_b(res, t)
                if res is False:
                    return False
            left = right
        return res

    def compare(self, op, a, b):
        return B.compare(self, op, a, b)

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return B.getattr_(self, o, self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        sl = e.slice
        if sl._ == 'Index':
            return B.getitem(self, o, self.eval(sl.value, fr))
        if sl._ == 'Slice':
            lo_ = self.eval(sl.lower, fr) if sl.lower is not None else None
            hi_ = self.eval(sl.upper, fr) if sl.upper is not None else None
            st = self.eval(sl.step, fr) if sl.step is not None else None
            return B.getslice(self, o, lo_, hi_, st)
        raise Unsupported('slice')

    def setitem(self, o, sl, v, fr):
        if sl._ == 'Index':
            return B.setitem(self, o, self.eval(sl.value, fr), v)
        if sl._ == 'Slice' and sl.step is None:
            lo_ = self.eval(sl.lower, fr) if sl.lower is not None else None
            hi_ = self.eval(sl.upper, fr) if sl.upper is not None else None
            return B.setslice(self, o, lo_, hi_, v)
        raise Unsupported('slice assignment')

    def e_ListComp(self, e, fr):
        r = self.comprehension(e, fr, fr)
        return r

    def e_GeneratorExp(self, e, fr):
        g = Frame(fr.module, fr.func, fr, (), fr.cls)
        g.locals = {}
        if fr.func is None:
            g.parent = fr
        return VIter(self.comprehension(e, fr, g, lazyparent=True))

    def e_SetComp(self, e, fr):
        raise Unsupported('set comprehension')

    def comprehension(self, e, fr, inner, lazyparent=False):
        out = VList([])

        def rec(i):
            if i == len(e.generators):
                B.list_append(self, out, self.eval(e.elt, inner))
                return
            g = e.generators[i]
            it = self.eval(g.iter, fr if i == 0 else inner)
            if isinstance(it, VIter):
                it = it.v
            items = B.to_items(self, it, lazy=True)
            if items is None:
                if len(e.generators) == 1 and not g.ifs:
                    self.symbolic_map(it, g.target, e.elt, inner, out)
                    return
                raise Unsupported('nested/filtered comprehension over a symbolic sequence')
            for x in items:
                self.assign(g.target, x, inner)
                if all(self.truth(self.eval(c, inner)) for c in g.ifs):
                    rec(i + 1)
        rec(0)
        return out

    def symbolic_map(self, it, target, elt, inner, out):
        def f(x):
            self.assign(target, x, inner)
            return self.eval(elt, inner)
        B.map_symbolic(self, it, f, out)
        # the comprehension variable keeps an unspecified value
        for nm in B.target_names(target):
            inner.locals[nm] = UNDEF

    def e_Yield(self, e, fr):
        raise Unsupported('generator function')

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = [self.eval(a, fr) for a in e.args]
        kw = {}
        for k in e.keywords:
            kw[k.arg] = self.eval(k.value, fr)
        if e.starargs is not None:
            x = B.to_items(self, self.eval(e.starargs, fr))
            if x is None:
                raise Unsupported('*args of symbolic length')
            args.extend(x)
        if e.kwargs is not None:
            d = self.eval(e.kwargs, fr)
            for k, v in d.d.items():
                kw[k.decode('latin-1')] = v
        return self.call(f, args, kw, (e.lineno, e.col_offset))

    def call(self, f, args, kw, site=None):
        if isinstance(f, VBound):
            return self.call(f.func, [f.self_] + args, kw, site)
        if isinstance(f, VFunc):
            return self.call_func(f, args, kw, site)
        if isinstance(f, VBuiltin):
            return f.fn(self, args, kw)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kw, site)
        if isinstance(f, VType):
            if f.name in EXC_BASES:
                return B.VExc(f.name, args[0] if args else None)
            return f.fn(self, args, kw)
        if isinstance(f, VObj):
            c = f.cls.lookup('__call__')
            if c is not MISSING:
                return self.call(B.bind(self, c, f), args, kw, site)
        if isinstance(f, (VStaticMethod,)):
            return self.call(f.f, args, kw, site)
        raise PyRaise('TypeError', 'object is not callable: %r' % (f,))

    def instantiate(self, c, args, kw, site=None):
        if getattr(c, 'exc', None):
            o = VObj(c)
            o.attrs['args'] = tuple(args)
            return o
        o = VObj(c)
        self.ctx.born(o)
        init = c.lookup('__init__')
        if init is not MISSING:
            self.call(B.bind(self, init, o), args, kw, site)
        elif args or kw:
            raise PyRaise('TypeError', 'this constructor takes no arguments')
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = []
        for p in a.args:
            if p._ != 'Name':
                raise Unsupported('tuple parameter')
            names.append(p.id)
        env = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', '%s() takes %d arguments (%d given)' % (f.name, len(names), len(args)))
            env[a.vararg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg] = ()
        for n, v in zip(names, args):
            env[n] = v
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in env:
                    raise PyRaise('TypeError', 'multiple values for ' + k)
                env[k] = v
            elif a.kwarg is not None:
                extra[k.encode()] = v
            else:
                raise PyRaise('TypeError', 'unexpected keyword argument ' + k)
        if a.kwarg is not None:
            env[a.kwarg] = VDict(extra)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    env[n] = f.defaults[j]
                else:
                    raise PyRaise('TypeError', '%s() missing argument %s' % (f.name, n))
        return env

    MAXDEPTH = 400

    def call_func(self, f, args, kw, site=None):
        env = self.bind_args(f, args, kw)
        s = self.summaries.get(f.qual)
        if s is not None and f.qual not in self.active:
            r = s(self, f, env)
            if r is not NotImplemented:
                return r
        rc = self.rec.get(f.qual)
        if rc is not None:
            m = rc['measure'](*env.values())
            if rc['outer'] is None:
                rc['outer'] = m
            else:
                if self.ctx.entails(ir.and_b(ir.ge(m, 0), ir.lt(m, rc['outer']))) is not True:
                    raise Unsupported('recursive call of %s: measure not seen to decrease' % f.qual)
                rc['used'] = True
                return rc['summary'](*env.values())
            try:
                return self.run_func(f, env, site)
            finally:
                rc['outer'] = None
        return self.run_func(f, env, site)

    def run_func(self, f, env, site):
        self.coverage.add(f.qual)
        if len(self.frames) > self.MAXDEPTH:
            if self.ctx.symbolic:
                raise Unsupported('call depth')
            raise PyRaise('RuntimeError', 'maximum recursion depth exceeded')
        names, globs = collect_locals(f.node)
        fr = Frame(f.module, f, f.closure, names, f.cls)
        fr.globals_decl = globs
        fr.locals = env
        self.frames.append(fr)
        self.callstack.append((f.qual, site))
        try:
            if f.node._ == 'Lambda':
                return self.eval(f.node.body, fr)
            self.exec_block(f.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.frames.pop()
            self.callstack.pop()

    # ------------------------------------------------------------ truth
    def truth_term(self, v):
        if isinstance(v, (bool,)):
            return v
        if isinstance(v, T):
            return v if ir.is_bool(v) else ir.ne(v, 0)
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, (bytes, tuple, float)):
            return bool(v)
        if isinstance(v, SStr):
            return ir.gt(v.seq.length(), 0)
        if isinstance(v, VList):
            return ir.gt(v.getseq().length(), 0) if v.items is None else bool(v.items)
        if isinstance(v, VDict):
            return bool(v.d)
        if isinstance(v, VObj):
            f = v.cls.lookup('__nonzero__')
            if f is not MISSING:
                return self.truth_term(self.call(B.bind(self, f, v), [], {}))
            f = v.cls.lookup('__len__')
            if f is not MISSING:
                return self.truth_term(self.call(B.bind(self, f, v), [], {}))
            return True
        if isinstance(v, VRat):
            return ir.ne(v.num, 0)
        if isinstance(v, (VOpaqueFloat, VHex, VRange)):
            raise Unsupported('truth of %r' % (v,))
        return True

    def truth(self, v):
        return self.ctx.branch(self.truth_term(v))
