"""Python 2 built-in operations on the interpreter's values."""
import math
import operator
from . import ir
from .ir import T
from .values import *
from . import seqs
from .seqs import split_at, slice_seq, index_seq, reverse_seq


class _NotImpl(object):
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = _NotImpl()


class VExc(object):
    """exception instance"""
    def __init__(self, name, value=None):
        self.name, self.value = name, value


def is_num(v):
    return isinstance(v, (int, T))


def is_str(v):
    return isinstance(v, (bytes, SStr))


def terr(msg=''):
    return PyRaise('TypeError', msg)


def need_int(I, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, T):
        return ir.b2i(v) if ir.is_bool(v) else v
    raise terr('an integer is required, not %r' % (type(v).__name__,))


def conc(I, v, limit=512):
    """a concrete integer, splitting the path over the possible values when there are few"""
    v = need_int(I, v)
    if not isinstance(v, T):
        return v
    r = I.ctx.concretize(v, limit)
    if r is None:
        raise Unsupported('a concrete integer is needed: %s' % seqs.short(v))
    return r


def type_name(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, T):
        return 'bool' if ir.is_bool(v) else 'int'
    if isinstance(v, (float, VRat, VOpaqueFloat)):
        return 'float'
    if isinstance(v, (bytes, SStr, VHex)):
        return 'str'
    if isinstance(v, str):
        return 'unicode'
    if isinstance(v, (tuple, VTupleSeq)):
        return 'tuple'
    if isinstance(v, (VList, VRange)):
        return 'list'
    if isinstance(v, VDict):
        return 'dict'
    if isinstance(v, VSet):
        return 'set'
    if v is None:
        return 'NoneType'
    if isinstance(v, (VFunc,)):
        return 'function'
    if isinstance(v, VClass):
        return 'type'
    return type(v).__name__


# ------------------------------------------------------------------ sequences

def to_items(I, v, lazy=False):
    """python list of the elements, None when the length is symbolic"""
    if isinstance(v, VIter):
        v = v.v
    if isinstance(v, bytes):
        return [bytes((x,)) for x in v]
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, VList):
        return list(v.items) if v.items is not None else None
    if isinstance(v, SStr):
        c = v.seq.concrete()
        if c is None:
            return None
        return [mkstr(seq_of([x])) for x in c]
    if isinstance(v, VTupleSeq):
        return v.seq.concrete()
    if isinstance(v, VRange):
        n = v.count()
        if isinstance(n, T):
            return None
        if n > 3000000:
            if lazy:
                raise Unsupported('very long range')
        return [v.at(i) for i in range(max(n, 0))]
    if isinstance(v, VDict):
        return [from_key(k) for k in v.d]
    if isinstance(v, VSet):
        return list(v.items)
    if isinstance(v, VObj):
        f = v.cls.lookup('__iter__')
        if f is not MISSING:
            return to_items(I, I.call(bind(I, f, v), [], {}))
    raise terr('not iterable: %s' % type_name(v))


def seq_view(I, v):
    """(Seq, wrap) over any sequence; wrap(element) is what iteration yields"""
    if isinstance(v, VIter):
        v = v.v
    if is_str(v):
        return strseq(v), lambda x: mkstr(seq_of([x]))
    if isinstance(v, VList):
        return v.getseq(), lambda x: x
    if isinstance(v, tuple):
        return seq_of(v), lambda x: x
    if isinstance(v, VTupleSeq):
        return v.seq, lambda x: x
    if isinstance(v, VRange):
        n = v.count()
        if isinstance(n, T) and not known_nonneg(I, n):
            if not I.ctx.branch(ir.ge(n, 0)):
                n = 0
        return Seq([Run(n, v.at(idx()), idx())]), lambda x: x
    raise terr('not a sequence: %s' % type_name(v))


def known_nonneg(I, n):
    t = ir.ge(n, 0)
    return t is True or (t is not False and I.ctx.decide(t) is True)


def length(I, v):
    if isinstance(v, (bytes, tuple)):
        return len(v)
    if isinstance(v, SStr):
        return v.seq.length()
    if isinstance(v, VHex):
        return ir.mul(2, v.seq.length())
    if isinstance(v, VList):
        return len(v.items) if v.items is not None else v.seq.length()
    if isinstance(v, VTupleSeq):
        return v.seq.length()
    if isinstance(v, VDict):
        return len(v.d)
    if isinstance(v, VSet):
        return len(v.items)
    if isinstance(v, str):
        return len(v)
    if isinstance(v, VRange):
        n = v.count()
        if not isinstance(n, T):
            return max(n, 0)
        return n if I.ctx.branch(ir.ge(n, 0)) else 0
    if isinstance(v, VObj):
        f = v.cls.lookup('__len__')
        if f is not MISSING:
            return I.call(bind(I, f, v), [], {})
    raise terr('object of type %s has no len()' % type_name(v))


def rewrap(v, seq):
    if is_str(v):
        return mkstr(seq)
    if isinstance(v, VList) or isinstance(v, VRange):
        return VList(None, seq)
    c = seq.concrete()
    if c is not None:
        return tuple(c)
    return VTupleSeq(seq)


def norm_index(I, i, n):
    """python index -> position in [0, n), IndexError otherwise"""
    i = need_int(I, i)
    if I.ctx.branch(ir.lt(i, 0)):
        i = ir.add(i, n)
        if not I.ctx.branch(ir.ge(i, 0)):
            raise PyRaise('IndexError', 'index out of range')
        return i
    if not I.ctx.branch(ir.lt(i, n)):
        raise PyRaise('IndexError', 'index out of range')
    return i


def getitem(I, o, i):
    if isinstance(o, VDict):
        k = dict_key(i)
        if k not in o.d:
            raise PyRaise('KeyError')
        return o.d[k]
    if isinstance(o, VObj):
        f = o.cls.lookup('__getitem__')
        if f is MISSING:
            raise terr('no __getitem__')
        return I.call(bind(I, f, o), [i], {})
    if not isinstance(o, (bytes, SStr, tuple, VList, VTupleSeq, VRange, VHex)):
        raise terr('%s is not subscriptable' % type_name(o))
    if not is_num(i):
        raise terr('indices must be integers')
    i = need_int(I, i)
    if isinstance(i, int):
        if isinstance(o, bytes):
            try:
                return bytes((o[i],))
            except IndexError:
                raise PyRaise('IndexError')
        if isinstance(o, tuple) or (isinstance(o, VList) and o.items is not None):
            try:
                return (o if isinstance(o, tuple) else o.items)[i]
            except IndexError:
                raise PyRaise('IndexError')
    n = length(I, o)
    if isinstance(o, VRange):
        return o.at(norm_index(I, i, n))
    if isinstance(o, VHex):
        raise Unsupported('indexing a hexadecimal string')
    s, wrap = seq_view(I, o)
    i = norm_index(I, i, n)
    return wrap(index_seq(I.ctx, s, i))


def clip(I, v, n, default):
    """slice bound -> position in [0, n]"""
    if v is None:
        return default
    v = need_int(I, v)
    if not isinstance(v, T) and not isinstance(n, T):
        if v < 0:
            v = max(0, v + n)
        return min(v, n)
    if I.ctx.branch(ir.lt(v, 0)):
        v = ir.add(v, n)
        if I.ctx.branch(ir.lt(v, 0)):
            return 0
        return v
    if I.ctx.branch(ir.le(v, n)):
        return v
    return n


def getslice(I, o, lo_, hi_, step):
    if isinstance(o, VObj):
        raise terr('no slicing')
    if step is not None:
        step = conc(I, step)
    if isinstance(o, VHex):
        raise Unsupported('slicing a hexadecimal string')
    if not isinstance(o, (bytes, SStr, tuple, VList, VTupleSeq, VRange)):
        raise terr('%s is not sliceable' % type_name(o))
    concrete = isinstance(o, (bytes, tuple)) or (isinstance(o, VList) and o.items is not None)
    if concrete and all(not isinstance(x, T) for x in (lo_, hi_)):
        lo2 = need_int(I, lo_) if lo_ is not None else None
        hi2 = need_int(I, hi_) if hi_ is not None else None
        if step == 0:
            raise PyRaise('ValueError')
        if isinstance(o, VList):
            return VList(o.items[lo2:hi2:step])
        return o[lo2:hi2:step]
    n = length(I, o)
    s, _ = seq_view(I, o)
    if step is None or step == 1:
        a = clip(I, lo_, n, 0)
        b = clip(I, hi_, n, n)
        if not I.ctx.branch(ir.le(a, b)):
            b = a
        return rewrap(o, slice_seq(I.ctx, s, a, b))
    if step == -1 and lo_ is None and hi_ is None:
        return rewrap(o, reverse_seq(s))
    c = s.concrete()
    if c is not None:
        return rewrap(o, seq_of(c[conc(I, lo_) if lo_ is not None else None:conc(I, hi_) if hi_ is not None else None:step]))
    raise Unsupported('extended slice of a symbolic sequence')


def setitem(I, o, i, v):
    if isinstance(o, VDict):
        I.ctx.touch(o)
        o.d[dict_key(i)] = v
        return
    if isinstance(o, VObj):
        f = o.cls.lookup('__setitem__')
        if f is MISSING:
            raise terr('no item assignment')
        I.call(bind(I, f, o), [i, v], {})
        return
    if isinstance(o, VRange):
        raise Unsupported('assignment into a lazily represented range')
    if not isinstance(o, VList):
        raise terr('%s does not support item assignment' % type_name(o))
    if not is_num(i):
        raise terr('list indices must be integers')
    I.ctx.touch(o)
    i = need_int(I, i)
    if isinstance(i, int) and o.items is not None:
        try:
            o.items[i] = v
        except IndexError:
            raise PyRaise('IndexError')
        return
    n = length(I, o)
    i = norm_index(I, i, n)
    if o.items is not None and isinstance(i, T):
        k = I.ctx.concretize(i, max(64, len(o.items)) if len(o.items) <= 300 else 64)
        if k is not None:
            o.items[k] = v
            return
    s = o.getseq()
    a, b = split_at(I.ctx, s, i)
    _, c = split_at(I.ctx, b, 1)
    o.set_seq(Seq(a.pieces + (E(v),) + c.pieces))


def setslice(I, o, lo_, hi_, v):
    if not isinstance(o, VList):
        raise terr('slice assignment')
    if isinstance(v, VRange):
        v = VList(to_items(I, v))
    I.ctx.touch(o)
    items = to_items(I, v)
    if o.items is not None and items is not None and not isinstance(lo_, T) and not isinstance(hi_, T):
        o.items[lo_:hi_] = items
        return
    n = length(I, o)
    a = clip(I, lo_, n, 0)
    b = clip(I, hi_, n, n)
    if not I.ctx.branch(ir.le(a, b)):
        b = a
    s = o.getseq()
    left, _ = split_at(I.ctx, s, a)
    _, right = split_at(I.ctx, s, b)
    vs, wrap = seq_view(I, v)
    if is_str(v):
        raise Unsupported('string assigned to a list slice')
    o.set_seq(Seq(left.pieces + vs.pieces + right.pieces))


def list_append(I, lst, x):
    I.ctx.touch(lst)
    if lst.items is not None:
        lst.items.append(x)
    else:
        lst.set_seq(Seq(lst.seq.pieces + (E(x),)))


def elements_seq(I, v):
    """Seq whose elements are the values iteration over v yields (strings become runs of one-character strings)"""
    if isinstance(v, VIter):
        v = v.v
    if is_str(v):
        out = []
        for p in strseq(v).pieces:
            if isinstance(p, E):
                out.append(E(mkstr(seq_of([p.v]))))
            elif isinstance(p, Run):
                out.append(Run(p.n, SStr(seq_of([vsubst(p.body, {p.v: jdx()})])), jdx()))
            else:
                raise Unsupported('iterating a blockwise string')
        return Seq(out)
    s, _ = seq_view(I, v)
    return s


def list_extend(I, lst, v):
    I.ctx.touch(lst)
    items = to_items(I, v)
    if items is not None and lst.items is not None:
        lst.items.extend(items)
        return
    s = elements_seq(I, v)
    lst.set_seq(Seq(lst.getseq().pieces + s.pieces))


def map_symbolic(I, it, f, out):
    """out += [f(x) for x in it] where it has symbolic length"""
    s, wrap = seq_view(I, it)
    pieces = []
    for p in s.pieces:
        if isinstance(p, E):
            pieces.append(E(f(wrap(p.v))))
            continue
        n = plen_(p)
        i = ir.fresh('m', 0)
        if isinstance(p, Cat):
            raise Unsupported('mapping over a blockwise sequence')
        I.ctx.push(ir.lt(i, n))
        I.ctx.nobranch += 1
        I.ctx.begin_log()
        try:
            v = f(wrap(p.at(i)))
            log = I.ctx.logs[-1]
            if log:
                from . import loops
                reach = loops.reachable(I, I.frames[-1]) if I.frames else ()
                for o, st in log.values():
                    if id(o) in reach and o is not out and loops.diff(o, st):
                        raise Unsupported('the mapped expression changes state')
        except seqs.NoBranch:
            raise Unsupported('the mapped expression branches on its element')
        finally:
            I.ctx.end_log(False)
            I.ctx.nobranch -= 1
            I.ctx.pop()
        if isinstance(v, (VList, VObj, VDict)):
            raise Unsupported('mapping to mutable values')
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, T) and ir.is_bool(v):
            v = ir.b2i(v)
        b = idx() if is_simple(v) else jdx()
        if not is_simple(v) and not isinstance(v, (SStr, bytes, tuple)):
            raise Unsupported('mapping to %r' % (v,))
        pieces.append(Run(n, vsubst(v, {i: b}), b))
    I.ctx.touch(out)
    out.set_seq(Seq(out.getseq().pieces + tuple(pieces)))


plen_ = seqs.plen


def target_names(t):
    if t._ == 'Name':
        return [t.id]
    if t._ in ('Tuple', 'List'):
        r = []
        for e in t.elts:
            r.extend(target_names(e))
        return r
    return []


def str_concat(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a + b
    return mkstr(Seq(strseq(a).pieces + strseq(b).pieces))


def repeat(I, v, n):
    n = need_int(I, n)
    if not isinstance(n, T):
        if n <= 0:
            n = 0
        if isinstance(v, bytes):
            if len(v) * n > 1 << 26:
                raise Unsupported('very long string')
            return v * n
        if isinstance(v, tuple):
            return v * n
        if isinstance(v, VList) and v.items is not None:
            if len(v.items) * n > 1 << 22:
                raise Unsupported('very long list')
            return VList(v.items * n)
    else:
        if not I.ctx.branch(ir.gt(n, 0)):
            n = 0
    s, _ = seq_view(I, v)
    if len(s.pieces) == 1 and isinstance(s.pieces[0], E):
        x = s.pieces[0].v
        return rewrap(v, Seq([Run(n, x, idx() if is_simple(x) else jdx())]))
    if len(s.pieces) == 1 and isinstance(s.pieces[0], Run) and not isinstance(s.pieces[0].body, T) and isinstance(s.pieces[0].body, int):
        return rewrap(v, Seq([Run(ir.mul(n, s.length()), s.pieces[0].body)]))
    return rewrap(v, mkcat(n, s, ir.fresh('#z', 0)))


def as_rat(v):
    if isinstance(v, VRat):
        return v
    if isinstance(v, (int, T)):
        return VRat(v if not (isinstance(v, T) and ir.is_bool(v)) else ir.b2i(v), 1)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return None
        a, b = v.as_integer_ratio()
        return VRat(a, b)
    return None


EXACT = 1 << 53


def exact_float(I, r):
    """the rational value is exactly what IEEE arithmetic gives only for modest operands"""
    n = r.num
    if isinstance(n, T):
        ok = ir.and_b(ir.lt(n, EXACT), ir.gt(n, -EXACT))
        if ok is not True and I.ctx.decide(ok) is not True:
            raise Unsupported('floating point on an integer that may exceed 2**53')
    elif abs(n) >= EXACT or r.den >= EXACT:
        raise Unsupported('floating point outside the exact range')
    return r


def binop(I, op, a, b, future_div=False):
    if isinstance(a, (float, VRat, VOpaqueFloat)) or isinstance(b, (float, VRat, VOpaqueFloat)):
        return float_op(I, op, a, b)
    if is_num(a) and is_num(b):
        return int_op(I, op, need_int(I, a), need_int(I, b), future_div)
    if op == '+':
        if is_str(a) and is_str(b):
            return str_concat(a, b)
        if isinstance(a, VHex) and isinstance(b, VHex):
            return VHex(concat(a.seq, b.seq))
        if isinstance(a, (VList, VRange)) and isinstance(b, (VList, VRange)):
            r = VList([])
            I.ctx.born(r)
            list_extend(I, r, a)
            list_extend(I, r, b)
            return r
        if isinstance(a, (tuple, VTupleSeq)) and isinstance(b, (tuple, VTupleSeq)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return rewrap(a, concat(seq_view(I, a)[0], seq_view(I, b)[0]))
        if isinstance(a, str) and isinstance(b, (str, bytes)) or isinstance(b, str) and isinstance(a, bytes):
            return (a if isinstance(a, str) else a.decode('latin-1')) + (b if isinstance(b, str) else b.decode('latin-1'))
        raise terr('unsupported operand types for +: %s and %s' % (type_name(a), type_name(b)))
    if op == '*':
        if is_num(b) and isinstance(a, (bytes, SStr, tuple, VList, VTupleSeq)):
            return repeat(I, a, b)
        if is_num(a) and isinstance(b, (bytes, SStr, tuple, VList, VTupleSeq)):
            return repeat(I, b, a)
        if is_num(b) and isinstance(a, VRange):
            return repeat(I, VList(to_items(I, a)), b)
    if op == '%' and isinstance(a, (bytes, str)):
        return str_format(I, a, b)
    raise terr('unsupported operand types for %s: %s and %s' % (op, type_name(a), type_name(b)))


def str_format(I, a, b):
    if isinstance(a, str):
        a = a.encode('latin-1', 'replace')
    args = b if isinstance(b, tuple) else (b,)
    # the text only reaches messages in this project; render what is concrete
    try:
        if all(isinstance(x, (int, float, bytes)) for x in args):
            return (a.decode('latin-1') % tuple(x.decode('latin-1') if isinstance(x, bytes) else x for x in args)).encode('latin-1')
    except (TypeError, ValueError) as e:
        raise PyRaise('TypeError' if isinstance(e, TypeError) else 'ValueError')
    if a.count(b'%') - 2 * a.count(b'%%') != len(args):
        raise terr('format arguments')
    return OpaqueText()


class OpaqueText(object):
    """a formatted message whose text is not modelled"""


def float_op(I, op, a, b):
    if isinstance(a, (VOpaqueFloat,)) or isinstance(b, (VOpaqueFloat,)):
        return VOpaqueFloat()
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            if op == '/':
                return a / b
            return {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv,
                    '%': operator.mod, '**': operator.pow}[op](a, b)
        except ZeroDivisionError:
            raise PyRaise('ZeroDivisionError')
        except OverflowError:
            raise PyRaise('OverflowError')
        except KeyError:
            raise terr('float %s' % op)
    if not isinstance(a, (int, T, float, VRat)) or not isinstance(b, (int, T, float, VRat)):
        raise terr('float %s' % op)
    x, y = as_rat(a), as_rat(b)
    if x is None or y is None:
        return VOpaqueFloat()
    exact_float(I, x)
    exact_float(I, y)
    r = None
    if op == '+':
        r = VRat(ir.add(ir.mul(x.num, y.den), ir.mul(y.num, x.den)), x.den * y.den)
    elif op == '-':
        r = VRat(ir.sub(ir.mul(x.num, y.den), ir.mul(y.num, x.den)), x.den * y.den)
    elif op == '*':
        r = VRat(ir.mul(x.num, y.num), x.den * y.den)
    elif op == '/':
        if isinstance(y.num, T):
            if I.ctx.branch(ir.eq(y.num, 0)):
                raise PyRaise('ZeroDivisionError')
            return VOpaqueFloat()
        if y.num == 0:
            raise PyRaise('ZeroDivisionError')
        s = 1 if y.num > 0 else -1
        r = VRat(ir.mul(x.num, s * y.den), x.den * abs(y.num))
    elif op in ('//', '%', '**'):
        return VOpaqueFloat()
    else:
        raise terr('float %s' % op)
    from math import gcd
    g = r.den
    if isinstance(r.num, T):
        for c in ir._terms(r.num).values():
            g = gcd(g, c)
        if g > 1:
            r = VRat(ir._from_terms({m: c // g for m, c in ir._terms(r.num).items()}), r.den // g)
    elif g > 1:
        g = gcd(g, r.num)
        r = VRat(r.num // g, r.den // g)
    return exact_float(I, r)


def int_op(I, op, a, b, future_div=False):
    if not isinstance(a, T) and not isinstance(b, T):
        try:
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/' and future_div:
                return a / b
            if op in ('/', '//'):
                return a // b
            if op == '%':
                return a % b
            if op == '**':
                if b > 1 << 20 and abs(a) > 1:
                    raise Unsupported('huge power')
                return a ** b
            if op == '<<':
                if b > 1 << 24:
                    raise Unsupported('huge shift')
                return a << b
            if op == '>>':
                return a >> b
            if op == '|':
                return a | b
            if op == '^':
                return a ^ b
            if op == '&':
                return a & b
        except ZeroDivisionError:
            raise PyRaise('ZeroDivisionError')
        except OverflowError:
            raise PyRaise('OverflowError')
        except ValueError:
            raise PyRaise('ValueError')
    if op == '+':
        return ir.add(a, b)
    if op == '-':
        return ir.sub(a, b)
    if op == '*':
        return ir.mul(a, b)
    if op == '/' and future_div:
        return float_op(I, '/', VRat(a, 1), b)
    if op in ('/', '//', '%'):
        if isinstance(b, T):
            if I.ctx.branch(ir.eq(b, 0)):
                raise PyRaise('ZeroDivisionError')
        elif b == 0:
            raise PyRaise('ZeroDivisionError')
        b = I.ctx.refine(b)
        return ir.mod(a, b) if op == '%' else ir.div(a, b)
    if op == '**':
        if I.ctx.branch(ir.lt(b, 0)):
            return VOpaqueFloat()
        if isinstance(a, T) and isinstance(b, T):
            return ir.pow_(a, b)
        if not isinstance(a, T) and a == -1 and isinstance(b, T):
            return ir.sub(1, ir.mul(2, ir.mod(b, 2)))
        return ir.pow_(a, b)
    if op in ('<<', '>>'):
        if I.ctx.branch(ir.lt(b, 0)):
            raise PyRaise('ValueError', 'negative shift count')
        return ir.shl(a, b) if op == '<<' else ir.shr(a, b)
    if op == '|':
        return ir.or_(a, b)
    if op == '^':
        return ir.xor(a, b)
    if op == '&':
        if isinstance(a, T) and isinstance(b, T):
            pass
        # x & (1 << e): the bit
        for x, y in ((a, b), (b, a)):
            if isinstance(y, T) and y.op == 'pow' and y.a[0] == 2 and not isinstance(y.a[0], T):
                return ir.mul(ir.mod(ir.div(x, y), 2), y)
        # 1 & (x >> e) is handled by the canonical form
        return ir.and_(a, b)
    raise Unsupported('operator ' + op)


# ------------------------------------------------------------------ comparison

def compare(I, op, a, b):
    if op == 'Is':
        return identical(I, a, b)
    if op == 'IsNot':
        return ir.not_(identical(I, a, b))
    if op in ('In', 'NotIn'):
        r = contains(I, a, b)
        return r if op == 'In' else ir.not_(r)
    if op == 'Eq':
        return equal(I, a, b)
    if op == 'NotEq':
        if isinstance(a, VObj) or isinstance(b, VObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VObj):
                    f = x.cls.lookup('__ne__')
                    if f is not MISSING:
                        return I.truth_term(I.call(bind(I, f, x), [y], {}))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VObj) and x.cls.lookup('__cmp__') is MISSING and x.cls.lookup('__eq__') is not MISSING:
                    return ir.not_(identical(I, a, b))
        return ir.not_(equal(I, a, b))
    # ordering
    if is_num(a) and is_num(b):
        a, b = need_int(I, a), need_int(I, b)
        return {'Lt': ir.lt, 'LtE': ir.le, 'Gt': ir.gt, 'GtE': ir.ge}[op](a, b)
    if isinstance(a, (float, VRat, VOpaqueFloat)) or isinstance(b, (float, VRat, VOpaqueFloat)):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a, b)
        x, y = as_rat(a), as_rat(b)
        if x is None or y is None:
            return I.ctx.unknown_bool()
        l, r = ir.mul(x.num, y.den), ir.mul(y.num, x.den)
        return {'Lt': ir.lt, 'LtE': ir.le, 'Gt': ir.gt, 'GtE': ir.ge}[op](l, r)
    if isinstance(a, VObj) or isinstance(b, VObj):
        nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        if isinstance(a, VObj):
            f = a.cls.lookup(nm)
            if f is not MISSING:
                return I.truth_term(I.call(bind(I, f, a), [b], {}))
            f = a.cls.lookup('__cmp__')
            if f is not MISSING:
                return compare(I, op, I.call(bind(I, f, a), [b], {}), 0)
        if isinstance(b, VObj):
            f = b.cls.lookup('__cmp__')
            if f is not MISSING:
                return compare(I, op, 0, I.call(bind(I, f, b), [a], {}))
        raise Unsupported('ordering of objects')
    if isinstance(a, bytes) and isinstance(b, bytes):
        return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, VList) and isinstance(b, VList):
        x, y = to_items(I, a), to_items(I, b)
        if x is not None and y is not None:
            for p, q in zip(x, y):
                if not I.ctx.branch(I.truth_term(equal(I, p, q))):
                    return compare(I, op, p, q)
            return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](len(x), len(y))
    # Python 2: None sorts below everything, numbers below other types
    if a is None or b is None:
        ra, rb = int(a is not None), int(b is not None)
        return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](ra, rb)
    raise Unsupported('ordering of %s and %s' % (type_name(a), type_name(b)))


def identical(I, a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) and isinstance(b, bool):
        return a is b
    if isinstance(a, T) and ir.is_bool(a) and isinstance(b, bool) or isinstance(b, T) and ir.is_bool(b) and isinstance(a, bool):
        return ir.eq(a, b)
    if type(a) is not type(b) and not (is_num(a) and is_num(b)):
        return False
    if isinstance(a, (VObj, VList, VDict, VClass, VFunc, VType, VModule, VBuiltin)):
        if getattr(a, 'ro', False) or getattr(b, 'ro', False):
            if a is not b:
                raise Unsupported('identity of a havocked reference')
        return a is b
    if isinstance(a, int) and isinstance(b, int) and abs(a) <= 100 and abs(b) <= 100:
        return a == b
    raise Unsupported('identity of %s' % type_name(a))


def equal(I, a, b):
    """== as bool / boolean term"""
    if isinstance(a, VObj) or isinstance(b, VObj):
        if isinstance(a, VObj):
            f = a.cls.lookup('__eq__')
            if f is not MISSING:
                r = I.call(bind(I, f, a), [b], {})
                if r is not NOTIMPL:
                    return I.truth_term(r)
            f = a.cls.lookup('__cmp__')
            if f is not MISSING:
                if isinstance(b, VObj) or not a.cls.newstyle or True:
                    return I.truth_term(equal(I, I.call(bind(I, f, a), [b], {}), 0))
        if isinstance(b, VObj):
            f = b.cls.lookup('__eq__')
            if f is not MISSING:
                return I.truth_term(I.call(bind(I, f, b), [a], {}))
            f = b.cls.lookup('__cmp__')
            if f is not MISSING:
                return I.truth_term(equal(I, I.call(bind(I, f, b), [a], {}), 0))
        if isinstance(a, VObj) and isinstance(b, VObj):
            return identical(I, a, b)
        return False
    if is_num(a) and is_num(b):
        return ir.eq(a, b) if ir.is_bool(a) == ir.is_bool(b) else ir.eq(need_int(I, a), need_int(I, b))
    if isinstance(a, (float, VRat, VOpaqueFloat)) or isinstance(b, (float, VRat, VOpaqueFloat)):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        x, y = as_rat(a), as_rat(b)
        if isinstance(a, VOpaqueFloat) or isinstance(b, VOpaqueFloat):
            return I.ctx.unknown_bool()
        if x is None or y is None:
            return False
        return ir.eq(ir.mul(x.num, y.den), ir.mul(y.num, x.den))
    if is_str(a) and is_str(b):
        return seq_equal(I, strseq(a), strseq(b))
    if a is None or b is None:
        return a is b
    if isinstance(a, (VList, VRange)) and isinstance(b, (VList, VRange)) or isinstance(a, (tuple, VTupleSeq)) and isinstance(b, (tuple, VTupleSeq)):
        x, y = to_items(I, a), to_items(I, b)
        if x is not None and y is not None:
            if len(x) != len(y):
                return False
            return ir.and_b(*[I.truth_term(equal(I, p, q)) for p, q in zip(x, y)])
        return seq_equal(I, seq_view(I, a)[0], seq_view(I, b)[0])
    if isinstance(a, VDict) and isinstance(b, VDict):
        if set(a.d) != set(b.d):
            return False
        return ir.and_b(*[I.truth_term(equal(I, a.d[k], b.d[k])) for k in a.d])
    if isinstance(a, (OpaqueText, VHex)) or isinstance(b, (OpaqueText, VHex)):
        if isinstance(a, VHex) and isinstance(b, VHex):
            return seq_equal(I, a.seq, b.seq)
        raise Unsupported('comparison of rendered text')
    if isinstance(a, str) or isinstance(b, str):
        x = a.decode('latin-1') if isinstance(a, bytes) else a
        y = b.decode('latin-1') if isinstance(b, bytes) else b
        if isinstance(x, str) and isinstance(y, str):
            return x == y
    return a is b


def seq_equal(I, a, b):
    if same_seq(a, b):
        return True
    la, lb = a.length(), b.length()
    t = ir.eq(la, lb)
    if t is False:
        return False
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None and len(ca) <= 64:
        if len(ca) != len(cb):
            return False
        return ir.and_b(*[I.truth_term(equal(I, x, y)) for x, y in zip(ca, cb)])
    if t is not True and I.ctx.decide(t) is False:
        return False
    if t is True or I.ctx.decide(t) is True:
        I.ctx.nobranch += 1
        try:
            if seqs.Prover(I.ctx).seq(a, b):
                return True
        except seqs.NoBranch:
            pass
        finally:
            I.ctx.nobranch -= 1
    if not isinstance(la, T) and la <= 64:
        # element by element
        return ir.and_b(*[I.truth_term(equal(I, seqs.index_seq(I.ctx, a, i), seqs.index_seq(I.ctx, b, i))) for i in range(la)])
    ka, kb = seq_key(a), seq_key(b)
    if repr(ka) > repr(kb):
        ka, kb = kb, ka
    return ir.bapp('seqeq', ka, kb)


def contains(I, x, s):
    if isinstance(s, VDict):
        return dict_key(x) in s.d
    if is_str(s):
        if not is_str(x):
            raise terr('in <string>')
        if isinstance(s, bytes) and isinstance(x, bytes):
            return x in s
        xs = strseq(x)
        c, d = strseq(s).concrete(), xs.concrete()
        if c is not None and d is not None and len(d) == 1:
            return ir.or_b(*[ir.eq(e, d[0]) for e in c])
        raise Unsupported('substring test on symbolic strings')
    items = to_items(I, s) if not (isinstance(s, VRange) and isinstance(x, (int, T))) else None
    if isinstance(s, VRange) and is_num(x):
        x = need_int(I, x)
        n = s.count()
        st = s.step
        d = ir.sub(x, s.start)
        if st == 1:
            return ir.and_b(ir.ge(d, 0), ir.lt(d, n))
        return ir.and_b(ir.eq(ir.mod(d, abs(st)), 0), ir.ge(ir.div(d, st), 0), ir.lt(ir.div(d, st), n))
    if items is None:
        raise Unsupported('membership in a symbolic sequence')
    if is_num(x) and isinstance(x, T) and len(items) > 32 and all(isinstance(y, int) for y in items):
        return ir.bapp('member', ('t',) + tuple(sorted(set(items))), x)
    return ir.or_b(*[I.truth_term(equal(I, x, y)) for y in items])


def _member_hook(key, x):
    if isinstance(x, T):
        return ir._mk('bapp', ('member', key, x), 0, 1)
    return x in key[1:]


ir.APP_HOOKS['member'] = _member_hook


# ------------------------------------------------------------------ attributes

def dict_key(k):
    if isinstance(k, (int, bytes, str)) or k is None:
        return k
    if isinstance(k, tuple):
        return ('tup',) + tuple(dict_key(x) for x in k)
    if isinstance(k, (VClass, VFunc, VType)):
        return k
    if isinstance(k, float):
        return k
    raise Unsupported('symbolic dictionary key')


def from_key(k):
    if isinstance(k, tuple):
        return tuple(from_key(x) for x in k[1:])
    return k


def bind(I, f, obj, cls=None):
    if isinstance(f, (VFunc, VBuiltin)):
        return VBound(obj, f)
    if isinstance(f, VClassMethod):
        return VBound(cls or obj.cls, f.f)
    if isinstance(f, VStaticMethod):
        return f.f
    if isinstance(f, VProperty):
        return I.call(f.f, [obj], {})
    return f


def getattr_(I, o, name):
    if isinstance(o, VObj):
        c = o.cls.lookup(name)
        if isinstance(c, VProperty):
            return bind(I, c, o)
        if name in o.attrs:
            v = o.attrs[name]
            if type(v).__name__ == 'Undefined':
                raise Unsupported('read of attribute %s, which only the loop body defines' % name)
            return v
        if c is not MISSING:
            return bind(I, c, o)
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return VDict({k.encode(): v for k, v in o.attrs.items()})
        g = o.cls.lookup('__getattr__')
        if g is not MISSING:
            return I.call(bind(I, g, o), [name.encode()], {})
        raise PyRaise('AttributeError', name)
    if isinstance(o, VClass):
        c = o.lookup(name)
        if c is not MISSING:
            if isinstance(c, VClassMethod):
                return VBound(o, c.f)
            if isinstance(c, VStaticMethod):
                return c.f
            return c
        if name == '__name__':
            return o.name.encode()
        if name == '__bases__':
            return tuple(o.bases) or (VType("object"),)
        if name == '__mro__':
            return tuple(o.mro)
        raise PyRaise('AttributeError', name)
    if isinstance(o, VModule):
        if name in o.ns:
            return o.ns[name]
        raise PyRaise('AttributeError', name)
    if isinstance(o, VSuper):
        mro = o.obj.cls.mro
        for c in mro[mro.index(o.cls) + 1:]:
            if name in c.ns:
                return bind(I, c.ns[name], o.obj)
        raise PyRaise('AttributeError', name)
    if isinstance(o, VExc):
        if name == 'args':
            return (o.value,)
        if name == 'message':
            return o.value
        raise PyRaise('AttributeError', name)
    if isinstance(o, VFunc) and name in ('__name__', 'func_name'):
        return o.name.encode()
    if isinstance(o, VType):
        m = METHODS.get((o.name, name))
        if m is not None:
            return VBuiltin(name, m)
        if name == '__name__':
            return o.name.encode()
        raise PyRaise('AttributeError', name)
    t = type_name(o)
    if t == 'bool':
        t = 'int'
    m = METHODS.get((t, name))
    if m is not None:
        return VBound(o, VBuiltin(name, m))
    if name == '__iter__' and t in ('list', 'tuple', 'dict', 'set'):
        return VBuiltin('__iter__', lambda I, a, k: VIter(o))
    if name == '__class__':
        return BUILTINS.get(t)
    raise PyRaise('AttributeError', '%s.%s' % (t, name))


def setattr_(I, o, name, v):
    if isinstance(o, VObj):
        c = o.cls.lookup(name)
        if isinstance(c, VProperty):
            raise PyRaise('AttributeError', name)
        I.ctx.touch(o)
        o.attrs[name] = v
        return
    if isinstance(o, (VClass, VModule)):
        I.ctx.touch(o)
        o.ns[name] = v
        return
    raise PyRaise('AttributeError', name)


# ------------------------------------------------------------------ string functions

def be_value(seq):
    """the integer a byte sequence denotes, most significant byte first (canonical form)"""
    out = 0
    mult = 1
    ps = list(seq.pieces)
    while ps and isinstance(ps[0], E) and not isinstance(ps[0].v, T) and ps[0].v == 0:
        ps.pop(0)
    while ps and isinstance(ps[0], Run) and not isinstance(ps[0].body, T) and ps[0].body == 0:
        ps.pop(0)
        while ps and isinstance(ps[0], E) and not isinstance(ps[0].v, T) and ps[0].v == 0:
            ps.pop(0)
    while ps:
        p = ps[-1]
        if isinstance(p, E):
            out = ir.add(out, ir.mul(mult, p.v))
            mult = ir.mul(mult, 256)
            ps.pop()
            continue
        if isinstance(p, Run):
            n = p.n
            if not isinstance(n, T) and n <= 4096:
                for j in range(n - 1, -1, -1):
                    out = ir.add(out, ir.mul(mult, p.at(j)))
                    mult = ir.mul(mult, 256)
                ps.pop()
                continue
            if isinstance(n, T):
                c = ir._terms(n).get((), 0)
                if 0 < c <= 64 and n.lo >= c:
                    m = ir.sub(n, c)
                    for j in range(c - 1, -1, -1):
                        out = ir.add(out, ir.mul(mult, p.at(ir.add(m, j))))
                        mult = ir.mul(mult, 256)
                    ps[-1] = Run(m, p.body, p.v)
                    if not ps[:-1] or True:
                        break
        break
    if not ps:
        return out
    return ir.add(out, ir.mul(mult, be_app(Seq(ps))))


def be_app(seq):
    return ir.app('be', seq_key(seq), lo=0)


def _be_hook(k):
    return be_value(strseq(unkey(k)))


ir.APP_HOOKS['be'] = _be_hook


def check_byte(I, v):
    v = need_int(I, v)
    if not I.ctx.branch(ir.and_b(ir.ge(v, 0), ir.le(v, 255))):
        raise PyRaise('ValueError', 'chr() arg not in range(256)')
    return v


def f_chr(I, a, k):
    v = check_byte(I, a[0])
    return mkstr(seq_of([v]))


def f_ord(I, a, k):
    v = a[0]
    if isinstance(v, bytes):
        if len(v) != 1:
            raise terr('ord() expected a character')
        return v[0]
    if isinstance(v, SStr):
        n = v.seq.length()
        if not I.ctx.branch(ir.eq(n, 1)):
            raise terr('ord() expected a character')
        if isinstance(n, T):
            return index_seq(I.ctx, v.seq, 0)
        return v.seq.concrete()[0]
    raise terr('ord()')


def f_len(I, a, k):
    return length(I, a[0])


def f_range(I, a, k):
    a = [need_int(I, x) for x in a]
    if len(a) == 1:
        r = VRange(0, a[0])
    elif len(a) == 2:
        r = VRange(a[0], a[1])
    elif len(a) == 3:
        st = conc(I, a[2])
        if st == 0:
            raise PyRaise('ValueError')
        r = VRange(a[0], a[1], st)
    else:
        raise terr('range')
    n = r.count()
    if not isinstance(n, T):
        if n <= 4096 and not isinstance(r.start, T) and not I.ctx.cut_ranges:
            return VList([r.at(i) for i in range(max(n, 0))])
        if n > (1 << 31) - 1:
            raise PyRaise('OverflowError', 'range() result has too many items')
    return r


def f_xrange(I, a, k):
    r = f_range(I, a, k)
    return r


def f_int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if len(a) == 2 or 'base' in k:
        base = conc(I, a[1] if len(a) == 2 else k['base'])
        if isinstance(v, VHex):
            if base == 16:
                n = v.seq.length()
                if not I.ctx.branch(ir.ge(n, 1)):
                    raise PyRaise('ValueError')
                return be_value(v.seq)
            raise Unsupported('int of hexadecimal text in another base')
        if isinstance(v, bytes):
            try:
                return int(v.decode('latin-1').rstrip('L'), base)
            except ValueError:
                raise PyRaise('ValueError')
        raise Unsupported('int(text, base) of a symbolic string')
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int,)):
        return v
    if isinstance(v, T):
        return need_int(I, v)
    if isinstance(v, float):
        try:
            return int(v)
        except (OverflowError, ValueError) as e:
            raise PyRaise(type(e).__name__)
    if isinstance(v, VRat):
        if v.den == 1:
            return v.num
        # truncation toward zero
        if I.ctx.branch(ir.ge(v.num, 0)):
            return ir.div(v.num, v.den)
        return ir.neg(ir.div(ir.neg(v.num), v.den))
    if isinstance(v, VOpaqueFloat):
        return ir.fresh('float2int', v.lo if v.lo is not None else -ir.INF)
    if isinstance(v, bytes):
        try:
            return int(v.decode('latin-1'))
        except ValueError:
            raise PyRaise('ValueError')
    if isinstance(v, VObj):
        f = v.cls.lookup('__int__')
        if f is MISSING:
            f = v.cls.lookup('__long__')
        if f is not MISSING:
            return I.call(bind(I, f, v), [], {})
        raise PyRaise('AttributeError' if not v.cls.newstyle else 'TypeError')
    if isinstance(v, SStr):
        raise Unsupported('int(str)')
    raise terr('int() argument')


def f_float(I, a, k):
    v = a[0] if a else 0
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, (T, VRat)):
        return exact_float(I, as_rat(v))
    raise Unsupported('float()')


def f_abs(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, VRat):
        return v if I.ctx.branch(ir.ge(v.num, 0)) else VRat(ir.neg(v.num), v.den)
    v = need_int(I, v)
    if v.lo >= 0:
        return v
    if v.hi <= 0:
        return ir.neg(v)
    return ir.ite(ir.ge(v, 0), v, ir.neg(v))


def f_minmax(name):
    def f(I, a, k):
        xs = a if len(a) > 1 else to_items(I, a[0])
        if xs is None:
            raise Unsupported('%s of a symbolic sequence' % name)
        if not xs:
            raise PyRaise('ValueError')
        if all(is_num(x) for x in xs):
            r = need_int(I, xs[0])
            for x in xs[1:]:
                x = need_int(I, x)
                c = ir.lt(x, r) if name == 'min' else ir.gt(x, r)
                r = ir.ite(c, x, r)
            return r
        r = xs[0]
        for x in xs[1:]:
            if I.truth(compare(I, 'Lt' if name == 'min' else 'Gt', x, r)):
                r = x
        return r
    return f


def f_sum(I, a, k):
    xs = to_items(I, a[0])
    if xs is None:
        raise Unsupported('sum of a symbolic sequence')
    r = a[1] if len(a) > 1 else 0
    for x in xs:
        r = I.binop('+', r, x)
    return r


def f_divmod(I, a, k):
    x, y = a
    if not is_num(x) or not is_num(y):
        raise Unsupported('divmod of non-integers')
    q = int_op(I, '//', need_int(I, x), need_int(I, y))
    r = int_op(I, '%', need_int(I, x), need_int(I, y))
    return (q, r)


def powmod(b, e, m):
    """pow(b, e, m) for m >= 1, e >= 0 in canonical form"""
    if not isinstance(e, T):
        if e == 0:
            return ir.mod(1, m)
        if e == 1:
            return ir.mod(b, m)
        if not isinstance(b, T) and not isinstance(m, T):
            return pow(b, e, m)
        if e <= 4:
            return ir.mod(ir.pow_(b, e), m)
    if not isinstance(b, T) and not isinstance(m, T) and not isinstance(e, T):
        return pow(b, e, m)
    b = ir.mod(b, m) if not (isinstance(m, T) and m.lo < 1) else b
    # (x^f)^e = x^(f*e)
    if isinstance(b, T) and b.op == 'app' and b.a[0] == 'powm' and b.a[3] is m:
        return powmod(b.a[1], ir.mul(b.a[2], e), m)
    if isinstance(b, T) and b.op == 'mod' and b.a[1] is m:
        b = b.a[0]
    return ir.app('powm', b, e, m, lo=0, hi=(ir.hi(m) - 1 if ir.lo(m) >= 1 else ir.INF))


def _powm_hook(b, e, m):
    if not isinstance(b, T) and not isinstance(e, T) and not isinstance(m, T):
        if m != 0 and e >= 0:
            return pow(b, e, m)
        return ir._mk('app', ('powm', b, e, m))
    if ir.lo(m) >= 1 and ir.lo(e) >= 0:
        return powmod(b, e, m)
    return ir._mk('app', ('powm', b, e, m))


ir.APP_HOOKS['powm'] = _powm_hook
ir.POWMOD[0] = powmod


def f_pow(I, a, k):
    if len(a) == 2:
        return I.binop('**', a[0], a[1])
    b, e, m = [need_int(I, x) for x in a]
    if not isinstance(b, T) and not isinstance(e, T) and not isinstance(m, T):
        if e < 0:
            raise terr('pow() 2nd argument cannot be negative')
        if m == 0:
            raise PyRaise('ValueError')
        return pow(b, e, m)
    if I.ctx.branch(ir.lt(e, 0)):
        raise terr('pow() 2nd argument cannot be negative')
    if I.ctx.branch(ir.eq(m, 0)):
        raise PyRaise('ValueError')
    if not I.ctx.branch(ir.ge(m, 1)):
        raise Unsupported('negative modulus')
    return powmod(b, e, I.ctx.refine(m))


def f_map(I, a, k):
    f = a[0]
    out = VList([])
    I.ctx.born(out)
    if len(a) == 2:
        items = to_items(I, a[1])
        if items is None:
            map_symbolic(I, a[1], lambda x: I.call(f, [x], {}) if f is not None else x, out)
            return out
        for x in items:
            out.items.append(I.call(f, [x], {}) if f is not None else x)
        return out
    cols = [to_items(I, x) for x in a[1:]]
    if any(c is None for c in cols):
        z = f_zip(I, a[1:], {})
        map_symbolic(I, z, lambda t: I.call(f, list(t), {}), out)
        return out
    n = max(len(c) for c in cols)
    for i in range(n):
        args = [c[i] if i < len(c) else None for c in cols]
        out.items.append(I.call(f, args, {}) if f is not None else tuple(args))
    return out


def f_zip(I, a, k):
    cols = [to_items(I, x) for x in a]
    out = VList([])
    I.ctx.born(out)
    if all(c is not None for c in cols):
        out.items = [tuple(t) for t in zip(*cols)]
        return out
    # symbolic lengths: common prefix, piece by piece
    views = [seq_view(I, x) for x in a]
    n = views[0][0].length()
    for s, _ in views[1:]:
        n = seqs.min_len(I.ctx, n, s.length())
    # a short concrete operand decides the length: enumerate it
    if isinstance(n, T):
        c = None
        if any(col is not None for col in cols) and not all(len(s.pieces) == 1 for s, _ in views):
            c = I.ctx.concretize(n, 80)
        if c is not None:
            n = c
    outp = []
    rest = [slice_seq(I.ctx, s, 0, n) for s, _ in views]
    if not isinstance(n, T):
        cc = [r.concrete() for r in rest]
        if all(c is not None for c in cc):
            out.items = [tuple(w(x) for (_, w), x in zip(views, t)) for t in zip(*cc)]
            return out
    guard = 0
    while True:
        guard += 1
        if guard > 500:
            raise Unsupported('zip of many pieces')
        heads = []
        for r in rest:
            heads.append(r.pieces[0] if r.pieces else None)
        if any(h is None for h in heads):
            break
        m = plen_(heads[0])
        for h in heads[1:]:
            m = seqs.min_len(I.ctx, m, plen_(h))
        if not isinstance(m, T) and m == 0:
            rest = [Seq(r.pieces[1:]) if isc0(plen_(r.pieces[0])) else r for r in rest]
            continue
        parts = [split_at(I.ctx, r, m) for r in rest]
        rest = [p[1] for p in parts]
        firsts = [p[0] for p in parts]
        if not isinstance(m, T):
            cc = [f.concrete() for f in firsts]
            if all(c is not None for c in cc):
                for t in zip(*cc):
                    outp.append(E(tuple(w(x) for (_, w), x in zip(views, t))))
                continue
        if any(len(f.pieces) != 1 or not isinstance(f.pieces[0], Run) for f in firsts):
            raise Unsupported('zip of blockwise sequences %r %r' % (m, firsts))
        body = tuple(w(f.pieces[0].at(jdx())) for (_, w), f in zip(views, firsts))
        outp.append(Run(m, body, jdx()))
    out.set_seq(Seq(outp))
    return out


def f_reduce(I, a, k):
    f = a[0]
    items = to_items(I, a[1])
    if items is None:
        lib = I.load('verif_symlib')
        return I.call(getattr_(I, lib, 'reduce_from' if len(a) > 2 else 'reduce_nonempty'), [f] + list(a[1:]), {})
    items = list(items)
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            raise terr('reduce() of empty sequence')
        acc = items.pop(0)
    for x in items:
        acc = I.call(f, [acc, x], {})
    return acc


def f_filter(I, a, k):
    items = to_items(I, a[1])
    if items is None:
        raise Unsupported('filter over a symbolic sequence')
    r = [x for x in items if I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)]
    if is_str(a[1]):
        return join(I, b'', r)
    return VList(r) if not isinstance(a[1], tuple) else tuple(r)


def f_list(I, a, k):
    r = VList([])
    I.ctx.born(r)
    if a:
        list_extend(I, r, a[0])
    return r


def f_tuple(I, a, k):
    if not a:
        return ()
    items = to_items(I, a[0])
    if items is not None:
        return tuple(items)
    return VTupleSeq(elements_seq(I, a[0]))


def f_reversed(I, a, k):
    items = to_items(I, a[0])
    if items is not None:
        return VIter(VList(items[::-1]))
    v = a[0].v if isinstance(a[0], VIter) else a[0]
    s = elements_seq(I, v)
    return VIter(VList(None, reverse_seq(s)))


def f_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else 0
    items = to_items(I, a[0])
    if items is not None:
        return VIter(VList([(ir.add(i, start), x) for i, x in enumerate(items)]))
    n = length(I, a[0].v if isinstance(a[0], VIter) else a[0])
    return VIter(f_zip(I, [VRange(start, ir.add(start, n)), a[0]], {}))


def f_sorted(I, a, k):
    items = to_items(I, a[0])
    if items is None or not all(isinstance(x, (int, bytes)) for x in items):
        raise Unsupported('sorted')
    r = sorted(items)
    if k.get('reverse'):
        r.reverse()
    return VList(r)


def f_anyall(name):
    def f(I, a, k):
        items = to_items(I, a[0])
        if items is None:
            raise Unsupported(name)
        for x in items:
            t = I.truth(x)
            if t != (name == 'all'):
                return t
        return name == 'all'
    return f


def f_isinstance(I, a, k):
    v, c = a
    for t in (c if isinstance(c, tuple) else (c,)):
        if isinstance(t, VClass):
            if isinstance(v, VObj) and v.cls.issub(t):
                return True
        elif isinstance(t, VType):
            n = type_name(v)
            if t.name == n or (t.name == 'int' and n == 'bool') or t.name == 'object':
                return True
            if t.name == 'long' and n == 'int':
                # int and long are interchangeable except here; unbounded values are longs
                if isinstance(v, int) and abs(v) < 1 << 31:
                    continue
                if isinstance(v, int):
                    return True
                return I.ctx.unknown_bool() if False else True
            if t.name == 'basestring' and n in ('str', 'unicode'):
                return True
            if isinstance(v, VExc) and t.name in exc_ancestors(v.name):
                return True
        else:
            raise terr('isinstance')
    return False


def f_hasattr(I, a, k):
    try:
        getattr_(I, a[0], a[1].decode('latin-1'))
        return True
    except PyRaise:
        return False


def f_getattr(I, a, k):
    try:
        return getattr_(I, a[0], a[1].decode('latin-1'))
    except PyRaise as e:
        if len(a) > 2 and e.name == 'AttributeError':
            return a[2]
        raise


def f_setattr(I, a, k):
    setattr_(I, a[0], a[1].decode('latin-1'), a[2])


def f_type(I, a, k):
    v = a[0]
    if isinstance(v, VObj):
        return v.cls
    n = type_name(v)
    return BUILTINS.get(n) or VType(n)


def f_super(I, a, k):
    if len(a) != 2:
        raise terr('super() takes at least 1 argument')
    return VSuper(a[0], a[1])


def f_str(I, a, k):
    if not a:
        return b''
    v = a[0]
    if isinstance(v, (bytes, SStr, VHex)):
        return v
    if isinstance(v, (int, float)):
        return str(v).encode()
    if isinstance(v, VObj):
        f = v.cls.lookup('__str__')
        if f is not MISSING:
            return I.call(bind(I, f, v), [], {})
    return OpaqueText()


def f_bool(I, a, k):
    return I.truth_term(a[0]) if a else False


def f_round(I, a, k):
    raise Unsupported('round')


def f_hex(I, a, k):
    if isinstance(a[0], int):
        v = a[0]
        return (hex(v) + ('L' if abs(v) >= 1 << 31 else '')).encode()
    raise Unsupported('hex of a symbolic integer')


def f_cmp(I, a, k):
    x, y = a
    if is_num(x) and is_num(y):
        x, y = need_int(I, x), need_int(I, y)
        if not isinstance(x, T) and not isinstance(y, T):
            return (x > y) - (x < y)
        return ir.ite(ir.lt(x, y), -1, ir.ite(ir.eq(x, y), 0, 1))
    if I.truth(equal(I, x, y)):
        return 0
    return -1 if I.truth(compare(I, 'Lt', x, y)) else 1


def f_dict(I, a, k):
    d = VDict({kk.encode(): v for kk, v in k.items()})
    if a:
        src = a[0]
        if isinstance(src, VDict):
            d.d = dict(src.d, **{})
            d.d.update({kk.encode(): v for kk, v in k.items()})
        else:
            for t in to_items(I, src):
                kk, v = to_items(I, t)
                d.d[dict_key(kk)] = v
    return d


def f_set(I, a, k):
    out = []
    for x in (to_items(I, a[0]) if a else []):
        if not any(same_value(x, y) for y in out):
            if any(I.truth(equal(I, x, y)) for y in out):
                continue
            out.append(x)
    return VSet(out)


def f_iter(I, a, k):
    return VIter(a[0].v if isinstance(a[0], VIter) else a[0])


def f_next(I, a, k):
    it = a[0]
    items = to_items(I, it)
    if items is None:
        raise Unsupported('next on a symbolic iterator')
    if it.pos >= len(items):
        raise PyRaise('StopIteration')
    it.pos += 1
    return items[it.pos - 1]


# ------------------------------------------------------------------ methods

def join(I, sep, v):
    if isinstance(v, list):
        items = v
    else:
        items = to_items(I, v)
    if items is not None:
        out = []
        hexmode = False
        for i, x in enumerate(items):
            if isinstance(x, VHex):
                hexmode = True
                out.extend(x.seq.pieces)
                continue
            if not is_str(x):
                untyped(x)
                if isinstance(x, (OpaqueText,)):
                    return OpaqueText()
                raise terr('join: sequence item %d: expected string' % i)
            if i and sep != b'':
                out.extend(strseq(sep).pieces)
            out.extend(strseq(x).pieces)
        if hexmode:
            return VHex(Seq(out))
        return mkstr(Seq(out))
    if isinstance(v, VIter):
        v = v.v
    if is_str(v) and sep == b'':
        return v
    if sep != b'':
        raise Unsupported('join with a separator over a symbolic sequence')
    s = seq_view(I, v)[0]
    return mkstr(join_seq(s))


def untyped(v):
    if isinstance(v, T) and v.op == 'app' and isinstance(v.a[0], str) and v.a[0].startswith('opq!'):
        raise Unsupported('list elements of unknown type')


def join_seq(s):
    out = []
    for p in s.pieces:
        if isinstance(p, E):
            if not is_str(p.v):
                untyped(p.v)
                raise terr('join: %r' % (p.v if isinstance(p, E) else p.body,))
            out.extend(strseq(p.v).pieces)
        elif isinstance(p, Cat):
            out.extend(mkcat(p.n, join_seq(p.seq), p.v).pieces)
        else:
            if not is_str(p.body):
                untyped(p.body)
                raise terr('join: %r' % (p.v if isinstance(p, E) else p.body,))
            out.extend(mkcat(p.n, strseq(p.body), p.v).pieces)
    return Seq(out)


def m_join(I, a, k):
    return join(I, a[0], a[1])


def m_encode(I, a, k):
    s, enc = a[0], a[1] if len(a) > 1 else b'ascii'
    if enc in (b'hex', 'hex', b'hex_codec'):
        if isinstance(s, bytes):
            return s.hex().encode()
        return VHex(strseq(s))
    if isinstance(s, str):
        return s.encode('latin-1')
    raise Unsupported('encode(%r)' % (enc,))


def m_decode(I, a, k):
    s, enc = a[0], a[1] if len(a) > 1 else b'ascii'
    if enc in (b'hex', 'hex', b'hex_codec'):
        if isinstance(s, VHex):
            return mkstr(s.seq)
        if isinstance(s, bytes):
            try:
                return bytes.fromhex(s.decode('latin-1'))
            except ValueError:
                raise terr('hex')
    raise Unsupported('decode')


def intervals(s):
    out = []
    for v in sorted(set(s)):
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return out


def m_str_index(I, a, k):
    s, x = a[0], a[1]
    if isinstance(s, bytes) and isinstance(x, bytes):
        i = s.find(x)
        if i < 0:
            raise PyRaise('ValueError', 'substring not found')
        return i
    if isinstance(s, bytes) and isinstance(x, SStr):
        c = x.seq.concrete()
        if c is None or len(c) != 1:
            raise Unsupported('index of a symbolic substring')
        b = c[0]
        if isinstance(b, T) and b.op == 'app' and b.a[0] == 'tbl' and tuple(b.a[1][1:]) == tuple(s) and len(set(s)) == len(s):
            return b.a[2]
        inside = []
        for l, h in intervals(s):
            inside.append(ir.and_b(ir.ge(b, l), ir.le(b, h)) if h > l else ir.eq(b, l))
        if not I.ctx.branch(ir.or_b(*inside)):
            raise PyRaise('ValueError', 'substring not found')
        if all(s[j] == s[0] + j for j in range(len(s))):
            return ir.sub(b, s[0])
        return ir.app('find', ('t',) + tuple(s), b, lo=0, hi=len(s) - 1)
    raise Unsupported('str.index')


def _find_hook(key, b):
    if isinstance(b, T):
        if b.op == 'app' and b.a[0] == 'tbl' and b.a[1] == key and len(set(key[1:])) == len(key) - 1:
            return b.a[2]
        return ir._mk('app', ('find', key, b), 0, len(key) - 2)
    vs = list(key[1:])
    return vs.index(b) if b in vs else ir._mk('app', ('find', key, b), 0, len(key) - 2)


ir.APP_HOOKS['find'] = _find_hook


def m_str_find(I, a, k):
    if isinstance(a[0], bytes) and isinstance(a[1], bytes):
        return a[0].find(a[1])
    try:
        return m_str_index(I, a, k)
    except PyRaise:
        return -1


def _bytes_method(name):
    def f(I, a, k):
        if all(isinstance(x, (bytes, int, type(None))) for x in a):
            r = getattr(a[0], name)(*a[1:])
            if isinstance(r, list):
                return VList(r)
            return r
        raise Unsupported('str.%s on a symbolic string' % name)
    return f


def m_rjust(left):
    def f(I, a, k):
        s = a[0]
        w = need_int(I, a[1])
        fill = a[2] if len(a) > 2 else b' '
        n = length(I, s)
        d = ir.sub(w, n)
        pad = repeat(I, fill, d)
        return str_concat(s, pad) if left else str_concat(pad, s)
    return f


def m_zfill(I, a, k):
    if isinstance(a[0], bytes):
        return a[0].zfill(a[1])
    raise Unsupported('zfill')


def m_append(I, a, k):
    list_append(I, a[0], a[1])


def m_extend(I, a, k):
    list_extend(I, a[0], a[1])


def m_insert(I, a, k):
    lst, i, v = a
    I.ctx.touch(lst)
    i = need_int(I, i)
    if lst.items is not None and not isinstance(i, T):
        lst.items.insert(i, v)
        return
    if i == 0 and not isinstance(i, T):
        lst.set_seq(Seq((E(v),) + lst.getseq().pieces))
        return
    s = lst.getseq()
    i = clip(I, i, s.length(), 0)
    l, r = split_at(I.ctx, s, i)
    lst.set_seq(Seq(l.pieces + (E(v),) + r.pieces))


def m_pop(I, a, k):
    lst = a[0]
    if isinstance(lst, VDict):
        kk = dict_key(a[1])
        I.ctx.touch(lst)
        if kk not in lst.d:
            if len(a) > 2:
                return a[2]
            raise PyRaise('KeyError')
        return lst.d.pop(kk)
    I.ctx.touch(lst)
    i = need_int(I, a[1]) if len(a) > 1 else -1
    if lst.items is not None and not isinstance(i, T):
        try:
            return lst.items.pop(i)
        except IndexError:
            raise PyRaise('IndexError')
    s = lst.getseq()
    n = s.length()
    i = norm_index(I, i, n)
    l, r = split_at(I.ctx, s, i)
    m, r = split_at(I.ctx, r, 1)
    lst.set_seq(Seq(l.pieces + r.pieces))
    return index_seq(I.ctx, m, 0)


def m_reverse(I, a, k):
    I.ctx.touch(a[0])
    if a[0].items is not None:
        a[0].items.reverse()
    else:
        a[0].set_seq(reverse_seq(a[0].seq))


def m_sort(I, a, k):
    if a[0].items is not None and all(isinstance(x, int) for x in a[0].items):
        I.ctx.touch(a[0])
        a[0].items.sort()
        return
    raise Unsupported('sort')


def m_list_index(I, a, k):
    items = to_items(I, a[0])
    if items is None:
        raise Unsupported('index in a symbolic list')
    for i, x in enumerate(items):
        if I.truth(equal(I, x, a[1])):
            return i
    raise PyRaise('ValueError')


def m_count(I, a, k):
    items = to_items(I, a[0])
    if items is None:
        raise Unsupported('count')
    if is_str(a[0]) and isinstance(a[0], bytes) and isinstance(a[1], bytes):
        return a[0].count(a[1])
    n = 0
    for x in items:
        n = ir.add(n, ir.b2i(I.truth_term(equal(I, x, a[1]))))
    return n


def m_remove(I, a, k):
    lst = a[0]
    i = m_list_index(I, a, k)
    I.ctx.touch(lst)
    del lst.items[i]


def m_keys(I, a, k):
    return VList([from_key(x) for x in a[0].d])


def m_values(I, a, k):
    return VList(list(a[0].d.values()))


def m_items(I, a, k):
    return VList([(from_key(x), y) for x, y in a[0].d.items()])


def m_get(I, a, k):
    return a[0].d.get(dict_key(a[1]), a[2] if len(a) > 2 else None)


def m_has_key(I, a, k):
    return dict_key(a[1]) in a[0].d


def m_bit_length(I, a, k):
    v = need_int(I, a[0])
    if isinstance(v, int):
        return v.bit_length()
    return ir.app('bitlen', v, lo=0)


METHODS = {('str', 'join'): m_join, ('str', 'encode'): m_encode, ('str', 'decode'): m_decode, ('str', 'index'): m_str_index,
           ('str', 'find'): m_str_find, ('str', 'rjust'): m_rjust(False), ('str', 'ljust'): m_rjust(True), ('str', 'zfill'): m_zfill,
           ('str', 'count'): m_count,
           ('list', 'append'): m_append, ('list', 'extend'): m_extend, ('list', 'insert'): m_insert, ('list', 'pop'): m_pop,
           ('list', 'reverse'): m_reverse, ('list', 'sort'): m_sort, ('list', 'index'): m_list_index, ('tuple', 'index'): m_list_index,
           ('list', 'count'): m_count, ('tuple', 'count'): m_count, ('list', 'remove'): m_remove,
           ('dict', 'keys'): m_keys, ('dict', 'values'): m_values, ('dict', 'items'): m_items, ('dict', 'iteritems'): m_items,
           ('dict', 'get'): m_get, ('dict', 'has_key'): m_has_key, ('dict', 'pop'): m_pop, ('dict', 'iterkeys'): m_keys, ('dict', 'itervalues'): m_values,
           ('int', 'bit_length'): m_bit_length}
for _n in ('strip', 'lstrip', 'rstrip', 'split', 'splitlines', 'upper', 'lower', 'replace', 'startswith', 'endswith', 'isdigit', 'translate'):
    METHODS[('str', _n)] = _bytes_method(_n)

BUILTINS = {'True': True, 'False': False, 'None': None, 'NotImplemented': NOTIMPL, '__debug__': True}
for _n, _f in [('len', f_len), ('chr', f_chr), ('ord', f_ord), ('range', f_range), ('xrange', f_xrange), ('abs', f_abs),
               ('min', f_minmax('min')), ('max', f_minmax('max')), ('sum', f_sum), ('divmod', f_divmod), ('pow', f_pow), ('map', f_map),
               ('zip', f_zip), ('reduce', f_reduce), ('filter', f_filter), ('reversed', f_reversed), ('enumerate', f_enumerate),
               ('sorted', f_sorted), ('any', f_anyall('any')), ('all', f_anyall('all')), ('isinstance', f_isinstance), ('hasattr', f_hasattr),
               ('getattr', f_getattr), ('setattr', f_setattr), ('type', f_type), ('super', f_super), ('round', f_round), ('hex', f_hex),
               ('cmp', f_cmp), ('iter', f_iter), ('next', f_next), ('repr', lambda I, a, k: OpaqueText()),
               ('id', lambda I, a, k: id(a[0])), ('callable', lambda I, a, k: isinstance(a[0], (VFunc, VClass, VBuiltin, VBound)))]:
    BUILTINS[_n] = VBuiltin(_n, _f)
BUILTINS['classmethod'] = VBuiltin('classmethod', lambda I, a, k: VClassMethod(a[0]))
BUILTINS['staticmethod'] = VBuiltin('staticmethod', lambda I, a, k: VStaticMethod(a[0]))
BUILTINS['property'] = VBuiltin('property', lambda I, a, k: VProperty(a[0]))
BUILTINS['issubclass'] = VBuiltin('issubclass', lambda I, a, k: isinstance(a[0], VClass) and isinstance(a[1], VClass) and a[0].issub(a[1]))
for _n, _f in [('int', f_int), ('long', f_int), ('float', f_float), ('str', f_str), ('bool', f_bool), ('list', f_list), ('tuple', f_tuple),
               ('dict', f_dict), ('set', f_set), ('frozenset', f_set), ('object', None), ('unicode', f_str), ('basestring', None), ('bytes', f_str)]:
    BUILTINS[_n] = VType('str' if _n == 'bytes' else _n, _f)
for _n in EXC_BASES:
    if '.' not in _n:
        BUILTINS[_n] = VType(_n)
BUILTINS['BaseException'] = VType('BaseException')
EXC_BASES.setdefault('BaseException', ())


# ------------------------------------------------------------------ library modules

def mod_of(name, **ns):
    m = VModule(name)
    for k, v in ns.items():
        m.ns[k] = VBuiltin(k, v) if callable(v) and not isinstance(v, (VType, VBuiltin)) else v
    return m


FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(fmt):
    fmt = fmt.decode('latin-1') if isinstance(fmt, bytes) else fmt
    order = '@'
    if fmt and fmt[0] in '<>!=@':
        order, fmt = fmt[0], fmt[1:]
    if order in '@=':
        order = '<' if order == '=' else '@'
    out = []
    n = ''
    for c in fmt:
        if c.isdigit():
            n += c
            continue
        if c == ' ':
            continue
        if c in FMT:
            out.extend([FMT[c]] * (int(n) if n else 1))
        elif c == 'x':
            out.extend([None] * (int(n) if n else 1))
        elif c == 's':
            out.append(('s', int(n) if n else 1))
        else:
            raise Unsupported('struct format ' + c)
        n = ''
    if order == '@' and len(set(out)) > 1:
        raise Unsupported('native struct alignment')
    return order in '>!', out


def f_pack(I, a, k):
    if not isinstance(a[0], (bytes, str)):
        raise Unsupported('symbolic struct format')
    big, fields = parse_fmt(a[0])
    vals = list(a[1:])
    if len(vals) != len([f for f in fields if f is not None]):
        raise PyRaise('struct.error')
    out = []
    for f in fields:
        if f is None:
            out.append(0)
            continue
        v = vals.pop(0)
        if f[0] == 's':
            s = strseq(v).concrete()
            if s is None:
                raise Unsupported('pack s')
            out.extend((s + [0] * f[1])[:f[1]])
            continue
        size, signed = f
        if isinstance(v, (float, VRat)):
            raise terr('struct')
        if not is_num(v):
            raise PyRaise('struct.error')
        v = need_int(I, v)
        l, h = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        if not I.ctx.branch(ir.and_b(ir.ge(v, l), ir.le(v, h))):
            raise PyRaise('struct.error', 'out of range')
        bs = [ir.mod(ir.div(v, 1 << (8 * j)), 256) for j in range(size)]
        out.extend(bs[::-1] if big else bs)
    return mkstr(seq_of(out))


def f_unpack(I, a, k):
    big, fields = parse_fmt(a[0])
    s = a[1]
    if not is_str(s):
        raise terr('unpack')
    size = sum(1 if f is None else f[1] if f[0] == 's' else f[0] for f in fields)
    n = length(I, s)
    if not I.ctx.branch(ir.eq(n, size)):
        raise PyRaise('struct.error', 'unpack requires a string argument of length %d' % size)
    if isinstance(n, T):
        sq = slice_seq(I.ctx, strseq(s), 0, size)
    else:
        sq = strseq(s)
    bs = sq.concrete()
    if bs is None:
        bs = [index_seq(I.ctx, sq, i) for i in range(size)]
    out, p = [], 0
    for f in fields:
        if f is None:
            p += 1
            continue
        if f[0] == 's':
            out.append(mkstr(seq_of(bs[p:p + f[1]])))
            p += f[1]
            continue
        w, signed = f
        b = bs[p:p + w]
        p += w
        if big:
            b = b[::-1]
        v = ir.add(*[ir.mul(x, 1 << (8 * j)) for j, x in enumerate(b)])
        if signed:
            half, full = 1 << (8 * w - 1), 1 << (8 * w)
            v = ir.ite(ir.ge(v, half), ir.sub(v, full), v)
        out.append(v)
    return tuple(out)


def f_ceil(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        try:
            return float(math.ceil(v))
        except OverflowError:
            raise PyRaise('OverflowError')
    if isinstance(v, T):
        v = VRat(v, 1)
    if isinstance(v, VRat):
        return VRat(ir.neg(ir.div(ir.neg(v.num), v.den)), 1)
    if isinstance(v, VOpaqueFloat):
        return VOpaqueFloat()
    raise terr('ceil')


def f_floor(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return float(math.floor(v))
    if isinstance(v, T):
        v = VRat(v, 1)
    if isinstance(v, VRat):
        return VRat(ir.div(v.num, v.den), 1)
    raise Unsupported('floor')


def f_log(I, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        try:
            return math.log(*a)
        except (ValueError, ZeroDivisionError, OverflowError) as e:
            raise PyRaise(type(e).__name__)
    v = need_int(I, a[0]) if is_num(a[0]) else None
    if v is not None:
        if not I.ctx.branch(ir.gt(v, 0)):
            raise PyRaise('ValueError')
        return VOpaqueFloat(lo=0)
    return VOpaqueFloat()


def f_sqrt(I, a, k):
    if isinstance(a[0], (int, float)):
        try:
            return math.sqrt(a[0])
        except (ValueError, OverflowError) as e:
            raise PyRaise(type(e).__name__)
    return VOpaqueFloat()


def f_hexlify(I, a, k):
    v = a[0]
    if not is_str(v):
        raise terr('hexlify')
    if isinstance(v, bytes):
        return v.hex().encode()
    return VHex(strseq(v))


def f_unhexlify(I, a, k):
    v = a[0]
    if isinstance(v, VHex):
        return mkstr(v.seq)
    if isinstance(v, bytes):
        try:
            return bytes.fromhex(v.decode('latin-1'))
        except ValueError:
            raise terr('hex')
    raise Unsupported('unhexlify')


def f_urandom(I, a, k):
    n = need_int(I, a[0])
    return I.ctx.random_bytes(n)


def fraction_class(I):
    raise Unsupported('fractions')


def f_isclass(I, a, k):
    return isinstance(a[0], VClass)


def f_getmembers(I, a, k):
    m = a[0]
    ns = {}
    if isinstance(m, VModule):
        ns = m.ns
    elif isinstance(m, VClass):
        for c in reversed(m.mro):
            ns.update(c.ns)
    elif isinstance(m, VObj):
        for c in reversed(m.cls.mro):
            ns.update(c.ns)
        ns = dict(ns)
        ns.update(m.attrs)
    out = []
    for n in sorted(ns):
        v = ns[n]
        if len(a) < 2 or I.truth(I.call(a[1], [v], {})):
            out.append((n.encode(), v))
    return VList(out)


def _op(sym):
    return lambda I, a, k: I.binop(sym, a[0], a[1])


def external_module(I, name):
    if name == 'struct':
        m = mod_of('struct', pack=f_pack, unpack=f_unpack,
                   calcsize=lambda I, a, k: sum(f[0] for f in parse_fmt(a[0])[1]))
        m.ns['error'] = VType('struct.error')
        return m
    if name == 'math':
        m = mod_of('math', ceil=f_ceil, floor=f_floor, log=f_log, sqrt=f_sqrt)
        m.ns['pi'] = math.pi
        return m
    if name == 'binascii':
        return mod_of('binascii', hexlify=f_hexlify, unhexlify=f_unhexlify, b2a_hex=f_hexlify, a2b_hex=f_unhexlify)
    if name == 'os':
        return mod_of('os', urandom=f_urandom)
    if name == 'types':
        m = VModule('types')
        for n, t in [('IntType', 'int'), ('LongType', 'long'), ('StringType', 'str'), ('ListType', 'list'), ('TupleType', 'tuple'), ('FloatType', 'float'), ('NoneType', 'NoneType'), ('DictType', 'dict')]:
            m.ns[n] = BUILTINS.get(t) or VType(t)
        return m
    if name == 'sys':
        m = VModule('sys')
        m.ns['modules'] = VDict({})
        m.ns['modules'].d.update({})
        m.ns['maxint'] = (1 << 63) - 1
        m.ns['modules'] = SysModules(I)
        return m
    if name == 'inspect':
        return mod_of('inspect', getmembers=f_getmembers, isclass=f_isclass)
    if name == 'operator':
        return mod_of('operator', add=_op('+'), sub=_op('-'), mul=_op('*'), xor=_op('^'), and_=_op('&'), or_=_op('|'), mod=_op('%'), floordiv=_op('//'))
    if name == 'itertools':
        return mod_of('itertools', izip=f_zip, imap=f_map, count=lambda I, a, k: VRange(a[0] if a else 0, 1 << 62))
    if name == 'functools':
        return mod_of('functools', reduce=f_reduce)
    if name == 'fractions':
        return mod_of('fractions', Fraction=f_fraction, gcd=f_gcd)
    if name in ('random', 'time', 'unittest', 'string', 'copy'):
        return VModule(name)
    return None


class SysModules(VDict):
    def __init__(self, I):
        VDict.__init__(self)
        self.I = I

    @property
    def d(self):
        return {m.ns.get('__name__', m.name.encode() if isinstance(m.name, str) else m.name): m for m in self.I.modules.values()} if hasattr(self, 'I') else {}

    @d.setter
    def d(self, v):
        pass


class VFraction(object):
    """an exact fraction (concrete)"""
    def __init__(self, f):
        self.f = f


def f_fraction(I, a, k):
    if all(isinstance(x, int) for x in a):
        return VRat(a[0], 1) if len(a) == 1 else mkrat(a[0], a[1])
    if len(a) == 2 and not isinstance(a[1], T) and a[1] > 0:
        return VFrac(a[0], a[1])
    raise Unsupported('symbolic Fraction')


class VFrac(VRat):
    pass


def mkrat(n, d):
    if d == 0:
        raise PyRaise('ZeroDivisionError')
    from fractions import Fraction
    f = Fraction(n, d)
    return VFrac(f.numerator, f.denominator)


def f_gcd(I, a, k):
    if all(isinstance(x, int) for x in a):
        return math.gcd(*a)
    raise Unsupported('fractions.gcd')


def isc0(x):
    return not isinstance(x, T) and x == 0
