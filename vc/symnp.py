"""Arrays of symbolic shape and the contracts of the NumPy functions over them.

A `Buf` is a piece of storage: shape (terms), dtype and a function from index terms to the
piecewise value stored there.  A `SymArray` is a view of a buffer.  In-place operations
replace the element function of the buffer, so aliasing behaves as in NumPy and frame
conditions can be checked by comparing buffers.  Result dtypes come from NumPy's own type
resolution (`ufunc.resolve_dtypes`).
"""
import itertools
import math
import operator
from fractions import Fraction

import numpy as _np

from . import core as C
from . import terms as tm
from .core import (PV, pv, INF, NINF, NAN, UNDEF, ctx, gt, eq, neg, split, lift_op, isR, Special,
                   with_lits)
from .terms import R, ZERO, ONE, lift, Unsupported

_bid = itertools.count(1)


# ---------------------------------------------------------------- exact floats

class XFloat(float):
    """A Python float that remembers the exact decimal value of its literal."""
    __slots__ = ('exact',)

    def __new__(cls, ex):
        ex = Fraction(ex)
        o = float.__new__(cls, ex)
        o.exact = ex
        return o

    def __getnewargs__(self):
        return (self.exact,)


def exact_of(x):
    if isinstance(x, XFloat):
        return x.exact
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, _np.floating)):
        f = float(x)
        if f != f or f in (float('inf'), float('-inf')):
            return None
        return Fraction(f)
    return None


def _xop(name, f):
    def fwd(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            e = exact_of(o)
            if e is not None:
                return f(self.exact, e)
        return getattr(float, '__%s__' % name)(self, o)

    def rev(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            e = exact_of(o)
            if e is not None:
                return f(e, self.exact)
        return getattr(float, '__r%s__' % name)(self, o)
    setattr(XFloat, '__%s__' % name, fwd)
    setattr(XFloat, '__r%s__' % name, rev)


def _xdiv(a, b):
    if b == 0:
        raise ZeroDivisionError('float division by zero')
    return XFloat(a / b)


def _xpow(a, b):
    if b.denominator == 1 and abs(b) < 64 and (a != 0 or b >= 0):
        return XFloat(a ** int(b))
    return float(a) ** float(b)


_xop('add', lambda a, b: XFloat(a + b))
_xop('sub', lambda a, b: XFloat(a - b))
_xop('mul', lambda a, b: XFloat(a * b))
_xop('truediv', _xdiv)
_xop('pow', _xpow)
XFloat.__neg__ = lambda self: XFloat(-self.exact)
XFloat.__abs__ = lambda self: XFloat(abs(self.exact))
XFloat.__pos__ = lambda self: self


def pydiv(a, b):
    """`a / b` in the source: keeps exact quotients of Python numbers."""
    if type(a) in (int, XFloat) and type(b) in (int, XFloat) and b != 0:
        return XFloat(exact_of(a) / exact_of(b))
    return a / b


# ---------------------------------------------------------------- forks

class Explorer:
    """Runs a Python function over every feasible path of its symbolic branches."""
    MAXPATHS = 256

    def __init__(self, lits=()):
        self.base = frozenset(lits)
        self.prefix = []

    def run(self, fn):
        """-> list of (lits, outcome) with outcome ('ok', value) or ('raise', exception)."""
        global _explorer
        results = []
        todo = [[]]
        while todo:
            pre = todo.pop()
            self.trace = list(pre)
            self.pos = 0
            self.todo = todo
            root = C.root_ctx()
            if self.base:
                root = root.child(self.base)
            old = C.set_ctx(root)
            olde, _explorer = _explorer, self
            nloops = len(_loop_index)
            try:
                try:
                    out = ('ok', fn())
                except Unsupported:
                    raise
                except RecursionError:
                    raise Unsupported('recursion')
                except Exception as e:  # the code's own exceptions
                    out = ('raise', e)
                if len(_loop_index) > nloops:
                    if any(loop.branched() for _, loop in _loop_index[nloops:]):
                        raise Unsupported('exception on one branch of a generic iteration')
                results.append((C.ctx(), out))
            finally:
                C.set_ctx(old)
                _explorer = olde
                del _loop_index[nloops:]
            if len(results) > self.MAXPATHS:
                raise Unsupported('too many paths')
        return results

    def decide(self, lit):
        c = C.ctx()
        if self.pos < len(self.trace):
            choice = self.trace[self.pos]
        else:
            t, f = c.feasible(frozenset([lit])), c.feasible(frozenset([neg(lit)]))
            if t and f:
                self.todo.append(self.trace[:self.pos] + [False])
                choice = True
            else:
                choice = bool(t)
            self.trace.append(choice)
        self.pos += 1
        C.set_ctx(c.child([lit if choice else neg(lit)]))
        return choice


_explorer = None
_loop_index = []   # (name, loop) of the loop indices in scope: forks on them are forks of the loop body;
                   # (None, fork) while a function of a generic element is evaluated


def _generic(n):
    return not n.startswith('@') and n in C.INDEX and not n.startswith('argmin')


def decide(lit):
    if isinstance(lit, bool):
        return lit
    c = ctx()
    if lit in c.lits:
        return True
    if neg(lit) in c.lits:
        return False
    if not c.feasible(frozenset([neg(lit)])):
        return True
    if not c.feasible(frozenset([lit])):
        return False
    for k in range(len(_loop_index) - 1, -1, -1):
        n, loop = _loop_index[k]
        if n is None:
            outer = {m for m, _ in _loop_index[:k]}
            if any(_generic(m) and m not in outer for m in lit[0].fv):
                return loop.decide(lit)
        elif n in lit[0].fv:
            return loop.decide(lit)
    if any(_generic(n) for n in lit[0].fv):
        raise Unsupported('branch that depends on a generic index')
    if _explorer is None:
        raise Unsupported('symbolic branch outside an exploration')
    return _explorer.decide(lit)


def decide_pv(p):
    """Truth of a piecewise boolean, forking as needed."""
    p = C.truth(p)
    for _ in range(60):
        c = ctx()
        cases = [(g, l) for g, l in p.cases if c.feasible(g)]
        vals = {l for _, l in cases}
        if len(vals) == 1:
            return vals.pop()
        if not vals:
            return True  # dead path
        for g, l in cases:
            rest = [x for x in sorted(g, key=lambda x: x[0].id) if x not in c.lits and c.feasible(frozenset([neg(x)]))]
            if not rest:
                return l        # every condition of this case is implied here
            decide(rest[0])
            break
    raise Unsupported('branch')


# ---------------------------------------------------------------- symbolic integers

def token(kind, obj, dot=False):
    """A plain string that stands for the decimal text of a symbolic number (with a decimal point or without)."""
    _tokens[(kind, obj.id)] = obj
    return '\u27e6%s%d%s\u27e7' % (kind, obj.id, '.5' if dot else '')


_tokens = {}


def untoken(s):
    """Split a string into literal parts and terms."""
    import re
    out = []
    for part in re.split('(\u27e6[a-z]\\d+(?:[.]5)?\u27e7)', s):
        m = re.fullmatch('\u27e6([a-z])(\\d+)(?:[.]5)?\u27e7', part)
        if m:
            out.append((m.group(1), _tokens[(m.group(1), int(m.group(2)))]))
        elif part:
            out.append(part)
    return out


class SymBool:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __getattr__(self, n):
        if hasattr(_np.bool_, n):
            raise Unsupported('bool.' + n)
        raise AttributeError("'bool' object has no attribute %r" % n)

    def __bool__(self):
        return decide_pv(self.p)

    def __and__(self, o):
        return SymBool(lift_op(lambda a, b: a and b, C.truth(self.p), C.truth(tobool(o))))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(lift_op(lambda a, b: a or b, C.truth(self.p), C.truth(tobool(o))))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(lift_op(lambda a: not a, C.truth(self.p)))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)


def tobool(x):
    if isinstance(x, SymBool):
        return x.p
    if isinstance(x, bool):
        return pv(x)
    if isinstance(x, SymArray):
        return x.scalar_pv()
    raise Unsupported('boolean')


def mkint(r):
    r = lift(r)
    c = r.const()
    if c is not None and c.denominator == 1:
        return int(c)
    return SymInt(r)


class SymInt:
    """Symbolic Python integer."""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    def _b(self, o, f, refl=False):
        if isinstance(o, SymInt):
            v = o.r
        elif isinstance(o, int):
            v = lift(int(o))
        else:
            return None
        return mkint(f(v, self.r) if refl else f(self.r, v))

    def _arr(self):
        return scalar(self.r, weak=int)

    def _op(self, o, f, g):
        v = self._b(o, f)
        return g(self._arr(), o) if v is None else v

    def _rop(self, o, f, g):
        v = self._b(o, f, True)
        return g(o, self._arr()) if v is None else v

    def __add__(self, o): return self._op(o, operator.add, operator.add)
    def __radd__(self, o): return self._rop(o, operator.add, operator.add)
    def __sub__(self, o): return self._op(o, operator.sub, operator.sub)
    def __rsub__(self, o): return self._rop(o, operator.sub, operator.sub)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return seq_repeat(o, self)
        return self._op(o, operator.mul, operator.mul)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return seq_repeat(o, self)
        return self._rop(o, operator.mul, operator.mul)

    def __truediv__(self, o): return self._arr() / o
    def __rtruediv__(self, o): return o / self._arr()
    def __pow__(self, o): return self._arr() ** o
    def __rpow__(self, o): return o ** self._arr()

    def __floordiv__(self, o):
        v = o.r if isinstance(o, SymInt) else lift(o)
        return mkint(t_floor(self.r * v.inv()))

    def __neg__(self): return mkint(-self.r)
    def __pos__(self): return self
    def __abs__(self): return mkint(self.r) if tm.nonneg(self.r) else mkint(tm.fn('abs', self.r))

    def _cmp(self, op, o):
        if isinstance(o, SymInt):
            v = o.r
        elif isinstance(o, (bool, int, float, _np.number)):
            v = exact_of(o)
            if v is None:
                return scalar(self.r, weak=int)._cmp(op, o)
            v = lift(v)
        elif isinstance(o, SymArray):
            return scalar(self.r, weak=int)._cmp(op, o)
        else:
            return NotImplemented
        p = C.l_cmp(op, self.r, v)
        return p if isinstance(p, bool) else SymBool(p)

    def __eq__(self, o):
        v = self._cmp('==', o)
        return False if v is NotImplemented else v

    def __ne__(self, o):
        v = self._cmp('!=', o)
        return True if v is NotImplemented else v

    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)
    def __getattr__(self, n):
        if hasattr(int, n) or hasattr(_np.int64, n):
            raise Unsupported('int.' + n)
        raise AttributeError("'int' object has no attribute %r" % n)

    def __bool__(self): return decide_pv(pv(self.r))
    def __hash__(self): return hash(('SymInt', self.r.id))

    def __index__(self):
        raise Unsupported('symbolic integer used as a concrete one')
    __int__ = __index__

    def __float__(self):
        raise Unsupported('symbolic integer used as a concrete float')

    def __str__(self): return token('i', self.r)

    def __format__(self, spec):
        if spec in ('', 'd'):
            return token('i', self.r)
        raise Unsupported('format of a symbolic integer')

    def __repr__(self): return token('i', self.r)


def t_floor(r):
    r = lift(r)
    c = r.const()
    if c is not None:
        return lift(c.numerator // c.denominator)
    ip, rest = _int_part(r)
    if not rest.t:
        return ip
    return ip + tm.fn('floor', rest)


def t_ceil(r):
    r = lift(r)
    c = r.const()
    if c is not None:
        return lift(-((-c.numerator) // c.denominator))
    ip, rest = _int_part(r)
    if not rest.t:
        return ip
    return ip + tm.fn('ceil', rest)


def _int_part(r):
    """Split a term into an obviously integral part and the rest."""
    ip, rest = ZERO, ZERO
    for m, c in r.t.items():
        pw, ex = m
        t = tm.mk({m: c})
        if ex is None and c.denominator == 1 and all(
                e.denominator == 1 and e > 0 and _int_atom(a) for a, e in pw):
            ip = ip + t
        elif not pw and ex is None:
            f = c.numerator // c.denominator
            ip = ip + lift(f)
            rest = rest + lift(c - f)
        else:
            rest = rest + t
    return ip, rest


INTFUN = {'floor', 'ceil', 'trunc', 'rint'}   # functions with integer values
INTAPP = set()


def _int_atom(a):
    if a.kind == 'var':
        return a.sort == 'int'
    if a.kind == 'fn':
        return a.data[0] in INTFUN
    if a.kind == 'app':
        return a.data[0] in INTAPP
    if a.kind == 'ind':
        return True
    if a.kind in ('sum', 'prod', 'min'):
        return _is_int(a.data[1])
    return False


def _is_int(r):
    return not _int_part(r)[1].t


# ---------------------------------------------------------------- buffers and views

class Buf:
    def __init__(self, shape, elem, dtype, name=None):
        self.shape = tuple(lift(s) for s in shape)
        self.elem = elem
        self.dtype = _np.dtype(dtype)
        self.name = name
        self.version = 0
        self.id = next(_bid)
        self.readonly = False
        self.where = None       # (mask, axis): the coordinates of the true positions of a mask

    def set(self, elem):
        if self.readonly:
            raise ValueError('assignment destination is read-only')
        self.elem = memo(elem)
        self.version += 1
        _touched[self.id] = self


_touched = {}


def memo(f):
    cache = {}

    def g(idx):
        k = (tuple(i.id for i in idx), ctx().lits)
        v = cache.get(k)
        if v is None:
            v = f(idx)
            cache[k] = v
        return v
    return g


def same_dim(a, b):
    if a is b:
        return True
    d = a - b
    if not d.t:
        return True
    c = d.const()
    if c is not None:
        return False
    cc = ctx()
    s = cc.sign(d)
    if s == '0':
        return True
    if s in ('+', '-', 'nz'):
        return False
    return decide(eq(d))


def is_one(a):
    c = a.const()
    return c is not None and c == 1


def broadcast_shapes(shapes):
    n = max([len(s) for s in shapes] or [0])
    out = []
    for k in range(n):
        cur = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if is_one(d):
                continue
            if is_one(cur):
                cur = d
                continue
            if cur is d or same_dim(cur, d):
                if len(cur.t) > len(d.t):
                    cur = d
                continue
            # different extents: NumPy still accepts an extent of 1
            if cur.const() is None and decide(eq(cur - 1)):
                cur = d
                continue
            if d.const() is None and decide(eq(d - 1)):
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def bidx(idx, shape):
    """Index into an operand of the given shape from an index of the broadcast result."""
    off = len(idx) - len(shape)
    out = []
    for k, d in enumerate(shape):
        i = idx[off + k]
        if is_one(d):
            i = ZERO
        elif d.const() is None and _dim_is_one(d):
            i = ZERO
        out.append(i)
    return tuple(out)


def _dim_is_one(d):
    c = ctx()
    l = eq(d - 1)
    return l is True or (not isinstance(l, bool) and l in c.lits)


class SymArray:
    """A NumPy array (view) of symbolic shape."""
    __array_ufunc__ = None
    __slots__ = ('buf', 'vmap', 'shp', 'weak', 'writable', 'order', '__weakref__')
    __hash__ = None

    def __init__(self, buf, vmap=None, shp=None, weak=None, writable=True):
        self.buf = buf
        if shp is None:
            shp = buf.shape
            vmap = tuple(('ax', k, ZERO, 1) for k in range(len(shp)))
        self.vmap = vmap
        self.shp = tuple(shp)
        self.weak = weak
        self.writable = writable
        self.order = None

    # ------------------------------------------------------------ attributes
    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def shape(self):
        return tuple(mkint(s) for s in self.shp)

    @shape.setter
    def shape(self, s):
        a = self.reshape(s)
        if a.buf is not self.buf:
            raise Unsupported('assignment to shape')
        self.vmap, self.shp = a.vmap, a.shp

    @property
    def ndim(self):
        return len(self.shp)

    @property
    def size(self):
        n = ONE
        for s in self.shp:
            n = n * s
        return mkint(n)

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self

    @property
    def flat(self):
        return self.reshape(-1)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def base(self):
        raise Unsupported('base')

    @property
    def flags(self):
        raise Unsupported('flags')

    def elem(self, idx):
        b = []
        for m in self.vmap:
            if m[0] == 'fix':
                b.append(m[1])
            else:
                _, k, st, step = m
                i = idx[k] if step == 1 else idx[k] * step
                b.append(i if not st.t else i + st)
        return self.buf.elem(tuple(b))

    def reader(self):
        """Element function frozen at the present contents."""
        vmap, f = self.vmap, self.buf.elem
        if all(m[0] == 'ax' and m[1] == k and m[2] is ZERO and m[3] == 1 for k, m in enumerate(vmap)) \
                and len(vmap) == len(self.shp):
            return f

        def g(idx):
            b = []
            for m in vmap:
                if m[0] == 'fix':
                    b.append(m[1])
                else:
                    _, k, st, step = m
                    i = idx[k] if step == 1 else idx[k] * step
                    b.append(i if not st.t else i + st)
            return f(tuple(b))
        return g

    def scalar_pv(self):
        if self.shp:
            if all(is_one(s) for s in self.shp):
                return self.elem(tuple(ZERO for _ in self.shp))
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return self.elem(())

    # ------------------------------------------------------------ writing
    def write(self, val, mask=None):
        """val: idx -> PV over the view; mask: idx -> PV of booleans or None."""
        if not self.writable:
            raise ValueError('assignment destination is read-only')
        old = self.buf.elem
        vmap, shp = self.vmap, self.shp
        bshape = self.buf.shape

        def new(b):
            conds = []
            vidx = [ZERO] * len(shp)
            for bi, m, bd in zip(b, vmap, bshape):
                if m[0] == 'fix':
                    conds.append(eq(bi - m[1]))
                else:
                    _, k, st, step = m
                    i = bi - st if st.t else bi
                    if step != 1:
                        if step == -1:
                            i = -i
                        else:
                            raise Unsupported('write through a strided view')
                    if not (st is ZERO and step == 1 and shp[k] is bd):
                        conds.append(neg(gt(-i)))
                        conds.append(gt(shp[k] - i))
                    vidx[k] = i

            def inside():
                v = val(tuple(vidx))
                if mask is None:
                    return v
                return C.ite(mask(tuple(vidx)), v, lambda: old(b))
            return _all_split(conds, inside, lambda: old(b))
        self.buf.set(new)

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    def __len__(self):
        raise Unsupported('len() of a symbolic array through the C protocol')

    def __iter__(self):
        if not self.shp:
            raise TypeError('iteration over a 0-d array')
        c = self.shp[0].const()
        if c is None:
            raise Unsupported('iteration over a symbolic axis')
        return iter([self[i] for i in range(int(c))])

    def __bool__(self):
        return decide_pv(self.scalar_pv())

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        raise Unsupported('symbolic value as index')

    def __contains__(self, x):
        return bool(np_any(self == x))

    def __str__(self):
        return token('s', one_leaf(self.scalar_pv()))

    def __format__(self, spec):
        return token('s', one_leaf(self.scalar_pv())) if not spec else _uns('format of a symbolic value')

    def __repr__(self):
        return 'SymArray(shape=%s, dtype=%s)' % (self.shp, self.dtype)

    # ------------------------------------------------------------ methods
    def copy(self, order='C'):
        return new(self.shp, self.reader(), self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = _dt(dtype)
        if dt == self.dtype and not copy:
            return self
        return new(self.shp, cast_elem(self.reader(), self.dtype, dt), dt)

    def transpose(self, *axes):
        n = len(self.shp)
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        if not axes or axes == (None,):
            axes = tuple(reversed(range(n)))
        axes = [a % n for a in axes]
        inv = {a: k for k, a in enumerate(axes)}
        vm = tuple(m if m[0] == 'fix' else ('ax', inv[m[1]], m[2], m[3]) for m in self.vmap)
        return SymArray(self.buf, vm, tuple(self.shp[a] for a in axes), None, self.writable)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, order='C'):
        return reshape(self, shape[0] if len(shape) == 1 else shape, order)

    def ravel(self, order='C'):
        return reshape(self, -1, order)

    def flatten(self, order='C'):
        return reshape(self, -1, order).copy()

    def squeeze(self, axis=None):
        axes = _axes(axis, self.ndim) if axis is not None else [k for k, d in enumerate(self.shp) if is_one(d)]
        for k in axes:
            if not is_one(self.shp[k]) and not decide(eq(self.shp[k] - 1)):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        return self[tuple(0 if k in axes else slice(None) for k in range(self.ndim))]

    def item(self, *args):
        if args:
            return self[args if len(args) > 1 else args[0]].item()
        p = self.scalar_pv()
        return scalar_of(p, self.dtype, weak=_weak_of(self.dtype))

    def tolist(self):
        if not self.shp:
            return self.item()
        c = self.shp[0].const()
        if c is None:
            return SymSeq(self.shp[0], lambda i: self[mkint(i)].tolist())
        return [self[i].tolist() for i in range(int(c))]

    def fill(self, v):
        self[...] = v

    def view(self, *a):
        raise Unsupported('view')

    def dot(self, o):
        return np_dot(self, o)

    def __getattr__(self, n):
        if n == 'shp' or n.startswith('_vc') or not (hasattr(_np.ndarray, n) or
                not self.shp and (hasattr(_np.float64, n) or hasattr(_np.int64, n))):
            raise AttributeError("'numpy.ndarray' object has no attribute %r" % n)
        raise Unsupported('ndarray.' + n)

    def conj(self):
        return self

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduction('sum', self, axis, dtype, out, keepdims, **kw)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduction('prod', self, axis, dtype, out, keepdims, **kw)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduction('min', self, axis, None, out, keepdims, **kw)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduction('max', self, axis, None, out, keepdims, **kw)

    def any(self, axis=None, out=None, keepdims=False):
        return reduction('any', self, axis, None, out, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return reduction('all', self, axis, None, out, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return np_mean(self, axis, dtype, out, keepdims)

    def argmin(self, axis=None):
        return np_argmin(self, axis)

    def argmax(self, axis=None):
        return np_argmax(self, axis)

    def clip(self, lo=None, hi=None):
        return np_clip(self, lo, hi)

    def repeat(self, n, axis=None):
        return np_repeat(self, n, axis)

    def nonzero(self):
        return np_nonzero(self)

    def setflags(self, write=None, **kw):
        raise Unsupported('setflags')

    # ------------------------------------------------------------ operators
    def _cmp(self, op, o):
        if o is None or isinstance(o, str):
            return {'==': False, '!=': True}.get(op, NotImplemented)
        return _UF[{'<': 'less', '<=': 'less_equal', '>': 'greater', '>=': 'greater_equal',
                    '==': 'equal', '!=': 'not_equal'}[op]](self, o)

    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)
    def __eq__(self, o): return self._cmp('==', o)
    def __ne__(self, o): return self._cmp('!=', o)


def _uns(m):
    raise Unsupported(m)


def _all_split(conds, yes, no):
    """if all literals hold: yes() else no()"""
    conds = [c for c in conds if c is not True]
    if any(c is False for c in conds):
        return no()
    if not conds:
        return yes()
    l = conds[0]
    return split(l, lambda: with_lits([l], lambda: _all_split(conds[1:], yes, no)),
                 lambda: with_lits([neg(l)], no))


def one_leaf(p):
    c = ctx()
    cases = [(g, l) for g, l in p.cases if c.feasible(g)]
    if len(cases) == 1 and isR(C.num(cases[0][1])):
        return C.num(cases[0][1])
    raise Unsupported('single finite value expected')


def new(shape, elem, dtype, name=None):
    return SymArray(Buf(shape, memo(elem), dtype, name))


def _weak_of(dt):
    return {'b': bool, 'i': int, 'u': int, 'f': float}.get(dt.kind)


def scalar(r, weak=None, dtype=None):
    p = pv(r) if not isinstance(r, PV) else r
    dt = dtype or {int: _np.int64, float: _np.float64, bool: _np.bool_}[weak]
    b = Buf((), lambda idx: p, dt)
    return SymArray(b, weak=weak)


def scalar_of(p, dtype, weak=None):
    b = Buf((), lambda idx: p, dtype)
    return SymArray(b, weak=weak)


def asarr(x, dtype=None):
    """Anything array-like -> SymArray (no copy of arrays)."""
    if isinstance(x, SymArray):
        return x if dtype is None else x.astype(dtype, copy=False)
    a = _asarr(x)
    return a if dtype is None else a.astype(dtype, copy=False)


def _asarr(x):
    if isinstance(x, SymInt):
        return scalar(x.r, weak=int)
    if isinstance(x, SymBool):
        return scalar_of(x.p, _np.bool_, weak=bool)
    if isinstance(x, bool):
        return scalar_of(pv(x), _np.bool_, weak=bool)
    if isinstance(x, int):
        return scalar(lift(x), weak=int)
    if isinstance(x, float):
        e = exact_of(x)
        if e is None:
            return scalar_of(pv(float(x)), _np.float64, weak=float)
        return scalar(lift(e), weak=float)
    if isinstance(x, (_np.generic, _np.ndarray)):
        return from_numpy(_np.asarray(x))
    if isinstance(x, SymSeq):
        return stack_seq(x)
    if isinstance(x, (list, tuple)):
        s = as_symseq(x)
        if s is not None:
            return stack_seq(s)
        if not len(x):
            return from_numpy(_np.array([]))
        return stack_list([_asarr(e) if not isinstance(e, SymArray) else e for e in x])
    if isinstance(x, range):
        return from_numpy(_np.array(x))
    raise Unsupported('array from %s' % type(x).__name__)


def from_numpy(a):
    if a.dtype.kind not in 'biuf':
        raise Unsupported('array of dtype %s' % a.dtype)

    def leaf(v):
        if a.dtype.kind == 'b':
            return pv(bool(v))
        e = exact_of(v) if a.dtype.kind != 'f' or a.dtype.itemsize <= 8 else Fraction(*v.as_integer_ratio()) \
            if _np.isfinite(v) else None
        return pv(lift(e)) if e is not None else pv(float(v))
    table = {i: leaf(a[i]) for i in _np.ndindex(a.shape)}
    if a.ndim == 1 and len(a) > 8 and a.dtype.kind != 'b':
        line = progression([table[(i,)] for i in range(len(a))])
        if line:
            return new([lift(len(a))], lambda idx: pv(line[0] + line[1] * idx[0]), a.dtype)
    return new([lift(s) for s in a.shape], lambda idx: table_lookup(table, idx, a.shape), a.dtype)


def progression(ps):
    """(first, step) of an arithmetic progression of finite values."""
    if not all(len(p.cases) == 1 and isinstance(p.cases[0][1], R) for p in ps):
        return None
    xs = [p.cases[0][1] for p in ps]
    d = xs[1] - xs[0]
    if all((y - x - d).const() == 0 for x, y in zip(xs[1:], xs[2:])):
        return xs[0], d
    return None


def table_lookup(table, idx, shape):
    cs = [i.const() for i in idx]
    if all(c is not None for c in cs):
        return table[tuple(int(c) for c in cs)]
    k = next(j for j, c in enumerate(cs) if c is None)
    n = int(shape[k])

    def go(m):
        ii = idx[:k] + (lift(m),) + idx[k + 1:]
        if m == n - 1:
            return table_lookup(table, ii, shape)
        return split(eq(idx[k] - m), lambda: table_lookup(table, ii, shape), lambda: go(m + 1))
    return go(0)


def stack_list(arrs, axis=0):
    """np.stack of a concrete list."""
    if not arrs:
        raise ValueError('need at least one array to stack')
    shp = arrs[0].shp
    for a in arrs[1:]:
        if len(a.shp) != len(shp) or not all(same_dim(x, y) for x, y in zip(a.shp, shp)):
            raise ValueError('all input arrays must have the same shape')
    dt = result_type(*arrs)
    axis = axis % (len(shp) + 1)
    fs = [cast_elem(a.reader(), a.dtype, dt) for a in arrs]
    n = len(arrs)
    if n > 8 and not shp:
        line = progression([f(()) for f in fs])
        if line:
            return new((lift(n),), lambda idx: pv(line[0] + line[1] * idx[0]), dt)

    def elem(idx):
        i = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        c = i.const()
        if c is not None:
            return fs[int(c)](rest)

        def go(m):
            if m == n - 1:
                return fs[m](rest)
            return split(eq(i - m), lambda: fs[m](rest), lambda: go(m + 1))
        return go(0)
    return new(shp[:axis] + (lift(n),) + shp[axis:], elem, dt)


def result_type(*arrs):
    ws, st = [], []
    for a in arrs:
        (ws if a.weak else st).append(a)
    args = [a.dtype for a in st]
    args += [{int: 0, float: 0.0, bool: True}[a.weak] for a in ws]
    return _np.result_type(*args)


def _dt(d):
    if d is None:
        return _np.dtype(_np.float64)
    name = getattr(d, 'vc_dtype', None)
    if name is not None:
        return _np.dtype(name)
    return _np.dtype(d)


def cast_elem(f, src, dst):
    src, dst = _np.dtype(src), _np.dtype(dst)
    if dst.kind == 'f' and dst.itemsize < 8 and src.kind in 'iuf' and (src.kind != 'f' or src.itemsize > dst.itemsize):
        return rounded(f, dst)
    if dst.kind == src.kind or dst.kind in 'f' and src.kind in 'iuf':
        return f
    if dst.kind == 'b':
        return lambda idx: C.truth(f(idx))
    if src.kind == 'b':
        return lambda idx: lift_op(C.num, f(idx))
    if dst.kind in 'iu' and src.kind == 'f':
        return lambda idx: lift_op(l_trunc, f(idx))
    if dst.kind in 'iu' and src.kind in 'iu':
        return f
    raise Unsupported('cast %s to %s' % (src, dst))


def rounded(f, dt):
    """Values held in half or single precision: rounded by a function of which nothing but the sign is known."""
    if dt.kind != 'f' or dt.itemsize >= 8:
        return f
    return lambda idx: lift_op(lambda a: l_rnd(a, dt), f(idx))


def l_rnd(a, dt):
    a = C.num(a)
    if not isR(a):
        return a
    name = 'rnd%d' % (8 * dt.itemsize)
    c = a.const()
    if c is not None:
        with _np.errstate(all='ignore'):
            x = float(dt.type(float(c)))
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else NINF
        if c == Fraction(x):
            return a
        return lift(Fraction(x))
    s = a.single()
    if s is not None and s[0] == 1 and len(s[1][0]) == 1 and s[1][1] is None and s[1][0][0][1] == 1:
        k = s[1][0][0][0]
        if k.kind == 'fn' and k.data[0] == name:
            return a
    return tm.fn(name, a)


def l_trunc(a):
    a = C.num(a)
    if isR(a):
        c = a.const()
        if c is not None:
            return lift(int(c))
        if _is_int(a):
            return a
        return split(neg(gt(-a)), lambda: t_floor(a), lambda: t_ceil(a))
    return NAN if a in (INF, NINF) else a


# ---------------------------------------------------------------- indexing

def _as_index(x):
    if isinstance(x, SymInt):
        return x.r
    if isinstance(x, bool):
        return None
    if isinstance(x, (int, _np.integer)):
        return lift(int(x))
    if isinstance(x, SymArray) and not x.shp and x.dtype.kind in 'iu':
        return one_leaf(x.scalar_pv())
    return None


def norm_index(i, dim):
    """Bounds check and wrap-around of an integer index."""
    c = i.const()
    if c is not None and c < 0:
        i = dim + i
    elif c is None and not tm.nonneg(i):
        if decide(gt(-i)):
            i = dim + i
    lo = neg(gt(-i))
    hi = gt(dim - i)
    if not decide(lo) or not decide(hi):
        raise IndexError('index is out of bounds')
    return i


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if any(isinstance(k, list) for k in key):
        key = tuple(asarr(k) if isinstance(k, list) else k for k in key)
    key = tuple(asarr(k) if isinstance(k, (_np.ndarray, SymSeq)) else k for k in key)
    adv = [k for k in key if isinstance(k, SymArray) and k.shp]
    if adv:
        return adv_get(a, key)
    return basic_get(a, key)


def expand_key(a, key):
    n = sum(1 for k in key if k is not None and k is not Ellipsis)
    if sum(1 for k in key if k is Ellipsis) > 1:
        raise IndexError('an index can only have a single ellipsis')
    if n > a.ndim:
        raise IndexError('too many indices for array')
    out = []
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (a.ndim - n)
        else:
            out.append(k)
    if not any(k is Ellipsis for k in key):
        out += [slice(None)] * (a.ndim - n)
    return out


def basic_get(a, key):
    key = expand_key(a, key)
    newshape = []
    axmap = {}   # view axis -> ('fix', R) or ('ax', new axis, start, step)
    k = 0
    for x in key:
        if x is None:
            newshape.append(ONE)
            continue
        d = a.shp[k]
        if isinstance(x, slice):
            st, n, step = norm_slice(x, d)
            axmap[k] = ('ax', len(newshape), st, step)
            newshape.append(n)
        else:
            i = _as_index(x)
            if i is None:
                raise IndexError('only integers, slices, ellipsis, newaxis and arrays are valid indices')
            axmap[k] = ('fix', norm_index(i, d))
        k += 1
    vm = []
    for m in a.vmap:
        if m[0] == 'fix':
            vm.append(m)
            continue
        _, ax, st, step = m
        t = axmap[ax]
        if t[0] == 'fix':
            i = t[1] * step if step != 1 else t[1]
            vm.append(('fix', st + i))
        else:
            _, nax, st2, step2 = t
            vm.append(('ax', nax, st + (st2 * step if step != 1 else st2), step * step2))
    full = all(isinstance(x, slice) or x is None for x in key)
    if not full and not newshape:
        # a scalar: NumPy returns a copy
        p = SymArray(a.buf, tuple(vm), ()).elem(())
        return scalar_of(p, a.dtype)
    return SymArray(a.buf, tuple(vm), tuple(newshape), None, a.writable)


def norm_slice(s, d):
    """-> (start, length, step)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, SymInt):
        raise Unsupported('symbolic slice step')
    step = int(step)
    if step == 1:
        st = _slice_bound(s.start, d, ZERO)
        en = _slice_bound(s.stop, d, d)
        n = en - st
        if n.const() is None and n is not d and not tm.nonneg(n):
            if decide(gt(-n)):
                n = ZERO
        elif n.const() is not None and n.const() < 0:
            n = ZERO
        return st, n, 1
    if step == -1 and s.start is None and s.stop is None:
        return d - 1, d, -1
    c = d.const()
    if c is not None and all(x is None or isinstance(x, int) for x in (s.start, s.stop)):
        r = range(*slice(s.start, s.stop, step).indices(int(c)))
        return lift(r.start), lift(len(r)), step
    raise Unsupported('strided slice')


def _slice_bound(x, d, default):
    if x is None:
        return default
    i = _as_index(x)
    if i is None:
        raise TypeError('slice indices must be integers or None')
    c = i.const()
    if (c is not None and c < 0) or (c is None and not tm.nonneg(i) and decide(gt(-i))):
        i = d + i
        if not decide(neg(gt(-i))):
            i = ZERO
    elif i is not d and not decide(neg(gt(i - d))):
        i = d
    return i


# masks: `sel` enumerates the true positions, `inv` is its inverse on them
class MaskInfo:
    pass


_masks = {}
CNT = {}   # name of the count variable -> MaskInfo


def mask_info(m):
    m = asarr(m)
    ids = tuple(C.canon_index(d, '#m%d' % k) for k, d in enumerate(m.shp))
    p = C.truth(m.reader()(ids))
    key = (tuple(d.id for d in m.shp),
           tuple(sorted((tuple(sorted((c.id, q) for c, q in g)), l) for g, l in p.cases)))
    info = _masks.get(key)
    if info is None:
        info = MaskInfo()
        info.shape = m.shp
        info.n = len(_masks)
        info.elem = lambda idx, f=m.reader(): C.truth(f(idx))
        info.cnt = tm.var('cnt%d' % info.n, 'int')
        C.VARSIGN['cnt%d' % info.n] = '0+'
        CNT['cnt%d' % info.n] = info
        info.names = ['sel%d_%d' % (info.n, k) for k in range(len(m.shp))]
        for nm in info.names:
            C.DOMSIGN[nm] = '0+'
            INTAPP.add(nm)
        info.iname = 'inv%d' % info.n
        C.DOMSIGN[info.iname] = '0+'
        INTAPP.add(info.iname)
        _masks[key] = info
        names = [C.varname(i) if i.const() is None else None for i in ids]
        tm.DERIVED['cnt%d' % info.n] = lambda args, env, mp: len(true_positions(m.shp, p, names, env, mp))
        for k, nm in enumerate(info.names):
            tm.DERIVED['@' + nm] = lambda args, env, mp, k=k: true_positions(m.shp, p, names, env, mp)[int(args[0])][k]
        tm.DERIVED['@' + info.iname] = lambda args, env, mp: true_positions(m.shp, p, names, env, mp).index(
            tuple(int(x) for x in args))
    return info


def with_counts(p):
    """Replace the number of elements a mask selects by the sum it is."""
    out = []
    for g, l in p.cases:
        names = [n for n in l.fv if n in CNT] if isinstance(l, R) else []
        m = {}
        for n in names:
            info = CNT[n]
            m[n] = one_leaf(reduction('sum', new(info.shape, info.elem, _np.bool_)).scalar_pv())
        out.append((g, tm.subst(l, m) if m else l))
    return PV(out)


def true_positions(shp, p, names, env, mp):
    """Positions where a mask is true, under an interpretation of the symbols."""
    out = []
    for pos in itertools.product(*[range(int(tm.evalf(d, env, mp))) for d in shp]):
        e2 = tm.inner_env(env)
        e2.update((nm, i) for nm, i in zip(names, pos) if nm)
        for g, l in p.cases:
            if all(bool(c.evalf(e2, mp)) == q for c, q in g):
                if l is True:
                    out.append(pos)
                break
        else:
            raise Unsupported('mask')
    return out


def sel(info, q):
    """Coordinates of the q-th true position."""
    s = q.single()
    if s is not None and s[0] == 1 and s[1][1] is None and len(s[1][0]) == 1 and s[1][0][0][1] == 1:
        at = s[1][0][0][0]
        if at.kind == 'app' and at.data[0] == info.iname:
            return tuple(at.data[1])
    return tuple(tm.app(nm, [q]) for nm in info.names)


def inv(info, b):
    return tm.app(info.iname, list(b))


def adv_get(a, key):
    key = expand_key_adv(a, as_masks(a, key))
    # at most one group of advanced indices
    pos = [k for k, x in enumerate(key) if isinstance(x, SymArray) and x.shp]
    if len(pos) != 1 or any(_as_index(x) is not None for x in key if x is not None and not isinstance(x, slice)):
        raise Unsupported('combined advanced indexing')
    p = pos[0]
    m = key[p]
    if m.dtype.kind == 'b':
        info = mask_info(m)
        nd = len(info.shape)
        # replace the mask by full slices, then read through sel
        k2 = key[:p] + [slice(None)] * nd + key[p + 1:]
        base = basic_get(a, tuple(k2))
        ax = len([x for x in key[:p]])
        for d1, d2 in zip(base.shp[ax:ax + nd], info.shape):
            if not same_dim(d1, d2):
                raise IndexError('boolean index did not match indexed array')
        f = base.reader()
        shp = base.shp[:ax] + (info.cnt,) + base.shp[ax + nd:]
        return new(shp, lambda idx: f(idx[:ax] + sel(info, idx[ax]) + idx[ax + 1:]), a.dtype)
    if m.dtype.kind in 'iu':
        k2 = key[:p] + [slice(None)] + key[p + 1:]
        base = basic_get(a, tuple(k2))
        ax = p
        f = base.reader()
        mi = m.reader()
        nm = len(m.shp)
        dim = base.shp[ax]
        shp = base.shp[:ax] + m.shp + base.shp[ax + 1:]

        def elem(idx):
            out = []
            for g, j in mi(idx[ax:ax + nm]).cases:
                c = j.const()
                if c is not None and c < 0:
                    j = dim + j
                out += [(g | g2, l) for g2, l in with_lits(g, lambda: f(idx[:ax] + (j,) + idx[ax + nm:])).cases]
            return C.simplify_pv([x for x in out if not x[0] or ctx().feasible(x[0])])
        # bounds
        gi = tuple(C.canon_index(d, '#x%d' % k) for k, d in enumerate(m.shp))
        for _, j in mi(gi).cases:
            c = j.const()
            if c is not None:
                if not decide(gt(dim - c) if c >= 0 else gt(dim + c + 1)):
                    raise IndexError('index %d is out of bounds' % c)
            elif not (tm.nonneg(j) and C.ctx().sign(dim - j) == '+'):
                raise Unsupported('bounds of an index array')
        return new(shp, elem, a.dtype)
    raise IndexError('arrays used as indices must be of integer (or boolean) type')


def expand_key_adv(a, key):
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        n += len(k.shp) if isinstance(k, SymArray) and k.dtype.kind == 'b' and k.shp else 1
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (a.ndim - n)
            seen = True
        else:
            out.append(k)
    if not seen:
        out += [slice(None)] * (a.ndim - n)
    if n > a.ndim:
        raise IndexError('too many indices for array')
    return out


def setitem(a, key, value):
    v = asarr(value)
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(asarr(k) if isinstance(k, (list, _np.ndarray, SymSeq)) else k for k in key)
    key = tuple(as_masks(a, key))
    adv = [k for k in key if isinstance(k, SymArray) and k.shp]
    if not adv:
        view = _view_for_write(a, key)
        assign(view, v, casting='unsafe')
        return
    ekey = expand_key_adv(a, key)
    pos = [k for k, x in enumerate(ekey) if isinstance(x, SymArray) and x.shp]
    if len(pos) != 1:
        raise Unsupported('combined advanced assignment')
    p = pos[0]
    m = ekey[p]
    if m.dtype.kind != 'b':
        return set_fancy(a, ekey, p, m, v)
    info = mask_info(m)
    nd = len(info.shape)
    view = _view_for_write(a, tuple(ekey[:p] + [slice(None)] * nd + ekey[p + 1:]))
    ax = p - sum(1 for x in ekey[:p] if x is not None and not isinstance(x, slice))
    for d1, d2 in zip(view.shp[ax:ax + nd], info.shape):
        if not same_dim(d1, d2):
            raise IndexError('boolean index did not match indexed array')
    tshape = view.shp[:ax] + (info.cnt,) + view.shp[ax + nd:]
    check_broadcast_to(v.shp, tshape)
    f = cast_elem(v.reader(), v.dtype, a.dtype)
    vs = v.shp

    def val(idx):
        q = inv(info, idx[ax:ax + nd])
        return f(bidx(idx[:ax] + (q,) + idx[ax + nd:], vs))
    mk = info.elem

    def val_under(idx):
        return under(mk(idx[ax:ax + nd]), lambda: val(idx))
    view.write(val_under, lambda idx: mk(idx[ax:ax + nd]))


def under(mask, f):
    """Evaluate f under the assumption that a piecewise boolean holds."""
    out = []
    c = ctx()
    for g, l in mask.cases:
        if l is True:
            for g2, l2 in with_lits(g, f).cases:
                gg = g | g2
                if c.feasible(gg):
                    out.append((gg, l2))
        elif c.feasible(g):
            out.append((g, UNDEF))
    return C.simplify_pv(out)


def set_fancy(a, key, p, m, v):
    # a[idx] = v with an index array known to be a permutation of the axis is not needed here
    raise Unsupported('assignment through an index array')


def _view_for_write(a, key):
    key = expand_key(a, key)
    if any(_as_index(x) is None and x is not None and not isinstance(x, slice) for x in key):
        raise IndexError('only integers, slices, ellipsis, newaxis and arrays are valid indices')
    if all(not (isinstance(x, slice) or x is None) for x in key):
        key = key + [None]
        return basic_get(a, tuple(key))
    return basic_get(a, tuple(key))


def check_broadcast_to(src, dst):
    if len(src) > len(dst):
        if not all(is_one(d) for d in src[:len(src) - len(dst)]):
            raise ValueError('could not broadcast input array into shape')
        src = src[len(src) - len(dst):]
    for s, d in zip(reversed(src), reversed(dst)):
        if is_one(s) or s is d:
            continue
        if not same_dim(s, d) and not (s.const() is None and decide(eq(s - 1))):
            raise ValueError('could not broadcast input array from shape into shape')


def assign(view, v, casting='unsafe', mask=None):
    check_broadcast_to(v.shp, view.shp)
    f = cast_elem(v.reader(), v.dtype, view.dtype)
    vs = v.shp
    n = len(view.shp)
    if len(vs) > n:
        f0 = f
        extra = len(vs) - n
        vs = vs[extra:]
        f = lambda idx: f0((ZERO,) * extra + tuple(idx))
    view.write(lambda idx: f(bidx(idx, vs)), mask)


def reshape(a, shape, order='C'):
    if isinstance(shape, (int, SymInt)):
        shape = (shape,)
    shape = tuple(s for s in shape)
    rs = [x.r if isinstance(x, SymInt) else lift(int(x)) for x in shape]
    size = ONE
    for s in a.shp:
        size = size * s
    known = ONE
    hole = None
    for k, s in enumerate(rs):
        if s.const() == -1:
            if hole is not None:
                raise ValueError('can only specify one unknown dimension')
            hole = k
        else:
            known = known * s
    if hole is not None:
        q = size * known.inv() if known.t else ZERO
        cq = q.const()
        if cq is not None and cq.denominator != 1:
            raise ValueError('cannot reshape array')
        if tm.neg_polys(q) or any(e < 0 for pw, _ in q.t for _, e in pw):
            raise Unsupported('reshape to an unknown extent')
        rs[hole] = q
    else:
        if not tm.zero_test(size - known):
            if size.const() is not None and known.const() is not None:
                raise ValueError('cannot reshape array')
            if not decide(eq(size - known)):
                raise ValueError('cannot reshape array')
    # only insertion / removal of unit axes keeps the structure
    old = [k for k, d in enumerate(a.shp) if not is_one(d)]
    nw = [k for k, d in enumerate(rs) if not is_one(d)]
    if len(old) == len(nw) and all(same_dim(a.shp[x], rs[y]) for x, y in zip(old, nw)):
        key = []
        b = basic_get(a, tuple(slice(None) if k in old else 0 for k in range(a.ndim))) \
            if len(old) < a.ndim and old else a
        if not old and a.ndim:
            p = a.elem(tuple(ZERO for _ in a.shp))
            b = scalar_of(p, a.dtype)
        for k in range(len(rs)):
            key.append(slice(None) if k in nw else None)
        return basic_get(b, tuple(key)) if key else b
    f = a.reader()
    if len(rs) == 1 or len(a.shp) == 1 or all(s.const() is not None for s in list(a.shp) + rs):
        def elem(idx):
            return f(_reindex(idx, tuple(rs), a.shp, order))
        out = new(rs, elem, a.dtype)
        return out
    raise Unsupported('reshape')


FLAT = {}


def _reindex(idx, shp, target, order):
    """Index of `target` with the same linear position."""
    lin = ZERO
    if order == 'F':
        dims, ii = list(reversed(shp)), list(reversed(idx))
    else:
        dims, ii = list(shp), list(idx)
    for d, i in zip(dims, ii):
        lin = lin * d + i
    tdims = list(target) if order != 'F' else list(reversed(target))
    out = []
    rem = lin
    for k in range(len(tdims)):
        stride = ONE
        for d in tdims[k + 1:]:
            stride = stride * d
        if k == len(tdims) - 1:
            out.append(rem)
        else:
            q = t_floor(rem * stride.inv())
            out.append(q)
            rem = rem - q * stride
    if order == 'F':
        out.reverse()
    return tuple(out)


def _axes(axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, list)):
        ax = list(axis)
    else:
        ax = [axis]
    out = []
    for x in ax:
        x = int(x)
        if not -n <= x < n:
            raise _np.exceptions.AxisError(x, n)
        out.append(x % n)
    return sorted(out)


# ---------------------------------------------------------------- ufuncs

class UFunc:
    def __init__(self, name, leaf, nin, npname=None):
        self.name = self.__name__ = name
        self.leaf = leaf
        self.nin = nin
        self.np = getattr(_np, npname or name)
        self.nout = 1

    def resolve(self, arrs, dtype, out):
        args = [a.weak if a.weak in (int, float) else a.dtype for a in arrs]
        if all(isinstance(x, type) for x in args):
            args = [_np.dtype({int: _np.int64, float: _np.float64}[x]) for x in args]
        sig = None
        if dtype is not None:
            sig = (None,) * self.nin + (_dt(dtype),)
        kw = {} if sig is None else {'signature': sig}
        return self.np.resolve_dtypes(tuple(args) + (None,), **kw)

    def __call__(self, *args, out=None, where=True, dtype=None, casting='same_kind', order='K', subok=True):
        args = list(args)
        if len(args) > self.nin:
            out = args.pop()
        if len(args) != self.nin:
            raise TypeError('%s() takes from %d to %d positional arguments' % (self.name, self.nin, self.nin + 1))
        if isinstance(out, tuple):
            (out,) = out
        arrs = [asarr(a) for a in args]
        w = None
        if where is not True:
            w = asarr(where)
            if w.dtype.kind != 'b':
                raise TypeError('Cannot cast array data to bool')
        shapes = [a.shp for a in arrs]
        if w is not None:
            shapes.append(w.shp)
        if out is not None:
            if not isinstance(out, SymArray):
                raise TypeError('return arrays must be of ArrayType')
            shp = broadcast_shapes(shapes + [out.shp])
            if len(shp) != len(out.shp) or not all(
                    x is y or same_dim(x, y) for x, y in zip(shp, out.shp)):
                raise ValueError('non-broadcastable output operand')
            shp = out.shp
        else:
            shp = broadcast_shapes(shapes)
        dts = self.resolve(arrs, dtype, out)
        rdt = dts[-1]
        if out is not None and not _np.can_cast(rdt, out.dtype, casting):
            raise TypeError('Cannot cast ufunc %r output from %s to %s' % (self.name, rdt, out.dtype))
        weak = None
        if out is None and not shp and w is None and all(a.weak for a in arrs):
            weak = _weak_of(rdt)
        rs = [cast_elem(a.reader(), a.dtype, d) if a.dtype.kind == 'b' and d.kind != 'b' else a.reader()
              for a, d in zip(arrs, dts)]
        ss = [a.shp for a in arrs]
        leaf = self.leaf
        if self.name == 'power' and rdt.kind in 'iu' and arrs[1].dtype.kind in 'iu':
            e = arrs[1]
            if not e.shp:
                lf = one_leaf(e.scalar_pv())
                if lf.const() is not None and lf.const() < 0 or (lf.const() is None and decide(gt(-lf))):
                    raise ValueError('Integers to negative integer powers are not allowed.')
        def elem(idx):
            return lift_op(leaf, *[f(bidx(idx, s)) for f, s in zip(rs, ss)])
        elem = rounded(elem, rdt)
        if RANGE[0] is not None:
            val = elem
            if w is not None:
                def val(idx):
                    m = w.reader()(bidx(idx, w.shp))
                    return C.ite(m, lambda: under_true(m, lambda: elem(idx)), pv(UNDEF))
            RANGE[0](self, rdt, rs, ss, shp, val, rdt if out is None else out.dtype)
        if w is None:
            if out is None:
                return SymArray(Buf(shp, memo(elem), rdt), weak=weak)
            f = cast_elem(memo(elem), rdt, out.dtype)
            out.write(f)
            return out
        wf, ws = w.reader(), w.shp

        def mask(idx):
            return wf(bidx(idx, ws))
        if out is None:
            def elem2(idx):
                m = mask(idx)
                return C.ite(m, lambda: under_true(m, lambda: elem(idx)), pv(UNDEF))
            return SymArray(Buf(shp, memo(elem2), rdt))
        f = cast_elem(memo(elem), rdt, out.dtype)
        out.write(lambda idx: under_true(mask(idx), lambda: f(idx)), mask)
        return out

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        kind = {'add': 'sum', 'multiply': 'prod', 'minimum': 'min', 'maximum': 'max',
                'logical_and': 'all', 'logical_or': 'any'}.get(self.name)
        if kind is None:
            raise Unsupported('%s.reduce' % self.name)
        return reduction(kind, asarr(a), axis, dtype, out, keepdims, **kw)

    def outer(self, a, b, **kw):
        a, b = asarr(a), asarr(b)
        return self(basic_get(a, tuple([slice(None)] * a.ndim + [None] * b.ndim)), b, **kw)

    def __getattr__(self, n):
        raise Unsupported('ufunc attribute ' + n)


def under_true(m, f):
    """Value of f where the piecewise boolean m is true (elsewhere irrelevant)."""
    if len(m.cases) == 1:
        return f()
    out = []
    c = ctx()
    for g, l in m.cases:
        if l is True:
            for g2, l2 in with_lits(g, f).cases:
                gg = g | g2
                if gg == g or c.feasible(gg):
                    out.append((gg, l2))
        else:
            out.append((g, UNDEF))
    return PV(out)


RANGE = [None]   # optional callback(ufunc, dtype, readers, shapes, shape, result, dtype of the result array)


def _l_floor(a):
    a = C.num(a)
    return t_floor(a) if isR(a) else a


def t_rint(r):
    r = lift(r)
    c = r.const()
    if c is not None:
        return lift(round(c))
    return r if _is_int(r) else tm.fn('rint', r)


def _l_rint(a):
    a = C.num(a)
    return t_rint(a) if isR(a) else a


def _l_ceil(a):
    a = C.num(a)
    return t_ceil(a) if isR(a) else a


def _l_max(a, b):
    a, b = C.num(a), C.num(b)
    if NAN in (a, b) if isinstance(a, Special) or isinstance(b, Special) else False:
        return NAN
    c = C.l_cmp('>=', a, b)
    return (a if c else b) if isinstance(c, bool) else PV([(g, a if l else b) for g, l in c.cases])


def _l_min(a, b):
    a, b = C.num(a), C.num(b)
    if NAN in (a, b) if isinstance(a, Special) or isinstance(b, Special) else False:
        return NAN
    c = C.l_cmp('<=', a, b)
    return (a if c else b) if isinstance(c, bool) else PV([(g, a if l else b) for g, l in c.cases])


def _l_fext(f):
    def g(a, b):
        return b if a is NAN else a if b is NAN else f(a, b)
    return g


def _l_bool2(f):
    def g(a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return f(a, b)
        return lift_op(f, C.truth(pv(a)), C.truth(pv(b)))
    return g


def _l_fdiv(a, b):
    q = C.l_div(a, b)
    return lift_op(_l_floor, pv(q) if not isinstance(q, PV) else q)


def _l_sign(a):
    a = C.num(a)
    if isR(a):
        return C.sgn_split(a, ONE, ZERO, -ONE)
    return {INF: ONE, NINF: -ONE}.get(a, a)


def _opaque(name):
    def f(a):
        a = C.num(a)
        if isR(a):
            return tm.fn(name, a)
        raise Unsupported(name + ' of a special value')
    return f


def _l_expm1(a):
    return C.l_add(C.l_exp(a), -ONE)


def _l_log1p(a):
    return C.l_log(C.l_add(a, ONE))


def _l_logb(base):
    def f(a):
        v = C.l_log(a)
        v = v if isinstance(v, PV) else pv(v)
        return lift_op(lambda x: C.l_mul(x, tm.log(lift(base)).inv()), v)
    return f


def _l_isspecial(which):
    return lambda a: (C.num(a) in which) if isinstance(C.num(a), Special) else False


def _l_logaddexp(a, b):
    a, b = C.num(a), C.num(b)
    if isR(a) and isR(b):
        return tm.log(tm.exp(a) + tm.exp(b))
    if a is NINF:
        return b
    if b is NINF:
        return a
    if NAN in (a, b):
        return NAN
    return INF


def _l_sub(a, b):
    return C.l_add(a, C.l_neg(b))


def _l_mod(a, b):
    a, b = C.num(a), C.num(b)
    if isR(a) and isR(b):
        return a - b * t_floor(a * b.inv())
    raise Unsupported('mod of special values')


def _l_hypot(a, b):
    s = C.l_add(C.l_mul(a, a), C.l_mul(b, b))
    return lift_op(C.l_sqrt, s if isinstance(s, PV) else pv(s))


_LEAF2 = {
    'add': C.l_add, 'subtract': _l_sub, 'multiply': C.l_mul, 'divide': C.l_div, 'true_divide': C.l_div,
    'power': C.l_pow, 'float_power': C.l_pow, 'maximum': _l_max, 'minimum': _l_min, 'fmax': _l_fext(_l_max),
    'fmin': _l_fext(_l_min), 'floor_divide': _l_fdiv, 'logaddexp': _l_logaddexp, 'hypot': _l_hypot, 'mod': _l_mod,
    'remainder': _l_mod,
    'greater': lambda a, b: C.l_cmp('>', a, b), 'less': lambda a, b: C.l_cmp('<', a, b),
    'greater_equal': lambda a, b: C.l_cmp('>=', a, b), 'less_equal': lambda a, b: C.l_cmp('<=', a, b),
    'equal': lambda a, b: C.l_cmp('==', a, b), 'not_equal': lambda a, b: C.l_cmp('!=', a, b),
    'logical_and': _l_bool2(lambda a, b: a and b), 'logical_or': _l_bool2(lambda a, b: a or b),
    'logical_xor': _l_bool2(lambda a, b: a != b),
    'bitwise_and': _l_bool2(lambda a, b: a and b), 'bitwise_or': _l_bool2(lambda a, b: a or b),
    'bitwise_xor': _l_bool2(lambda a, b: a != b),
}


def _l_cosh(a):
    return C.l_cosh(a)


def _l_square(a):
    return C.l_mul(a, a)


def _l_recip(a):
    return C.l_div(ONE, a)


def _l_not(a):
    r = C.truth(pv(a))
    return lift_op(lambda x: not x, r)


def _l_trig(name):
    def f(a):
        a = C.num(a)
        if isR(a):
            if not a.t:
                return ONE if name == 'cos' else ZERO
            return tm.fn(name, a)
        return NAN
    return f


_LEAF1 = {
    'negative': C.l_neg, 'positive': lambda a: a, 'exp': C.l_exp, 'log': C.l_log, 'sinh': C.l_sinh,
    'cosh': C.l_cosh, 'tanh': C.l_tanh, 'sqrt': C.l_sqrt, 'absolute': C.l_abs, 'fabs': C.l_abs,
    'abs': C.l_abs,
    'square': _l_square, 'reciprocal': _l_recip, 'expm1': _l_expm1, 'log1p': _l_log1p,
    'log2': _l_logb(2), 'log10': _l_logb(10), 'floor': _l_floor, 'ceil': _l_ceil, 'trunc': l_trunc,
    'sign': _l_sign, 'logical_not': _l_not, 'invert': _l_not, 'bitwise_not': _l_not,
    'isnan': _l_isspecial({NAN}), 'isinf': _l_isspecial({INF, NINF}),
    'isfinite': lambda a: not isinstance(C.num(a), Special), 'conjugate': lambda a: a,
    'sin': _l_trig('sin'), 'cos': _l_trig('cos'), 'rint': _l_rint,
}

_UF = {n: UFunc(n, f, 2) for n, f in _LEAF2.items()}
_UF.update({n: UFunc(n, f, 1) for n, f in _LEAF1.items()})


def _fix_isspecial():
    def undef_guard(f):
        def g(a):
            if C.num(a) is UNDEF:
                raise Unsupported('uninitialised memory inspected')
            return f(a)
        return g
    for n in ('isnan', 'isinf', 'isfinite'):
        _UF[n].leaf = undef_guard(_UF[n].leaf)


_fix_isspecial()


def _binop(name, uf, inplace=True):
    u = _UF[uf]

    def ok(o):
        return isinstance(o, (SymArray, SymInt, SymBool, int, float, _np.generic, _np.ndarray, list, tuple, SymSeq))

    def fwd(self, o):
        return u(self, o) if ok(o) else NotImplemented

    def rev(self, o):
        return u(o, self) if ok(o) else NotImplemented

    def inp(self, o):
        if not ok(o):
            return NotImplemented
        if self.weak or not self.shp:
            return u(self, o)   # Python and NumPy scalars are immutable
        return u(self, o, out=self)
    setattr(SymArray, '__%s__' % name, fwd)
    setattr(SymArray, '__r%s__' % name, rev)
    setattr(SymArray, '__i%s__' % name, inp)


for _n, _u in [('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide'), ('pow', 'power'),
               ('floordiv', 'floor_divide'), ('and', 'bitwise_and'), ('or', 'bitwise_or'), ('xor', 'bitwise_xor'),
               ('mod', 'mod')]:
    _binop(_n, _u)
SymArray.__neg__ = lambda self: _UF['negative'](self)
SymArray.__pos__ = lambda self: self.copy()
SymArray.__abs__ = lambda self: _UF['absolute'](self)
SymArray.__invert__ = lambda self: _UF['invert'](self)
SymArray.__matmul__ = lambda self, o: np_matmul(self, o)
SymArray.__rmatmul__ = lambda self, o: np_matmul(o, self)


# ---------------------------------------------------------------- reductions

def reduction(kind, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = asarr(a)
    axes = _axes(axis, a.ndim)
    if where is not True:
        w = asarr(where)
        ident = {'sum': 0, 'prod': 1, 'any': False, 'all': True}.get(kind)
        if ident is None:
            if initial is None:
                raise ValueError('reduction operation does not have an identity')
            ident = initial
        a = np_where(w, a, ident if a.dtype.kind != 'f' else float(ident))
    if a.dtype.kind == 'b' and kind in ('sum', 'prod'):
        a = a.astype(_np.int64)
    rdt = a.dtype
    if kind in ('any', 'all'):
        rdt = _np.dtype(bool)
    elif kind in ('sum', 'prod') and rdt.kind in 'iu' and rdt.itemsize < 8:
        rdt = _np.dtype(_np.uint64 if rdt.kind == 'u' else _np.int64)
    if dtype is not None:
        a = a.astype(dtype)
        rdt = a.dtype
    f = a.reader()
    shp = a.shp
    keep = [k for k in range(a.ndim) if k not in axes]
    if kind in ('min', 'max'):
        for k in axes:
            c = shp[k].const()
            if c is not None and c == 0:
                raise ValueError('zero-size array to reduction operation has no identity')

    def elem(idx):
        full = [None] * len(shp)
        for k, i in zip(keep, idx):
            full[k] = i
        return _reduce(kind, f, shp, full, list(axes))
    if kind in ('sum', 'prod'):
        elem = rounded(elem, rdt)
    res = new([shp[k] for k in keep], elem, rdt)
    if initial is not None and kind in ('sum', 'prod', 'min', 'max'):
        u = {'sum': 'add', 'prod': 'multiply', 'min': 'minimum', 'max': 'maximum'}[kind]
        res = _UF[u](res, initial)
    if keepdims:
        key = tuple(None if k in axes else slice(None) for k in range(a.ndim))
        res = basic_get(res, key) if key else res
    if out is not None:
        assign(out, res)
        return out
    if not res.shp:
        return scalar_of(res.elem(()), res.dtype)
    return res


def _reduce(kind, f, shp, full, axes):
    if not axes:
        p = f(tuple(full))
        if kind in ('any', 'all'):
            return C.truth(p)
        return p
    ax = axes[0]
    dim = shp[ax]
    c = dim.const()
    if c is not None:
        vals = []
        for i in range(int(c)):
            g = list(full)
            g[ax] = lift(i)
            vals.append(_reduce(kind, f, shp, g, axes[1:]))
        if not vals:
            return pv({'sum': ZERO, 'prod': ONE, 'any': False, 'all': True}[kind])
        op = {'sum': C.l_add, 'prod': C.l_mul, 'min': _l_min, 'max': _l_max,
              'any': lambda x, y: x or y, 'all': lambda x, y: x and y}[kind]
        acc = vals[0]
        for v in vals[1:]:
            acc = lift_op(op, acc, v)
        return acc
    s = dim.single()
    name = None
    if s is not None and len(s[1][0]) == 1:
        name = s[1][0][0][0].data
    if isinstance(name, str) and name in CNT and s[0] == 1:
        info = CNT[name]
        if len(info.shape) != 1:
            raise Unsupported('reduction over a selection of a 2-D mask')
        d = info.shape[0]
        v = C.new_index(d)
        g = list(full)
        g[ax] = inv(info, (v,))
        m = info.elem((v,))
        ident = {'sum': ZERO, 'prod': ONE, 'any': False, 'all': True}.get(kind)
        if ident is None:
            raise Unsupported('min over a selection')
        body = C.ite(m, lambda: under_true(m, lambda: _reduce(kind, f, shp, g, axes[1:])), pv(ident))
        body = PV([(gg, l) for gg, l in body.cases if l is not UNDEF])
        return C.reduce_sym(v, d, body, kind)
    v = C.new_index(dim)
    g = list(full)
    g[ax] = v
    body = _reduce(kind, f, shp, g, axes[1:])
    return C.reduce_sym(v, dim, body, kind)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduction('sum', asarr(a), axis, dtype, out, keepdims, **kw)


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduction('prod', asarr(a), axis, dtype, out, keepdims, **kw)


def np_min(a, axis=None, out=None, keepdims=False, **kw):
    return reduction('min', asarr(a), axis, None, out, keepdims, **kw)


def np_max(a, axis=None, out=None, keepdims=False, **kw):
    return reduction('max', asarr(a), axis, None, out, keepdims, **kw)


def np_any(a, axis=None, out=None, keepdims=False, **kw):
    return reduction('any', asarr(a), axis, None, out, keepdims, **kw)


def np_all(a, axis=None, out=None, keepdims=False, **kw):
    return reduction('all', asarr(a), axis, None, out, keepdims, **kw)


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarr(a)
    n = ONE
    for k in _axes(axis, a.ndim):
        n = n * a.shp[k]
    s = reduction('sum', a, axis, dtype, None, keepdims, **kw)
    if s.dtype.kind in 'iub':
        s = s.astype(_np.float64)
    return _UF['divide'](s, scalar(n, weak=float), out=out)


def np_average(a, axis=None, weights=None, returned=False):
    if returned:
        raise Unsupported('average(returned)')
    if weights is None:
        return np_mean(a, axis)
    a, w = asarr(a), asarr(weights)
    if len(w.shp) == 1 and a.ndim == 2 and axis is not None:
        w = w[:, None] if _axes(axis, 2) == [0] else w[None, :]
    return np_sum(a * w, axis) / np_sum(w + 0 * a if w.ndim != a.ndim else w, axis)


def np_count_nonzero(a, axis=None, keepdims=False):
    a = asarr(a)
    f = a.reader()
    b = new(a.shp, lambda idx: C.truth(f(idx)), _np.bool_)
    r = reduction('sum', b, axis, None, None, keepdims)
    if not r.shp:
        return mkint(one_leaf(r.scalar_pv())) if len(r.scalar_pv().cases) == 1 else r
    return r


def np_argmax(a, axis=None):
    a = asarr(a)
    if a.dtype.kind not in 'if':
        raise Unsupported('argmax')
    return np_argmin(_UF['negative'](a), axis)


def np_argmin(a, axis=None):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('argmin of an n-d array')
    p = reduction('min', a).scalar_pv()
    r = one_leaf(p)
    for at in C.min_atoms(r).values():
        if at.data[0] is a.shp[0]:
            w, _ = C.witness(at)
            # the element at w must equal the minimum
            d = one_leaf(a.elem((w,))) - r
            if ctx().prove_zero(d):
                return mkint(w)
    raise Unsupported('argmin')


# ---------------------------------------------------------------- constructors

def _shape(s):
    if isinstance(s, SymArray):
        s = s.tolist()
    if isinstance(s, (int, SymInt, _np.integer)):
        s = (s,)
    out = []
    for x in s:
        i = _as_index(x)
        if i is None:
            raise TypeError('expected a sequence of integers or a single integer')
        out.append(i)
    return tuple(out)


def only(kw, allowed):
    """Options that are not modelled."""
    for k in kw:
        if k not in allowed:
            raise Unsupported('option ' + k)


def np_full(shape, fill, dtype=None, order='C', **kw):
    only(kw, ())
    v = asarr(fill)
    dt = _dt(dtype) if dtype is not None else (v.dtype if not v.weak else _np.dtype(
        {int: _np.int64, float: _np.float64, bool: _np.bool_}[v.weak]))
    shp = _shape(shape)
    f = cast_elem(v.reader(), v.dtype, dt)
    return new(shp, lambda idx: f(bidx(idx, v.shp)), dt)


def np_ones(shape, dtype=None, order='C', **kw):
    only(kw, ())
    dt = _dt(dtype)
    one = pv(True) if dt.kind == 'b' else pv(ONE)
    return new(_shape(shape), lambda idx: one, dt)


def np_zeros(shape, dtype=None, order='C', **kw):
    only(kw, ())
    dt = _dt(dtype)
    z = pv(False) if dt.kind == 'b' else pv(ZERO)
    return new(_shape(shape), lambda idx: z, dt)


def np_empty(shape, dtype=None, order='C', **kw):
    only(kw, ())
    u = pv(UNDEF)
    return new(_shape(shape), lambda idx: u, _dt(dtype))


def _like(a, dtype, shape):
    a = asarr(a)
    return (a.shp if shape is None else _shape(shape)), (a.dtype if dtype is None else _dt(dtype))


def np_ones_like(a, dtype=None, order='K', subok=True, shape=None):
    s, d = _like(a, dtype, shape)
    return np_ones(tuple(mkint(x) for x in s), d)


def np_zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    s, d = _like(a, dtype, shape)
    return np_zeros(tuple(mkint(x) for x in s), d)


def np_empty_like(a, dtype=None, order='K', subok=True, shape=None):
    s, d = _like(a, dtype, shape)
    return np_empty(tuple(mkint(x) for x in s), d)


def np_full_like(a, fill, dtype=None, order='K', subok=True, shape=None):
    s, d = _like(a, dtype, shape)
    return np_full(tuple(mkint(x) for x in s), fill, d)


def np_array(x, dtype=None, copy=True, order='K', ndmin=0, subok=False):
    a = asarr(x)
    if a.weak:
        a = scalar_of(a.scalar_pv(), a.dtype)
    if dtype is not None:
        a = a.astype(dtype)
    elif copy and isinstance(x, SymArray):
        a = a.copy()
    while a.ndim < ndmin:
        a = a[None]
    return a


def np_asarray(x, dtype=None, order=None, **kw):
    only(kw, ('copy',))
    a = asarr(x)
    if a.weak:
        a = scalar_of(a.scalar_pv(), a.dtype)
    return a if dtype is None else a.astype(dtype, copy=False)


def np_atleast_1d(x):
    a = np_asarray(x)
    return a if a.ndim else a[None]


def np_atleast_2d(x):
    a = np_asarray(x)
    while a.ndim < 2:
        a = a[None]
    return a


def np_expand_dims(a, axis):
    a = asarr(a)
    ax = axis if isinstance(axis, (tuple, list)) else (axis,)
    n = a.ndim + len(ax)
    ax = [x % n for x in ax]
    return a[tuple(None if k in ax else slice(None) for k in range(n))]


def np_broadcast_to(a, shape, subok=False):
    a = asarr(a)
    s = _shape(shape)
    check_broadcast_to(a.shp, s)
    f = a.reader()
    r = new(s, lambda idx: f(bidx(idx, a.shp)), a.dtype)
    r.writable = False
    return r


def np_broadcast_arrays(*arrs):
    arrs = [asarr(a) for a in arrs]
    s = broadcast_shapes([a.shp for a in arrs])
    return [np_broadcast_to(a, tuple(mkint(x) for x in s)) for a in arrs]


def np_outer(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim != 1:
        a = a.ravel()
    if b.ndim != 1:
        b = b.ravel()
    return _UF['multiply'](a[:, None], b[None, :], out=out)


def np_where(c, *args):
    if not args:
        return np_nonzero(c)
    a, b = args
    c, a, b = asarr(c), asarr(a), asarr(b)
    shp = broadcast_shapes([c.shp, a.shp, b.shp])
    dt = result_type(a, b) if not (a.weak and b.weak) else _np.result_type(a.dtype, b.dtype)
    fc, fa, fb = c.reader(), cast_elem(a.reader(), a.dtype, dt), cast_elem(b.reader(), b.dtype, dt)
    sc, sa, sb = c.shp, a.shp, b.shp

    def elem(idx):
        m = C.truth(fc(bidx(idx, sc)))
        out = []
        cx = ctx()
        for g, l in m.cases:
            src = with_lits(g, lambda: fa(bidx(idx, sa)) if l else fb(bidx(idx, sb)))
            for g2, l2 in src.cases:
                gg = g | g2
                if gg == g or cx.feasible(gg):
                    out.append((gg, l2))
        return C._fold_ite(C.simplify_pv(out))
    r = new(shp, elem, dt)
    return r if shp else scalar_of(r.elem(()), dt)


def np_nonzero(m):
    m = asarr(m)
    f = m.reader()
    info = mask_info(new(m.shp, lambda idx: C.truth(f(idx)), _np.bool_))
    out = []
    for k in range(len(m.shp)):
        a = new((info.cnt,), (lambda k: lambda idx: pv(sel(info, idx[0])[k]))(k), _np.int64)
        a.buf.where = (info, k)
        out.append(a)
    return tuple(out)


def as_masks(a, key):
    """Index arrays that list the true positions of a mask select what the mask selects."""
    out, p, ax = [], 0, 0
    if any(k is Ellipsis for k in key):
        return key
    while p < len(key):
        k = key[p]
        w = k.buf.where if isinstance(k, SymArray) and len(k.shp) == 1 and k.buf.version == 0 and \
            k.vmap == (('ax', 0, ZERO, 1),) and same_dim(k.shp[0], k.buf.shape[0]) else None
        if w and w[1] == 0:
            info = w[0]
            nd = len(info.shape)
            ks = key[p:p + nd]
            if len(ks) == nd and all(isinstance(x, SymArray) and x.buf.where == (info, q) and x.buf.version == 0 and
                                     len(x.shp) == 1 and x.vmap == (('ax', 0, ZERO, 1),) and
                                     same_dim(x.shp[0], x.buf.shape[0])
                                     for q, x in enumerate(ks)) and len(a.shp) >= ax + nd and all(
                    same_dim(d1, d2) for d1, d2 in zip(a.shp[ax:ax + nd], info.shape)):
                out.append(new(info.shape, info.elem, _np.bool_))
                p += nd
                ax += nd
                continue
        out.append(k)
        p += 1
        ax += 0 if k is None else len(k.shp) if isinstance(k, SymArray) and k.dtype.kind == 'b' and k.shp else 1
    return out


def np_stack(arrays, axis=0, out=None, **kw):
    only(kw, ())
    s = as_symseq(arrays)
    if s is not None:
        r = stack_seq(s)
        if axis not in (0, -1 - (r.ndim - 1)):
            r = np_moveaxis(r, 0, axis)
        return r
    if isinstance(arrays, SymArray):
        arrays = list(arrays)
    arrs = [asarr(a) for a in arrays]
    return stack_list(arrs, axis)


def stack_seq(s):
    gi = C.canon_index(s.dim, '#q%d' % next(_seqid))
    a = asarr(s.at(gi))
    cache = {}

    def elem(idx):
        i = idx[0]
        k = (i.id, ctx().lits)
        b = cache.get(k)
        if b is None:
            b = asarr(s.at(i))
            if len(b.shp) != len(a.shp) or not all(same_dim(x, y) for x, y in zip(a.shp, b.shp)):
                raise Unsupported('ragged sequence')
            cache[k] = b = b.reader()
        return b(idx[1:])
    if any(C.varname(gi) in d.fv for d in a.shp):
        # extents that depend on the position: NumPy raises unless they agree
        raise ValueError('all input arrays must have the same shape')
    dt = a.dtype
    return new((s.dim,) + a.shp, elem, dt)


_seqid = itertools.count()


def np_concatenate(arrays, axis=0, out=None, dtype=None, **kw):
    only(kw, ())
    s = as_symseq(arrays)
    if s is not None:
        raise Unsupported('concatenate of a symbolic list')
    arrs = [asarr(a) for a in arrays]
    if not arrs:
        raise ValueError('need at least one array to concatenate')
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    n = arrs[0].ndim
    if n == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis = axis % n
    for a in arrs[1:]:
        if a.ndim != n or not all(k == axis or same_dim(a.shp[k], arrs[0].shp[k]) for k in range(n)):
            raise ValueError('all the input array dimensions except for the concatenation axis must match')
    dt = result_type(*arrs) if dtype is None else _dt(dtype)
    fs = [cast_elem(a.reader(), a.dtype, dt) for a in arrs]
    offs = [ZERO]
    for a in arrs:
        offs.append(offs[-1] + a.shp[axis])

    def elem(idx):
        i = idx[axis]

        def at(m):
            return fs[m](idx[:axis] + (i - offs[m],) + idx[axis + 1:])

        def go(m):
            if m == len(arrs) - 1:
                return at(m)
            l = gt(offs[m + 1] - i)
            if is_one(arrs[m].shp[axis]):
                l = eq(i - offs[m])   # i >= offs[m] here
            return split(l, lambda: at(m), lambda: with_lits([neg(l)], lambda: go(m + 1)))
        return go(0)
    shp = arrs[0].shp[:axis] + (offs[-1],) + arrs[0].shp[axis + 1:]
    return new(shp, elem, dt)


def np_vstack(arrays, **kw):
    only(kw, ())
    s = as_symseq(arrays)
    if s is not None:
        r = stack_seq(s)
        if r.ndim == 2:
            return r
        raise Unsupported('vstack of a symbolic list')
    return np_concatenate([np_atleast_2d(a) for a in arrays], 0)


def np_hstack(arrays, **kw):
    only(kw, ())
    arrs = [np_atleast_1d(a) for a in arrays]
    return np_concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def np_column_stack(arrays):
    arrs = [asarr(a) for a in arrays]
    arrs = [a[:, None] if a.ndim == 1 else a for a in arrs]
    return np_concatenate(arrs, 1)


class _RC:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if self.axis == 1:
            return np_column_stack(k)
        return np_concatenate([np_atleast_1d(x) for x in k], 0)


def np_moveaxis(a, src, dst):
    a = asarr(a)
    n = a.ndim
    src = [x % n for x in (src if isinstance(src, (tuple, list)) else [src])]
    dst = [x % n for x in (dst if isinstance(dst, (tuple, list)) else [dst])]
    order = [k for k in range(n) if k not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(*order)


def np_transpose(a, axes=None):
    a = asarr(a)
    return a.transpose() if axes is None else a.transpose(*axes)


def np_arange(*args, dtype=None, **kw):
    only(kw, ())
    args = [asarr(a) for a in args]
    start, stop, step = scalar(ZERO, weak=int), None, scalar(ONE, weak=int)
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args
    dt = result_type(*args) if dtype is None else _dt(dtype)
    if all(a.weak for a in args) and dtype is None:
        dt = _np.dtype(_np.float64) if any(a.weak is float for a in args) else _np.dtype(_np.int64)
    if dt.kind in 'iu' and any(x.dtype.kind == 'f' for x in args):
        raise Unsupported('arange of floats as integers')
    a, b, h = (one_leaf(x.scalar_pv()) for x in (start, stop, step))
    n = t_ceil((b - a) * h.inv())
    c = n.const()
    if c is not None and c < 0:
        n = ZERO
    elif c is None and not tm.nonneg(n):
        if decide(gt(-n)):
            n = ZERO
    return new((n,), lambda idx: pv(a + idx[0] * h), dt)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep:
        raise Unsupported('linspace(retstep)')
    if dtype is not None:
        r = np_linspace(start, stop, num, endpoint)
        return (_UF['floor'](r) if _dt(dtype).kind in 'iu' else r).astype(dtype)
    s, e = asarr(start), asarr(stop)
    a, b = one_leaf(s.scalar_pv()), one_leaf(e.scalar_pv())
    n = _as_index(num)
    if n is None:
        raise TypeError('linspace num')
    div = n - 1 if endpoint else n
    c = div.const()
    if c is not None and c == 0:
        return new((n,), lambda idx: pv(a), _np.float64)
    if not tm.pos(div):
        if not decide(gt(div)):
            if decide(eq(n)):
                raise Unsupported('empty linspace')
            return new((n,), lambda idx: pv(a), _np.float64)
    return new((n,), lambda idx: pv(a + idx[0] * (b - a) * div.inv()), _np.float64)


def np_clip(a, lo=None, hi=None, out=None, **kw):
    only(kw, ('a_min', 'a_max', 'min', 'max'))
    r = asarr(a)
    if lo is None:
        lo = kw.get('a_min', kw.get('min'))
    if hi is None:
        hi = kw.get('a_max', kw.get('max'))
    if lo is not None:
        r = _UF['maximum'](r, lo)
    if hi is not None:
        r = _UF['minimum'](r, hi)
    if out is not None:
        assign(out, r)
        return out
    return r


def np_repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim > 1:
            raise Unsupported('repeat of an n-d array')
        a = np_atleast_1d(a)
        axis = 0
    axis %= a.ndim
    k = _as_index(n)
    if k is None:
        raise Unsupported('repeat counts')
    f = a.reader()
    if is_one(a.shp[axis]):
        return new(a.shp[:axis] + (k,) + a.shp[axis + 1:],
                   lambda idx: f(idx[:axis] + (ZERO,) + idx[axis + 1:]), a.dtype)
    raise Unsupported('repeat')


def np_tile(a, reps):
    a = asarr(a)
    reps = list(_shape(reps))
    while len(reps) < a.ndim:
        reps.insert(0, ONE)
    while a.ndim < len(reps):
        a = a[None]
    f = a.reader()
    shp = []
    for d, r in zip(a.shp, reps):
        if is_one(d):
            shp.append(r)
        elif is_one(r):
            shp.append(d)
        else:
            raise Unsupported('tile')
    old = a.shp
    return new(shp, lambda idx: f(bidx(idx, old)), a.dtype)


def np_einsum(spec, *ops, **kw):
    only(kw, ('optimize',))
    if not isinstance(spec, str) or '.' in spec:
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    ops = [asarr(o) for o in ops]
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs = spec
        cnt = {}
        for ch in lhs.replace(',', ''):
            cnt[ch] = cnt.get(ch, 0) + 1
        rhs = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = lhs.split(',')
    if len(ins) != len(ops) or any(len(s) != o.ndim for s, o in zip(ins, ops)):
        raise ValueError('einstein sum subscripts')
    dims = {}
    for s, o in zip(ins, ops):
        for ch, d in zip(s, o.shp):
            if ch in dims and not is_one(d):
                if not is_one(dims[ch]) and not same_dim(dims[ch], d):
                    raise ValueError('operands could not be broadcast together')
                if is_one(dims[ch]):
                    dims[ch] = d
            else:
                dims.setdefault(ch, d)
    summed = [ch for ch in dims if ch not in rhs]
    letters = list(rhs) + summed
    prod = None
    for s, o in zip(ins, ops):
        if len(set(s)) != len(s):
            raise Unsupported('einsum diagonal')
        perm = [s.index(ch) for ch in letters if ch in s]
        t = o.transpose(*perm) if o.ndim > 1 else o
        t = t[tuple(slice(None) if ch in s else None for ch in letters)] if letters else t
        prod = t if prod is None else prod * t
    if len(ops) == 1:
        prod = prod.copy()
    if not summed:
        return prod
    return np_sum(prod, axis=tuple(range(len(rhs), len(letters))))


def np_dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return np_einsum('i,i->', a, b)
    if a.ndim == 2 and b.ndim == 1:
        return np_einsum('ij,j->i', a, b)
    if a.ndim == 1 and b.ndim == 2:
        return np_einsum('i,ij->j', a, b)
    if a.ndim == 2 and b.ndim == 2:
        return np_einsum('ij,jk->ik', a, b)
    raise Unsupported('dot')


def np_matmul(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: scalar operands')
    return np_dot(a, b)


def np_tensordot(a, b, axes=2):
    if axes == 1 or axes == ([-1], [0]):
        return np_dot(a, b)
    raise Unsupported('tensordot')


OPAQUE_CLOSE = [False]     # the default floating-point tolerance as one uninterpreted relation


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = asarr(a), asarr(b)
    shp = broadcast_shapes([a.shp, b.shp])
    fa, fb, sa, sb = a.reader(), b.reader(), a.shp, b.shp
    rt, at = Fraction(float(rtol)), Fraction(float(atol))

    def leaf(x, y):
        x, y = C.num(x), C.num(y)
        if isR(x) and isR(y):
            if x is y:
                return True
            if OPAQUE_CLOSE[0] and (float(rtol), float(atol)) == (1e-05, 1e-08):
                return C.bsplit(C.bsym('close', x, y))
            tol = C.add(pv(lift(at)), lift_op(C.l_mul, pv(lift(rt)), pv(C.l_abs(y))))
            return lift_op(lambda p, q: C.l_cmp('<=', p, q), pv(C.l_abs(x - y)), tol)
        if isR(x) or isR(y):
            return False
        if x is NAN or y is NAN:
            return bool(equal_nan) and x is y
        return x is y
    r = new(shp, lambda idx: lift_op(leaf, fa(bidx(idx, sa)), fb(bidx(idx, sb))), _np.bool_)
    return r if shp else scalar_of(r.elem(()), _np.bool_)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = np_all(np_isclose(a, b, rtol, atol, equal_nan))
    return SymBool(r.scalar_pv())


def np_array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shp, b.shp):
        if not same_dim(x, y):
            return False
    return SymBool(np_all(_UF['equal'](a, b)).scalar_pv())


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarr(x)
    f = x.reader()

    def leaf(v):
        v = C.num(v)
        if v is NAN:
            return lift(exact_of(nan))
        if v is INF:
            return lift(exact_of(posinf if posinf is not None else float(_np.finfo(x.dtype).max)))
        if v is NINF:
            return lift(exact_of(neginf if neginf is not None else float(_np.finfo(x.dtype).min)))
        return v
    g = memo(lambda idx: lift_op(leaf, f(idx)))
    if not copy:
        x.write(g)
        return x
    return new(x.shp, g, x.dtype)


def np_det(a):
    a = asarr(a)
    if a.ndim < 2:
        raise _np.linalg.LinAlgError('at least two-dimensional array required')
    f = a.reader()
    n = a.shp[-1].const()
    if n is None or a.shp[-2].const() != n:
        raise Unsupported('det of unknown size')
    n = int(n)

    def elem(idx):
        import itertools as it
        acc = pv(ZERO)
        for perm in it.permutations(range(n)):
            inv_ = sum(1 for i in range(n) for j in range(i) if perm[j] > perm[i])
            t = pv(lift(-1 if inv_ % 2 else 1))
            for i in range(n):
                t = C.mul(t, f(tuple(idx) + (lift(i), lift(perm[i]))))
            acc = C.add(acc, t)
        return acc
    if a.shp[:-2]:
        return new(a.shp[:-2], elem, _np.float64)
    return scalar_of(elem(()), _np.float64)


def np_slogdet(a):
    d = np_det(a)
    return (_UF['sign'](d), _UF['log'](_UF['absolute'](d)))


def np_trace(a, *args, **kw):
    raise Unsupported('trace')


# ---------------------------------------------------------------- symbolic sequences

class SymSeq:
    """A Python sequence of symbolic length: dim and item(i)."""

    def __init__(self, dim, at, kind='list'):
        self.dim = lift(dim)
        self._at = at
        self.kind = kind
        self._cache = {}

    def at(self, i):
        i = lift(i)
        k = (i.id, ctx().lits)
        if k not in self._cache:
            self._cache[k] = self._at(i)
        return self._cache[k]

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, n, step = norm_slice(k, self.dim)
            return SymSeq(n, lambda i: self.at(st + i * step), self.kind)
        i = _as_index(k)
        if i is None:
            raise TypeError('list indices must be integers or slices')
        return self.at(norm_index(i, self.dim))

    def __len__(self):
        raise Unsupported('len() of a symbolic sequence through the C protocol')

    def __iter__(self):
        c = self.dim.const()
        if c is None:
            raise Unsupported('iteration over a symbolic sequence')
        return iter([self.at(lift(i)) for i in range(int(c))])

    def __bool__(self):
        return decide_pv(pv(self.dim))

    def __add__(self, o):
        if isinstance(o, (list, tuple)) and not o:
            return self
        s = as_symseq(o)
        if s is None and not isinstance(o, SymSeq):
            o = list(o)
            s = SymSeq(len(o), lambda i: _pick(o, i))
        return concat_seq(self, s)

    def __radd__(self, o):
        if isinstance(o, (list, tuple)) and not o:
            return self
        o = list(o)
        return concat_seq(SymSeq(len(o), lambda i: _pick(o, i)), self)

    def __mul__(self, n):
        raise Unsupported('repetition of a symbolic list')

    def __repr__(self):
        return 'SymSeq(%r)' % (self.dim,)

    def __eq__(self, o):
        raise Unsupported('comparison of symbolic lists')
    __hash__ = None

    def copy(self):
        return self

    def index(self, *a):
        raise Unsupported('index')

    def count(self, *a):
        raise Unsupported('count')


def _pick(lst, i):
    c = i.const()
    if c is not None:
        return lst[int(c)]
    for m, x in enumerate(lst[:-1]):
        if decide(eq(i - m)):
            return x
    return lst[-1]


def concat_seq(a, b):
    n = a.dim

    def at(i):
        l = gt(n - i)
        if l is True:
            return a.at(i)
        if l is False:
            return b.at(i - n)
        if decide(l):
            return a.at(i)
        return b.at(i - n)
    return SymSeq(a.dim + b.dim, at)


def seq_repeat(o, n):
    o = list(o)
    if len(o) == 1:
        return SymSeq(n.r, lambda i: o[0])
    raise Unsupported('repetition by a symbolic count')


def as_symseq(x):
    """SymSeq if x is a sequence of symbolic length, else None."""
    if isinstance(x, SymSeq):
        return x
    f = getattr(x, 'vc_seq', None)
    if f is not None:
        return f()
    return None


class VList(list):
    """A list created by the code under verification.  After a summarised loop its contents
    may be symbolic: concrete head (the list itself) followed by `tail`."""
    tail = None

    def vc_seq(self):
        if self.tail is None:
            return None
        if not list.__len__(self):
            return self.tail
        head = list(self)
        return concat_seq(SymSeq(len(head), lambda i: _pick(head, i)), self.tail)

    def _sym(self):
        return self.tail is not None

    def __iter__(self):
        if self.tail is not None:
            raise Unsupported('iteration over a symbolic list')
        return list.__iter__(self)

    def __len__(self):
        if self.tail is not None:
            raise Unsupported('len() of a symbolic list')
        return list.__len__(self)

    def __getitem__(self, k):
        if self.tail is not None:
            return self.vc_seq()[k]
        if isinstance(k, SymInt) or (isinstance(k, SymArray)):
            return _pick_sym(self, k)
        r = list.__getitem__(self, k)
        return VList(r) if isinstance(k, slice) else r

    def __bool__(self):
        if self.tail is not None:
            return True if list.__len__(self) else bool(self.tail)
        return list.__len__(self) > 0

    def append(self, x):
        if self.tail is not None:
            self.tail = concat_seq(self.tail, SymSeq(1, lambda i: x))
            return
        list.append(self, x)

    def extend(self, it):
        s = as_symseq(it)
        if s is None and self.tail is None:
            list.extend(self, it)
            return
        if s is None:
            items = list(it)
            if not items:
                return
            s = SymSeq(len(items), lambda i: _pick(items, i))
        self.tail = s if self.tail is None else concat_seq(self.tail, s)

    def __iadd__(self, it):
        if isinstance(it, SymSeq) or as_symseq(it) is not None:
            self.extend(it)
            return self
        try:
            iter(it)
        except TypeError:
            raise
        self.extend(it)
        return self

    def __add__(self, o):
        r = VList(self) if self.tail is None else VList(list.__iter__(self))
        r.tail = self.tail
        if not isinstance(o, (list, SymSeq)):
            raise TypeError('can only concatenate list (not "%s") to list' % type(o).__name__)
        r.extend(o)
        return r

    def __mul__(self, n):
        if isinstance(n, SymInt):
            return seq_repeat(self, n)
        return VList(list.__mul__(self, n))
    __rmul__ = __mul__

    def copy(self):
        r = VList(list.__iter__(self))
        r.tail = self.tail
        return r

    def __eq__(self, o):
        if self.tail is not None:
            raise Unsupported('comparison of symbolic lists')
        return list.__eq__(self, o)
    __hash__ = None

    def insert(self, i, x):
        if self.tail is not None:
            raise Unsupported('insert into a symbolic list')
        list.insert(self, i, x)

    def pop(self, *a):
        if self.tail is not None:
            raise Unsupported('pop from a symbolic list')
        return list.pop(self, *a)

    def sort(self, **k):
        if self.tail is not None:
            raise Unsupported('sort of a symbolic list')
        list.sort(self, **k)

    def reverse(self):
        if self.tail is not None:
            raise Unsupported('reverse of a symbolic list')
        list.reverse(self)

    def clear(self):
        self.tail = None
        list.clear(self)

    def remove(self, x):
        if self.tail is not None:
            raise Unsupported('remove from a symbolic list')
        list.remove(self, x)

    def __contains__(self, x):
        if self.tail is not None:
            raise Unsupported('membership in a symbolic list')
        return list.__contains__(self, x)


def _pick_sym(lst, k):
    i = _as_index(k)
    if i is None:
        raise TypeError('list indices must be integers or slices')
    i = norm_index(i, lift(list.__len__(lst)))
    return _pick(list(list.__iter__(lst)), i)
