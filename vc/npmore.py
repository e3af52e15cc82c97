"""Further NumPy functions, written in terms of the operations of symnp."""
import numpy as _np

from . import core as C
from . import symnp as S
from . import terms as tm
from .core import pv, eq
from .symnp import SymArray, SymInt, SymSeq, Unsupported, asarr, mkint, scalar_of, as_symseq, only
from .terms import ZERO, ONE, lift


def ptp(a, axis=None, out=None, keepdims=False):
    return S._UF['subtract'](S.np_max(a, axis=axis, keepdims=keepdims), S.np_min(a, axis=axis, keepdims=keepdims),
                             out=out)


def take(a, indices, axis=None, out=None, mode='raise'):
    if out is not None or mode != 'raise':
        raise Unsupported('numpy.take options')
    a = asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    k = S._axes(axis, a.ndim)[0]
    if not isinstance(indices, (int, SymInt, SymArray)):
        indices = asarr(indices)
    return a[(slice(None),) * k + (indices,)]


def append(arr, values, axis=None):
    arr, values = asarr(arr), asarr(values)
    if axis is None:
        return S.np_concatenate((arr.ravel(), values.ravel()))
    return S.np_concatenate((arr, values), axis=axis)


def insert(arr, obj, values, axis=None):
    arr = asarr(arr)
    if isinstance(obj, bool) or not isinstance(obj, int):
        raise Unsupported('numpy.insert at several places')
    if axis is None:
        arr, axis = arr.ravel(), 0
    k = S._axes(axis, arr.ndim)[0]
    v = asarr(values)
    while v.ndim < arr.ndim:
        v = v[None]
    v = S.np_moveaxis(v, 0, k)
    if obj < 0 or obj and S.C.ctx().sign(arr.shp[k] - obj) not in ('0', '0+', '+'):
        raise Unsupported('numpy.insert position')
    pre = (slice(None),) * k
    shp = arr.shp[:k] + (v.shp[k],) + arr.shp[k + 1:]
    v = S.np_broadcast_to(v, tuple(mkint(s) for s in shp)).astype(arr.dtype)
    return S.np_concatenate((arr[pre + (slice(None, obj),)], v, arr[pre + (slice(obj, None),)]), axis=k)


def flip(a, axis=None):
    a = asarr(a)
    axes = S._axes(axis, a.ndim)
    return a[tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim))]


def select(condlist, choicelist, default=0):
    if len(condlist) != len(choicelist):
        raise ValueError('list of cases must be same length as list of conditions')
    if not len(condlist):
        raise ValueError('select with an empty condition list is not possible')
    conds = [asarr(c) for c in condlist]
    if any(c.dtype.kind != 'b' for c in conds):
        raise TypeError('invalid entry in condlist: should be boolean ndarray')
    choices = [asarr(c) for c in choicelist]
    d = asarr(default)
    dt = S.result_type(*choices, d)
    shp = S.broadcast_shapes([c.shp for c in conds] + [c.shp for c in choices])
    shape = tuple(mkint(s) for s in shp)
    r = S.np_full(shape, d, dtype=dt)
    for c, x in reversed(list(zip(conds, choices))):
        r = S.np_where(c, x.astype(dt), r)
    return r


def piecewise(x, condlist, funclist, *args, **kw):
    x = asarr(x)
    conds = [asarr(c) for c in condlist]
    n, n2 = len(conds), len(funclist)
    if n == n2 - 1:
        other = conds[0]
        for c in conds[1:]:
            other = S._UF['logical_or'](other, c)
        conds.append(S._UF['logical_not'](other))
    elif n != n2:
        raise ValueError('with %d condition(s), either %d or %d functions are expected' % (n, n, n + 1))
    y = S.np_zeros_like(x)
    for c, f in zip(conds, funclist):
        if callable(f) and not isinstance(f, SymArray):
            y[c] = f(x[c], *args, **kw)
        else:
            y[c] = f
    return y


class vectorize:
    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if excluded is not None or signature is not None or pyfunc is None:
            raise Unsupported('numpy.vectorize options')
        self.pyfunc = pyfunc
        self.otypes = otypes

    def __call__(self, *args, **kw):
        if kw or not args:
            raise Unsupported('numpy.vectorize call')
        arrs = [asarr(a) for a in args]
        shp = S.broadcast_shapes([a.shp for a in arrs])
        fs = [a.reader() for a in arrs]

        def at(idx):
            return S.generic_eval(lambda: self.pyfunc(*[
                scalar_of(f(S.bidx(idx, a.shp)), a.dtype) for a, f in zip(arrs, fs)]))
        if self.otypes is not None:
            if isinstance(self.otypes, str) or len(self.otypes) != 1:
                raise Unsupported('numpy.vectorize otypes')
            dt = S._dt(self.otypes[0])
        else:
            dt = asarr(at((ZERO,) * len(shp))).dtype
        at(tuple(C.canon_index(d, '#vz%d_%d' % (next(S._seqid), k)) for k, d in enumerate(shp)))

        def elem(idx):
            r = asarr(at(idx))
            if r.shp:
                raise ValueError('setting an array element with a sequence')
            return S.cast_elem(r.reader(), r.dtype, dt)(())
        r = S.new(shp, S.memo(elem), dt)
        return r if shp else scalar_of(r.elem(()), dt)


def apply_along_axis(func1d, axis, arr, *args, **kw):
    a = asarr(arr)
    k = S._axes(axis, a.ndim)[0]
    if a.ndim == 1:
        return asarr(func1d(a, *args, **kw))
    if a.ndim != 2:
        raise Unsupported('apply_along_axis beyond two dimensions')
    o = 1 - k

    def at(i):
        line = a[(slice(None), mkint(i))] if k == 0 else a[(mkint(i), slice(None))]
        return S.generic_eval(lambda: asarr(func1d(line, *args, **kw)))
    first = at(ZERO)
    r = S.stack_seq(SymSeq(a.shp[o], at))
    if r.dtype != first.dtype:
        r = r.astype(first.dtype)
    if r.ndim == 1:
        return r
    if r.ndim != 2:
        raise Unsupported('apply_along_axis of a matrix function')
    return r.T if k == 0 else r


def sort(a, axis=-1, kind=None, order=None, stable=None):
    """Ascending order; only the two ends are available."""
    if order is not None:
        raise Unsupported('numpy.sort order')
    a = asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    k = S._axes(axis, a.ndim)[0]
    lo, hi = S.np_min(a, axis=k), S.np_max(a, axis=k)
    fl, fh = asarr(lo).reader(), asarr(hi).reader()
    n = a.shp[k]

    def elem(idx):
        rest = idx[:k] + idx[k + 1:]
        if idx[k] is ZERO or idx[k].const() == 0:
            return fl(rest)
        if (idx[k] - n + 1).const() == 0:
            return fh(rest)
        raise Unsupported('order statistics')
    return S.new(a.shp, elem, a.dtype)


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    only(kw, ())
    if out is not None or dtype is not None:
        raise Unsupported('numpy.var options')
    a = asarr(a)
    d = a - S.np_mean(a, axis=axis, keepdims=True)
    n = ONE
    for k in S._axes(axis, a.ndim):
        n = n * a.shp[k]
    s = S.np_sum(d * d, axis=axis, keepdims=keepdims)
    if isinstance(ddof, int) and not isinstance(ddof, bool):
        return s / S.scalar(n - ddof, weak=float)
    raise Unsupported('numpy.var options')


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return S._UF['sqrt'](var(a, axis, dtype, out, ddof, keepdims, **kw))


def _nanless(kind, ident):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        only(kw, ())
        a = asarr(a)
        if a.dtype.kind == 'f':
            a = S.np_where(S._UF['isnan'](a), a.dtype.type(ident) if a.dtype != _np.longdouble else float(ident), a)
        return S.reduction(kind, a, axis, dtype, out, keepdims)
    return f


nansum, nanprod = _nanless('sum', 0), _nanless('prod', 1)


def _nanpick(kind):
    """Without NaN elements the ordinary extreme; with NaN elements outside the model."""
    def f(a, axis=None, out=None, keepdims=False, **kw):
        only(kw, ())
        a = asarr(a)
        idx = tuple(C.canon_index(d, '#nn%d' % k) for k, d in enumerate(a.shp))
        if any(l is C.NAN or l is C.UNDEF for _, l in a.elem(idx).cases):
            raise Unsupported('nanmin of an array with NaN elements')
        return S.reduction(kind, a, axis, None, out, keepdims)
    return f


nanmin, nanmax = _nanpick('min'), _nanpick('max')


def diff(a, n=1, axis=-1, **kw):
    only(kw, ())
    a = asarr(a)
    if n == 0:
        return a
    if n != 1:
        return diff(diff(a, 1, axis), n - 1, axis)
    k = S._axes(axis, a.ndim)[0]
    pre = (slice(None),) * k
    op = 'not_equal' if a.dtype.kind == 'b' else 'subtract'
    return S._UF[op](a[pre + (slice(1, None),)], a[pre + (slice(None, -1),)])


def _cumulative(kind):
    def f(a, axis=None, dtype=None, out=None):
        if out is not None:
            raise Unsupported('out of a cumulative sum')
        a = asarr(a)
        if axis is None:
            a, axis = a.ravel(), 0
        k = S._axes(axis, a.ndim)[0]
        if a.dtype.kind in 'iub' and a.dtype.itemsize < 8:
            a = a.astype(_np.uint64 if a.dtype.kind == 'u' else _np.int64)
        if dtype is not None:
            a = a.astype(dtype)
        g = a.reader()

        def elem(idx):
            full = list(idx)
            return S._reduce(kind, g, a.shp[:k] + (idx[k] + 1,) + a.shp[k + 1:], full, [k])
        return S.new(a.shp, S.rounded(elem, a.dtype), a.dtype)
    return f


cumsum, cumprod = _cumulative('sum'), _cumulative('prod')


def eye(N, M=None, k=0, dtype=float, order='C', **kw):
    only(kw, ())
    n = S._as_index(N)
    m = n if M is None else S._as_index(M)
    if n is None or m is None:
        raise TypeError('expected an integer')
    if not isinstance(k, int):
        raise Unsupported('numpy.eye diagonal')
    f = lambda idx: S.split(eq(idx[1] - idx[0] - k), lambda: pv(ONE), lambda: pv(ZERO))
    dt = S._dt(dtype)
    if dt.kind == 'b':
        raise Unsupported('boolean identity')
    return S.new((n, m), f, dt)


def identity(n, dtype=None, **kw):
    return eye(n, dtype=float if dtype is None else dtype, **kw)


def meshgrid(*xi, copy=True, sparse=False, indexing='xy'):
    arrs = [asarr(x).ravel() for x in xi]
    n = len(arrs)
    pos = list(range(n))
    if indexing == 'xy' and n > 1:
        pos[0], pos[1] = 1, 0
    elif indexing not in ('xy', 'ij'):
        raise ValueError("Valid values for `indexing` are 'xy' and 'ij'.")
    out = []
    for a, p in zip(arrs, pos):
        out.append(a[tuple(slice(None) if k == p else None for k in range(n))])
    if not sparse:
        out = [b.copy() for b in S.np_broadcast_arrays(*out)]
    return tuple(out)


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if ord not in (None, 2) or ord == 2 and axis is None and x.ndim != 1 or isinstance(axis, tuple):
        raise Unsupported('numpy.linalg.norm')
    if x.dtype.kind in 'iub':
        x = x.astype(float)
    return S._UF['sqrt'](S.np_sum(x * x, axis=axis, keepdims=keepdims))


def fromiter(it, dtype, count=-1, **kw):
    only(kw, ())
    s = as_symseq(it)
    if count != -1 and (s is None or not (S.lift(getattr(count, 'r', count)) is s.dim)):
        raise Unsupported('count of numpy.fromiter')
    if s is None:
        it = list(it)
    a = S.np_array(it, dtype=dtype) if s is not None or it else S.np_zeros(0, dtype=dtype)
    if a.ndim != 1:
        raise ValueError('setting an array element with a sequence.')
    return a


def _rows(seq):
    """An iterable of arrays given to a stacking function: SymSeq if its length is symbolic."""
    s = as_symseq(seq)
    if s is not None:
        return s
    if isinstance(seq, SymArray) and seq.shp and seq.shp[0].const() is None:
        return SymSeq(seq.shp[0], lambda i: seq[mkint(i)])
    return None


def column_stack(tup):
    s = _rows(tup)
    if s is None:
        return S.np_column_stack(list(tup))
    a = S.stack_seq(s)
    if a.ndim == 2:
        return a.T
    if a.ndim == 1:
        return a[None, :]        # scalars are taken as columns of one element
    if a.ndim == 3 and S.is_one(a.shp[2]):
        return a[:, :, 0].T
    raise Unsupported('column_stack of matrices of a symbolic list')


def concatenate(arrays, axis=0, out=None, dtype=None, **kw):
    s = _rows(arrays)
    if s is None:
        return S.np_concatenate(list(arrays) if not isinstance(arrays, (list, tuple)) else arrays, axis, out, dtype, **kw)
    if out is not None or dtype is not None or kw or axis is None:
        raise Unsupported('concatenate of a symbolic list')
    a = S.stack_seq(s)
    if a.ndim < 2:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    k = S._axes(axis, a.ndim - 1)[0]
    if not S.is_one(a.shp[k + 1]):
        raise Unsupported('concatenate of a symbolic list')
    a = a[(slice(None),) * (k + 1) + (0,)]
    return S.np_moveaxis(a, 0, k)


def heaviside(x, h):
    x, h = asarr(x), asarr(h)
    dt = S.result_type(x, h, S.scalar(ZERO, weak=float))
    pos, zero, nan = S._UF['greater'](x, 0), S._UF['equal'](x, 0), S._UF['isnan'](x)
    r = S.np_where(pos, 1., S.np_where(zero, h, S.np_where(nan, float('nan'), 0.)))
    return r.astype(dt)


def cbrt(x, **kw):
    only(kw, ())
    x = asarr(x)
    root = S._UF['power'](S._UF['absolute'](x), 1. * S.scalar(ONE, weak=float) / 3)
    return S._UF['multiply'](S._UF['sign'](x), root)


def around(a, decimals=0, out=None):
    a = asarr(a)
    if isinstance(decimals, SymInt) or not isinstance(decimals, int):
        raise Unsupported('number of decimals')
    if a.dtype.kind in 'iub':
        if decimals < 0:
            raise Unsupported('rounding integers to tens')
        if out is not None:
            raise Unsupported('out of round')
        return a.copy()
    if decimals == 0:
        return S._UF['rint'](a, out=out)
    f = S.scalar(lift(10 ** abs(decimals)), weak=float)
    up, down = ('multiply', 'divide') if decimals > 0 else ('divide', 'multiply')
    return S._UF[down](S._UF['rint'](S._UF[up](a, f)), f, out=out)


def exp2(x, **kw):
    return S._UF['power'](S.scalar(lift(2), weak=float), x, **kw)


TABLE = dict(ptp=ptp, take=take, append=append, insert=insert, flip=flip, select=select, piecewise=piecewise,
             flipud=lambda m: flip(m, 0), fliplr=lambda m: flip(m, 1),
             vectorize=vectorize, apply_along_axis=apply_along_axis, sort=sort, var=var, std=std, nansum=nansum,
             nanprod=nanprod, nanmin=nanmin, nanmax=nanmax, diff=diff, cumsum=cumsum, cumprod=cumprod, eye=eye,
             identity=identity, meshgrid=meshgrid, fromiter=fromiter, column_stack=column_stack,
             concatenate=concatenate, concat=concatenate, heaviside=heaviside, cbrt=cbrt, exp2=exp2, round=around, around=around, round_=around)
LINALG = dict(norm=norm)
METHODS = dict(round=around, var=var, std=std, take=take, cumsum=cumsum, cumprod=cumprod)
for _n, _f in METHODS.items():
    setattr(SymArray, _n, (lambda f: lambda self, *a, **k: f(self, *a, **k))(_f))
