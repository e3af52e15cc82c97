"""Compares the contracts assumed for NumPy and for Python's own constructs (vc/symnp.py,
vc/loader.py) with the real NumPy and the real interpreter: every snippet below is executed
symbolically, once for all sizes and values, and the result is instantiated on concrete arrays
and compared (shape, dtype, values, exception) with the ordinary execution of the same text.

    python3-vt -m contracts.conformance        exits 1 and names the snippet on a difference
"""
import itertools
import os
import random
import shutil
import sys
import signal
import tempfile
import time
import warnings

import mpmath
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(HERE))

from vc import core as C, symnp as S, terms as tm, loader as L
from vc.core import PV, pv, Special
from vc.terms import R, lift, app, Unsupported, ZERO

ARGS = ('E', 'T', 'U', 'nu', 'O', 'J', 'Q', 'W')
SHAPES = {'E': ('N',), 'T': ('M',), 'U': ('M',), 'nu': ('N', 'D'), 'O': ('N', 'M'), 'J': ('N',), 'Q': ('N', 'D'), 'W': ('N', 3)}
DTYPES = {'J': 'int64', 'Q': 'longdouble'}
SIGN = {'T': '0+', 'nu': '+', 'Q': '+', 'W': '0+'}

EXPRS = """
E + 1
1 - E
E * 2.5
E / 3
-E
E ** 2
E ** 2.
nu ** 0.5
nu ** -1
abs(E)
E[:, None] * T
E[:, None] * T[None, :]
T * E[:, None] + O
E + T
O + T
O + E
O * E[:, None]
nu * O
np.multiply(E[:, None], T)
np.add(E, 1)
np.subtract(E, np.amin(E))
np.divide(1., T, where=T > 0, out=np.inf * np.ones(T.shape))
np.divide(1., 3. * T, where=T > 0, out=np.full(T.shape, np.inf))
1. / T
-1. / T
T / T
np.exp(-1. / T)
np.exp(E)
E.astype(np.float32)
E.astype(np.float16) * 2.
np.exp(E.astype(np.float32))
np.ones_like(E, dtype=np.float32) * np.pi
np.zeros(E.shape, dtype="float32") + E
np.float32(np.pi) * E
E.astype("f4").astype("f8") + 0.1
np.asarray(E, dtype=np.float32) + np.float32(0.1)
np.array([0.1, 0.2], dtype=np.float32)
np.linspace(0., 1., 7, dtype=np.float32)
np.full_like(E, 0.1, dtype=np.float16)
E.astype(np.longdouble) / 3.
np.multiply(E, 1 / 3, out=np.zeros_like(E, dtype=np.float32), casting="unsafe")
np.where(E > 0, np.float32(0.1), E)
np.where(E > 0, np.float32(0.1), E.astype(np.float32))
np.divide(E, 3., dtype=np.float32, casting="unsafe")
np.exp(-np.inf * np.ones_like(E))
np.log(nu)
np.log(T)
np.log(nu, where=nu > 1, out=-np.inf * np.ones_like(nu))
np.sqrt(nu)
np.sqrt(T)
np.square(E)
np.tanh(nu)
np.sinh(nu)
np.cosh(nu)
1. / np.tanh(nu)
np.expm1(-nu)
np.log1p(nu)
np.sign(E)
np.abs(E)
np.absolute(E)
np.negative(E)
np.reciprocal(nu)
np.maximum(E, 0.)
np.minimum(E, 1.)
np.maximum(E, T)
np.floor(E)
np.ceil(E)
np.power(nu, 2)
np.power(nu, -3.)
np.power(2., E)
np.hypot(nu, nu)
np.logaddexp(nu, nu + 1)
np.isnan(T / T)
np.isinf(1. / T)
np.isfinite(1. / T)
np.nan_to_num(1. / T, posinf=7.)
np.nan_to_num(T / T, nan=3.)
E > 0
T == 0
T != 0
E >= 1
(E > 0) & (E < 2)
(E > 0) | (E < -1)
~(E > 0)
np.logical_not(T > 0)
np.logical_and(E > 0, J > 1)
E[E > 0].sum()
(E > 0).sum()
np.count_nonzero(E > 0)
np.any(E > 0)
np.all(T >= 0)
np.all(E > 0)
(T > 0).any()
np.sum(E)
np.sum(O, axis=0)
np.sum(O, axis=1)
np.sum(O, axis=-1, keepdims=True)
O.sum(axis=0, keepdims=True)
O.sum()
np.prod(nu, axis=1)
nu.prod(axis=1)[:, None]
np.prod(W, axis=1)
np.mean(nu, axis=1)
nu.mean(axis=0)
np.mean(E)
np.exp(np.mean(np.log(nu), axis=1))
np.min(E)
np.amin(E)
E.min()
E.max()
np.max(O, axis=0)
np.amax(nu, axis=1)
np.sum(Q, axis=1)
np.prod(Q, axis=1)
np.add.reduce(O, axis=0)
np.multiply.reduce(nu, axis=1)
np.average(E, weights=nu[:, 0])
np.average(O, axis=0)
np.var(E)
np.dot(E, E)
E @ E
E @ O
np.dot(E, O)
np.outer(E, T)
np.einsum('i,j->ij', E, T)
np.einsum('ij->j', O)
np.einsum('ij,ij->j', O, O)
np.einsum('i,ij->j', E, O)
np.tensordot(E, O, axes=1)
np.ones(3)
np.ones([E.size, T.size])
np.zeros((E.size, T.size))
np.zeros_like(O)
np.ones_like(J)
np.full((E.shape[0], 2), 1.5)
np.full_like(T, -np.inf)
np.full_like(J, 2)
np.zeros_like(E[:, None]) * np.zeros_like(T[None, :])
np.empty_like(E) * 0 if False else np.zeros(E.shape)
np.where(T > 0, T, 1.)
np.where(W > 0, W, 1.)
np.where(T > 0, 1., 0)
np.where(E > 0, E, -E)
np.where(T[None, :] > 0, O, 0.)
E.reshape(-1, 1)
O.reshape(-1)
O.ravel()
O.flatten(order='F')
O.T
O.T.ravel()
np.transpose(O)
E[None, :]
E[:, np.newaxis, None]
nu[:, :, None]
nu[:, :, None] * T
E[0]
E[-1]
E[::-1]
E[1:]
O[0]
O[:, 0]
O[-1, -1]
O[:, ::-1]
O[0, :] + O[-1]
np.stack([O, 2 * O])
np.stack([O, O + 1], axis=-1)
np.sum(np.stack([O, 2 * O]), axis=0)
np.prod(np.stack([O, 2 * O, O - 1]), axis=0)
np.stack([E, J])
np.stack([E, T])
np.vstack((T, O))
np.vstack((T, O)).T
np.hstack((E, J))
np.column_stack((T, O.T))
np.concatenate((T[None, :], O), axis=0)
np.concatenate([E, T])
np.append(E, T)
np.array([E, E + 1])
np.array([1., 2., 3.]) + E[0]
np.array([1, 2])
np.array([1, 2.5])
np.asarray(E)
np.asarray(J, dtype=float)
np.atleast_2d(E)
np.expand_dims(E, 1)
np.squeeze(E[:, None], axis=1)
np.broadcast_to(E[:, None], (E.size, T.size)).copy()
np.broadcast_to(E, (2, E.size)) + 0
np.tile(E[:, None], (1, T.size))
np.tile(E, 2)
np.repeat(E[:, None], T.size, axis=1)
np.repeat(E, 2)
np.arange(4)
np.arange(4.)
np.arange(E.size)
np.arange(0., np.floor(E[0] * E[0]) + 1., 1.)
np.arange(1, E.size + 1)
np.linspace(0., 1., 5)
np.linspace(0., 1., E.size + 1)
np.clip(E, -1., 1.)
np.cumsum(np.ones(3))
E.astype(np.longdouble)
E.astype(int)
J.astype(float)
J * 1.
J + 1
J / 2
J // 2
J % 2
J ** 2
J * Q[:, 0]
Q * nu
Q.astype(float)
J * np.ones(E.shape)
E.size
E.shape
O.shape
O.ndim
O.shape[0] * O.shape[1]
E.dtype == np.float64
len(O)
O.size
np.shape(O)
np.size(O)
np.ndim(E)
np.allclose(E, E)
np.allclose(E, E + 1)
np.allclose(E, T)
np.array_equal(E, E)
np.array_equal(E, T)
np.array_equal(E, E + 1)
np.isclose(E, E * (1 + 1e-3))
np.moveaxis(O, 0, 1)
np.swapaxes(O, 0, 1)
O.swapaxes(0, 1)
np.copy(E)
E.copy()
E.tolist()[0] + 1 if False else E[0] + 1
np.float64(2.5) * E
np.longdouble(2) * E
float(2) * E
int(3) * J
max(E.shape[0], 1)
min(O.shape)
sum([E, E + 1])
sum([1, 2, 3])
[2 * i for i in range(3)]
[O[i] for i in range(2)] if O.shape[0] > 1 else 0
[x for x in (1, 2, 3) if x > 1]
(E.size, T.size)
np.sum([e for e in E])
np.array([e + 1 for e in E])
np.array([row.sum() for row in O])
np.stack([row * 2 for row in O])
np.array([O[i].sum() for i in range(len(E))])
np.array([i * e for i, e in enumerate(E)])
np.array([a * b for a, b in zip(E, J)])
sum(e for e in E)
all(t >= 0 for t in T)
any(e > 5 for e in E)
len([e for e in E])
E.reshape(2, -1) if E.size == 4 else E
E[:, None] + T.reshape(1, -1) - O
np.add(E, 1, out=np.zeros_like(E))
np.multiply(E[:, None], T, where=E[:, None] != 0, out=np.zeros((E.size, T.size)))
np.multiply(O, O, where=O > 0, out=np.zeros((O.shape[0], T.size)))
np.sinh(nu, where=nu > 1, out=2. * np.ones_like(nu))
np.multiply(J, 2.5, out=np.zeros(J.shape, dtype=int))
np.add(E, T, out=np.zeros(T.shape))
np.add(O, 1., out=np.zeros(T.shape))
np.exp(J)
np.power(J, -1)
np.power(J, 2)
np.nonsense(E)
E.nonsense
E[:, :, 0]
O[0, 0, 0]
O[5000]
np.stack([])
np.sum(O, axis=2)
np.concatenate([E, O])
np.reshape(E, (2, 2)) if E.size == 3 else 1
"""

BODIES = r"""
x = E.copy(); x[0] = 7; return x
x = E.copy(); x += 1; return x
x = O.copy(); x *= E[:, None]; return x
x = O.copy(); x /= T; return x
x = O.copy(); x[0] = T; return x
x = O.copy(); x[:, 0] = E; return x
x = O.copy(); x[x > 0] = 0; return x
x = E.copy(); x[E <= 0] = 1.; return x
x = np.full(T.shape, np.inf); m = T > 0; x[m] = 1. / T[m]; return x
x = np.zeros_like(T); x[T > 0] = T[T > 0] * 2; return x
x = np.zeros((E.size, T.size)); x[:] = E[:, None]; return x
x = np.zeros((E.size, T.size)); x[...] = T; return x
x = J.copy(); x += 1.5; return x
x = J.copy(); x = x + 1.5; return x
x = J.copy(); x[0] = 2.9; return x
x = J.copy(); x *= 2; return x
x = E; y = x[:]; z = y.copy(); z[0] = 5; return x + z
x = O.copy(); y = x[0]; y[...] = 1; return x
x = O.copy(); y = x.T; y[0] = 1; return x
x = O.copy(); y = x.reshape(-1); return y * 2
x = O.copy(); y = x[:, None]; y += 1; return x
x = np.empty_like(O)\nfor i, e in enumerate(E):\n    x[i] = e * T\nreturn x
x = np.zeros_like(O[0])\nfor row in O:\n    x = x + row\nreturn x
x = np.zeros_like(O[0])\nfor row in O:\n    x += row\nreturn x
x = np.ones_like(O[0])\nfor i in range(len(O)):\n    x *= O[i]\nreturn x
x = []\nfor e in E:\n    x.append(e * 2)\nreturn np.array(x)
x = 0.\nfor e in E:\n    x += e * e\nreturn x
x = 0\nfor e in E:\n    x = x + 1\nreturn x
n = 0\nfor i in range(len(E)):\n    if E[i] > 0:\n        n += 1\nreturn n*1.0
n = 0\nfor i in range(len(E)):\n    if i > 0:\n        n += 1\nreturn n*1.0
out = np.zeros(len(E))\nfor i, e in enumerate(E):\n    if e > 0:\n        out[i] = e\n    else:\n        out[i] = -2*e\nreturn out
out = np.ones(len(E))\nfor i, e in enumerate(E):\n    if e > 0:\n        out[i] = e\nreturn out
out = np.ones(len(E))\nfor i, e in enumerate(E):\n    if e <= 0:\n        continue\n    out[i] *= e\nreturn out
acc = 0.\nfor e in E:\n    if e > 0:\n        acc += e\n    elif e < -1:\n        acc -= 2*e\nreturn acc
acc = np.zeros(len(E))\nfor t in T:\n    if t > 0.5:\n        acc += E*t\nreturn acc
l = []\nfor e in E:\n    if e > 0:\n        v = e\n    else:\n        v = 0.\n    l.append(v)\nreturn np.array(l)
return len([e for e in E if e > 0])*1.0
return sum(e for e in E if e > 0)
return sum(1 for e in E if e > 0)*1.0
n = 0\nfor i in range(len(E)):\n    n = n + 1 if i > 1 else n\nreturn n*E
n = 5\nfor i in range(len(E)):\n    if i > 0:\n        n = 3\nreturn n*E
w = E[0]\nfor i in range(len(E)):\n    if i > 0:\n        w = E[i]\nreturn w*1.
w = E\nfor i in range(len(E)):\n    if i > 0:\n        w = w + E\nreturn w*1.
x = np.zeros((E.size, nu.shape[1]))\nfor d in range(nu.shape[1]):\n    x[:, d] = nu[:, d] * 2\nreturn x
x = np.zeros(E.size)\nfor d in range(nu.shape[1]):\n    x += nu[:, d]\nreturn x
x = {}\nfor k, v in (('a', E), ('b', J)):\n    x[k] = v + 1\nreturn x['a'] + x['b']
try:\n    return np.stack([])\nexcept ValueError:\n    return 1
try:\n    return E + O.T\nexcept ValueError:\n    return 1
def g(a, b=2):\n    return a * b\nreturn g(E) + g(E, b=3)
f = lambda a: a + 1\nreturn f(E)
if E.size > 2:\n    return E\nreturn 0
if E[0] > 0:\n    return E\nreturn -E
if T.min() == 0:\n    return T\nreturn -T
with np.errstate(all='ignore'):\n    return np.where(T > 0, 1 / T, 0.)
import functools\nreturn functools.reduce(np.add, [E, J, E])
import functools\nreturn functools.reduce(lambda a, b: a * b, [O, O + 1])
import math\nreturn math.sqrt(4.) + math.prod([2, 3])
a, b = E.size, T.size\nreturn np.ones((a, b))
x, *y = (E, J, E)\nreturn x + y[0] + y[1]
return [i for i, e in enumerate((3, 4))]
return f'{E.size > 0}'
x = np.sum(O, axis=0); x[0] = 3; return O
x = np.ascontiguousarray(O); x = x.copy(); x -= T; return x
x = E.astype(float); y = E.astype(float, copy=False); return x + y
O2 = np.atleast_2d(O); return O2 * 1
k = np.argmin(E); return E[k]
k = np.argmax(E); return E[k]
i = np.argsort(E); return E[i]
return np.sort(E)
return np.unique(J)
return E[np.array([0, 0])]
return O[np.arange(E.size), np.zeros(E.size, dtype=int)]
return np.take(E, [0])
return np.ptp(E)
return np.linalg.norm(E)
return np.isin(J, [1, 2])
return np.cumsum(E)
return np.cumprod(E)
return np.diff(E)
return np.trapezoid(T, U)
return np.interp(T, U, U)
return np.meshgrid(E, T)[0]
return np.vectorize(lambda x: x + 1)(E)
return np.apply_along_axis(np.sum, 1, O)
return np.float32(E[0])
return E.astype('float32')
return np.add.outer(E, T)
return np.multiply.outer(E, T)
return np.fromiter((e for e in E), dtype=float)
return np.median(E)
return np.rint(E)
return np.round(E, 2)
return np.round(E, 1)
return np.around(T * 0.01, 1)
return E.round(1)
return np.round(E)
return np.round(np.arange(7) * 0.5)
return round(E[0], 1)
return round(E[0])
return np.round(T, -1)
return np.select([E > 0, E < 0], [E, -E], 0.)
return np.ma.masked_where(E > 0, E).sum()
return np.errstate
return np.logspace(0, 1, 3)
return np.geomspace(1, 10, 3)
return np.nansum(E)
return np.nanmax(E)
return np.lexsort((E,))
return np.ravel(O)
return np.dstack([O, O])
return np.block([[O], [O]])
return np.divmod(J, 2)[0]
return np.fmax(E, 0.)
return np.fmin(E, J)
return np.float_power(nu, 2)
return np.cbrt(nu)
return np.exp2(E)
return np.log2(nu)
return np.log10(nu)
return np.arcsinh(E)
return np.trunc(E)
return np.heaviside(E, 0.5)
return np.inner(E, E)
return np.vdot(E, E)
return np.kron(E, T)
return np.insert(T, 0, 1.)
return np.flip(E)
return np.roll(E, 1)
return np.delete(T, 0)
return np.pad(E, 1)
return np.split(W, 3, axis=1)[0]
return np.array_split(E, 1)[0]
return np.matmul(nu.T, nu)
return nu.T @ nu
return np.trace(np.ones((2, 2)))
return np.eye(2)
return np.identity(2)
return np.diag(E)
return np.linalg.det(np.eye(3))
return min(E) * 1.
return max(E) * 1.
return min(E.tolist()) * 1.
m = E[0]\nfor e in E:\n    if e < m:\n        m = e\nreturn m * 1.
m = E[0]\nfor e in E[1:]:\n    if e < m:\n        m = e\nreturn m * 1.
m = E[0]\nfor e in E:\n    m = min(m, e)\nreturn m * 1.
m = np.inf\nfor e in E:\n    m = min(m, e)\nreturn m * 1.
m = float('inf')\nfor e in E:\n    if e < m:\n        m = e\nreturn m * 1.
m = E[0]\nfor i in range(1, len(E)):\n    if E[i] < m:\n        m = E[i]\nreturn m * 1.
m = E[0]\nfor i in range(1, E.shape[0]):\n    m = E[i] if E[i] < m else m\nreturn m * 1.
m = None\nfor e in E:\n    if m is None or e < m:\n        m = e\nreturn m * 1.
k = 0\nfor i in range(len(E)):\n    if E[i] < E[k]:\n        k = i\nreturn E[k] * 1.
i = 0\ns = 0.\nwhile i < len(E):\n    s += E[i]\n    i += 1\nreturn s
i = 0\ns = 0.\nwhile i < len(E):\n    s += E[i]\n    i = i + 1\nreturn s * i
i = 0\nout = np.zeros(E.size)\nwhile i != E.shape[0]:\n    if E[i] > 0:\n        out[i] = E[i]\n    i += 1\nreturn out
i = 0\nout = []\nwhile i < E.size:\n    out.append(E[i] * 2)\n    i += 1\nreturn np.array(out)
i = 0\nout = [1.]\nwhile i < len(out):\n    out.append(E[0])\n    if len(out) > 4:\n        out.clear()\n    i += 1\nreturn i * 1.
i = 0\nn = len(E)\nwhile i < n:\n    n = n - 1\n    i += 1\nreturn i * 1.
i = 1\ns = 0.\nwhile i < len(E):\n    s += E[i]\n    i += 1\nreturn s
i = 0\nj = 0\nout = np.zeros((len(E), len(T)))\nwhile i < len(E):\n    j = 0\n    while j < len(T):\n        out[i, j] = E[i] * T[j]\n        j += 1\n    i += 1\nreturn out
s = 0.\nfor i, e in enumerate(E):\n    s = s + e * nu[i, 0]\nreturn s
out = np.empty((len(E), len(T)))\nfor i in range(len(E)):\n    for j in range(len(T)):\n        out[i, j] = E[i] * T[j]\nreturn out
out = np.empty((len(E), len(T)))\nfor i in range(len(E)):\n    for j in range(len(T)):\n        if T[j] > 0:\n            out[i, j] = E[i] / T[j]\n        else:\n            out[i, j] = 0.\nreturn out
out = np.zeros((len(E), len(T)))\nfor j, t in enumerate(T):\n    if t > 0:\n        out[:, j] = E / t\nreturn out
out = np.zeros((len(E), len(T)))\nfor j, t in enumerate(T):\n    if t == 0:\n        continue\n    out[:, j] = E / t\nreturn out
return np.array([[e * t for t in T] for e in E])
return np.array([e * T for e in E])
return np.array([E * t for t in T]).T
return np.array([np.sum(r) for r in nu])
return np.array([np.prod(r) for r in nu])
return np.array([sum(r) for r in nu])
return np.stack([E * t for t in T], axis=1)
return np.column_stack([E * t for t in T])
return np.vstack([e * T for e in E])
r = []\nfor e in E:\n    r.append(e * T)\nreturn np.array(r)
r = []\nfor e in E:\n    r.append(e * T)\nreturn np.vstack(r)
out = np.ones(len(E))\nfor k in range(nu.shape[1]):\n    out = out * nu[:, k]\nreturn out
out = np.ones(len(E))\nfor k in range(nu.shape[1]):\n    out *= nu[:, k]\nreturn out
out = np.zeros(len(E))\nfor col in nu.T:\n    out += col\nreturn out
s = 0\nfor r in nu:\n    for x in r:\n        s += x\nreturn s * 1.
s = np.zeros((len(E), len(T)))\nfor k in range(nu.shape[1]):\n    s += nu[:, k:k+1] * T\nreturn s
from functools import reduce\nreturn reduce(np.add, [E, E * 2, E * 3])
from functools import reduce\nimport operator\nreturn reduce(operator.mul, [E, E + 1])
return np.sum(E * E) ** 0.5
return np.dot(E, E) * 1.
return E @ E * 1.
return np.outer(E, T)
return np.matmul(nu.T, E)
return nu.T @ E
return np.tensordot(nu, E, axes=(0, 0))
return np.subtract.outer(E, T)
return np.add.reduce(nu, axis=1)
return np.multiply.reduce(nu, axis=1)
return np.minimum.reduce(E)
return np.nanmin(E)
return np.exp(np.log(nu).sum(axis=1))
return np.exp(np.log(nu).mean(axis=1))
return np.exp(np.sum(np.log(nu), axis=1) / nu.shape[1])
return np.power(np.prod(nu, axis=1), 1. / nu.shape[1])
return np.prod(nu ** (1. / nu.shape[1]), axis=1)
return np.exp(np.average(np.log(nu), axis=1))
p = nu / nu.sum(axis=0)\nreturn np.average(nu, axis=0, weights=p)
p = nu / nu.sum(axis=0, keepdims=True)\nreturn (p * nu).sum(axis=0) - (p * nu).sum(axis=0)
t = np.where(T > 0, T, 1.)\nreturn np.where(T > 0, 1. / t, np.inf)
b = np.full(T.shape, np.inf)\nb[T > 0] = 1. / T[T > 0]\nreturn b
b = np.full_like(T, np.inf)\nm = T > 0\nb[m] = 1. / T[m]\nreturn b
b = np.empty_like(T)\nm = T > 0\nb[m] = 1. / T[m]\nb[~m] = np.inf\nreturn b
b = np.zeros_like(T)\nnp.divide(1., T, out=b, where=T != 0)\nb[T == 0] = np.inf\nreturn b
b = np.full(T.shape, np.inf)\nidx = np.nonzero(T)[0]\nb[idx] = 1. / T[idx]\nreturn b
b = np.full(T.shape, np.inf)\nidx = np.flatnonzero(T > 0)\nb[idx] = 1. / T[idx]\nreturn b
with np.errstate(divide='ignore'):\n    b = 1. / T\nreturn b
b = np.array([1. / t if t > 0 else np.inf for t in T])\nreturn b
x = np.multiply(E[:, None], T, where=(E != 0)[:, None], out=np.zeros((E.size, T.size)))\nreturn x
x = E[:, None] * T[None, :]\nx[E == 0] = 0.\nreturn x
x = E[:, None] * T[None, :]\nx[E == 0, :] = 0.\nreturn x
x = np.where(E[:, None] == 0, 0., E[:, None] * T)\nreturn x
x = np.einsum('i,j->ij', E, T)\nreturn x
x = np.broadcast_to(E[:, None], (E.size, T.size)).copy()\nx *= T\nreturn x
x = np.tile(E[:, None], (1, T.size))\nreturn x * T
x = np.repeat(E[:, None], T.size, axis=1)\nreturn x * T
x = np.repeat(E[:, np.newaxis], len(T), axis=1)\nreturn x
x = np.expand_dims(E, 1)\nreturn x * T
x = E.reshape(-1, 1) * T.reshape(1, -1)\nreturn x
x = np.atleast_2d(E).T * T\nreturn x
x = E[..., None] * T\nreturn x
return np.select([T > 0, T == 0], [1., 2.], 3.)
return np.piecewise(T, [T > 0], [1., 2.])
return np.heaviside(E, 0.)
return np.cumsum(E)[-1]
return np.cumprod(nu, axis=1)[:, -1]
return np.take(nu, 0, axis=1)
return nu.take([0], axis=1)
return np.append(E, 1.)
return E[::-1]
return np.var(E)
return np.std(E)
return E.var()
return np.nansum(1. / T)
return np.nansum(T / T)
return np.sort(E)[0]
return sorted(E)[0] * 1.
return np.partition(E, 0)[0]
i = np.argsort(E)\nreturn E[i][0]
return E[np.argmin(E)]
return E[E.argmin()]
return E - E[np.argmin(E)]
return E - min(E)
return E - sorted(E)[0]
return (E - np.min(E)).min()
return np.ma.masked_equal(E, 0).filled(0.)
return np.linalg.norm(nu, axis=1)
return np.vectorize(lambda x: x * 2)(E)
return np.apply_along_axis(np.sum, 1, nu)
return np.fromiter((e * 2 for e in E), dtype=float)
return np.fromiter((e * 2 for e in E), dtype=float, count=len(E))
return np.array(list(map(lambda e: e * 2, E)))
return np.meshgrid(E, T, indexing='ij')[0]
a, b = np.meshgrid(T, E)\nreturn a * b
return np.array([e * t for e in E for t in T]).reshape(len(E), len(T))
return np.concatenate([E[:1], E[1:]])
return np.sum(np.eye(2))
return np.ptp(E)
return np.ptp(O, axis=0)
return np.ptp(O, 1)
return np.take(E, 1)
return np.take(E, [0, 1, 1])
return np.take(O, 1, axis=0)
return np.take(O, [1, 0], axis=1)
return np.take(O, 3)
return E.take(0)
return O.take([0, 1], axis=0)
return np.append(E, T)
return np.append(O, E[:, None], axis=1)
return np.append(O, T[None, :], axis=0)
return np.append(O, T, axis=0)
return np.insert(O, 0, T, axis=0)
return np.insert(O.T, 0, T, axis=1)
return np.insert(O, 1, T, axis=0)
return np.insert(E, 0, 7.)
return np.insert(E, 1, 7)
return np.insert(O, 0, 2, axis=1)
return np.flip(E)
return np.flip(O)
return np.flip(O, 1)
return np.flipud(O)
return np.fliplr(O)
return np.select([T > 200, T > 100], [T, 2 * T], -1)
return np.select([E[:, None] > T, O > 0], [O, T], 0.)
return np.select([T > 200], [1], np.inf)
return np.piecewise(T, [T > 200], [lambda t: 1. / t, np.inf])
return np.piecewise(T, [T > 200, T <= 200], [lambda t: 1. / t, -1])
return np.piecewise(O, [O > 0], [lambda o: o ** 2, 0])
return np.vectorize(lambda t: 1. / t if t > 200 else np.inf)(T)
return np.vectorize(lambda t: 1 if t > 200 else 0)(T)
return np.vectorize(lambda t: 1 if t > 0 else .5)(T)
return np.vectorize(lambda t: t if t > 200 else 0, otypes=[float])(T)
return np.vectorize(lambda e, t: e * t)(E[:, None], T)
return np.vectorize(lambda e, t: e * t if e > 0 else -t)(E[:, None], T)
return np.vectorize(lambda t: t > 200)(T)
return np.apply_along_axis(lambda c: c / np.sum(c), 0, O)
return np.apply_along_axis(np.sum, 1, O)
return np.apply_along_axis(lambda r: r * 2, 1, O)
return np.apply_along_axis(lambda r: r.max(), 0, O)
return np.sort(E)[0]
return np.sort(E)[-1]
return np.sort(O, axis=0)[0]
return np.sort(O)[:, -1]
return sorted(E)[0]
return sorted(E, reverse=True)[0]
return sorted(E)[-1]
return np.var(E)
return np.var(O, axis=0)
return np.std(E, ddof=1)
return O.var(axis=1)
return O.std()
return np.nansum(O, axis=0)
return np.nanmin(E)
return np.nanmax(O, axis=1)
return np.nanprod(O, axis=1)
x = O.copy(); x[0, 0] = np.nan; return np.nansum(x, axis=0)
return np.diff(E)
return np.diff(O, axis=0)
return np.diff(O)
return np.diff(T, n=2)
return np.cumsum(E)
return np.cumsum(O, axis=1)
return np.cumsum(T)[-1]
return np.cumprod(T)
return T.cumsum()
return np.cumsum(T > 200)
return np.eye(3)
return np.eye(len(E))
return np.identity(2) @ np.ones((2, 2))
return np.eye(2, 3, 1)
return np.meshgrid(E, T)[0]
return np.meshgrid(E, T)[1]
return np.meshgrid(E, T, indexing='ij')[0]
a, b = np.meshgrid(T, E); return a * b
return np.linalg.norm(E)
return np.linalg.norm(O, axis=1)
return np.linalg.norm(O)
return np.fromiter((2 * e for e in E), float)
return np.fromiter((e for e in E), dtype=int)
return np.column_stack([O[:, k] for k in range(O.shape[1])])
return np.column_stack((E, E))
return np.column_stack([r for r in O])
return np.concatenate([r[None] for r in O])
return np.concatenate([r[:, None] for r in O], axis=1)
return np.vstack([r * 2 for r in O])
return np.heaviside(T - 200, 0.5)
return np.heaviside(T - 200, 1)
return np.exp2(E)
return np.fmax(T, 200)
x = T.copy(); x[0] = np.nan; return np.fmax(x, 200)
x = T.copy(); x[0] = np.nan; return np.fmin(200, x)
x = T.copy(); x[0] = np.nan; return np.maximum(x, 200)
return [1. / t if t > 200 else np.inf for t in T]
return np.array([1. / t if t > 200 else np.inf for t in T])
return np.array([1 if t > 200 else 2 for t in T])
return np.array([1 if t > 200 else 2. for t in T])
return np.array([(t, 1.) if t > 200 else (0., t) for t in T])
return np.array([[e if t > 200 else -e for e in E] for t in T])
return np.array([[e if e > 0 else -t for e in E] for t in T])
return sum(t if t > 200 else 0 for t in T)
return sum(1. / t for t in T if t > 200)
return len([t for t in T if t > 200])
return np.array(list(map(lambda t: t if t > 200 else 200., T)))
m = E[0]\nfor e in E:\n    if e < m:\n        m = e\nreturn m
m = E[0]\nfor e in E[1:]:\n    if e < m:\n        m = e\nreturn m
m = None\nfor e in E:\n    if m is None or e < m:\n        m = e\nreturn m
m = np.inf\nfor e in E:\n    m = min(m, e)\nreturn m
m = -np.inf\nfor e in E:\n    m = max(m, e)\nreturn m
m = 0.\nfor e in E:\n    m = max(m, e)\nreturn m
m = 0.\nfor e in E:\n    if e > m:\n        m = e\nreturn m
m = O[0].copy()\nfor r in O[1:]:\n    m = np.minimum(m, r)\nreturn m
m = O[0].copy()\nfor r in O:\n    m = np.maximum(m, r)\nreturn m
m = O[0]\nfor r in O[1:]:\n    m = m + r\nreturn m
m = O[0].copy()\nfor r in O[1:]:\n    m += r\nreturn m
m = O[0].copy()\nfor r in O[1:]:\n    m *= r\nreturn m
i = np.nonzero(T > 200); x = np.zeros_like(T); x[i] = T[i]; return x
i = np.flatnonzero(T > 200); x = np.zeros_like(T); x[i] = 1. / T[i]; return x
i, = np.where(T > 200); x = np.zeros_like(T); x[i] += T[i]; return x
i, j = np.nonzero(O > 0); x = np.zeros_like(O); x[i, j] = O[i, j]; return x
i = np.flatnonzero(E > 0); x = np.zeros_like(O); x[i] = O[i]; return x
i = np.flatnonzero(T > 200); x = np.zeros_like(O); x[:, i] = O[:, i]; return x
return T[np.nonzero(T > 200)].sum()
return T[np.flatnonzero(T > 200)].size
i = np.nonzero(T > 200)[0]; x = np.zeros_like(T); x[i[::-1]] = T[i]; return x
i = np.nonzero(T > 200)[0]; i = i + 0; x = np.zeros_like(T); x[i] = T[i]; return x
i = np.nonzero(T > 200)[0]; i[:] = 0; x = np.zeros_like(T); x[i] = 1; return x
return E[[0, 0]]
return O[:, [0, 0]]
return np.cbrt(E)
return np.cbrt(nu)
return E[np.argmax(E)]
return O[np.argmax(E)]
return np.argmax(O[0])
return T[T > 200].size
return len(T[T > 200])
return np.argmin(E)
return O[O > 0].size
return T[T > 200]
return O[O > 0].sum()
return O[:, T > 200]
return O[E > 0]
"""


PF = {'e': 'ElectronicPF(E / 40, J)', 'c': 'ClassicalHarmonicPF(nu)', 'q': 'QuantumHarmonicPF(nu)',
      'qq': 'QuantumHarmonicPF(Q)', 'r': 'RotationalPF(J, W)'}
REPO = """
return calc_beta(T)
return calc_beta(J)
return calc_exponent(E, T)
return calc_exponent(nu[:, :, None], T)
return calc_geometric_mean(nu)
return calc_geometric_mean(W)
return compare_numpy_dictionaries({'a': E, 'b': O}, {'b': O, 'a': E + 0})
return compare_numpy_dictionaries({'a': E}, {'a': T})
return compare_numpy_dictionaries({'a': E}, {'b': E})
return compare_numpy_dictionaries({'a': E}, {'a': E[:, None]})
x = SuperpositionApproximation(); return x.calc_probability(T)
x = SuperpositionApproximation(); return x.calc_heat_capacity(T)
x = SuperpositionApproximation(); x.add_partition_functions(RotationalPF(J, W)); x.add_partition_functions([ClassicalHarmonicPF(nu[1:])]); return x.calc_probability(T)
x = SuperpositionApproximation(); x.add_partition_functions(RotationalPF(J, W)); return x.calc_ensemble_average(T, T)
"""


def repo_snippets():
    out = [(l.replace('; ', '\n'), l) for l in REPO.strip().splitlines()]
    for k, c in PF.items():
        for m in ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v'):
            out.append(('return %s.%s(150 * T)' % (c, m), c + '.' + m))
    for ks in (('e',), ('c',), ('q',), ('r',), ('e', 'c', 'r'), ('e', 'q', 'r'), ('r', 'q'), ('c', 'e')):
        for q in ('calc_partition_functions(150 * T)', 'calc_probability(150 * T)', 'calc_heat_capacity(150 * T)',
                  'calc_ensemble_average(150 * T, O)'):
            if 'r' in ks and ('heat' in q or 'average' in q):
                continue        # evaluating the terms at numbers takes too long
            out.append(('x = SuperpositionApproximation()\nx.add_partition_functions([%s])\nreturn x.%s' % (
                ', '.join(PF[k] for k in ks), q), '%s of %s' % (q, '+'.join(ks))))
    pre = ('from occuprob.partitionfunctions import ElectronicPF, ClassicalHarmonicPF, QuantumHarmonicPF, RotationalPF\n'
           'from occuprob.superpositions import SuperpositionApproximation\n'
           'from occuprob.utils import calc_beta, calc_exponent, calc_geometric_mean, compare_numpy_dictionaries\n')
    return [(pre + b, 'repo: ' + t) for b, t in out]


def snippets():
    out = [('return ' + l, l) for l in EXPRS.strip().splitlines()] + repo_snippets()
    for l in BODIES.strip().splitlines():
        out.append((l.replace('; ', '\n').replace('\\n', '\n'), l))
    return out


def source(sn):
    t = ['import numpy as np', '']
    for n, (body, _) in enumerate(sn):
        t.append('def f%d(%s):' % (n, ', '.join(ARGS)))
        t += ['    ' + l for l in body.split('\n')]
        t.append('')
    return '\n'.join(t)


def symbolic_args():
    dims = {}
    for d in ('N', 'M', 'D'):
        dims[d] = tm.var(d, 'int')
        C.VARSIGN[d] = '+'
    out = []
    for n in ARGS:
        if n in SIGN:
            C.DOMSIGN[n] = SIGN[n]
        shp = tuple(dims.get(d, lift(d) if isinstance(d, int) else d) for d in SHAPES[n])
        out.append(S.new(shp, (lambda n: lambda idx: pv(app(n, list(idx))))(n), DTYPES.get(n, 'float64'), n))
    return out


def concrete(rng, dims):
    out = {}
    for n in ARGS:
        shp = [dims.get(d, d) for d in SHAPES[n]]
        k = int(np.prod(shp))
        if n == 'J':
            v = [rng.randint(1, 4) for _ in range(k)]
        elif SIGN.get(n) == '+':
            v = [rng.randint(1, 40) / 8 for _ in range(k)]
        elif SIGN.get(n) == '0+':
            v = [0. if rng.random() < .3 else rng.randint(1, 40) / 8 for _ in range(k)]
        else:
            v = [0. if rng.random() < .15 else rng.randint(-40, 40) / 8 for _ in range(k)]
        out[n] = np.array(v, dtype=DTYPES.get(n, 'float64')).reshape(shp)
    return out


class Env(dict):
    def __init__(self, arrs, dims):
        super().__init__({k: v for k, v in dims.items()})
        for n in ARGS:
            self['@' + n] = (lambda a: lambda *ix: mpmath.mpf(float(a[tuple(int(i) for i in ix)])))(arrs[n])


def conj(g, env):
    """A condition may have no value where another one of the conjunction is false."""
    undefined = None
    for c, q in g:
        try:
            if bool(c.evalf(env, mpmath.mp)) != q:
                return False
        except (ZeroDivisionError, IndexError) as e:
            undefined = e
    if undefined is not None:
        raise undefined
    return True


def leaf(p, env):
    """Number of a piecewise value under an interpretation."""
    if not isinstance(p, PV):
        p = pv(p)
    for g, l in p.cases:
        if conj(g, env):
            if isinstance(l, Special):
                return {'inf': mpmath.inf, '-inf': -mpmath.inf, 'nan': mpmath.nan}.get(l.n, 'uninitialised')
            if isinstance(l, bool):
                return l
            if isinstance(l, R):
                return tm.evalf(l, env, mpmath.mp)
            return l
    raise Unsupported('no case applies')


_generic = {}


def generic(v, base):
    """The element at arbitrary indices within the bounds, computed once for all instances."""
    if id(v) not in _generic:
        old = C.set_ctx(base)
        try:
            idx = [C.new_index(d) for d in v.shp]
            _generic[id(v)] = ([next(iter(i.fv)) if i.fv else None for i in idx], v.elem(tuple(idx)), v)
        except Unsupported:
            _generic[id(v)] = None
        finally:
            C.set_ctx(old)
    g = _generic[id(v)]
    return g and g[:2]


class Strange(Exception):
    pass


def value(v, env, base):
    """Concrete value (nested) of a symbolic result."""
    if isinstance(v, S.SymArray):
        shp = tuple(int(tm.evalf(d, env, mpmath.mp)) for d in v.shp)
        ix = list(itertools.product(*[range(k) for k in shp]))
        g = generic(v, base)
        if g is not None:
            names, p = g
            flat = []
            for i in ix:
                env.update(zip(names, i))
                flat.append(leaf(p, env))
        else:
            flat = [leaf(v.elem(tuple(lift(k) for k in i)), env) for i in ix]
        return ('array', shp, np.dtype(v.dtype).name if v.shp or True else None, flat)
    if isinstance(v, S.SymInt):
        return int(tm.evalf(v.r, env, mpmath.mp))
    if isinstance(v, S.SymBool):
        return bool(leaf(v.p, env)) if hasattr(v, 'p') else bool(v)
    if isinstance(v, (tuple, list)) and not isinstance(v, (S.SymSeq,)):
        return [value(x, env, base) for x in v]
    if isinstance(v, (int, float, bool, str, type(None), np.generic)):
        return v
    if isinstance(v, R):
        return float(tm.evalf(v, env, mpmath.mp))
    raise Strange(type(v).__name__)


def number(x):
    return mpmath.mpf(repr(x)) if isinstance(x, float) else mpmath.mpf(str(x))


def close(a, b):
    if a == 'uninitialised':
        return True
    if isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    tol = mpmath.mpf(10) ** -11
    if isinstance(b, (np.float32, np.float16)):
        tol, b = mpmath.mpf(10) ** (-6 if isinstance(b, np.float32) else -3), float(b)
    b = mpmath.mpf(str(b)) if np.isfinite(b) else (mpmath.nan if np.isnan(b) else mpmath.inf if b > 0 else -mpmath.inf)
    a = mpmath.mpf(a)
    if mpmath.isnan(a) or mpmath.isnan(b):
        return bool(mpmath.isnan(a) and mpmath.isnan(b))
    if mpmath.isinf(a) or mpmath.isinf(b):
        return a == b
    return abs(a - b) <= tol * (abs(a) + abs(b)) + mpmath.mpf(10) ** -13


def compare(s, c):
    """None or a description of the difference of a symbolic value from a concrete one."""
    if isinstance(c, (np.ndarray, np.generic)):
        c = np.asarray(c)
        if isinstance(s, tuple) and s and s[0] == 'array':
            if s[1] != c.shape:
                return 'shape %r, really %r' % (s[1], c.shape)
            if np.dtype(s[2]) != c.dtype:
                return 'dtype %s, really %s' % (s[2], c.dtype)
            for x, y in zip(s[3], c.ravel()):
                if not close(x, y):
                    return 'value %s, really %s' % (mpmath.nstr(x, 12) if not isinstance(x, (bool, str)) else x, y)
            return None
        if c.shape == () and isinstance(s, (int, float, bool)):
            return None if close(s, c.item()) else 'value %r, really %r' % (s, c.item())
        return 'got %r, really an array' % (s,)
    if isinstance(s, tuple) and s and s[0] == 'array':
        if s[1] == () and isinstance(c, (int, float, bool)):
            return None if close(s[3][0], c) else 'value %s, really %r' % (s[3][0], c)
        return 'got an array, really %r' % (c,)
    if isinstance(c, (tuple, list)):
        if not isinstance(s, list) or len(s) != len(c):
            return 'got %r, really %r' % (s, c)
        for x, y in zip(s, c):
            d = compare(x, y)
            if d:
                return d
        return None
    if isinstance(c, (int, float)) and isinstance(s, (int, float)):
        return None if close(s, c) else 'value %r, really %r' % (s, c)
    return None if s == c else 'got %r, really %r' % (s, c)


KINDS = (ValueError, IndexError, TypeError, AttributeError, ZeroDivisionError)


def group(e):
    for k in KINDS:
        if isinstance(e, k):
            return k.__name__
    return type(e).__name__


def check(n, text, world, real, instances):
    """-> (status, detail) with status same / differs / unsupported."""
    C.reset_caches()
    _generic.clear()
    limit = time.time() + 40
    mod = world.load('snip')
    try:
        args = symbolic_args()
        paths = S.Explorer().run(lambda: getattr(mod, 'f%d' % n)(*args))
    except Unsupported as e:
        return 'unsupported', str(e)
    seen = _seen[0] = 0
    for arrs, dims in instances:
        if time.time() > limit:
            break
        env = Env(arrs, dims)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                c = ('ok', real['f%d' % n](*[arrs[a].copy() for a in ARGS]))
        except Exception as e:
            c = ('raise', e)
        hit = []
        for ctx, out in paths:
            try:
                if conj(ctx.lits, env):
                    hit.append((ctx, out))
            except (Unsupported, KeyError) as e:
                return 'unsupported', 'evaluation of a path condition: %s' % e
        if len(hit) != 1:
            return 'differs', '%d paths apply for %r' % (len(hit), dims)
        ctx, out = hit[0]
        if out[0] != c[0]:
            return 'differs', 'outcome %s (%s), really %s (%s) for %r' % (out[0], str(out[1])[:80], c[0], str(c[1])[:80], dims)
        if out[0] == 'raise':
            if group(out[1]) != group(c[1]):
                return 'differs', 'raises %r, really %r' % (out[1], c[1])
            seen += 1
            continue
        sizes = [C.eq(tm.var(d, 'int') - lift(k)) for d, k in dims.items()]
        old = C.set_ctx(ctx.child(sizes))
        try:
            s = value(out[1], env, ctx)
        except (Unsupported, KeyError) as e:      # KeyError: a Skolem constant such as argmin
            return 'unsupported', str(e)
        except Strange as e:
            return 'unsupported', 'result of type %s' % e
        finally:
            C.set_ctx(old)
        d = compare(s, c[1])
        if d:
            return 'differs', '%s for %r' % (d, dims)
        seen += 1
        _seen[0] = seen
    return 'same', '%d instances, %d paths' % (seen, len(paths))


_job = None
_seen = [0]


class Late(BaseException):
    pass


def _late(*a):
    raise Late()


def _call(n):
    try:
        return _job(n)
    except BaseException as e:
        return 'unsupported', 'stopped: %r' % (e,)


def main():
    verbose = '-v' in sys.argv
    mpmath.mp.dps = 40
    sys.setrecursionlimit(20000)
    np.seterr(all='ignore')
    sn = snippets()
    tmp = tempfile.mkdtemp(prefix='vc-conf-')
    try:
        with open(os.path.join(tmp, 'snip.py'), 'w') as f:
            f.write(source(sn))
        shutil.copytree(os.path.join(os.environ.get('VC_REPO', '/repo'), 'occuprob'), os.path.join(tmp, 'occuprob'),
                        ignore=shutil.ignore_patterns('tests', '__pycache__', 'io.py', 'cli.py', '_version.py'))
        open(os.path.join(tmp, 'occuprob', '__init__.py'), 'w').close()
        sys.path.insert(0, tmp)
        sys.dont_write_bytecode = True
        world = L.World(tmp)
        real = {}
        exec(compile(source(sn), 'snip', 'exec'), real)
        rng = random.Random(5)
        instances = []
        for dims in ({'N': 3, 'M': 4, 'D': 2}, {'N': 1, 'M': 1, 'D': 1}, {'N': 3, 'M': 3, 'D': 3}, {'N': 1, 'M': 4, 'D': 3},
                     {'N': 4, 'M': 1, 'D': 1}, {'N': 2, 'M': 5, 'D': 2}):
            for _ in range(3):
                instances.append((concrete(rng, dims), dims))
        global _job
        pick = [a.split('=', 1)[1] for a in sys.argv if a.startswith('-k=')]
        todo = [n for n, (_, text) in enumerate(sn) if all(k in text for k in pick) and not ('--norepo' in sys.argv and text.startswith('repo:'))]

        def job(n):
            text = sn[n][1]
            try:
                few = instances
                if text.startswith('repo:'):
                    few = sorted(instances[::3], key=lambda x: x[1]['N'] * x[1]['M'] * x[1]['D'])
                signal.signal(signal.SIGALRM, _late)
                signal.setitimer(signal.ITIMER_REAL, 90, 5)
                try:
                    return check(n, text, world, real, few)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Late:
                k = _seen[0]
                return ('same' if k else 'unsupported'), '%d instances, then out of time' % k
            except Exception as e:
                import traceback
                return 'differs', 'engine error %r' % (e,) + (traceback.format_exc() if verbose else '')
        _job = job
        import multiprocessing as mp
        count = {'same': 0, 'differs': 0, 'unsupported': 0}
        with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1), maxtasksperchild=20) as pool:
            for n, (st, d) in zip(todo, pool.imap(_call, todo, chunksize=1)):
                count[st] += 1
                if st == 'differs' or verbose:
                    print('%s: %s  [%s]' % (st, sn[n][1], d), flush=True)
        print('conformance with NumPy %s: %d snippets agree, %d not supported by the engine, %d differ' % (
            np.__version__, count['same'], count['unsupported'], count['differs']))
        return 1 if count['differs'] else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
