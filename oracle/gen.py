"""Deterministic inputs for the run-time companion: structured corner cases first, then random
ones, then ones around every numeric literal of the current source."""
import ast
import collections
import json
import os
import numpy as np

LD = np.longdouble
KINDS = [a + b + c for a in ('', 'e') for b in ('', 'c', 'q') for c in ('', 'r') if a + b + c]


def enc(a):
    a = np.asarray(a)
    if a.dtype == LD:
        data = [np.format_float_scientific(x, unique=True) for x in a.ravel()]
    elif a.dtype.kind == 'f':
        data = [float(x).hex() if np.isfinite(x) else repr(float(x)) for x in a.ravel()]
    else:
        data = [int(x) for x in a.ravel()]
    return {'dtype': str(a.dtype), 'shape': list(a.shape), 'data': data}


def dec(d):
    dt = np.dtype(d['dtype'])
    if dt == LD:
        v = [LD(x) for x in d['data']]
    elif dt.kind == 'f':
        v = [float.fromhex(x) if 'x' in x else float(x) for x in d['data']]
    else:
        v = d['data']
    return np.array(v, dtype=dt).reshape(d['shape'])


def to_json(inst):
    return {k: (enc(v) if isinstance(v, np.ndarray) else v) for k, v in inst.items()}


def from_json(d):
    return {k: (dec(v) if isinstance(v, dict) and 'dtype' in v and 'data' in v else v) for k, v in d.items()}


def literals(repo, count=False):
    """Numeric literals of the current source."""
    out = collections.Counter()
    base = os.path.join(repo, 'occuprob')
    for fn in ('utils.py', 'partitionfunctions.py', 'superpositions.py', 'io.py', 'cli.py'):
        try:
            tree = ast.parse(open(os.path.join(base, fn)).read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out[float(n.value)] += 1
    return out if count else sorted(out)


def energies(rng, n, prof):
    if prof == 0:
        e = rng.uniform(0, 0.5, n)
    elif prof == 1:
        e = rng.uniform(0, 0.3, n) - 5000.123
    elif prof == 2:
        e = rng.uniform(0, 0.3, n) + 7342.5
    elif prof == 3:                       # ties at the bottom
        e = rng.uniform(0.01, 0.4, n)
        e[rng.permutation(n)[:max(1, n // 2)]] = -1.25
    elif prof == 4:                       # near ties
        e = -12.5 + rng.integers(0, 4, n) * 1e-6
    elif prof == 5:
        e = np.full(n, -3.5)
    elif prof == 6:                       # descending, the lowest last
        e = np.sort(rng.uniform(-2, 2, n))[::-1].copy()
    elif prof == 7:                       # very spread
        e = rng.uniform(-60, 60, n)
    elif prof == 8:
        return rng.integers(-3, 4, n)
    elif prof == 9:
        e = -rng.uniform(0, 1e-3, n)
    elif prof == 10:                      # ascending, lowest first
        e = np.sort(rng.uniform(-20, -19.5, n))
    else:
        e = rng.integers(0, 200, n) / 1024.0
    return e


TPROF = 16


def temps(rng, m, prof, q):
    if prof == 0:
        t = np.linspace(0, 500, m) if m > 1 else np.array([300.])
    elif prof == 1:
        t = rng.uniform(50, 1000, m)
    elif prof == 2:                       # 0 K in the middle
        t = rng.uniform(100, 400, m)
        t[m // 2] = 0.
    elif prof == 3:
        t = np.arange(m, dtype='int64') * 50
    elif prof == 4:
        t = rng.integers(1, 900, m).astype('int32')
    elif prof == 5:
        t = np.zeros(m)
    elif prof == 6:
        t = np.full(m, 298.15)
    elif prof == 7:
        t = np.sort(rng.uniform(20, 2000, m))[::-1].copy()
    elif prof == 8:
        t = 10. ** rng.uniform(1, 6, m)
    elif prof == 9:
        t = 10. ** rng.uniform(-3, 2, m)
    elif prof == 10:
        t = rng.permutation(np.concatenate([np.zeros(m - m // 2), np.repeat(77., m // 2)]))
    elif prof == 11:
        t = np.arange(m) * 1.0
    elif prof == 12:
        t = rng.integers(0, 3, m).astype('int64') * 150
    elif prof == 13:
        t = rng.uniform(0.5, 15, m)
    elif prof == 14:
        t = rng.uniform(250, 260, m)
        t[-1] = 0.
    else:
        t = rng.uniform(1000, 20000, m)
        t[0] = 0.
    return t


def make(rng, n, m, d, ep=0, tp=0, gp=0, fp=0, rp=0, op=0):
    E = energies(rng, n, ep)
    g = [np.ones(n), rng.integers(1, 6, n).astype(float), rng.integers(1, 6, n), rng.integers(1, 4, n).astype('int32'),
         rng.uniform(0.3, 4, n)][gp % 5]
    if fp % 7 == 0:
        nu = rng.uniform(0.5, 100, (n, d))
    elif fp % 7 == 1:
        nu = rng.uniform(1, 60, (n, d)).astype(LD)
    elif fp % 7 == 2:
        nu = np.exp(rng.uniform(-2, 3, (n, d)))
    elif fp % 7 == 3:
        nu = rng.integers(1, 90, (n, d)).astype(float)
    elif fp % 7 == 4:
        nu = np.tile(rng.uniform(2, 40, (1, d)), (n, 1))
        nu[-1, -1] *= 1.7
    elif fp % 7 == 5:
        nu = np.asfortranarray(rng.uniform(0.01, 5, (n, d)))
    else:
        nu = rng.integers(1, 50, (n, d)).astype('int64')
    sg = [rng.integers(1, 25, n), rng.integers(1, 25, n).astype(float), np.ones(n), np.array([1, 2, 12, 60, 24] * n)[:n]][rp % 4]
    I = rng.uniform(0.5, 900, (n, 3))
    if rp % 5 == 1:
        I[0, 0] = 0.
    elif rp % 5 == 2:
        I[-1] = 0.
    elif rp % 5 == 3:
        I[:, 0] = 0.
        I[:, 2] = I[:, 1]
    elif rp % 5 == 4:
        I = I * 1e-3
    T = temps(rng, m, tp, False)
    if op % 4 == 0:
        O = rng.normal(size=(n, m))
    elif op % 4 == 1:
        O = rng.normal(size=(n, 1)) * 100
    elif op % 4 == 2:
        O = rng.integers(-9, 10, (n, m))
    else:
        O = rng.uniform(1e3, 1e6, (n, m))
    return {'E': E, 'g': g, 'nu': nu, 'sg': sg, 'I': I, 'T': T, 'O': O}


SHAPES = [(1, 1, 1), (1, 5, 3), (2, 1, 3), (2, 2, 2), (2, 3, 4), (3, 2, 1), (3, 3, 3), (3, 7, 6), (4, 4, 3), (4, 5, 9), (5, 3, 12),
          (6, 6, 6), (7, 2, 30), (8, 11, 5), (12, 4, 7), (20, 9, 3)]
BIG = [(50, 3, 30), (300, 5, 6), (40, 501, 3), (3, 1200, 3), (6, 5, 60), (2, 2, 150), (130, 2, 9), (17, 65, 33)]


def edges(rng, out):
    """Corners of the input space that no random profile above reaches."""
    # minima separated by much less than any thermal energy, in every order, down to 0 K
    for base, gap in ((0., 5e-9), (0., 1e-12), (0., 3e-16), (-12.5, 3e-7), (-3.0, 2e-11), (-5000.125, 1e-8), (0., 4e-4)):
        for order in ((0, 1, 2, 40), (3, 1, 0, 2), (2, 40, 0, 0), (1, 0, 1, 50000)):
            x = make(rng, 4, 5, 3, ep=0, tp=1, gp=4, fp=0, rp=0)
            x['E'] = base + gap * np.array(order, float)
            x['T'] = np.array([0., gap / 8.6e-5, 300., 0., 3e-3])
            if order[-1] % 2:
                x['T'] = np.array([200., gap / 4e-5, 1e-2, gap / 3e-4, 0.])
            out.append(x)
    # minima with nearly the same frequencies, moments, multiplicities
    for gap in (1e-7, 1e-11, 1e-4):
        x = make(rng, 4, 4, 3, ep=0, tp=1, gp=4, fp=0, rp=0)
        x['nu'] = 12.5 * (1 + gap * rng.integers(0, 50, (4, 3)))
        x['g'] = 3 * (1 + gap * rng.integers(0, 50, 4))
        x['I'] = 40. * (1 + gap * rng.integers(0, 50, (4, 3)))
        x['E'] = gap * rng.integers(0, 5, 4)
        out.append(x)
    # h nu / 2kT in the thousands, and tiny
    for T, nus in ((0.05, (6., 12., 20.)), (1e-3, (0.3, 0.2, 0.45)), (2., (700., 500., 850.)), (1e-4, (1e-2, 2e-2, 4e-2)),
                   (3e5, (1e-3, 2e-3, 1e-4)), (900., (1e-6, 30., 1e-3))):
        x = make(rng, 3, 4, 1, ep=0, tp=1, gp=1, fp=0, rp=0)
        x['E'] = np.array([0., 1e-6, 2e-6])
        x['nu'] = np.array(nus)[:, None]
        x['T'] = T * np.array([1., 1.03, 2.1, 9.])
        out.append(x)
    for e in (0.3, 0.1, 3e-2, 1e-2, 3e-3, 1e-3, 1e-4):
        for m in (1, 3):
            x = make(rng, 4, m, 3, ep=0, tp=1, gp=1, fp=0, rp=0)
            x['T'] = 250. * np.array([1., 1.02, 1.05])[:m]
            x['nu'] = e * 2 * 8.617333262145e-5 * 250. / 4.135667696e-3 * rng.uniform(0.2, 0.98, (4, 3))
            x['E'] = rng.uniform(0, 0.05, 4)
            out.append(x)
    # many minima with comparable populations
    for n, w in ((500, 1e-3), (1100, 0.02), (90, 0.2)):
        x = make(rng, n, 2, 2, ep=0, tp=1, gp=1, fp=0, rp=0)
        x['E'] = rng.uniform(0, w, n)
        x['T'] = np.array([300., 450.])
        out.append(x)
    # very different scales side by side
    x = make(rng, 4, 3, 4, ep=0, tp=1, gp=4, fp=0, rp=0)
    x['nu'] = 10. ** rng.uniform(-3, 3, (4, 4))
    x['I'] = 10. ** rng.uniform(-4, 5, (4, 3))
    x['g'] = np.array([1e-6, 1., 1e4, 3.])
    x['sg'] = np.array([1., 1e5, 60., 0.5])
    x['T'] = np.array([40., 400., 4000.])
    out.append(x)


def around(rng, v, out, tier):
    """Inputs around a numeric literal of the source."""
    if v > 0:
        x = make(rng, 3, 6, 3, ep=0, tp=1, gp=1, fp=0, rp=0)
        x['T'] = np.array([v, v * (1 - 1e-6), v * (1 + 1e-6), v + 1, v * 2 + 3, abs(v - 1) + 0.25])
        x['O'] = rng.normal(size=(3, 6))
        out.append(x)
        x = make(rng, 4, 3, 3, ep=0, tp=1, gp=1, fp=0, rp=0)
        x['E'] = np.array([0., v, v * 1.001, v / 2]) - (v if v > 10 else 0)
        x['E'] = np.where(np.abs(x['E']) < 1e5, x['E'], 0.)
        out.append(x)
        x = make(rng, 3, 3, 3, ep=0, tp=1, gp=1, fp=0, rp=0)
        if 1e-3 < v < 1e4:
            x['nu'][0] = v
            x['nu'][1] = [v * 1.01, v * 0.99, v * 3]
            out.append(x)
        if 1e-6 < v < 1e6:
            x = make(rng, 3, 3, 3, ep=0, tp=1, gp=1, fp=0, rp=0)
            x['I'][0] = v
            x['I'][1] = [v * 0.9, v * 1.1, v * 2]
            out.append(x)
    if 1e-6 < v < 1e6:                # multiplicities and symmetry numbers around the literal
        x = make(rng, 4, 3, 3, ep=0, tp=1, gp=4, fp=0, rp=1)
        x['g'] = np.array([v, 0.5 * v, v + 1.5, 3.])
        x['sg'] = np.array([v, 2 * v, v + 0.5, 1.])
        out.append(x)
    if 1 <= v <= 1e4:
        x = make(rng, 4, 3, 3, ep=0, tp=1, gp=4, fp=0, rp=1)
        k = int(np.ceil(v))
        x['g'], x['sg'] = np.array([k, k + 1, 2 * k + 1, 1]), np.array([k + 2, k, 3 * k, 1])
        out.append(x)
    if 700 < v < 10500:
        for q in (0.35, 0.9, 1.04):
            x = make(rng, 3, 2, 1, ep=0, tp=1, gp=1, fp=0, rp=0)
            x['T'] = np.array([1., 1.01])
            x['E'] = np.zeros(3)
            x['nu'] = np.minimum(v * q * np.array([[1.], [1.01], [1.002]]), 10800) * 2 * 8.617333262145e-5 / 4.135667696e-3
            out.append(x)
    if 1e-18 < abs(v) < 800:          # E/kT, h nu/2kT and the populations around the literal
        T = np.array([10., 300., 4000.])
        for c in range(3):
            x = make(rng, 4, 3, 3, ep=0, tp=1, gp=1, fp=0, rp=0)
            x['T'] = T
            x['E'] = np.array([0., v, 1.02 * v, 0.5 * v]) * 8.617333262145e-5 * T[c]
            if v > 1e-8:
                x['nu'][0] = v * 2 * 8.617333262145e-5 * T[c] / 4.135667696e-3
                x['nu'][1] = x['nu'][0] * [0.98, 1.02, 1.5]
                x['nu'][2] = x['nu'][0] * 0.7
            out.append(x)
        # all of E/kT, or all of h nu/2kT, on one side of the literal
        for lo, hi in ((0.3, 0.97), (1.03, 2.5)) if v > 1e-12 else ():
            for energy in (False, True):
                x = make(rng, 4, 3, 3, ep=0, tp=1, gp=1, fp=0, rp=0)
                x['T'] = np.array([300., 301.5, 307.]) if v > 1e-4 else np.array([2e5, 2.01e5, 2.03e5])
                u = 8.617333262145e-5 * x['T'][0]
                if energy:
                    x['E'] = v * u * np.concatenate([[0.], lo + (hi - lo) * rng.uniform(size=3)])
                else:
                    x['nu'] = v * 2 * u / 4.135667696e-3 * (lo + (hi - lo) * rng.uniform(size=(4, 3)))
                    x['E'] = u * rng.uniform(0, 2, 4)
                out.append(x)
    if 0 < v < 1:
        x = make(rng, 3, 3, 2, ep=0, tp=1, gp=0, fp=4, rp=2)
        x['T'] = np.array([200., 300., 301.])
        x['E'] = np.array([0., -8.617333262145e-5 * 300 * np.log(0.3 * v), -8.617333262145e-5 * 300 * np.log(3 * v)])
        x['O'] = np.array([[1.], [1 / v], [3 / v]]) * np.ones((3, 3))
        x['I'] = np.ones((3, 3)) * 20.
        x['nu'] = np.full((3, 2), 7.)
        x['sg'] = np.array([1, 1, 1])
        out.append(x)
    if v == int(v) and 3000 < v <= 30000:
        out.append(make(rng, int(v) + 1, 2, 1, ep=0, tp=1, gp=1, fp=2, rp=0))
        out.append(make(rng, 2, int(v) + 1, 1, ep=0, tp=1, gp=1, fp=0, rp=0))
    if v == int(v) and 2 <= v <= 3000:
        v = int(v)
        for q in sorted({v, v + 1, max(1, v - 1)}):
            if q <= 64 or tier != 'quick' or v <= 400:
                out.append(make(rng, q, 2, 2, ep=0, tp=1, gp=1, fp=2, rp=0))
                out.append(make(rng, 2, q, 2, ep=3, tp=0, gp=1, fp=0, rp=0))
                if q <= 400:
                    out.append(make(rng, 2, 3, q, ep=0, tp=1, gp=1, fp=4, rp=0))


BASE = {0.0: 21, 8.617333262145e-05: 1, 0.004135667696: 1, 0.01: 1, 0.05: 1, 0.5: 4, 1.0: 17, 1.05: 1, 1.5: 1, 2.0: 9, 6.0: 2, 8.0: 2, 500.0: 1}


def new_literals(repo):
    """Those that the source did not have, or had less often, when this was written: only an order of trial."""
    return [v for v, n in sorted(literals(repo, True).items()) if n > BASE.get(v, 0)]


def instances(repo, seed, tier):
    rng = np.random.default_rng(1000 + seed)
    out = []
    n = 0
    first = []
    r2 = np.random.default_rng(77 + seed)
    for v in new_literals(repo)[:25]:
        around(r2, v, first, tier)
    for rep in range(2 if tier == 'quick' else 40):
        for (a, b, c) in SHAPES:
            out.append(make(rng, a, b, c, ep=n % 12, tp=(n * 5 + rep) % TPROF, gp=n % 5, fp=(n + rep) % 7, rp=(n * 3 + rep) % 20, op=n % 4))
            n += 1
    # every temperature profile against every energy profile on one small shape
    for tp in range(TPROF):
        out.append(make(rng, 4, 3 + tp % 3, 3, ep=(tp * 7) % 12, tp=tp, gp=tp, fp=tp, rp=tp, op=tp))
    for k, (a, b, c) in enumerate(BIG * (1 if tier == 'quick' else 4)):
        out.append(make(rng, a, b, c, ep=(k * 5 + 1) % 12, tp=(k * 3) % TPROF, gp=k, fp=k, rp=k, op=k))
    edges(rng, out)
    for v in literals(repo):
        if v not in new_literals(repo)[:25]:
            around(rng, v, out, tier)
    for n, x in enumerate(out):
        x['rot'] = n                      # which compositions are looked at, where each takes long
    return out[:24] + first + out[24:]
