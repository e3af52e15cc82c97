"""Run-time contracts: each property as a check of the real code on one concrete input.
A check returns None or a message naming the violated clause."""
import contextlib
import functools
import io
import os
import warnings
import numpy as np

import occuprob.utils as ut
import occuprob.partitionfunctions as pf
import occuprob.superpositions as sp
import gen
from gen import KINDS
from ref import Ref, user_strength

LD = np.longdouble
RT = LD('1e-9')
TINY = LD('1e-199')       # probabilities below this are not compared (double-precision underflow)


class Fail(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Fail(msg)


class UserPF(pf.PartitionFunction):
    """A contribution defined outside the package: ln Z = q u/(1+u) with u = beta * 0.01 eV
    and a strength q of either sign per minimum, so W and V take both signs."""

    def __init__(self, nu, g):
        self.q = user_strength(nu.astype(float), g.astype(float))[:, None]

    def t(self, T):
        t = 8.617333262145e-5 * np.asarray(T, float)[None, :] / 0.01
        return np.minimum(t, 1e100)

    def calc_part_func(self, temperature):
        return np.exp(self.q / (1 + self.t(temperature)))

    def calc_part_func_w(self, temperature):
        t = self.t(temperature)
        return self.q * t / (1 + t) ** 2

    def calc_part_func_v(self, temperature):
        t = self.t(temperature)
        return -2 * self.q * t / (1 + t) ** 3


class StoredPF(pf.PartitionFunction):
    """A contribution that computed its arrays beforehand and returns those very arrays."""

    def __init__(self, p, T):
        self.a = [f(T).copy() for f in (p.calc_part_func, p.calc_part_func_w, p.calc_part_func_v)]
        self.b = [a.copy() for a in self.a]

    def calc_part_func(self, temperature):
        return self.a[0]

    def calc_part_func_w(self, temperature):
        return self.a[1]

    def calc_part_func_v(self, temperature):
        return self.a[2]

    def intact(self):
        return all(np.array_equal(a, b, equal_nan=True) for a, b in zip(self.a, self.b))


UKINDS = KINDS + ['u', 'eu', 'ucr', 'qu', 'ccrr', 'eqrru', 'rcrcr', 'erurcrur']


def build1(k, i):
    if k == 'u':
        return UserPF(i['nu'], i['g'])
    if k == 'e':
        return pf.ElectronicPF(i['E'], i['g'])
    if k == 'c':
        return pf.ClassicalHarmonicPF(i['nu'])
    if k == 'q':
        return pf.QuantumHarmonicPF(i['nu'])
    return pf.RotationalPF(i['sg'], i['I'])


def sup(kinds, i):
    x = sp.SuperpositionApproximation()
    for k in kinds:
        x.add_partition_functions(build1(k, i))
    return x


def arr(a, shape, what):
    need(isinstance(a, np.ndarray), '%s: returned %s' % (what, type(a).__name__))
    need(a.shape == tuple(shape), '%s: shape %r instead of %r' % (what, a.shape, tuple(shape)))
    return a.astype(LD)


def near(got, want, what, rt=RT, at=TINY):
    got, want = np.asarray(got, LD), np.asarray(want, LD)
    at = np.broadcast_to(np.asarray(at, LD), want.shape)
    with np.errstate(all='ignore'):
        bad = ~((got == want) | np.isfinite(want) & (np.abs(got - want) <= rt * np.abs(want) + at))
    if bad.any():
        ix = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Fail('%s: at %r observed %s, specified %s' % (what, ix, got[ix] if ix else got, want[ix] if ix else want))


def cols(i, keep):
    """The instance restricted to some temperatures."""
    j = dict(i)
    j['T'] = i['T'][keep]
    if i['O'].shape[1] == len(i['T']):
        j['O'] = i['O'][:, keep]
    return j


def admissible(i, kinds):
    """Restrict to the temperatures at which the partition functions are representable."""
    r = Ref(i)
    if not r.representable(kinds):
        return None, None
    k = r.ok_columns(kinds)
    if not k.any():
        return None, None
    i = cols(i, k)
    return i, Ref(i)


@functools.lru_cache()
def long_kinds():
    """Compositions as long as the whole numbers in the source say."""
    out = []
    for v in [6, 9] + gen.new_literals(os.environ.get('VC_REPO', '/repo')):
        if v == int(v) and 3 <= v <= 40:
            for k in (int(v), int(v) + 1):
                out.append(('er' + 'ure' * k)[:k])
                out.append(('cer' + 'ruer' * k)[:k])
    return sorted(set(out), key=lambda k: (len(k), k))[:16]


def kinds_of(i, pool=None, few=False):
    """Compositions to look at for this input (deterministic rotation keeps the cost flat)."""
    pool = pool or KINDS
    if len(pool) > 5:
        pool = pool + [k for k in long_kinds() if k not in pool]
    if 'kinds' in i:
        return [k for k in pool if k == i['kinds']]
    if few and 'rot' in i and len(pool) > 8:
        return [pool[(i['rot'] * 7 + j * (len(pool) // 7 + 1)) % len(pool)] for j in range(7)]
    if i['E'].size * i['T'].size * i['nu'].shape[1] > 20000:
        h = (i['E'].size * 7 + i['T'].size * 3 + i['nu'].shape[1]) % len(pool)
        return [pool[h], pool[(h + len(pool) // 2) % len(pool)]]
    return pool


def heat_tol(scale):
    return LD('1e-9') + LD('2e-14') * scale


def each(i, pool, f, few=False):
    for kinds in kinds_of(i, pool, few):
        j, r = admissible(i, kinds)
        if j is None:
            continue
        try:
            f(kinds, j, r)
        except Fail as e:
            raise Fail('[%s] %s' % (kinds, e))
        except Exception as e:
            raise Fail('[%s] raised %s: %s' % (kinds, type(e).__name__, e))


# ------------------------------------------------------------------ C01 - C06

def c01(i, known):
    def f(kinds, i, r):
        n, m = len(i['E']), len(i['T'])
        P = arr(sup(kinds, i).calc_probability(i['T']), (n, m), 'probability')
        need(np.isfinite(P).all(), 'probabilities are not finite')
        need((P >= 0).all() and (P <= 1 + RT).all(), 'probabilities outside [0, 1]')
        near(P.astype(LD).sum(axis=0), np.ones(m), 'sum of a column of the probabilities', rt=0, at=LD('2e-12') + n * LD('1e-15'))
    each(i, UKINDS, f)


def prob_clause(kinds, i, r, positive=True):
    t = i['T'] > 0 if positive else np.ones(len(i['T']), bool)
    if not t.any():
        return
    P = arr(sup(kinds, i).calc_probability(i['T']), (len(i['E']), len(i['T'])), 'probability')
    near(P[:, t], r.prob(kinds)[:, t], 'probability (T > 0)' if positive else 'probability')


def c02(i, known):
    j = dict(i)
    each(j, ['e'], prob_clause)
    if i['T'].dtype.kind == 'f' and len(i['T']):
        j = dict(i)
        j['T'] = i['T'].astype(float).copy()
        j['T'][-1] = np.inf
        if j['O'].shape[1] != len(j['T']):
            j['O'] = j['O'][:, :1]
        x = sup('e', j)
        P = arr(x.calc_probability(j['T']), (len(j['E']), len(j['T'])), 'probability at infinite T')
        g = j['g'].astype(LD)
        near(P[:, -1], g / g.sum(), 'probability at infinite T')


def shifted(i, c):
    j = dict(i)
    j['E'] = i['E'] + c
    return j


def c03(i, known):
    E = i['E'].astype(float)
    i = dict(i)
    i['E'] = np.round(E * 2 ** 20) / 2 ** 20        # so that adding the constant is exact

    def f(kinds, i, r):
        n, m = len(i['E']), len(i['T'])

        def q(i):
            x = sup(kinds, i)
            return (arr(x.calc_probability(i['T']), (n, m), 'probability'),
                    arr(x.calc_heat_capacity(i['T']), (1, m), 'heat capacity'),
                    arr(x.calc_ensemble_average(i['T'], i['O']), (1, m), 'ensemble average'))
        zpe = not (('q' in kinds) and known is not None)
        P0 = r.prob(kinds) if 'q' not in kinds else None
        C0, s0 = r.heat(kinds)
        base = q(i)
        for c in (-8192.0, 4096.5, 1.0, -0.25):
            a = q(shifted(i, c))
            need(all(np.isfinite(v).all() for v in a), 'results not finite after adding %g eV' % c)
            near(a[0], base[0], 'probability after adding %g eV to all energies' % c)
            near(a[1], base[1], 'heat capacity after adding %g eV' % c, at=heat_tol(s0)[None, :])
            near(a[2], base[2], 'ensemble average after adding %g eV' % c, at=1e-9 * (1 + np.abs(i['O']).max()))
            if P0 is not None:
                near(a[0], P0, 'probability for energies relative to the lowest minimum, shifted by %g eV' % c)
            near(a[1][0], C0, 'heat capacity for shifted energies', at=heat_tol(s0))
    each(i, ['e', 'ec', 'eq', 'er', 'ecr', 'eqr'], f)


def weight_clause(kind, positive):
    def f(kinds, i, r):
        n, m = len(i['E']), len(i['T'])
        x = sup(kinds, i)
        Z = arr(x.calc_partition_functions(i['T']), (n, m), 'partition functions')
        P = arr(x.calc_probability(i['T']), (n, m), 'probability')
        for j in range(m):
            if positive and not (i['T'][j] > 0 and np.isfinite(i['T'][j])):
                continue
            L = r.logw(kind, r.beta[j] if positive else LD(1))
            a = int(np.argmax(L))
            ratio = np.exp(L - L[a])
            need(np.isfinite(Z[:, j]).all() and (Z[:, j] > 0).all(), 'weights at T=%r are not finite and positive' % float(i['T'][j]))
            near(Z[:, j] / Z[a, j], ratio, 'ratio of the weights at T=%r' % float(i['T'][j]))
            near(P[:, j] / P[a, j], ratio, 'ratio of the probabilities at T=%r' % float(i['T'][j]))
        direct = arr(build1(kind, i).calc_part_func(i['T']), (n, m), 'calc_part_func')
        near(direct, Z, 'weights of the contribution and of the superposition made of it')
        # alongside a second contribution
        other = 'r' if kind != 'r' else 'c'
        if not r.representable(other):
            return
        Y = arr(sup(kind + other, i).calc_partition_functions(i['T']), (n, m), 'partition functions with another contribution')
        O = arr(sup(other, i).calc_partition_functions(i['T']), (n, m), 'partition functions of the other contribution')
        with np.errstate(all='ignore'):
            ok = (Z > LD('1e-300') if Z.dtype != LD else Z > 0) & (Y > 0)
        near(np.where(ok, Y, 1), np.where(ok, Z * O, 1), 'weight with another contribution')
    return f


def c04(i, known):
    each(i, ['c'], weight_clause('c', False))


def c05(i, known):
    each(i, ['q'], weight_clause('q', True))


def c06(i, known):
    each(i, ['r'], weight_clause('r', False))


# ------------------------------------------------------------------ C07

def c07(i, known):
    def f(kinds, i, r):
        T = i['T']
        ps = [build1(k, i) for k in kinds]
        zs = [p.calc_part_func(T).astype(LD) for p in ps]
        ws = [p.calc_part_func_w(T).astype(LD) for p in ps]
        vs = [p.calc_part_func_v(T).astype(LD) for p in ps]
        z, w, v = zs[0], ws[0], vs[0]
        for a in zs[1:]:
            z = z * a
        for a in ws[1:]:
            w = w + a
        for a in vs[1:]:
            v = v + a
        Z0 = z.sum(axis=0)
        P0 = z / Z0
        m = (P0 > 0)
        with np.errstate(all='ignore'):
            pw = np.where(m, P0 * w, 0).sum(axis=0)
            pw2 = np.where(m, P0 * w * w, 0).sum(axis=0)
            pv = np.where(m, P0 * v, 0).sum(axis=0)
        C0 = pv + pw2 - pw ** 2
        scale = pw2 + pw ** 2 + np.abs(pv)

        def one(x):
            for p in ps:
                x.add_partition_functions(p)

        def rev(x):
            for p in ps[::-1]:
                x.add_partition_functions(p)

        def lst(x):
            x.add_partition_functions(list(ps))

        def tup(x):
            x.add_partition_functions(tuple(ps[1:] + ps[:1]))

        def mixed(x):
            x.add_partition_functions([])
            x.add_partition_functions(ps[-1:])
            for p in ps[:-1]:
                x.add_partition_functions((p,))

        def alias(x):
            l = list(ps[:1])
            x.add_partition_functions(l)
            l.append(ps[0])
            l[0] = ps[-1]
            for p in ps[1:]:
                x.add_partition_functions(p)
            need(len(l) == 2, "the caller's list was modified")

        def alias2(x):
            l = list(ps)
            x.add_partition_functions(l)
            l.clear()

        def gradual(x):
            for p in ps:
                x.add_partition_functions(p)
                x.calc_probability(T)
                x.calc_heat_capacity(T)
        for how in (one, rev, lst, tup, mixed, alias, alias2, gradual):
            x = sp.SuperpositionApproximation()
            how(x)
            y = sp.SuperpositionApproximation()
            need(y.calc_partition_functions(T) is None, 'a new superposition already has contributions')
            near(arr(x.calc_partition_functions(T), z.shape, 'Z'), z, 'weights when added: ' + how.__name__, at=TINY * z.max(axis=0))
            near(arr(x.calc_probability(T), z.shape, 'P'), P0, 'probability when added: ' + how.__name__)
            near(arr(x.calc_heat_capacity(T), (1, len(T)), 'C')[0], C0, 'heat capacity when added: ' + how.__name__, at=heat_tol(scale))
        x = sp.SuperpositionApproximation()
        x.add_partition_functions(ps[0])
        x.add_partition_functions([ps[0]])
        near(x.calc_partition_functions(T), zs[0] ** 2, 'weights of a contribution added twice', at=TINY * (zs[0] ** 2).max(axis=0))
    pool = [k for k in UKINDS if len(k) > 1] + ['e', 'q', 'u']
    if 'kinds' not in i and len(i['E']) * len(i['T']) * i['nu'].shape[1] <= 2000:
        pool = pool + ['eeuc', 'ueru', 'uuuuu', 'erurur', 'rrcrurcu', 'rrrrrrrrrurr']
    each(i, pool, f, few=True)


# ------------------------------------------------------------------ C08

def c08(i, known):
    i = dict(i)
    t = i['T'].copy()
    t[len(t) // 2] = 0
    i['T'] = t

    def f(kinds, i, r):
        n, m = len(i['E']), len(i['T'])
        z = i['T'] == 0
        if not z.any():
            return
        x = sup(kinds, i)
        P = arr(x.calc_probability(i['T']), (n, m), 'probability')
        C = arr(x.calc_heat_capacity(i['T']), (1, m), 'heat capacity')
        A = arr(x.calc_ensemble_average(i['T'], i['O']), (1, m), 'ensemble average')
        Z = arr(x.calc_partition_functions(i['T']), (n, m), 'partition functions')
        need(np.isfinite(P[:, z]).all() and np.isfinite(C[:, z]).all() and np.isfinite(A[:, z]).all() and
             np.isfinite(Z[:, z]).all(), 'a query at 0 K is not finite')
        P0 = r.prob(kinds)
        C0, s0 = r.heat(kinds)
        near(C[0, z], C0[z], 'heat capacity at 0 K', at=heat_tol(s0[z]))
        if 'q' in kinds:
            try:
                near(P[:, z], P0[:, z], 'probability at 0 K')
            except Fail as e:
                near(P[:, z], r.prob(kinds, zpe=False)[:, z],
                     'probability at 0 K (neither the limit nor the recorded finding)')
                if known is not None:
                    known.append('[%s] %s' % (kinds, e))
            P0 = P
        near(P[:, z], P0[:, z], 'probability at 0 K')
        O = np.broadcast_to(i['O'].astype(LD), (n, m))
        near(A[0, z], (O * P0).sum(axis=0)[z], 'ensemble average at 0 K', at=1e-12 * np.abs(O).max())
    each(i, UKINDS, f)


# ------------------------------------------------------------------ C09 - C12

def c09(i, known):
    def f(kinds, i, r):
        n, m = len(i['E']), len(i['T'])
        p = build1(kinds, i)
        W = arr(p.calc_part_func_w(i['T']), (n, m), 'calc_part_func_w')
        V = arr(p.calc_part_func_v(i['T']), (n, m), 'calc_part_func_v')
        for j in range(m):
            if not (i['T'][j] > 0 and np.isfinite(i['T'][j])):
                continue
            near(W[:, j], r.w(kinds, r.beta[j]), 'W at T=%r' % float(i['T'][j]))
            near(V[:, j], r.v(kinds, r.beta[j]), 'V at T=%r' % float(i['T'][j]))
    each(i, ['e', 'c', 'q', 'r'], f)


def c10(i, known):
    def f(kinds, i, r):
        m = len(i['T'])
        C = arr(sup(kinds, i).calc_heat_capacity(i['T']), (1, m), 'heat capacity')[0]
        C0, s = r.heat(kinds)
        t = i['T'] > 0
        near(C[t], C0[t], 'heat capacity', at=heat_tol(s[t]))
    each(i, UKINDS, f)


def one_min(i, a):
    j = dict(i)
    for k in ('E', 'g', 'nu', 'sg', 'I', 'O'):
        j[k] = i[k][a:a + 1]
    return j


def c11(i, known):
    def f(kinds, i, r):
        kinds = kinds.replace('u', 'r')
        m = len(i['T'])
        C = arr(sup(kinds, i).calc_heat_capacity(i['T']), (1, m), 'heat capacity')[0]
        _, s = r.heat(kinds)
        need(np.isfinite(C).all(), 'heat capacity is not finite')
        need((C >= -heat_tol(s)).all(), 'negative heat capacity %s' % C.min())
        j = one_min(i, len(i['E']) - 1)
        rj = Ref(j)
        if not rj.representable(kinds):
            return
        C1 = arr(sup(kinds, j).calc_heat_capacity(i['T']), (1, m), 'heat capacity')[0]
        D = j['nu'].shape[1]
        eq = D * kinds.count('c') + 1.5 * kinds.count('r')
        _, s = rj.heat(kinds)
        if 'q' in kinds:
            need((C1 - eq >= -heat_tol(s)).all() and (C1 - eq <= D + heat_tol(s)).all(),
                 'quantum vibrations of one minimum contribute a heat capacity outside [0, D]')
            want = rj.heat(kinds)[0]
            near(C1, want, 'heat capacity of one minimum', at=heat_tol(s))
        else:
            near(C1, np.full(m, LD(eq)), 'heat capacity of one minimum', at=heat_tol(s))
    each(i, None, f)


def c12(i, known):
    def f(kinds, i, r):
        n, m = len(i['E']), len(i['T'])
        x = sup(kinds, i)
        T = i['T']
        P = arr(x.calc_probability(T), (n, m), 'probability')

        def avg(o, what):
            a = arr(x.calc_ensemble_average(T, o), (1, m), what)[0]
            return a
        O = i['O']
        full = np.broadcast_to(O.astype(LD), (n, m))
        near(avg(O, 'ensemble average'), (full * P).sum(axis=0), 'ensemble average', at=1e-12 * (np.abs(full) * P).sum(axis=0))
        col = O[:, :1].astype(float)
        near(avg(col, 'ensemble average of a column'), (col.astype(LD) * P).sum(axis=0), 'ensemble average of a column',
             at=1e-12 * (np.abs(col) * P).sum(axis=0))
        for shape in ((n, m), (n, 1)):
            pat = np.add.outer(np.arange(n), np.arange(shape[1]))
            for o in (pat % 3 != 1, pat % 4 > 0, pat * 7 - 11, (pat % 5).astype(np.int8), (pat % 5).astype(np.uint8), (pat - .5).astype(np.float32),
                      (pat - .5).astype(np.float16), (np.cos(pat)).astype(LD), np.asfortranarray(np.cos(pat)), np.cos(pat)[::-1]):
                near(avg(o, 'typed'), (o.astype(LD) * P).sum(axis=0), 'ensemble average of an observable of type %s' % o.dtype,
                     at=1e-12 * (1 + np.abs(o.astype(LD)).max()))
        near(avg(np.full((n, m), 3.25), 'constant'), np.full(m, 3.25), 'ensemble average of a constant')
        near(avg(np.full((n, 1), -2), 'constant'), np.full(m, -2.), 'ensemble average of a constant integer column')
        a = avg(O.astype(float), 'bounds')
        tol = 1e-9 * np.abs(full).max()
        need((a <= full.max(axis=0) + tol).all() and (a >= full.min(axis=0) - tol).all(), 'ensemble average outside the range')
        o2 = np.cos(np.arange(n * m)).reshape(n, m)
        near(avg(full.astype(float) * 2 - 3 * o2, 'linear'), 2 * a - 3 * avg(o2, 'linear'), 'linearity of the ensemble average',
             at=1e-9 * (1 + np.abs(full).max()))
        dead = P == 0
        if dead.any():
            for bad in (np.nan, np.inf, -np.inf):
                o3 = np.where(dead, bad, full.astype(float))
                near(avg(o3, 'undefined'), np.where(dead, 0, full * P).sum(axis=0),
                     'ensemble average with %r where the probability is zero' % bad, at=1e-12 * np.abs(full).max())
        Q = P.astype(float)
        live = Q > 1e-290
        with np.errstate(all='ignore'):
            o4 = np.where(live, 1 / np.where(live, Q, 1), 0)
        near(avg(o4, 'reciprocal'), live.sum(axis=0), 'ensemble average of the reciprocal of the probability')
        for big in (1e280, 1e-280):
            near(avg(o2 * big, 'scaled') / LD(big), (o2 * P).sum(axis=0), 'ensemble average of an observable scaled by %g' % big,
                 at=1e-12 + 1e-30)
        for bad in (np.inf, -np.inf, np.nan):
            a0 = n // 2
            o5 = full.astype(float).copy()
            o5[a0] = bad
            got = avg(o5, 'infinite')
            hit = P[a0] > LD('1e-250')
            need(np.isnan(got[hit]).all() if bad != bad else (got[hit] == bad).all(),
                 'ensemble average of an observable that is %r in a populated minimum is finite' % bad)
    each(i, ['e', 'c', 'q', 'r', 'ecr', 'eqr', 'er', 'u', 'eu'], f)


# ------------------------------------------------------------------ C13 - C16

def queries(x, i):
    return [x.calc_partition_functions(i['T']), x.calc_probability(i['T']), x.calc_heat_capacity(i['T']),
            x.calc_ensemble_average(i['T'], i['O'])]


QN = ('partition functions', 'probability', 'heat capacity', 'ensemble average')


def qtol(i, r, kinds, Z=None):
    s = r.heat(kinds)[1]
    return [LD('1e-4800') if Z is None else TINY * Z.astype(LD).max(axis=0), TINY, heat_tol(s), 1e-12 * (1 + np.abs(i['O'].astype(LD)).max())]


def c13(i, known):
    def f(kinds, i, r):
        n, m = len(i['E']), len(i['T'])
        x = sup(kinds, i)
        ref = [a.astype(LD) for a in queries(x, i)]
        tol = qtol(i, r, kinds, ref[0])
        rng = np.random.default_rng(7)

        def same(sel, what, T=None, fresh=False):
            j = cols(i, sel)
            if T is not None:
                j['T'] = T
            y = sup(kinds, j) if fresh else x
            for nm, a, b, t in zip(QN, queries(y, j), ref, tol):
                b = b[:, sel]
                t = t[sel] if np.ndim(t) == 1 else t
                near(arr(a, b.shape, nm), b, '%s %s' % (nm, what), at=t)
        for j in range(min(m, 6)):
            same(np.array([j]), 'at T=%r alone and among others' % float(i['T'][j]))
        if i['T'].dtype.kind == 'f':
            for fac in ((1 + 5e-6,), (1 - 3e-9,), (1.0003,), (1 - 4e-6,))[m % 4]:
                j = cols(i, np.arange(m))
                j['T'] = i['T'] * fac
                rj = Ref(j)
                if not rj.ok_columns(kinds).all():
                    continue
                fresh = [a.astype(LD) for a in queries(sup(kinds, j), j)]
                tj = qtol(j, rj, kinds, fresh[0])
                for nm, a, b, t in zip(QN, queries(x, j), fresh, tj):
                    near(a, b, nm + ' at temperatures close to those of an earlier query',
                         rt=LD('1e-12') if nm == 'partition functions' else LD('1e-11'), at=t)
        perm = rng.permutation(m)
        same(perm, 'after reordering the temperatures')
        same(np.concatenate([perm, perm[:1], [0]]), 'with repeated temperatures', fresh=True)
        if m > 1:
            same(np.arange(m)[1:], 'without the first temperature')
            same(np.arange(m)[:-1], 'without the last temperature', fresh=True)
        # other temperatures added
        big = cols(i, np.concatenate([np.arange(m), np.arange(m)]))
        extra = np.resize(np.array([0., 431.7, 2500., 300.]), m)
        if 'q' in kinds:
            extra = np.full(m, float(i['T'].max()) + 10)
        big['T'] = np.concatenate([i['T'].astype(float), extra])
        for nm, a, b, t in zip(QN, queries(x, big), ref, tol):
            near(a[:, :m], b, nm + ' when other temperatures are added', at=t)
        if (i['T'] == np.round(i['T'])).all() and (i['T'] < 1e9).all():
            same(np.arange(m), 'for an integer temperature array', T=i['T'].astype('int64'))
            same(np.arange(m), 'for a float temperature array', T=i['T'].astype(float))
            same(np.arange(m), 'for a 32-bit integer temperature array', T=i['T'].astype('int32'))
    each(i, UKINDS, f, few=True)


def permute(i, p):
    j = dict(i)
    for k in ('E', 'g', 'nu', 'sg', 'I', 'O'):
        j[k] = i[k][p]
    return j


def c14(i, known):
    def f(kinds, i, r):
        n, m = len(i['E']), len(i['T'])
        _, P, C, A = [a.astype(LD) for a in queries(sup(kinds, i), i)]
        tol = qtol(i, r, kinds)
        perms = [np.arange(n)[::-1], np.roll(np.arange(n), 1), np.random.default_rng(3).permutation(n)]
        order = np.argsort(i['E'], kind='stable')
        perms += [order, order[::-1]]
        for p in perms:
            _, P2, C2, A2 = queries(sup(kinds, permute(i, p)), permute(i, p))
            near(arr(P2, (n, m), 'probability'), P[p], 'probability after relabelling the minima')
            near(arr(C2, (1, m), 'heat capacity'), C, 'heat capacity after relabelling the minima', at=tol[2][None, :])
            near(arr(A2, (1, m), 'average'), A, 'ensemble average after relabelling the minima', at=tol[3])
        dup = permute(i, np.concatenate([np.arange(n), [n - 1]]))
        P3 = sup(kinds, dup).calc_probability(i['T'])
        near(P3[n], P3[n - 1], 'probability of two identical minima')
    each(i, UKINDS, f, few=True)


def snap(i):
    return {k: (v.tobytes(), v.dtype, v.shape) for k, v in i.items() if isinstance(v, np.ndarray)}


def c15(i, known):
    def f(kinds, i, r):
        i = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in i.items()}
        n, m = len(i['E']), len(i['T'])
        before = snap(i)

        def frozen(what):
            after = snap(i)
            bad = [k for k in before if before[k] != after[k]]
            need(not bad, '%s modified the input array(s) %s' % (what, bad))
        i2 = dict(i)
        i2['T'] = (i['T'] * 0 + i['T'].max() + np.arange(m) + 5).astype(i['T'].dtype)
        ref = [a.copy() for a in queries(sup(kinds, i), i)]
        frozen('a first round of queries')
        refU = [a.copy() for a in queries(sup(kinds, i2), i2)]
        tol = qtol(i, r, kinds, ref[0])
        tolU = qtol(i2, Ref(i2), kinds, refU[0])

        def same(res, ref, tol, what):
            for nm, a, b, t in zip(QN, res, ref, tol):
                t = t[None, :] if np.ndim(t) == 1 else t
                near(arr(a, b.shape, nm), b.astype(LD), '%s %s' % (nm, what), at=t)
        ps = [build1(k, i) for k in kinds]
        x, other = sp.SuperpositionApproximation(), sp.SuperpositionApproximation()
        for p in ps:
            x.add_partition_functions(p)
        res = queries(x, i)
        keep = [a.copy() for a in res]
        same(res, ref, tol, 'in a first query')
        same(queries(x, i2), refU, tolU, 'for other temperatures after a query')
        if i['T'].dtype.kind == 'f':
            for fac in ((1 + 5e-6, 1 - 3e-9), (1 + 4e-13, 1 + 5e-6), (1.0003, 1 + 5e-6))[m % 3]:
                i3 = dict(i, T=i['T'] * fac)
                r3 = Ref(i3)
                if r3.ok_columns(kinds).all():
                    y = sup(kinds, i)
                    queries(y, i)
                    want = [a.astype(LD) for a in queries(sup(kinds, i3), i3)]
                    for nm, a, b in zip(QN, queries(y, i3), want):
                        need(np.array_equal(arr(a, b.shape, nm), b, equal_nan=True), '%s at temperatures close to those of an earlier query differs from a fresh superposition' % nm)
        same(res, keep, tol, 'returned earlier, changed by a later query')
        for a in queries(x, i):
            a[...] = 7
        same(queries(x, i), ref, tol, 'after the caller changed earlier results')
        other.add_partition_functions(ps)
        other.add_partition_functions(build1(kinds[0], i))
        queries(other, i2)
        for p in ps:
            for meth in ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v'):
                a = getattr(p, meth)(i['T'])
                a[...] = 3
        same(queries(x, i), ref, tol, 'after the use of another superposition')
        for q in range(4):                       # each query first
            y = sup(kinds, i)
            one = queries(y, i)[q] if q == 0 else [lambda: y.calc_probability(i['T']), lambda: y.calc_heat_capacity(i['T']),
                                                   lambda: y.calc_ensemble_average(i['T'], i['O'])][q - 1]()
            t = tol[q]
            near(one, ref[q].astype(LD), QN[q] + ' when asked for first', at=t[None, :] if np.ndim(t) == 1 else t)
        buf = i2['T'].copy()
        y = sup(kinds, i)
        queries(y, dict(i2, T=buf))
        buf[...] = i['T']
        same(queries(y, dict(i, T=buf)), ref, tol, 'for a temperature array refilled in place')
        y = sp.SuperpositionApproximation()
        y.add_partition_functions(ps[0])
        first = [a.copy() for a in queries(sup(kinds[:1], i), i)]
        r0 = qtol(i, r, kinds[:1], first[0])
        got = queries(y, i)
        for p in ps[1:]:
            y.add_partition_functions(p)
            if p is not ps[-1]:
                queries(y, i)
        same(got, first, r0, 'returned before a later addition')
        same(queries(y, i), ref, tol, 'after a later addition')
        frozen('building and querying')
        # contributions that hand out arrays of their own
        for sel in (ps[:1], ps):
            own = [StoredPF(p, i['T']) for p in sel]
            y = sp.SuperpositionApproximation()
            for p in own:
                y.add_partition_functions(p)
            want = ref if sel is ps else first
            got = queries(y, i)
            same(got, want, tol if sel is ps else r0, 'with contributions that return stored arrays')
            same(queries(y, i), want, tol if sel is ps else r0, 'repeated with contributions that return stored arrays')
            for p in own:
                need(p.intact(), 'a query modified an array that belongs to a contribution')
            for a in got:
                a[...] = 5
            for p in own:
                need(p.intact(), 'a result shares memory with an array that belongs to a contribution')
        # read-only inputs are enough
        ro = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in i.items()}
        for v in ro.values():
            if isinstance(v, np.ndarray):
                v.flags.writeable = False
        same(queries(sup(kinds, ro), ro), ref, tol, 'for read-only inputs')
        same(queries(sup(kinds, i), i), ref, tol, 'at the end')
    each(i, UKINDS, f, few=True)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def c16(i, known):
    T, O = i['T'], i['O']
    for prep in (lambda x: None, lambda x: x.add_partition_functions([]), lambda x: x.add_partition_functions(())):
        x = sp.SuperpositionApproximation()
        prep(x)
        for nm, q in zip(QN, (lambda: x.calc_partition_functions(T), lambda: x.calc_probability(T), lambda: x.calc_heat_capacity(T),
                              lambda: x.calc_ensemble_average(T, O))):
            try:
                a = quiet(q)
            except Exception as e:
                raise Fail('%s of an empty superposition raised %s: %s' % (nm, type(e).__name__, e))
            need(a is None, '%s of an empty superposition is not None' % nm)
        # asking first changes nothing
        x.add_partition_functions(build1('r', i))
        for nm, a in zip(QN, queries(x, i)):
            need(isinstance(a, np.ndarray), '%s after adding to a queried empty superposition is %r' % (nm, a))

    def f(kinds, i, r):
        for nm, a in zip(QN, queries(sup(kinds, i), i)):
            need(isinstance(a, np.ndarray), '%s with contributions returned %s' % (nm, type(a).__name__))
        low = dict(i, T=np.array([1e-3, 1e-9, 1e-300, 0., 5e-324]))
        low['O'] = np.ones((len(i['E']), 1))
        huge = dict(i, T=np.array([1e30, 1e300, np.inf, np.nan, -5.]), O=low['O'])
        for j in (low, huge):
            for nm, a in zip(QN, quiet(lambda: queries(sup(kinds, j), j))):
                need(a is not None, '%s at extreme temperatures returned None' % nm)
        n, m = len(i['E']), len(i['T'])
        for bad in (None, 'a', [], np.array([]), np.ones((0, 1)), {}, np.array(['x'] * n)[:, None]):
            try:
                a = quiet(lambda: sup(kinds, i).calc_ensemble_average(i['T'], bad))
            except Exception:
                continue
            need(a is not None, 'ensemble average of an invalid observable (%s) returned None' % type(bad).__name__)
        for sh in ((n + 1, m), (n, m + 1), (n + 2, 1), (1, m), (n,), (m,), (n + 1,), (1, 1), (n, m, 1)):
            try:
                a = quiet(lambda: sup(kinds, i).calc_ensemble_average(i['T'], np.ones(sh)))
            except Exception:
                continue
            need(a is not None, 'ensemble average of an observable of shape %s for %d minima and %d temperatures returned None' % (sh, n, m))
    each(i, UKINDS, f, few=True)
    n = len(i['E'])
    i2 = permute(i, np.concatenate([np.arange(n), np.arange(n), [0]]))
    if n > 1:
        for kinds in ('er', 'ec', 'cr', 'qr', 'eq', 're'):
            x = sp.SuperpositionApproximation()
            x.add_partition_functions(build1(kinds[0], i))
            x.add_partition_functions(build1(kinds[1], i2))
            for nm, q in zip(QN, (lambda: x.calc_partition_functions(T), lambda: x.calc_probability(T),
                                  lambda: x.calc_heat_capacity(T), lambda: x.calc_ensemble_average(T, O))):
                try:
                    a = quiet(q)
                except Exception:
                    continue
                need(a is not None, '%s of inconsistent contributions [%s] returned None' % (nm, kinds))
    for bad in (None, 'a', np.array(['x', 'y']), [], np.array([]), {}):
        for kinds in ('e', 'c', 'q', 'r'):
            x = sup(kinds, i)
            for q in (lambda: x.calc_partition_functions(bad), lambda: x.calc_probability(bad), lambda: x.calc_heat_capacity(bad),
                      lambda: x.calc_ensemble_average(bad, O)):
                try:
                    a = quiet(q)
                except Exception:
                    continue
                need(a is not None, 'an invalid temperature argument (%r) gave None' % (bad,))


# ------------------------------------------------------------------ C22 - C24

def c22(i, known):
    T, E = i['T'], i['E']
    r = Ref(i)
    try:
        b = ut.calc_beta(T)
        ex = ut.calc_exponent(E, T)
        st = ut.calc_exponent(i['nu'][:, :, None] - i['nu'].mean(), T)
        sq = ut.calc_exponent(np.where(np.arange(i['nu'].size).reshape(i['nu'].shape) % 3 == 0, 0, i['nu'])[:, :, None], T)
        gm = ut.calc_geometric_mean(i['nu'].astype(float) if i['nu'].dtype.kind == 'i' else i['nu'])
        zr = i['nu'].astype(float).copy()
        zr[0, -1] = 0
        gz = ut.calc_geometric_mean(zr)
    except Exception as e:
        raise Fail('raised %s: %s' % (type(e).__name__, e))
    near(arr(b, T.shape, 'calc_beta'), r.beta, 'calc_beta', rt=LD('1e-12'))

    def expo(e):
        e = e.astype(LD)
        with np.errstate(all='ignore'):
            return np.where(e == 0, LD(0), e * r.beta[None, :])
    near(arr(ex, (E.size, T.size), 'calc_exponent'), expo(E[:, None]), 'calc_exponent', rt=LD('1e-12'))
    n, d = i['nu'].shape
    near(arr(st, (n, d, T.size), 'calc_exponent'), expo((i['nu'] - i['nu'].mean())[:, :, None]), 'calc_exponent (stacked)', rt=LD('1e-12'))
    near(arr(sq, (n, d, T.size), 'calc_exponent'),
         expo(np.where(np.arange(i['nu'].size).reshape(i['nu'].shape) % 3 == 0, 0, i['nu'])[:, :, None]), 'calc_exponent (stacked, zeros)',
         rt=LD('1e-12'))
    want = np.exp(np.log(i['nu'].astype(LD)).mean(axis=1))
    near(arr(gm, (n,), 'calc_geometric_mean'), want, 'calc_geometric_mean', rt=LD('1e-12'))
    with np.errstate(all='ignore'):
        want = np.exp(np.log(zr.astype(LD)).mean(axis=1))
    need(gz[0] == 0, 'geometric mean of a row with a zero is %r' % gz[0])
    near(gz[1:], want[1:], 'calc_geometric_mean of the other rows', rt=LD('1e-12'))
    base = i['nu'].astype(float)
    vals = [('scaled by %g' % f, base * f) for f in (1e-15, 1e-13, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e100, 1e-100, 1e-280, 1e280)]
    mixed = base.copy()
    mixed[:, 0] = 1e-14
    vals.append(('with one tiny entry', mixed))
    mixed = base.copy()
    mixed[-1, :] = 1e-300
    mixed[0, 0] = 1e300
    vals.append(('with extreme entries', mixed))
    vals.append(('with many columns', np.tile(base, (1, 400 // d + 1))))
    vals.append(('repeated', np.tile(base[:, :1], (1, 700))))
    for what, v in vals:
        got = ut.calc_geometric_mean(v)
        near(arr(got, (n,), 'calc_geometric_mean'), np.exp(np.log(v.astype(LD)).mean(axis=1)), 'calc_geometric_mean of a matrix ' + what,
             rt=LD('1e-11'), at=0)


def c23(i, known):
    """Temperatures scaled down to the limit of the budget."""
    n, d = i['nu'].shape
    S = 0.5 * 4.135667696e-3 * i['nu'].astype(float).sum(axis=1).max() / 8.617333262145e-5
    if S <= 0:
        return
    # the smallest T with sum x <= 11000, and multiples
    t0 = S / 10990.
    T = np.array([t0, 1.2 * t0, 2 * t0, 5 * t0, 9 * t0, 14.9 * t0, 20 * t0, 60 * t0, 1.01 * t0])
    i = dict(i, T=T, O=np.arange(n * 9.).reshape(n, 9))

    def f(kinds, i, r):
        n, m = len(i['E']), len(i['T'])
        x = sup(kinds, i)
        P = arr(x.calc_probability(i['T']), (n, m), 'probability')
        C = arr(x.calc_heat_capacity(i['T']), (1, m), 'heat capacity')
        need(np.isfinite(P).all(), 'probabilities not finite at T=%s K' % i['T'][~np.isfinite(P).all(axis=0)][:1])
        need(np.isfinite(C).all(), 'heat capacity not finite at T=%s K' % i['T'][~np.isfinite(C)[0]][:1])
        near(P.sum(axis=0), np.ones(m), 'sum of the probabilities')
        near(P, r.prob(kinds), 'probability')
        C0, s = r.heat(kinds)
        near(C[0], C0, 'heat capacity', at=heat_tol(s))
    each(i, ['q', 'eq', 'qr', 'eqr'], f)


def c24(i, known):
    cmp = ut.compare_numpy_dictionaries
    a = {'e': i['E'].astype(float) + 0.5, 'nu': i['nu'].astype(LD), 'I': i['I'], 't': i['T']}

    def ask(x, y, want, what):
        for p, q in ((x, y), (y, x)):
            try:
                got = cmp(p, q)
            except Exception as e:
                raise Fail('comparing %s raised %s: %s' % (what, type(e).__name__, e))
            need(bool(got) == want, 'comparing %s gave %r' % (what, got))
    cp = lambda: {k: v.copy() for k, v in a.items()}
    ask(a, cp(), True, 'a dictionary with an equal copy')
    ask(a, dict(reversed(list(cp().items()))), True, 'a dictionary with an equal copy in another order')
    ask({}, {}, True, 'two empty dictionaries')
    ask({}, cp(), False, 'with an empty dictionary')
    b = cp()
    b['e'] = b['e'] * (1 + 1e-13)
    ask(a, b, True, 'arrays that agree within rounding')
    for k in a:
        b = cp()
        del b[k]
        ask(a, b, False, 'dictionaries with different keys')
        b['other'] = a[k]
        ask(a, b, False, 'dictionaries with one key renamed')
        for pos in (0, -1, a[k].size // 2):
            b = cp()
            v = b[k].astype(LD).ravel()
            v[pos] = v[pos] * 1.5 + 1
            b[k] = v.reshape(b[k].shape)
            ask(a, b, False, 'arrays that differ in one element')
            v[pos] = -v[pos]
            b[k] = v.reshape(b[k].shape)
            ask(a, b, False, 'arrays that differ in the sign of one element')
        for v in (a[k][None], a[k][..., None], np.stack([a[k], a[k]])):
            b = cp()
            b[k] = v.copy()
            ask(a, b, False, 'arrays of shapes %r and %r' % (a[k].shape, v.shape))
        b = cp()
        b[k] = np.concatenate([a[k], a[k][:1]])
        ask(a, b, False, 'arrays of different lengths')
        b = cp()
        b[k] = a[k][:0]
        ask(a, b, False, 'with an empty array')
        b = cp()
        b[k] = a[k].ravel()[:1]
        if a[k].shape != (1,):
            ask(a, b, False, 'with an array of one element')
    for bad in (np.nan, np.inf, -np.inf):
        b = cp()
        b['e'][0] = bad
        ask(a, b, False, 'a finite array with one holding %r' % bad)
    ask({'e': np.array([np.nan, 1.])}, {'e': np.array([np.nan, 1.])}, False, 'arrays holding nan (no agreement within a tolerance)')
    ask({'e': np.array([np.inf, 1.])}, {'e': np.array([-np.inf, 1.])}, False, 'infinities of opposite sign')
    for big, small in ((1e7, 1e-3), (3e5, 0.1), (1e12, 1e-6)):
        for shape in ((4,), (1, 4), (2, 2), (4, 1), (1, 2, 2)):
            v = np.array([small, 2., big, 1.]).reshape(shape)
            w = v.copy()
            w.flat[0] *= 2.5
            ask({'e': v}, {'e': w}, False, 'arrays of mixed magnitude')
            ask({'e': v, 'f': -v}, {'e': v.copy(), 'f': -w}, False, 'arrays of mixed magnitude')
    for k1, k2 in ((1, '1'), ('a', 'A'), ('a', 'a '), ('a', ''), (None, 'None'), ((1, 2), '(1, 2)'), ('a', ('a',)), ('Ab', 'ab'), (1, 2), (True, 'True')):
        ask({k1: np.ones(2)}, {k2: np.ones(2)}, False, 'the keys %r and %r' % (k1, k2))
        ask({k1: np.ones(2), 'z': np.zeros(3)}, {k1: np.ones(2), 'z': np.zeros(3)}, True, 'equal dictionaries with the key %r' % (k1,))
        ask({k1: np.ones(2), k2: np.zeros(3)}, {k2: np.ones(2), k1: np.zeros(3)}, False, 'arrays under exchanged keys')
    for n, pre in ((1, 'k' * 80), (2, 'a long key of several words '), (10, 'k'), (40, 'a long key of several words '), (200, 'k'), (17, 'k' * 40)):
        many = {pre + '%d' % k: np.full(2, k + 1.) for k in range(n)}
        ask(many, dict(many), True, 'equal dictionaries of %d arrays' % n)
        for k in (0, n // 2, n - 1):
            ask(many, {q: v for q, v in many.items() if q != pre + '%d' % k}, False, 'dictionaries of %d arrays, one of them missing' % n)
            ask(many, dict(many, **{pre + '%d' % k: np.full(2, .5)}), False, 'dictionaries of %d arrays that differ in one' % n)
    c = {'e': np.full(5, 2.0)}
    ask(c, {'e': np.array([2.0])}, False, 'a constant array with an array of one element')
    ask(c, {'e': np.array(2.0)}, False, 'a constant array with a 0-d array')
    ask({'e': np.ones((3, 1))}, {'e': np.ones((1, 3))}, False, 'a column and a row')
    ask({'e': np.ones((2, 3))}, {'e': np.ones((3, 2))}, False, 'transposed shapes')
    ask({'e': np.ones(6)}, {'e': np.ones((2, 3))}, False, 'reshaped arrays')
    ask({'a': np.arange(3.), 'b': np.arange(4.)}, {'a': np.arange(3.), 'b': np.arange(4.) + 1}, False, 'a difference under the last key')
    ask({'a': np.arange(3.), 'b': np.arange(4.)}, {'a': np.arange(3.) + 1, 'b': np.arange(4.)}, False, 'a difference under the first key')
    ask({'a': np.arange(3)}, {'a': np.arange(3.)}, True, 'equal arrays of integers and floats')
    ask({'a': np.zeros((0,))}, {'a': np.zeros((0,))}, True, 'equal empty arrays')
