"""C23: magnitude bounds of every intermediate of the quantum contribution.

Every floating-point array the code creates, every assignment into an array and every operand of a
product or a division is recorded while the real code is executed symbolically.  For the value v of
an element the calculus below derives ln|v| <= up (and, where needed, ln|v| >= low) from

    x = h nu / (2 k_B T) > 0,  s = ln(2 sinh x),  sum over the modes of |s| <= B = 11000,
    0 < x - max(s, 0) <= asinh(1/2),   every input magnitude within e^-50 .. e^50,

and compares it with the range of the array's own precision."""
import math

import numpy as np

from vc import core as C, symnp as S, terms as tm, loader as L
from vc.core import pv, gt, eq, neg
from vc.terms import R, lift, ZERO, ONE, Unsupported, app
from .base import Syms, Spec, at, under, dim

INFTY = math.inf
B = 11000.          # budget of one minimum
LB = 50.            # inputs and sizes
DMAX = 200.         # modes of one minimum, where a per-mode constant accumulates
GAP = math.asinh(.5)
LIMIT = {2: 11., 4: 88., 8: 708., 12: 11354., 16: 11354.}


class Unknown(Unsupported):
    pass


class Ranges:
    """Bounds under context c; special: atom id -> (low, up) of declared arrays."""

    def __init__(self, c, cx, special=None, sums=None):
        self.c = c
        self.special = special or {}     # app name -> (low, up)
        self.sums = sums or {}           # app name -> low of the sum over the minima
        self.cx = cx                     # x = cx nu / T
        self.memo = {}

    # -- values
    def bound(self, r):
        """(low, up) of ln|r|."""
        got = self.memo.get(r.id)
        if got is None:
            got = self.memo[r.id] = self._bound(r)
        return got

    def _bound(self, r):
        k = r.const()
        if k is not None:
            return (-INFTY, -INFTY) if k == 0 else (math.log(abs(k)),) * 2
        if len(r.t) == 1:
            return self.mono(r)
        common, rest = factor(r)
        if common is not None:
            f = self.form_of_poly(rest)
            g = self.form(common)
            if f is not None:
                g.add(f, 1.)
                return self.close(g)
        parts = [self.mono(tm.mk({m: c})) for m, c in r.t.items()]
        up = max(p[1] for p in parts) + math.log(len(parts))
        low = -INFTY
        pos = [self.c.sign(tm.mk({m: c})) for m, c in r.t.items()]
        if all(p in ('+', '0+') for p in pos) or all(p in ('-', '0-') for p in pos):
            low = max(p[0] for p in parts)
        else:
            f = self.form_of_poly(r)
            if f is not None:
                lo, hi = self.close(f)
                low, up = max(low, lo), min(up, hi)
        return low, up

    def mono(self, r):
        f = self.form(r)
        return self.close(f)

    # -- linear forms: modes {key: (p, q)}, sums {key: (p, q)} over the modes, interval [lo, hi]
    def form(self, r):
        (m, coef), = r.t.items()
        out = Form(math.log(abs(coef)))
        atoms, ex = m
        if ex is not None:
            self.exponent(ex, out)
        atoms = self.shares(list(atoms), out)
        for a, e in atoms:
            e = float(e)
            self.atom(a, e, out)
        return out

    def shares(self, atoms, out):
        """Z_i / sum of Z, directly or inside a sum over the minima: at most 1."""
        for a, e in atoms:
            if a.kind != 'sum' or e >= 0 or e != int(e):
                continue
            n, body, bn = a.data
            if len(body.t) != 1:
                continue
            (bm, bc), = body.t.items()
            if bm[1] is not None or len(bm[0]) != 1 or bm[0][0][1] != 1 or bm[0][0][0].kind != 'app' or bc != 1:
                continue
            z = bm[0][0][0]
            for b, f in atoms:
                if b.kind == 'app' and b.data[0] == z.data[0] and f >= 1 and matches(b, z, bn):
                    rest = [(x, g) for x, g in atoms if x is not a and x is not b]
                    rest += [(a, e + 1)] if e != -1 else []
                    rest += [(b, f - 1)] if f != 1 else []
                    out.lo, out.hi = -INFTY, out.hi
                    return self.shares(rest, out)
                if b.kind == 'sum' and f >= 1 and b is not a and any(q.kind == 'app' and q.data[0] == z.data[0]
                                                                    for mm in b.data[1].t for q, _ in mm[0]):
                    m2, body2, bn2 = b.data
                    v = C.new_index(m2)
                    share = tm.subst(body2, {bn2: v}) * tm.of_atom(a, -1)
                    out.basic(-INFTY, self.bound(share)[1] + LB, 1)
                    rest = [(x, g) for x, g in atoms if x is not a and x is not b]
                    rest += [(a, e + 1)] if e != -1 else []
                    rest += [(b, f - 1)] if f != 1 else []
                    return self.shares(rest, out)
        return atoms

    def atom(self, a, e, out):
        k = a.kind
        if k == 'app':
            nm = a.data[0]
            if nm in self.special:
                lo, up = self.special[nm]
            else:
                lo, up = -LB, LB
            out.basic(lo, up, e)
        elif k == 'poly':
            f = self.form_of_poly(a.data)
            if f is not None:
                out.add(f, e)
            else:
                lo, up = self.bound(a.data)
                out.basic(lo, up, e)
        elif k == 'sum':
            n, body, bn = a.data
            if e < 0:
                lo = self.low_sum(a)
                up = self.bound(body)[1] + LB
                out.basic(lo, up, e)
            else:
                out.basic(self.low_sum(a), self.bound(body)[1] + LB, e)
        elif k == 'prod':
            n, body, bn = a.data
            if len(body.t) != 1:
                g = self.form_of_poly(body)
                if g is None:
                    raise Unknown('product of ' + str(body)[:100])
            else:
                g = self.form(body)
            if g.rest or g.sums:
                raise Unknown('nested product')
            if len(g.modes) > 1:
                raise Unknown('product over several modes')
            for key, (p, q) in g.modes.items():
                out.summed(('all', n.id), p * e, q * e)
            if g.lo or g.hi:
                m = DMAX if n.const() is None else float(n.const())
                x = [g.lo * e * m, g.hi * e * m]
                out.lo += min(x)
                out.hi += max(x)
        elif k == 'min':
            n, body, bn = a.data
            lo, up = self.bound(body)
            out.basic(-INFTY, up, e)
        elif k == 'ite':
            c, x, y = a.data
            bs = [Ranges.bound(self, z) for z in (x, y)]
            out.basic(min(b[0] for b in bs), max(b[1] for b in bs), e)
        elif k == 'ind':
            out.basic(-INFTY, 0., e)
        elif k == 'var':
            out.basic(-INFTY, LB, e)
        elif k == 'fn' and a.data[0] == 'log':
            lo, up = self.bound(a.data[1][0])
            out.basic(-INFTY, math.log(max(abs(lo), abs(up), 1.)), e)
        elif k == 'fn' and a.data[0] == 'abs':
            lo, up = self.bound(a.data[1][0])
            out.basic(lo, up, e)
        else:
            raise Unknown('no magnitude for ' + k)

    def low_sum(self, a):
        """Lower bound of ln of a sum of non-negative terms over the minima: the declared one."""
        n, body, bn = a.data
        for m in body.t:
            for x, e in m[0]:
                if x.kind == 'app' and x.data[0] in self.sums and e == 1 and len(body.t) == 1 and len(m[0]) == 1 and m[1] is None:
                    return self.sums[x.data[0]] + math.log(abs(body.t[m]))
        if self.c.sign(body_at(a)) in ('+',):
            v = C.new_index(n)
            return self.bound(tm.subst(body, {bn: v}))[0]
        return -INFTY

    def mode(self, m):
        """(key, multiple of x) when the monomial (without coefficient) is nu/T."""
        atoms, ex = m
        if ex is not None or len(atoms) != 2:
            return None
        d = {a.data[0]: (a, e) for a, e in atoms if a.kind == 'app'}
        if set(d) == {'nu', 'T'} and d['nu'][1] == 1 and d['T'][1] == -1:
            return (d['nu'][0].id, d['T'][0].id)
        return None

    def exponent(self, ex, out):
        rest = ZERO
        for m, c in ex.t.items():
            key = self.mode(m)
            if key is not None:
                out.mode(key, float(c) / self.cx, 0.)
                continue
            s = [x for x in m[0] if x[0].kind == 'sum']
            if len(s) == 1 and s[0][1] == 1 and m[1] is None:
                n, body, bn = s[0][0].data
                others = [x for x in m[0] if x[0] is not s[0][0]]
                full = body
                for x, e in others:
                    full = full * tm.of_atom(x, e)
                if len(full.t) == 1:
                    (fm, fc), = full.t.items()
                    if self.mode(fm) is not None:
                        out.summed(('all', n.id), float(c * fc) / self.cx, 0.)
                        continue
            rest = rest + tm.mk({m: c})
        if rest.t:
            sg = self.c.sign(rest)
            if sg == '0':
                return
            if sg in ('-', '0-'):
                out.lo = -INFTY
            elif sg in ('+', '0+'):
                out.hi = INFTY
            else:
                out.lo, out.hi = -INFTY, INFTY

    def form_of_poly(self, p):
        """A polynomial in exp(x) of one mode: leading power times a bounded factor, or 2 sinh."""
        terms = {}
        key = None
        for m, c in p.t.items():
            if m[0]:
                return None
            e = 0.
            if m[1] is not None:
                if len(m[1].t) != 1:
                    return None
                (em, ec), = m[1].t.items()
                k = self.mode(em)
                if k is None or key not in (None, k):
                    return None
                key = k
                e = float(ec) / self.cx
            terms[e] = float(c)
        if key is None or len(terms) < 2:
            return None
        es = sorted(terms)
        out = Form(0.)
        top = terms[es[-1]]
        if all(v > 0 for v in terms.values()) or all(v < 0 for v in terms.values()):
            out.mode(key, es[-1], 0.)
            out.lo += math.log(abs(top))
            out.hi += math.log(sum(abs(v) for v in terms.values()))
            return out
        if len(es) == 2 and abs(terms[es[0]] + top) < 1e-12 * abs(top) and abs((es[1] - es[0]) - 2.) < 1e-9:
            # c (exp(a x) - exp((a - 2) x)) = c exp((a - 1) x) 2 sinh x
            out.mode(key, es[1] - 1., 1.)
            out.lo += math.log(abs(top))
            out.hi += math.log(abs(top))
            return out
        return None

    def close(self, f):
        """Interval of a form."""
        lo, hi = f.lo, f.hi
        s0 = 2 * LB + 10.
        for p, q in f.modes.values():
            p, q = clean(p), clean(q)
            up = max((p + q) * B, 0.) + max(p, 0.) * GAP
            dn = min((p + q) * B, 0.) + min(p, 0.) * GAP
            hi += max(up, -q * s0 + max(p, 0.) * GAP)
            lo += min(dn, -q * s0 + min(p, 0.) * GAP)
        for p, q in f.sums.values():
            p, q = clean(p), clean(q)
            hi += max(p + q, -q, 0.) * B + max(p, 0.) * GAP * DMAX
            lo += min(p + q, -q, 0.) * B + min(p, 0.) * GAP * DMAX
        return lo, hi


def factor(r):
    """(common monomial, rest) or (None, r)."""
    ms = [dict((a.id, (a, e)) for a, e in m[0]) for m in r.t]
    common = {}
    for i, (a, e) in ms[0].items():
        es = [m[i][1] if i in m else 0 for m in ms]
        k = min(es) if all(x > 0 for x in es) else max(es) if all(x < 0 for x in es) else 0
        if k:
            common[i] = (a, k)
    if not common:
        return None, r
    rest = {}
    for m, c in r.t.items():
        at_ = tuple((a, e - common[a.id][1]) if a.id in common else (a, e) for a, e in m[0])
        rest[(tuple(x for x in at_ if x[1] != 0), m[1])] = c
    return tm.mk({(tuple(common.values()), None): next(iter(rest.values())) * 0 + 1}), tm.mk(rest)


def clean(p):
    return 0. if abs(p) < 1e-9 else p


class Form:
    def __init__(self, c):
        self.lo = self.hi = c
        self.modes = {}
        self.sums = {}
        self.rest = False

    def mode(self, key, p, q):
        a, b = self.modes.get(key, (0., 0.))
        self.modes[key] = (a + p, b + q)

    def summed(self, key, p, q):
        a, b = self.sums.get(key, (0., 0.))
        self.sums[key] = (a + p, b + q)

    def basic(self, lo, up, e):
        x = [mul(lo, e), mul(up, e)]
        self.lo += min(x)
        self.hi += max(x)

    def add(self, f, e):
        self.basic(f.lo, f.hi, e)
        for k, (p, q) in f.modes.items():
            self.mode(k, p * e, q * e)
        for k, (p, q) in f.sums.items():
            self.summed(k, p * e, q * e)


def mul(a, e):
    return 0. if e == 0 else a * e


def body_at(a):
    n, body, bn = a.data
    return tm.subst(body, {bn: C.new_index(n)})


def matches(b, z, bn):
    """Is b the summand z at some index?"""
    for x, y in zip(b.data[1], z.data[1]):
        if x is not y and not (y.single() is not None and len(y.single()[1][0]) == 1 and y.single()[1][0][0][0].data == bn):
            return False
    return True


# ---------------------------------------------------------------- recording

class Recorder:
    def __enter__(self):
        self.arrays, self.divisors, self.products = [], [], []
        self.old = (S.new, S.reduction, S.assign, S.RANGE[0])
        new, red, asg, _ = self.old

        def new_(shape, elem, dtype, name=None):
            a = new(shape, elem, dtype, name)
            if a.dtype.kind == 'f' and name is None:
                self.arrays.append(('array', a.dtype, a.buf.elem0 if hasattr(a.buf, 'elem0') else elem, a.shp))
            return a

        def red_(kind, a, axis=None, *args, **kw):
            if kind == 'prod' and axis is not None:
                q = S.asarr(a)
                if q.dtype.kind == 'f':
                    self.products.append((q.dtype, q.reader(), q.shp, S._axes(axis, q.ndim)))
            return red(kind, a, axis, *args, **kw)

        def asg_(view, v, *args, **kw):
            if view.dtype.kind == 'f' and v.dtype.kind == 'f' and view.dtype.itemsize < v.dtype.itemsize:
                self.arrays.append(('assignment', view.dtype, v.reader(), v.shp))
            return asg(view, v, *args, **kw)

        def op(u, dt, rs, ss, shp, val, odt):
            if dt.kind == 'f' and shp is not None:
                self.arrays.append((u.name, min(dt, odt, key=lambda x: x.itemsize) if odt.kind == 'f' else dt, val, shp))
            if u.name in ('divide', 'true_divide', 'floor_divide', 'reciprocal'):
                self.divisors.append((dt, rs[-1], ss[-1]))
        S.new, S.reduction, S.assign, S.RANGE[0] = new_, red_, asg_, op
        return self

    def __exit__(self, *a):
        S.new, S.reduction, S.assign, S.RANGE[0] = self.old

    def take(self):
        return list(self.arrays), list(self.divisors), list(self.products)


def indices(shp, s, i, j):
    """The generic index of an array: minimum i, temperature j, any mode."""
    out = [[]]
    for n in shp:
        k = n.const()
        if n is s.N:
            opts = [i]
        elif n is s.M:
            opts = [j]
        elif k is not None and k <= 4:
            opts = [lift(q) for q in range(int(k))]
        else:
            opts = [C.new_index(n)]
        out = [o + [x] for o in out for x in opts]
    return out


def leaves(c, f, idx, lits):
    """Finite values of an element in the feasible cases."""
    p = under(c, lambda: f(tuple(idx)), lits)
    cc = c.child(list(lits)) if lits else c
    for g, l in p.cases:
        if g and not cc.feasible(g):
            continue
        l = C.num(l)
        if isinstance(l, R):
            yield (cc.child(g) if g else cc), l


def at_fixed_row(l):
    for m in l.t:
        for a in [a for a, _ in m[0]]:
            if a.kind == 'app' and a.data[1] and a.data[1][0].const() is not None:
                return True
            if any(at_fixed_row(k) for k in C._kids(a)):
                return True
        if m[1] is not None and at_fixed_row(m[1]):
            return True
    return False


def within(led, name, c, rec, s, i, j, cx, lits, argmin=None, special=None, sums=None):
    """Clauses: arrays and products below overflow, divisors (and, at argmin, positive results) above underflow."""
    arrays, divisors, products = rec
    worst = {}
    why = {}

    def judge(what, ok, text):
        if not ok and what not in why:
            why[what] = text
        worst[what] = worst.get(what, True) and ok

    def each(f, shp, ls):
        for idx in indices(shp, s, i, j):
            for cc, l in leaves(c, f, idx, ls):
                yield Ranges(cc, cx, special, sums), cc, l
    for _, dt, f, shp in arrays:
        for rg, cc, l in each(f, shp, lits):
            lo, up = rg.bound(l)
            judge('no overflow', up <= LIMIT[dt.itemsize], '%s value up to e^%.0f: %s' % (dt, up, str(l)[:200]))
            if not up <= LIMIT[dt.itemsize] and VERBOSE:
                print('OVER', dt, shp, up, str(l)[:300])
    for dt, f, shp in divisors:
        for rg, cc, l in each(f, shp, lits):
            lo, up = rg.bound(l)
            judge('no divisor vanishes', lo >= -LIMIT[dt.itemsize], '%s divisor down to e^%.0f: %s' % (dt, lo, str(l)[:200]))
            if not lo >= -LIMIT[dt.itemsize] and VERBOSE:
                print('UNDER', dt, shp, lo, str(l)[:300])
    for dt, f, shp, axes in products:
        for idx in indices(shp, s, i, j):
            up = 0.
            one = [k for k in axes]
            if all(shp[k].const() is not None for k in one):
                continue        # judged through the running products below
            for cc, l in leaves(c, f, idx, lits):
                rg = Ranges(cc, cx, special, sums)
                if len(l.t) != 1:
                    form = rg.form_of_poly(l)
                    if form is None:
                        raise Unknown('factor ' + str(l)[:100])
                else:
                    form = rg.form(l)
                tot = Form(0.)
                for p, q in form.modes.values():
                    tot.summed('x', p, q)
                lo, hi = rg.close(tot)
                hi += max(form.hi, 0.) * DMAX
                lo += min(form.lo, 0.) * DMAX
                judge('no partial product overflows', hi <= LIMIT[dt.itemsize], '%s product up to e^%.0f of %s' % (dt, hi, str(l)[:200]))
                judge('no partial product vanishes', lo >= -LIMIT[dt.itemsize], '%s product down to e^%.0f of %s' % (dt, lo, str(l)[:200]))
    for dt, f, shp, axes in products:
        if not all(shp[k].const() is not None for k in axes):
            continue
        if len(axes) != 1:
            raise Unknown('product over several axes')
        n = int(shp[axes[0]].const())
        ext = [x for k, x in enumerate(shp) if k != axes[0]]
        for idx in indices(ext, s, i, j):
            ups, lows = 0., 0.
            for k in range(n):
                full = list(idx)
                full.insert(axes[0], lift(k))
                for ls, low in ((lits, False),) + (((argmin, True),) if argmin else ()):
                    bs = [Ranges(cc, cx, special, sums).bound(l) for cc, l in leaves(c, f, full, ls)]
                    if not bs:
                        continue
                    if low:
                        lows += min(0., min(b[0] for b in bs))
                    else:
                        ups += max(0., max(b[1] for b in bs))
            judge('no partial product overflows', ups <= LIMIT[dt.itemsize], '%s product of %d factors up to e^%.0f' % (dt, n, ups))
            if argmin:
                judge('no partial product vanishes', lows >= -LIMIT[dt.itemsize], '%s product of %d factors down to e^%.0f' % (dt, n, lows))
    if argmin:
        for _, dt, f, shp in arrays:
            for rg, cc, l in each(f, shp, argmin):
                other = [n for n in l.fv if n in C.INDEX and C.INDEX[n] is C.INDEX[C.varname(i)] and not n.startswith('argmin')]
                if len(other) == 1 and C.varname(i) not in l.fv:
                    l = tm.subst(l, {other[0]: i})      # the generic iteration of a loop over the minima
                    rg = Ranges(cc, cx, special, sums)
                if cc.sign(l) != '+' or C.varname(i) not in l.fv and at_fixed_row(l):
                    continue        # a value of the first row alone, which need not be the lowest minimum
                lo, up = rg.bound(l)
                judge('the weight of the lowest minimum does not vanish', lo >= -LIMIT[dt.itemsize],
                      '%s value down to e^%.0f: %s' % (dt, lo, str(l)[:200]))
                if not lo >= -LIMIT[dt.itemsize] and VERBOSE:
                    print('LOW', dt, shp, lo, str(l)[:300])
    for what in sorted(worst):
        n = '%s: %s' % (name, what)
        if worst[what]:
            led.ok(n, True)
        else:
            # an upper bound that is too large is no proof of an overflow
            led.unsupported(n, Unknown(why[what]))


VERBOSE = False
TOP = B + 6 * LB               # weights, as promised to the ensemble averages
TOP_D = {'w': 290., 'v': 500.}
KINDS = ('q', 'e', 'r', 'eq', 'qe', 'eqr', 'rqe')


def cx_of(w, s):
    sp = Spec(w, s)
    return float(sp.h / (2 * sp.kb))


def c23(led):
    from .numeric import sup, build, idxs, pos_T, touch, ALLM, SUPC, SUPP, abstract_pf
    s = Syms()
    i, j = idxs(s)
    touch(led, 'eqr', ALLM, SUPC)
    lits = pos_T(s, j)
    low = gt(app('E', [i]) - Spec(L.World(), s).Emin())
    argmin = lits + ([neg(low)] if not isinstance(low, bool) else [])

    def weights(kinds):
        def f():
            with Recorder() as r:
                w = L.World()
                out = build(w, kinds, s).calc_part_func(s.T()) if len(kinds) == 1 else sup(w, kinds, s).calc_partition_functions(s.T())
                return out, r.take(), cx_of(w, s)
        for c, (out, rec, cx) in led.run('weights[%s]' % kinds, f):
            led.finite('weights[%s] are finite' % kinds, c, at(c, out, (i, j)), ('+', '0+'), lits)
            within(led, 'weights[%s]' % kinds, c, rec, s, i, j, cx, lits, argmin)
            for ls, what in ((lits, 'upper'), (argmin, 'lower')):
                for cc, l in leaves(c, out.elem, (i, j), ls):
                    b = Ranges(cc, cx).bound(l)
                    n = 'weights[%s]: the %s bound promised to the ensemble averages' % (kinds, what)
                    if (b[1] <= TOP) if what == 'upper' else (b[0] >= -TOP):
                        led.ok(n, True)
                    else:
                        led.unsupported(n, Unknown('%s to %s: %s' % (*b, str(l)[:200])))
            led.ok('weights[%s] are kept in extended precision' % kinds, 'q' not in kinds or out.dtype.itemsize >= 12, str(out.dtype),
                   led._cands(c, ()))
    for kinds in KINDS:
        led.guard('weights[%s]' % kinds, lambda kinds=kinds: weights(kinds))

    def derivatives(kind, m):
        def f():
            with Recorder() as r:
                w = L.World()
                out = getattr(build(w, kind, s), m)(s.T())
                return out, r.take(), cx_of(w, s)
        name = '%s[%s]' % (m, kind)
        for c, (out, rec, cx) in led.run(name, f):
            led.finite(name + ' is finite', c, at(c, out, (i, j)), None, lits)
            for cc, l in leaves(c, out.elem, (i, j), lits):
                b = Ranges(cc, cx).bound(l)
                n = name + ': the bound promised to the ensemble averages'
                if b[1] <= TOP_D[m[-1]] - 2.:
                    led.ok(n, True)
                else:
                    led.unsupported(n, Unknown('up to %s: %s' % (b[1], str(l)[:200])))
            within(led, name, c, rec, s, i, j, cx, lits)
    for kind in 'eqr':
        for m in ('calc_part_func_w', 'calc_part_func_v'):
            led.guard('%s[%s]' % (m, kind), lambda kind=kind, m=m: derivatives(kind, m))

    def ensemble(method):
        """Over the contract of the weights: any weights in that range, any derivatives in range of the inputs."""
        C.DOMSIGN['Z'] = '0+'

        def f():
            with Recorder() as r:
                w = L.World()

                class Any(w.partitionfunctions.PartitionFunction):
                    def calc_part_func(self, T):
                        return S.new((s.N, s.M), lambda x: pv(app('Z', list(x))), 'longdouble', 'Z')

                    def calc_part_func_w(self, T):
                        return S.new((s.N, s.M), lambda x: pv(app('W', list(x))), 'longdouble', 'W')

                    def calc_part_func_v(self, T):
                        return S.new((s.N, s.M), lambda x: pv(app('V', list(x))), 'longdouble', 'V')
                x = w.superpositions.SuperpositionApproximation()
                x.add_partition_functions(Any())
                return getattr(x, method)(s.T()), r.take(), cx_of(w, s)
        v = C.new_index(s.N)
        base = gt(tm.bigsum(v, s.N, app('Z', [v, j])))
        for c, (out, rec, cx) in led.run(method, f, [] if isinstance(base, bool) else [base]):
            row = (i, j) if method == 'calc_probability' else (ZERO, j)
            led.finite(method + ' is finite', c, at(c, out, row), None, lits)
            within(led, method, c, rec, s, i, j, cx, lits, None, {'Z': (-INFTY, TOP), 'W': (-INFTY, TOP_D['w']), 'V': (-INFTY, TOP_D['v'])},
                   {'Z': -TOP})
    for m in ('calc_probability', 'calc_heat_capacity'):
        led.guard(m, lambda m=m: ensemble(m))
