"""Concrete inputs for failed obligations: models of the failing case from z3, and random
interpretations of the input symbols under which both sides of the failed clause are evaluated."""
import itertools
import random
from fractions import Fraction

import mpmath
import z3

from vc import core as C, terms as tm
from vc.core import Special
from vc.terms import R, app, lift, Unsupported

DIMS = {'N': (1, 5), 'M': (1, 5), 'D': (1, 4), 'K': (1, 3), 'P': (1, 2)}
ARR = {'E': ('N',), 'g': ('N',), 'nu': ('N', 'D'), 'sg': ('N',), 'I': ('N', 3), 'T': ('M',), 'O': ('N', 'M')}


class Env(dict):
    """Random interpretation; functions are memoised on their arguments."""

    def __init__(self, rng, dims=None):
        super().__init__()
        self.rng = rng
        self.tables = {}
        self.dims = dims or {}
        self.profile = rng.randrange(4)

    def copy_of(self):
        """The same interpretation with room for values of bound variables."""
        e = Env(self.rng, self.dims)
        e.tables, e.profile = self.tables, self.profile
        e.update(self)
        e.base = self
        return e

    base = None

    def __missing__(self, k):
        if self.base is not None:
            v = self.base[k]
            self[k] = v
            return v
        v = self.draw(k)
        self[k] = v
        return v

    def draw(self, k):
        r = self.rng
        if k.startswith('@'):
            return lambda *a: self.value(k[1:], tuple(str(mpmath.nstr(x, 20)) for x in a))
        if k in DIMS:
            return self.dims.get(k) or r.randint(*DIMS[k])
        if k in C.INDEX:
            n = int(tm.evalf(C.INDEX[k], self, mpmath.mp))
            return r.randrange(max(1, n))
        s = C.VARSIGN.get(k)
        x = mpmath.mpf(r.randint(1, 4000)) / 16
        return x if s in ('+', '0+') else x if r.random() < .5 else -x

    def value(self, name, args):
        t = self.tables.setdefault(name, {})
        if args not in t:
            t[args] = self.sample(name)
        return t[args]

    def sample(self, name):
        r = self.rng
        if name.endswith('inf'):
            return r.random() < .3
        if name in ('T', 'U'):
            return mpmath.mpf(0) if r.random() < .25 else mpmath.mpf(r.randint(40, 16000)) / 16
        if name == 'E':
            return mpmath.mpf(r.randint(-8, 8)) / (4 if self.profile == 0 else 64)
        if name == 'g':
            return mpmath.mpf(r.randint(1, 4))
        if name == 'nu':
            return mpmath.mpf(r.randint(8, 400)) / 8
        if name == 'sg':
            return mpmath.mpf(r.randint(1, 12))
        if name == 'I':
            return mpmath.mpf(0) if r.random() < .2 else mpmath.mpf(r.randint(1, 2000)) / 8
        s = C.DOMSIGN.get(name)
        x = mpmath.mpf(r.randint(0 if s == '0+' and r.random() < .3 else 1, 60)) / 8
        return x if s in ('+', '0+') else (x if r.random() < .6 else -x)


def holds(lits, env):
    undefined = None
    for c, p in lits:
        try:
            if bool(c.evalf(env, mpmath.mp)) != p:
                return False
        except (ZeroDivisionError, IndexError) as e:    # no value: another one may be false
            undefined = e
    if undefined is not None:
        raise undefined
    return True


def instance(env):
    """Concrete arrays for the real code from an interpretation."""
    dims = {k: int(env[k]) for k in ('N', 'M', 'D')}

    def table(name):
        shp = [dims.get(d, d) for d in ARR[name]]
        flat = [float(env['@' + name](*[mpmath.mpf(i) for i in ix])) for ix in itertools.product(*[range(n) for n in shp])]
        return {'dtype': 'float64', 'shape': shp, 'data': [x.hex() for x in flat]}
    out = {k: table(k) for k in ARR}
    for k in ('tmin', 'span'):
        if k in env:
            out[k] = float(env[k])
    return out


def numeric(ob, tries=150, want=4, seed=1, deadline=None):
    """('disagree', instance), ('agree', n) or ('unknown', None) for a failed obligation."""
    import time
    rng = random.Random(seed)
    ok = 0
    for (c, g) in ob.cands:
        lits = list(c.lits | frozenset(g))
        for _ in range(tries):
            if deadline and time.time() > deadline:
                break
            env = Env(rng)
            try:
                if not holds(lits, env):
                    continue
                bad = violated(ob, env)
            except (ZeroDivisionError, IndexError, OverflowError, ValueError, Unsupported, KeyError, TypeError, mpmath.libmp.NoConvergence):
                continue
            if bad is None:
                continue
            if bad:
                try:
                    return 'disagree', instance(env)
                except Exception:
                    return 'disagree', None
            ok += 1
            if ok >= want:
                return 'agree', ok
    return ('agree', ok) if ok else ('unknown', None)


def violated(ob, env):
    pair = getattr(ob, 'pair', None)
    if pair is None:
        return True                      # a structural clause: it fails on every input of the path
    _, _, l1, l2 = pair
    if not isinstance(l1, R) or not isinstance(l2, R):
        if isinstance(l2, str):          # sign clause
            return not isinstance(l1, R) or not sign_ok(tm.evalf(l1, env, mpmath.mp), l2)
        return True
    a, b = tm.evalf(l1, env, mpmath.mp), tm.evalf(l2, env, mpmath.mp)
    return abs(a - b) > mpmath.mpf(10) ** -12 * (abs(a) + abs(b)) + mpmath.mpf(10) ** -25


def sign_ok(x, s):
    return {'+': x > 0, '0+': x >= 0, '-': x < 0, '0': x == 0, 'any': True}[s]


# ---------------------------------------------------------------- z3 models

def models(ob, limit=3):
    out = []
    for (c, g) in ob.cands[:2]:
        lits = c.lits | frozenset(g)
        for caps in ((4, 4, 3), (40, 40, 12), (5000, 5000, 200)):
            try:
                Z = C.Z3(c)
                Z.assume(lits)
                small = [z3.Int('N') <= caps[0], z3.Int('M') <= caps[1], z3.Int('D') <= caps[2], z3.Int('N') >= 1, z3.Int('M') >= 1,
                         z3.Int('D') >= 1]
                if Z.check(z3.And(*small), 1500, keep=True) != z3.sat:
                    continue
                out += from_model(Z.last_model)
                break
            except (Unsupported, z3.Z3Exception):
                continue
        if len(out) >= limit:
            break
    return out[:limit * 2]


def val(m, e):
    x = m.eval(e, model_completion=True)
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        x = x.approx(20)
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_int_value(x):
        return float(x.as_long())
    return None


def from_model(m):
    decl = {d.name(): d for d in m.decls()}

    def dim(n, dflt):
        return int(val(m, z3.Int(n))) if n in decl else dflt
    dims = {'N': dim('N', 3), 'M': dim('M', 3), 'D': dim('D', 3)}
    dims = {k: max(1, min(v, 5000 if k != 'D' else 200)) for k, v in dims.items()}
    out = []
    for variant in (0, 1):
        rng = random.Random(variant)
        env = Env(rng, dims)
        inst = {}
        for name, sh in ARR.items():
            shp = [dims.get(d, d) for d in sh]
            d = decl.get('%s/%d' % (name, len(sh)))
            explicit = set()
            if d is not None and variant:
                try:
                    for row in m[d].as_list()[:-1]:
                        explicit.add(tuple(int(val(m, x)) for x in row[:-1]))
                except Exception:
                    pass
            data = []
            for ix in itertools.product(*[range(n) for n in shp]):
                x = None
                if d is not None and (not variant or ix in explicit):
                    x = val(m, d(*[z3.RealVal(i) for i in ix]))
                if x is None or x != x or abs(x) > 1e12:
                    x = float(env.sample(name))
                if name in ('g', 'nu', 'sg') and x <= 0 or name in ('I', 'T') and x < 0:
                    x = float(env.sample(name))
                data.append(float(x).hex())
            inst[name] = {'dtype': 'float64', 'shape': shp, 'data': data}
        out.append(inst)
    return out
