"""Inputs, documented formulas and the obligation ledger shared by all contracts."""
import signal
import time
import traceback
from fractions import Fraction

from vc import core as C, symnp as S, terms as tm, loader as L
from vc.core import PV, pv, gt, eq, neg, lift_op, INF, NAN
from vc.terms import R, lift, ZERO, ONE, Unsupported, app, exp

KB_REF = Fraction('8.617333262145e-5')
H_REF = Fraction('4.135667696e-3')

ELEC, VIB, ROT = ('', 'e'), ('', 'c', 'q'), ('', 'r')
ALL = [a + b + c for a in ELEC for b in VIB for c in ROT if a + b + c]


def dim(name):
    v = tm.var(name, 'int')
    C.VARSIGN[name] = '+'
    return v


class Syms:
    """Universally quantified inputs.  `dt` maps input names to an integer dtype variant;
    `rows` permutes / replaces the row index function (used for relabelled inputs)."""

    def __init__(self, N=None, M=None, D=None, dt=None, tname='T', inf=False, shift=None):
        self.N = dim('N') if N is None else lift(N)
        self.M = dim('M') if M is None else lift(M)
        self.D = dim('D') if D is None else lift(D)
        self.dt = dt or {}
        self.tname = tname
        self.inf = inf
        self.shift = shift
        for n, s in (('g', '+'), (tname, '0+'), ('nu', '+'), ('sg', '+'), ('I', '0+')):
            C.DOMSIGN[n] = s
        self.bufs = {}

    def arr(self, name, shape, f=None):
        a = S.new(shape, lambda idx: pv(app(name, list(idx))) if f is None else f(idx), self.dt.get(name, 'float64'), name)
        self.bufs[name] = (a, a.buf.version if hasattr(a.buf, 'version') else 0)
        return a

    def E(self):
        if self.shift is None:
            return self.arr('E', (self.N,))
        return self.arr('E', (self.N,), lambda idx: pv(app('E', list(idx)) + self.shift))

    def g(self):
        return self.arr('g', (self.N,))

    def nu(self):
        return self.arr('nu', (self.N, self.D))

    def sg(self):
        return self.arr('sg', (self.N,))

    def I(self):
        return self.arr('I', (self.N, lift(3)))

    def Tval(self, idx):
        """Temperature value (a PV) at a column."""
        t = app(self.tname, list(idx))
        if not self.inf:
            return pv(t)
        b = C.bsym(self.tname + 'inf', *idx)
        return PV([(frozenset([b]), INF), (frozenset([neg(b)]), t)])

    def T(self):
        return self.arr(self.tname, (self.M,), self.Tval)


def build(w, kind, s):
    pf = w.partitionfunctions
    if kind == 'e':
        return pf.ElectronicPF(s.E(), s.g())
    if kind == 'c':
        return pf.ClassicalHarmonicPF(s.nu())
    if kind == 'q':
        return pf.QuantumHarmonicPF(s.nu())
    return pf.RotationalPF(s.sg(), s.I())


def sup(w, kinds, s):
    x = w.superpositions.SuperpositionApproximation()
    for k in kinds:
        x.add_partition_functions(build(w, k, s))
    return x


# ---------------------------------------------------------------- documented formulas

class Spec:
    """The documented partition functions as terms."""

    def __init__(self, w, s):
        self.s = s
        self.kb = const_of(w, 'utils', 'KB', KB_REF)
        self.h = const_of(w, 'partitionfunctions', 'H', H_REF)
        self.w = w

    def Emin(self):
        v = C.new_index(self.s.N)
        return tm.bigmin(v, self.s.N, app('E', [v]))

    def Erel(self, a):
        return app('E', [a]) - self.Emin()

    def beta(self, T):
        return (lift(self.kb) * T).inv()

    def x(self, a, d, beta):
        return lift(self.h / 2) * app('nu', [a, d]) * beta

    def lnZ(self, kind, a, beta):
        """ln of the documented partition function (kind, minimum a) at inverse temperature beta,
        up to terms independent of beta and of the minimum."""
        s = self.s
        if kind == 'e':
            return tm.log(app('g', [a])) - beta * self.Erel(a)
        if kind == 'c':
            v = C.new_index(s.D)
            return -tm.bigsum(v, s.D, tm.log(lift(self.h) * beta * app('nu', [a, v])))
        if kind == 'q':
            v = C.new_index(s.D)
            x = self.x(a, v, beta)
            return -tm.bigsum(v, s.D, x + tm.log(ONE - exp(-2 * x)))
        return self.rot_lnw(a) - tm.log(beta) * lift(Fraction(3, 2))

    def moment(self, a, k):
        i = app('I', [a, lift(k)])
        l = eq(i)
        if isinstance(l, bool):
            return ONE if l else i
        return tm.ite(l, ONE, i)

    def rot_weight(self, a):
        p = ONE
        for k in range(3):
            p = p * self.moment(a, k)
        return tm.rpow(p, Fraction(1, 2)) * app('sg', [a]).inv()

    def rot_lnw(self, a):
        return tm.log(self.rot_weight(a))

    def weight(self, kind, a, beta):
        """Weight up to a factor common to all minima (T > 0)."""
        s = self.s
        if kind == 'e':
            return app('g', [a]) * exp(-beta * self.Erel(a))
        if kind == 'c':
            v = C.new_index(s.D)
            return tm.bigprod(v, s.D, app('nu', [a, v])).inv()
        if kind == 'q':
            v = C.new_index(s.D)
            x = self.x(a, v, beta)
            return tm.bigprod(v, s.D, exp(-x) * (ONE - exp(-2 * x)).inv())
        return self.rot_weight(a)

    def total(self, kinds, a, beta):
        p = ONE
        for k in kinds:
            p = p * self.weight(k, a, beta)
        return p

    def prob(self, kinds, a, beta):
        v = C.new_index(self.s.N)
        return self.total(kinds, a, beta) * tm.bigsum(v, self.s.N, self.total(kinds, v, beta)).inv()

    def prob0(self, kinds, a, known=False):
        """T -> 0 limit of the occupation probability for compositions without quantum modes
        (with `known`, the recorded behaviour of the code for compositions with them)."""
        def w(b):
            p = ONE
            for k in kinds:
                if k == 'e':
                    l = eq(self.Erel(b))
                    i = ONE if l is True else ZERO if l is False else tm.ind(l)
                    p = p * app('g', [b]) * i
                elif k != 'q':
                    p = p * self.weight(k, b, None)
            return p
        v = C.new_index(self.s.N)
        return w(a) * tm.bigsum(v, self.s.N, w(v)).inv()

    def wlog(self, kind, a, beta):
        """beta d ln Z / d beta."""
        return beta * dbeta(lambda b: self.lnZ(kind, a, b), beta, 1)

    def vlog(self, kind, a, beta):
        return beta * beta * dbeta(lambda b: self.lnZ(kind, a, b), beta, 2)


def dbeta(f, beta, order):
    C.VARSIGN['beta'] = '+'
    b = tm.var('beta')
    t = f(b)
    for _ in range(order):
        t = tm.diff(t, 'beta')
    return tm.subst(t, {'beta': beta})


def const_of(w, mod, name, ref):
    try:
        v = getattr(getattr(w, mod), name, None)
        x = S.exact_of(v)
    except Exception:
        return ref
    if x is not None and abs(x - ref) <= ref * Fraction(1, 10 ** 9):
        return x
    return ref


# ---------------------------------------------------------------- abstract contributions

def abstract_pf(w, N, name='Z'):
    """Any implementation of the PartitionFunction contract: each method returns a fresh
    (N, M) array whose column j is a function of T_j only; nothing else is read or written."""
    base = w.partitionfunctions.PartitionFunction

    class AbstractPF(base):
        def __init__(self, k):
            self.k = lift(k)

        def _call(self, fname, temperature):
            if not isinstance(temperature, S.SymArray) or temperature.ndim != 1:
                raise Unsupported('contribution called with something else than a 1-D array')
            rd = temperature.reader()
            m = temperature.shp[0]
            k = self.k

            def elem(idx):
                def f(t):
                    if not isinstance(t, R):
                        raise Unsupported('contribution evaluated at a special temperature')
                    return app(fname, [k, idx[0], t])
                return lift_op(f, rd((idx[1],)))
            return S.new((N, m), elem, 'float64')

        def calc_part_func(self, temperature):
            return self._call(name, temperature)

        def calc_part_func_w(self, temperature):
            return self._call(name + 'w', temperature)

        def calc_part_func_v(self, temperature):
            return self._call(name + 'v', temperature)

        def vc_subst(self, m):
            return AbstractPF(tm.subst(self.k, m))
    return AbstractPF


# ---------------------------------------------------------------- obligations

class Ob:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'    # proved | failed | unsupported
        self.detail = ''
        self.time = 0.0
        self.backend = 'term normal form'
        self.cands = []           # candidate failing inputs from the solver's model


class OutOfTime(Unsupported):
    pass


def _alarm(signum, frame):
    raise OutOfTime('time budget')


class Ledger:
    """The obligations of one property.  With shards > 1 the independent groups (guard calls) are
    dealt out to that many processes."""

    def __init__(self, pid, shard=0, shards=1, limit=None, deadline=None):
        self.pid = pid
        self.shard, self.shards, self.count = shard, shards, 0
        self.limit, self.deadline = limit, deadline
        self.obs = []
        self.functions = set()
        self.notes = []
        self.paths = 0
        self.known = []

    def ok(self, name, cond, detail='', cands=()):
        o = Ob(name)
        if not cond:
            o.status = 'failed'
            o.detail = detail
            o.cands = list(cands)
        self.obs.append(o)
        return o

    def run(self, name, fn, base=(), expect_raise=False):
        """All paths of fn; a path that raises is a failed obligation (unless expected)."""
        out = []
        t0 = time.time()
        try:
            res = S.Explorer(base).run(fn)
        except Unsupported as e:
            self.unsupported(name, e)
            return out
        self.paths += len(res)
        for c, (kind, v) in res:
            if kind == 'raise' and not expect_raise:
                o = self.ok(name + ': no exception', False, '%s: %s' % (type(v).__name__, str(v)[:300]))
                o.tb = ''.join(traceback.format_exception(v))[-1500:]
                o.cands = self._cands(c, frozenset())
                continue
            out.append((c, kind, v) if expect_raise else (c, v))
        return out

    def unsupported(self, name, e):
        o = Ob(name)
        o.status = 'unsupported'
        o.detail = str(e)[:300]
        self.obs.append(o)
        return o

    def _cands(self, c, guards):
        return [(c, frozenset(guards))]

    def guard(self, name, fn):
        """Run a checking step; engine limits become 'unsupported' obligations."""
        self.count += 1
        if self.count % self.shards != self.shard:
            return
        t0 = time.time()
        n = len(self.obs)
        self.case = None        # how this step is run on the real code (command line, drawing call)
        left = None
        if self.limit:
            left = self.limit
            if self.deadline:
                left = min(left, self.deadline - t0)
            if left <= 0:
                self.unsupported(name, Unsupported('time budget of the run used up'))
                return
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, left, 1.0)
        try:
            try:
                fn()
            finally:
                if left is not None:
                    signal.setitimer(signal.ITIMER_REAL, 0)
        except Unsupported as e:
            self.unsupported(name, e)
        except RecursionError:
            self.unsupported(name, Unsupported('recursion limit'))
        except Exception as e:      # an engine defect is never a verdict
            o = self.unsupported(name, Unsupported('engine: %s: %s' % (type(e).__name__, e)))
            o.tb = traceback.format_exc()[-1500:]
        C.set_ctx(C.root_ctx())
        for o in self.obs[n:]:
            o.case = self.case
            o.time = (time.time() - t0) / max(1, len(self.obs) - n)

    # -- clauses
    def equal(self, name, c, got, want, lits=()):
        """got == want in context c (plus lits) in every case."""
        q0 = C.stats.z3_queries
        old = C.set_ctx(c.child(list(lits)) if lits else c)
        try:
            cc = C.ctx()
            want = pv(want)
            n = 0
            for g1, l1 in got.cases:
                for g2, l2 in want.cases:
                    g = g1 | g2
                    if g and not cc.feasible(g):
                        continue
                    n += 1
                    l1, l2 = C.num(l1), C.num(l2)
                    if l1 is l2:
                        continue
                    cg = cc.child(g) if g else cc
                    if isinstance(l1, R) and isinstance(l2, R) and C.with_lits(list(g), lambda: cg.prove_zero(l1 - l2)):
                        continue
                    o = self.ok(name, False, 'case %s: got %s, specified %s' % (
                        show_guard(g), str(l1)[:700], str(l2)[:700]), self._cands(cc, g))
                    o.pair = (cc, g, l1, l2)
                    return o
            if not n:
                return self.ok(name, False, 'vacuous: no feasible case')
            o = self.ok(name, True)
            if C.stats.z3_queries > q0:
                o.backend = 'term normal form + z3'
            return o
        finally:
            C.set_ctx(old)

    def finite(self, name, c, got, sign=None, lits=()):
        """Every feasible case is a finite real (of the given sign)."""
        old = C.set_ctx(c.child(list(lits)) if lits else c)
        try:
            cc = C.ctx()
            n = 0
            for g, l in got.cases:
                if g and not cc.feasible(g):
                    continue
                n += 1
                l = C.num(l)
                bad = not isinstance(l, R)
                if not bad and sign:
                    bad = (cc.child(g) if g else cc).sign(l) not in sign
                if bad:
                    o = self.ok(name, False, 'case %s: value %s' % (show_guard(g), str(l)[:700]), self._cands(cc, g))
                    want = 'any' if not sign else '0+' if '0+' in sign and '+' in sign else '+' if '+' in sign else 'any'
                    o.pair = (cc, g, l, want)
                    return o
            return self.ok(name, n > 0, 'vacuous')
        finally:
            C.set_ctx(old)

    def shape(self, name, c, a, dims):
        old = C.set_ctx(c)
        try:
            if not isinstance(a, S.SymArray):
                return self.ok(name, False, 'not an array: %s' % type(a).__name__, self._cands(c, ()))
            if len(a.shp) != len(dims):
                return self.ok(name, False, 'rank %d, specified %d' % (len(a.shp), len(dims)), self._cands(c, ()))
            for x, y in zip(a.shp, dims):
                if not c.prove_zero(x - lift(y)):
                    return self.ok(name, False, 'shape %r' % (a.shp,), self._cands(c, ()))
            return self.ok(name, True)
        finally:
            C.set_ctx(old)

    @property
    def failed(self):
        return [o for o in self.obs if o.status == 'failed']

    @property
    def unsup(self):
        return [o for o in self.obs if o.status == 'unsupported']


def show_guard(g):
    return ' and '.join(('' if p else 'not ') + '(%r)' % c for c, p in sorted(g, key=lambda l: l[0].id))[:600] or 'always'


def reset():
    C.reset_caches()


def at(c, a, idx):
    """Element of an array in context c."""
    old = C.set_ctx(c)
    try:
        return a.elem(tuple(lift(i) for i in idx))
    finally:
        C.set_ctx(old)


def under(c, f, lits=()):
    old = C.set_ctx(c.child(list(lits)) if lits else c)
    try:
        return f()
    finally:
        C.set_ctx(old)
