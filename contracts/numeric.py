"""Contracts of partitionfunctions, superpositions and utils, and the properties C01-C16, C22
as postconditions / lemmas over them."""
from fractions import Fraction

from vc import core as C, symnp as S, terms as tm, loader as L
from vc.core import PV, pv, gt, eq, neg, INF, NINF, NAN
from vc.terms import R, lift, ZERO, ONE, Unsupported, app
from .base import (Syms, Spec, ALL, build, sup, abstract_pf, at, under, dim, const_of, KB_REF, Ledger, show_guard)

HALF3 = Fraction(3, 2)
ELECF = ['partitionfunctions.ElectronicPF.__init__', 'partitionfunctions.ElectronicPF.calc_part_func']
FUN = {'e': 'ElectronicPF', 'c': 'ClassicalHarmonicPF', 'q': 'QuantumHarmonicPF', 'r': 'RotationalPF'}


def touch(led, kinds, methods=('calc_part_func',), sup_methods=()):
    for k in kinds:
        led.functions.add('partitionfunctions.%s.__init__' % FUN[k])
        for m in methods:
            led.functions.add('partitionfunctions.%s.%s' % (FUN[k], m))
    if 'e' in kinds or 'q' in kinds:
        led.functions |= {'utils.calc_beta', 'utils.calc_exponent'}
    if 'c' in kinds:
        led.functions.add('utils.calc_geometric_mean')
    for m in sup_methods:
        led.functions.add('superpositions.SuperpositionApproximation.' + m)


SUPZ = ('__init__', 'add_partition_functions', 'combine_contributions', 'calc_partition_functions')
SUPP = SUPZ + ('calc_probability',)
SUPA = SUPP + ('calc_ensemble_average',)
SUPC = SUPA + ('calc_heat_capacity',)
ALLM = ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v')


def idxs(s):
    return C.new_index(s.N, 'i'), C.new_index(s.M, 'j')


def Tj(s, j):
    return app(s.tname, [j])


def pos_T(s, j):
    l = gt(Tj(s, j))
    return [] if l is True else [l]


def zero_T(s, j):
    l = eq(Tj(s, j))
    return [] if l is True else [l]


# ---------------------------------------------------------------- C01

INTS = {k: 'int64' for k in ('E', 'g', 'nu', 'sg', 'I', 'T')}
TYPED = [(k, {}, k) for k in ALL] + [(k, INTS, k + ', integers throughout') for k in ('ecr', 'eqr')]


def c01(led):
    for kinds, dt, tag in TYPED:
        s = Syms(dt=dt)
        i, j = idxs(s)
        touch(led, kinds, sup_methods=SUPP)

        def go(kinds=kinds, tag=tag, s=s, i=i, j=j):
            for c, P in led.run('P[%s]' % tag, lambda: sup(L.World(), kinds, s).calc_probability(s.T())):
                distribution(led, tag, c, P, s, i, j)
        led.guard('P[%s]' % tag, go)
    led.guard('P[any contributions]', lambda: c01_abstract(led))


def distribution(led, tag, c, P, s, i, j, lits=()):
    if not led.shape('P[%s] has one row per minimum, one column per temperature' % tag, c, P, (s.N, s.M)).status == 'proved':
        return
    p = at(c, P, (i, j))
    led.finite('P[%s] entries are finite and >= 0' % tag, c, p, ('+', '0+', '0'), lits)
    tot = under(c, lambda: S.np_sum(P, axis=0).elem((j,)), lits)
    led.equal('columns of P[%s] sum to 1' % tag, c, tot, ONE, lits)


def abstract_sup(w, s, K, name='Z'):
    A = abstract_pf(w, s.N, name)
    x = w.superpositions.SuperpositionApproximation()
    x.add_partition_functions(S.SymSeq(K, lambda k: A(k)))
    return x


def zprod(s, K, a, t, name='Z'):
    v = C.new_index(lift(K))
    return tm.bigprod(v, lift(K), app(name, [v, a, t]))


def zsum(s, K, t, name='Z'):
    v = C.new_index(s.N)
    return tm.bigsum(v, s.N, zprod(s, K, v, t, name))


def abstract_setup(positive=False):
    s = Syms()
    C.DOMSIGN['Z'] = '+' if positive else '0+'
    K = dim('K')
    i, j = idxs(s)
    base = gt(zsum(s, K, Tj(s, j)))
    return s, K, i, j, [] if isinstance(base, bool) else [base]


def c01_abstract(led):
    s, K, i, j, base = abstract_setup()
    for c, P in led.run('P[any contributions]', lambda: abstract_sup(L.World(), s, K).calc_probability(s.T()), base):
        distribution(led, 'any contributions', c, P, s, i, j)


# ---------------------------------------------------------------- C02

def c02(led):
    for tag, dt in (('float', {}), ('integer energies', {'E': 'int64'}), ('integer multiplicities', {'g': 'int64'}),
                    ('integer temperatures', {'T': 'int64'}), ('integers throughout', INTS)):
        s = Syms(dt=dt, inf=not dt)
        i, j = idxs(s)
        touch(led, 'e', sup_methods=SUPP)

        def go(s=s, i=i, j=j, tag=tag, dt=dt):
            w = L.World()
            sp = Spec(w, s)
            for c, P in led.run('P[e] (%s)' % tag, lambda: sup(w, 'e', s).calc_probability(s.T())):
                p = at(c, P, (i, j))
                b = [] if dt else [neg(C.bsym('Tinf', j))]
                led.equal('P[e] is the Boltzmann law for 0 < T < inf (%s)' % tag, c, p,
                          under(c, lambda: sp.prob('e', i, sp.beta(Tj(s, j))), b + pos_T(s, j)), b + pos_T(s, j))
                if not dt:
                    b = [C.bsym('Tinf', j)]
                    led.equal('P[e] is g/sum(g) at infinite T', c, p, under(c, lambda: sp.prob('e', i, ZERO), b), b)
        led.guard('P[e] (%s)' % tag, go)


# ---------------------------------------------------------------- C03

def c03(led):
    cst = tm.var('shift')
    for kinds in [k for k in ALL if 'e' in k]:
        s, s2 = Syms(), Syms(shift=cst)
        i, j = idxs(s)
        touch(led, kinds, ALLM, SUPC)

        def go(kinds=kinds, s=s, s2=s2, i=i, j=j):
            obs = S.new((s.N, s.M), lambda idx: pv(app('O', list(idx))), 'float64')

            def q(x):
                a = sup(L.World(), kinds, x)
                T = x.T()
                return a.calc_probability(T), a.calc_heat_capacity(T), a.calc_ensemble_average(T, obs)
            for c, (r1, r2) in led.run('shifted energies [%s]' % kinds, lambda: (q(s), q(s2))):
                for nm, a, b, ix in (('probabilities', r1[0], r2[0], (i, j)), ('heat capacity', r1[1], r2[1], (ZERO, j)),
                                     ('ensemble average', r1[2], r2[2], (ZERO, j))):
                    x = at(c, a, ix)
                    led.finite('%s [%s] finite' % (nm, kinds), c, x)
                    led.equal('%s [%s] unchanged by a common energy shift' % (nm, kinds), c, at(c, b, ix), x)
        led.guard('shift [%s]' % kinds, go)


# ---------------------------------------------------------------- C04 - C06: weights

def weights(led, kind, title, dts):
    for tag, dt in dts:
        for D in ((None,) if kind == 'r' else (None, 1)):
            s = Syms(dt=dt, D=D)
            i, j = idxs(s)
            k2 = C.new_index(s.N, 'i')
            touch(led, kind, sup_methods=SUPP)

            def go(s=s, i=i, j=j, k2=k2, tag=tag):
                w = L.World()
                sp = Spec(w, s)

                def q():
                    x = sup(w, kind, s)
                    T = s.T()
                    return x.calc_partition_functions(T), x.calc_probability(T)
                lits = pos_T(s, j) if kind == 'q' else []
                for c, (Z, P) in led.run('%s (%s)' % (title, tag), q):
                    led.shape('%s: Z has shape (N, M) (%s)' % (title, tag), c, Z, (s.N, s.M))
                    def wt(a):
                        return under(c, lambda: sp.weight(kind, a, sp.beta(Tj(s, j)) if kind == 'q' else None), lits)
                    za, zb = under(c, lambda: (Z.elem((i, j)), Z.elem((k2, j))), lits)
                    led.finite('%s: weights are finite and positive (%s)' % (title, tag), c, za, ('+',), lits)
                    prod = lambda x, y: under(c, lambda: C.mul(x, pv(y)), lits)
                    led.equal('%s: ratio of the weights of two minima (%s)' % (title, tag), c,
                              prod(za, wt(k2)), prod(zb, wt(i)), lits)
                    pa, pb = under(c, lambda: (P.elem((i, j)), P.elem((k2, j))), lits)
                    led.equal('%s: ratio of the probabilities of two minima (%s)' % (title, tag), c,
                              prod(pa, wt(k2)), prod(pb, wt(i)), lits)
            led.guard('%s (%s)' % (title, tag), go)
    # the same weight inside every composition
    for kinds in [k for k in ALL if kind in k and len(k) > 1]:
        s = Syms()
        i, j = idxs(s)
        touch(led, kinds, sup_methods=SUPZ)

        def go(kinds=kinds, s=s, i=i, j=j):
            w = L.World()
            sp = Spec(w, s)
            rest = kinds.replace(kind, '')
            k2 = C.new_index(s.N, 'i')

            def q():
                T = s.T()
                return sup(w, kinds, s).calc_partition_functions(T), sup(w, rest, s).calc_partition_functions(T)
            for c, (Z, Y) in led.run('%s [%s]' % (title, kinds), q):
                lits = pos_T(s, j)

                def eqn():
                    wt = lambda a: pv(sp.weight(kind, a, sp.beta(Tj(s, j)) if kind == 'q' else None))
                    l = C.mul(C.mul(Z.elem((i, j)), Y.elem((k2, j))), wt(k2))
                    r = C.mul(C.mul(Z.elem((k2, j)), Y.elem((i, j))), wt(i))
                    return l, r
                l, r = under(c, eqn, lits)
                led.equal('%s: ratio with the other contributions factored out [%s]' % (title, kinds), c, l, r, lits)
        led.guard('%s [%s]' % (title, kinds), go)


def c04(led):
    weights(led, 'c', 'classical weight', (('float', {}), ('integer temperatures', {'T': 'int64'}),
                                           ('extended precision', {'nu': 'longdouble'}),
                                           ('integers throughout', INTS)))


def c05(led):
    weights(led, 'q', 'quantum weight', (('float', {}), ('integer temperatures', {'T': 'int64'}),
                                         ('extended precision', {'nu': 'longdouble'}),
                                           ('integers throughout', INTS)))


def c06(led):
    weights(led, 'r', 'rotational weight', (('float', {}), ('integer temperatures', {'T': 'int64'}),
                                            ('integer symmetry orders', {'sg': 'int64'}),
                                            ('integers throughout', INTS)))


# ---------------------------------------------------------------- C07

def c07(led):
    led.functions |= {'superpositions.SuperpositionApproximation.' + m for m in SUPC}
    s, K, i, j, base = abstract_setup()
    t = Tj(s, j)

    def comb(sign=None):
        w = L.World()
        x = abstract_sup(w, s, K)
        T = s.T()
        return (x.calc_partition_functions(T), x.combine_contributions(T, w.np.sum, 'calc_part_func_w'),
                x.combine_contributions(T, w.np.sum, 'calc_part_func_v'))

    def any_k():
        for c, (Z, W, V) in led.run('any number of contributions', comb):
            v = C.new_index(K)
            led.equal('Z is the product over all contributions', c, at(c, Z, (i, j)), zprod(s, K, i, t))
            led.equal('W is the sum over all contributions', c, at(c, W, (i, j)),
                      tm.bigsum(v, K, app('Zw', [v, i, t])))
            led.equal('V is the sum over all contributions', c, at(c, V, (i, j)),
                      tm.bigsum(v, K, app('Zv', [v, i, t])))
    led.guard('any number of contributions', any_k)

    # orders, groupings, lists, tuples, aliasing: three contributions x, y, z and their calls
    def three(call):
        def go():
            w = L.World()
            A = abstract_pf(w, s.N)
            a, b, d = A(0), A(1), A(2)
            x = w.superpositions.SuperpositionApproximation()
            call(x, a, b, d)
            T = s.T()
            return (x.calc_partition_functions(T), x.combine_contributions(T, w.np.sum, 'calc_part_func_w'),
                    x.combine_contributions(T, w.np.sum, 'calc_part_func_v'))
        return go

    def one_by_one(x, *p):
        for q in p:
            x.add_partition_functions(q)

    def reverse(x, a, b, d):
        one_by_one(x, d, b, a)

    def as_list(x, a, b, d):
        x.add_partition_functions([a, b, d])

    def as_tuple(x, a, b, d):
        x.add_partition_functions((b, d, a))

    def mixed(x, a, b, d):
        x.add_partition_functions([d])
        x.add_partition_functions(a)
        x.add_partition_functions((b,))

    def mixed2(x, a, b, d):
        x.add_partition_functions(())
        x.add_partition_functions((b, a))
        x.add_partition_functions([])
        x.add_partition_functions(d)

    def alias(x, a, b, d):
        l = L.new_list([a, b])
        x.add_partition_functions(l)
        l.append(a)
        l[0] = d
        x.add_partition_functions(d)

    def alias2(x, a, b, d):
        l = [a]
        x.add_partition_functions(l)
        l.clear()
        l.append(b)
        x.add_partition_functions(l)
        x.add_partition_functions(d)
        l.clear()

    def alias3(x, a, b, d):
        l = [a]
        x.add_partition_functions(l)
        x.add_partition_functions(b)
        assert len(l) == 1, "the caller's list was modified"
        x.add_partition_functions((d,))

    calls = [one_by_one, reverse, as_list, as_tuple, mixed, mixed2, alias, alias2, alias3]
    for f in calls:
        def go(f=f):
            for c, (Z, W, V) in led.run('adding: ' + f.__name__, three(f)):
                p = ONE
                sw = sv = ZERO
                for k in range(3):
                    p = p * app('Z', [lift(k), i, t])
                    sw = sw + app('Zw', [lift(k), i, t])
                    sv = sv + app('Zv', [lift(k), i, t])
                led.equal('Z after adding: ' + f.__name__, c, at(c, Z, (i, j)), p)
                led.equal('W after adding: ' + f.__name__, c, at(c, W, (i, j)), sw)
                led.equal('V after adding: ' + f.__name__, c, at(c, V, (i, j)), sv)
        led.guard('adding: ' + f.__name__, go)

    # the same object twice counts twice
    def twice():
        w = L.World()
        a = abstract_pf(w, s.N)(0)
        x = w.superpositions.SuperpositionApproximation()
        x.add_partition_functions(a)
        x.add_partition_functions([a])
        return x.calc_partition_functions(s.T())

    def go():
        for c, Z in led.run('a contribution added twice', twice):
            led.equal('a contribution added twice counts twice', c, at(c, Z, (i, j)), app('Z', [ZERO, i, t]) ** 2)
    led.guard('a contribution added twice', go)

    # the built-in classes, every composition and every order of two
    for kinds in [k for k in ALL if len(k) > 1]:
        touch(led, kinds, ALLM)

        def go(kinds=kinds):
            s = Syms()
            i, j = idxs(s)

            def q():
                w = L.World()
                T = s.T()
                x = sup(w, kinds, s)
                y = sup(w, kinds[::-1], s)
                parts = [build(w, k, s) for k in kinds]
                zs = [p.calc_part_func(T) for p in parts]
                return x.calc_partition_functions(T), y.calc_probability(T), x.calc_probability(T), zs
            for c, (Z, Py, Px, zs) in led.run('composition %s' % kinds, q):
                def prod():
                    p = pv(ONE)
                    for z in zs:
                        p = C.mul(p, z.elem((i, j)))
                    return p
                led.equal('Z[%s] is the product of its contributions' % kinds, c, at(c, Z, (i, j)), under(c, prod))
                led.equal('P[%s] does not depend on the order' % kinds, c, at(c, Py, (i, j)), at(c, Px, (i, j)))
        led.guard('composition %s' % kinds, go)


# ---------------------------------------------------------------- C08

def c08(led):
    for kinds, dt, tag in TYPED:
        s = Syms(dt=dt)
        i, j = idxs(s)
        touch(led, kinds, ALLM, SUPC)

        def go(kinds=kinds, tag=tag, s=s, i=i, j=j):
            w = L.World()
            sp = Spec(w, s)

            def q():
                x = sup(w, kinds, s)
                T = s.T()
                o = S.new((s.N, s.M), lambda idx: pv(app('O', list(idx))), 'float64')
                return x.calc_probability(T), x.calc_heat_capacity(T), x.calc_ensemble_average(T, o)
            for c, (P, Cv, A) in led.run('0 K [%s]' % tag, q):
                z = zero_T(s, j)
                if C.set_ctx(C.ctx()) and not c.feasible(frozenset(z)):
                    continue
                p = under(c, lambda: P.elem((i, j)), z)
                led.finite('P[%s] at 0 K is finite and >= 0' % tag, c, p, ('+', '0+', '0'), z)
                if 'q' in kinds:
                    name = 'P[%s] at 0 K is the limit for T -> 0' % tag
                    o = led.equal('P[%s] at 0 K equals the recorded finding (zero-point energy ignored)' % tag, c, p,
                                  under(c, lambda: sp.prob0(kinds, i), z), z)
                    if o.status == 'proved':
                        led.obs.remove(o)
                        led.known.append(('P0K-quantum', name))
                else:
                    led.equal('P[%s] at 0 K is the limit for T -> 0' % tag, c, p,
                              under(c, lambda: sp.prob0(kinds, i), z), z)
                want = ZERO
                if 'c' in kinds:
                    want = want + s.D
                if 'r' in kinds:
                    want = want + lift(HALF3)
                led.equal('C[%s] at 0 K' % tag, c, under(c, lambda: Cv.elem((ZERO, j)), z), want, z)
                v = C.new_index(s.N)

                def avg():
                    return C.reduce_sym(v, s.N, C.mul(P.elem((v, j)), pv(app('O', [v, j]))), 'sum')
                led.equal('<O>[%s] at 0 K is the mean over the probabilities' % tag, c,
                          under(c, lambda: A.elem((ZERO, j)), z), under(c, avg, z), z)
        led.guard('0 K [%s]' % tag, go)


# ---------------------------------------------------------------- C09

def c09(led):
    for k in 'ecqr':
        for tag, dt in (('float', {}), ('integer temperatures', {'T': 'int64'}), ('integers throughout', INTS)):
            s = Syms(dt=dt)
            i, j = idxs(s)
            touch(led, k, ('calc_part_func_w', 'calc_part_func_v'))

            def go(k=k, s=s, i=i, j=j, tag=tag):
                w = L.World()
                sp = Spec(w, s)

                def q():
                    x = build(w, k, s)
                    T = s.T()
                    return x.calc_part_func_w(T), x.calc_part_func_v(T)
                for c, (W, V) in led.run('%s derivatives (%s)' % (FUN[k], tag), q):
                    lits = pos_T(s, j)
                    led.shape('%s W has shape (N, M) (%s)' % (FUN[k], tag), c, W, (s.N, s.M))
                    led.shape('%s V has shape (N, M) (%s)' % (FUN[k], tag), c, V, (s.N, s.M))
                    b = sp.beta(Tj(s, j))
                    led.equal('%s W = beta d lnZ/d beta (%s)' % (FUN[k], tag), c, under(c, lambda: W.elem((i, j)), lits),
                              under(c, lambda: sp.wlog(k, i, b), lits), lits)
                    led.equal('%s V = beta^2 d2 lnZ/d beta2 (%s)' % (FUN[k], tag), c, under(c, lambda: V.elem((i, j)), lits),
                              under(c, lambda: sp.vlog(k, i, b), lits), lits)
            led.guard('%s derivatives (%s)' % (FUN[k], tag), go)


# ---------------------------------------------------------------- C10

def c10(led):
    for kinds, dt, tag in TYPED:
        s = Syms(dt=dt)
        i, j = idxs(s)
        touch(led, kinds, ALLM, SUPC)

        def go(kinds=kinds, tag=tag, s=s, i=i, j=j):
            w = L.World()
            for c, (Cv, parts) in led.run('C[%s]' % tag, lambda: heat_and_parts(w, kinds, s)):
                led.shape('C[%s] is one row with one column per temperature' % tag, c, Cv, (1, s.M))
                lits = pos_T(s, j)
                # the documented expression over the contributions' own Z, W and V ...
                led.equal('C[%s] = <V> + <W^2> - <W>^2 = beta^2 d2 ln(sum Z)/d beta2 (T > 0)' % tag, c,
                          under(c, lambda: Cv.elem((ZERO, j)), lits),
                          under(c, lambda: heat_of_parts(s, parts, j), lits), lits)
        led.guard('C[%s]' % tag, go)
    # ... whose W and V are the derivatives of ln Z (and Z the documented one, up to a common factor)
    for k in 'ecqr':
        s = Syms()
        i, j = idxs(s)
        led.guard('%s' % FUN[k], lambda: part_contract(led, k, s, i, j))
    led.guard('C[any contributions]', lambda: c10_abstract(led))


def heat_and_parts(w, kinds, s):
    T = s.T()
    Cv = sup(w, kinds, s).calc_heat_capacity(T)
    ps = [build(w, k, s) for k in kinds]
    return Cv, [(p.calc_part_func(T), p.calc_part_func_w(T), p.calc_part_func_v(T)) for p in ps]


def zwv(parts, a, j):
    z, w, v = pv(ONE), pv(ZERO), pv(ZERO)
    for Z, W, V in parts:
        z = C.mul(z, Z.elem((a, j)))
        w = C.add(w, W.elem((a, j)))
        v = C.add(v, V.elem((a, j)))
    return z, w, v


def heat_of_parts(s, parts, j):
    """beta^2 d^2 ln(sum_a Z_a)/d beta^2 = <V> + <W^2> - <W>^2 (Lean: logsum_second_deriv)."""
    a = C.new_index(s.N)
    z, w, v = zwv(parts, a, j)
    zs = C.reduce_sym(a, s.N, z, 'sum')
    mean = lambda f: C.div(C.reduce_sym(a, s.N, C.mul(z, f), 'sum'), zs)
    mw = mean(w)
    return C.add(C.add(mean(v), mean(C.mul(w, w))), C.mul(pv(-ONE), C.mul(mw, mw)))


def part_contract(led, k, s, i, j, upto='wv'):
    """Z, W, V of one built-in contribution against the documented Z."""
    w = L.World()
    sp = Spec(w, s)
    k2 = C.new_index(s.N, 'i')

    def q():
        x = build(w, k, s)
        T = s.T()
        return x.calc_part_func(T), x.calc_part_func_w(T), x.calc_part_func_v(T)
    for c, (Z, W, V) in led.run(FUN[k], q):
        lits = pos_T(s, j)
        b = sp.beta(Tj(s, j))
        z1, z2 = under(c, lambda: (Z.elem((i, j)), Z.elem((k2, j))), lits)
        led.equal('%s Z is the documented one up to a factor common to all minima' % FUN[k], c,
                  under(c, lambda: C.mul(z1, pv(sp.weight(k, k2, b))), lits),
                  under(c, lambda: C.mul(z2, pv(sp.weight(k, i, b))), lits), lits)
        led.equal('%s W = beta d lnZ/d beta' % FUN[k], c, under(c, lambda: W.elem((i, j)), lits),
                  under(c, lambda: sp.wlog(k, i, b), lits), lits)
        led.equal('%s V = beta^2 d2 lnZ/d beta2' % FUN[k], c, under(c, lambda: V.elem((i, j)), lits),
                  under(c, lambda: sp.vlog(k, i, b), lits), lits)


def c10_abstract(led):
    s, K, i, j, base = abstract_setup()
    t = Tj(s, j)
    for c, Cv in led.run('C[any contributions]', lambda: abstract_sup(L.World(), s, K).calc_heat_capacity(s.T()), base):
        led.shape('C[any contributions] shape', c, Cv, (1, s.M))

        def want():
            v = C.new_index(s.N)
            k = C.new_index(K)
            z = zprod(s, K, v, t)
            W = tm.bigsum(k, K, app('Zw', [k, v, t]))
            V = tm.bigsum(k, K, app('Zv', [k, v, t]))
            Zt = tm.bigsum(v, s.N, z).inv()
            m = lambda f: tm.bigsum(v, s.N, f * z) * Zt
            return m(V) + m(W * W) - m(W) ** 2
        led.equal('C[any contributions] = <W^2> - <W>^2 + <V>', c, at(c, Cv, (ZERO, j)), under(c, want))


# ---------------------------------------------------------------- C11

def c11(led):
    for kinds, dt, tag in TYPED:
        s = Syms(dt=dt)
        i, j = idxs(s)
        touch(led, kinds, ALLM, SUPC)

        def go(kinds=kinds, tag=tag, s=s, j=j):
            w = L.World()
            for c, (Cv, parts) in led.run('C[%s]' % tag, lambda: heat_and_parts(w, kinds, s)):
                cv = at(c, Cv, (ZERO, j))
                lits = pos_T(s, j)

                def square():
                    # sum_a P_a (W_a - <W>)^2 + sum_a P_a V_a, a sum of non-negative terms
                    a = C.new_index(s.N)
                    z, wt, v = zwv(parts, a, j)
                    zs = C.reduce_sym(a, s.N, z, 'sum')
                    mw = C.div(C.reduce_sym(a, s.N, C.mul(z, wt), 'sum'), zs)
                    dev = C.add(wt, C.mul(pv(-ONE), mw))
                    return C.div(C.reduce_sym(a, s.N, C.mul(z, C.add(C.mul(dev, dev), v)), 'sum'), zs)
                led.equal('C[%s] is a sum of squares and V over positive weights (T > 0)' % tag, c, cv,
                          under(c, square, lits), lits)
                a = C.new_index(s.N)
                z, _, v = under(c, lambda: zwv(parts, a, j), lits)
                led.finite('weights of [%s] are non-negative' % tag, c, z, ('+', '0+', '0'), lits)
                led.finite('V of [%s] is non-negative' % tag, c, v, ('+', '0+', '0'), lits)
                led.finite('C[%s] at 0 K is finite and >= 0' % tag, c, cv, ('+', '0+', '0'), zero_T(s, j))
        led.guard('C[%s]' % tag, go)

    # a single minimum
    for kinds in ALL:
        s = Syms(N=1)
        i, j = idxs(s)

        def go(kinds=kinds, s=s, j=j):
            w = L.World()
            sp = Spec(w, s)
            for c, Cv in led.run('one minimum [%s]' % kinds, lambda: sup(w, kinds, s).calc_heat_capacity(s.T())):
                want = ZERO
                if 'c' in kinds:
                    want = want + s.D
                if 'r' in kinds:
                    want = want + lift(HALF3)
                cv = at(c, Cv, (ZERO, j))
                if 'q' in kinds:
                    lits = pos_T(s, j)
                    d = C.new_index(s.D)
                    x = sp.x(ZERO, d, sp.beta(Tj(s, j)))
                    # x^2/sinh(x)^2 lies in (0, 1) for x > 0 (Lean: csch_sq_bound)
                    t = 4 * x * x * tm.exp(-2 * x) * (ONE - tm.exp(-2 * x)) ** -2
                    led.equal('C[%s] of one minimum is sum (x/sinh x)^2 + equipartition terms' % kinds, c, cv,
                              want + under(c, lambda: tm.bigsum(d, s.D, t), lits), lits)
                    z = zero_T(s, j)
                    led.equal('C[%s] of one minimum at 0 K' % kinds, c, cv, want, z)
                else:
                    led.equal('C[%s] of one minimum is the equipartition value' % kinds, c, cv, want)
        led.guard('one minimum [%s]' % kinds, go)


def vlog_square(sp, k, a, T):
    s = sp.s
    if k == 'e':
        return ZERO
    if k == 'c':
        return s.D
    if k == 'r':
        return lift(HALF3)
    d = C.new_index(s.D)
    x = sp.x(a, d, sp.beta(T))
    return tm.bigsum(d, s.D, 4 * x * x * tm.exp(-2 * x) * (ONE - tm.exp(-2 * x)) ** -2)


# ---------------------------------------------------------------- C12

def c12(led):
    kindset = ['e', 'ecr', 'eqr', 'c', 'q', 'r']
    for kinds in kindset:
        for form in ('matrix', 'column', 'constant', 'undefined where P = 0', 'infinite where P = 0', 'integer matrix'):
            if 'where' in form and 'e' not in kinds:
                continue
            s = Syms()
            i, j = idxs(s)
            touch(led, kinds, ('calc_part_func',), SUPA)

            def go(kinds=kinds, form=form, s=s, j=j):
                w = L.World()
                sp = Spec(w, s)
                special = {'undefined where P = 0': NAN, 'infinite where P = 0': INF}.get(form)

                def el(a, m):
                    if form == 'column':
                        return pv(app('O', [a]))
                    if form == 'constant':
                        return pv(tm.var('const'))
                    o = app('O', [a, m])
                    if special is None:
                        return pv(o)
                    tz, lo = eq(Tj(s, m)), eq(sp.Erel(a))
                    return C.split(tz, lambda: C.split(lo, o, special), o)

                def q():
                    x = sup(w, kinds, s)
                    T = s.T()
                    shp = (s.N, lift(1)) if form == 'column' else (s.N, s.M)
                    o = S.new(shp, lambda idx: el(*idx), 'int64' if form.startswith('int') else 'float64')
                    return x.calc_probability(T), x.calc_ensemble_average(T, o)
                for c, (P, A) in led.run('<O>[%s] (%s)' % (kinds, form), q):
                    led.shape('<O>[%s] shape (%s)' % (kinds, form), c, A, (1, s.M))
                    got = at(c, A, (ZERO, j))
                    v = C.new_index(s.N)

                    def body():
                        p = P.elem((v, j))
                        out = C.ite(C.lift_op(lambda l: C.bsplit(neg(eq(l))) if isinstance(l, R) else False, p),
                                    lambda: C.mul(p, el(v, j)), pv(ZERO))
                        return C.reduce_sym(v, s.N, out, 'sum')

                    def plain():
                        if form == 'constant':
                            return pv(tm.var('const'))
                        if special is None:
                            return C.reduce_sym(v, s.N, C.mul(P.elem((v, j)), el(v, j)), 'sum')
                        o = pv(app('O', [v, j]))
                        return C.reduce_sym(v, s.N, C.mul(P.elem((v, j)), o), 'sum')
                    led.equal('<O>[%s] is the sum of O_a P_a (%s)' % (kinds, form), c, got, under(c, plain))
                    led.finite('<O>[%s] finite (%s)' % (kinds, form), c, got)
            led.guard('<O>[%s] (%s)' % (kinds, form), go)
        for nm, bad in (('inf', INF), ('-inf', NINF), ('nan', NAN)):
            def everywhere(kinds=kinds, nm=nm, bad=bad):
                s = Syms()
                i, j = idxs(s)

                def q():
                    x = sup(L.World(), kinds, s)
                    return x.calc_ensemble_average(s.T(), S.new((s.N, s.M), lambda idx: pv(bad), 'float64'))
                name = '<O>[%s] of an observable that is %s in populated minima' % (kinds, nm)
                for c, A in led.run(name, q):
                    led.equal(name + ' is not finite', c, under(c, lambda: A.elem((ZERO, j)), [gt(Tj(s, j))]), pv(bad), [gt(Tj(s, j))])
            led.guard('<O>[%s] of %s' % (kinds, nm), everywhere)
    led.guard('<O>[any contributions]', lambda: c12_abstract(led))


def c12_abstract(led):
    s, K, i, j, base = abstract_setup()
    t = Tj(s, j)
    for form in ('matrix', 'column'):
        shp = (s.N, lift(1)) if form == 'column' else (s.N, s.M)

        def el(idx):
            return pv(app('O', list(idx) if form == 'matrix' else [idx[0]]))
        o = S.new(shp, el, 'float64')
        for c, A in led.run('<O>[any contributions] (%s)' % form,
                            lambda: abstract_sup(L.World(), s, K).calc_ensemble_average(s.T(), o), base):
            def want():
                v = C.new_index(s.N)
                ov = app('O', [v, j] if form == 'matrix' else [v])
                return tm.bigsum(v, s.N, ov * zprod(s, K, v, t)) * zsum(s, K, t).inv()
            led.shape('<O>[any contributions] shape (%s)' % form, c, A, (1, s.M))
            led.equal('<O>[any contributions] is the weighted mean (%s)' % form, c, at(c, A, (ZERO, j)), under(c, want))


# ---------------------------------------------------------------- C13

def local_in_T(led, name, c, p, j, tname, allowed_dims=('M',)):
    """The piecewise value p depends on the temperature array through T(j) only."""
    old = C.set_ctx(c)
    try:
        jname = C.varname(j) if j.const() is None else None

        def f(a):
            if a.kind == 'app' and a.data[0] == tname and a.data[1] == (j,):
                return tm.var('tau')
            return None
        C.VARSIGN['tau'] = '0+'
        bad = None
        M = tm.var('M', 'int')
        for g, l in p.cases:
            if g and not c.feasible(g):
                continue
            parts = []
            for cc, _ in g:
                x = C.crebuild(cc, f, {})
                if not isinstance(x, bool):
                    parts.append(x[0].fv)
            if isinstance(l, R):
                parts.append(tm.rebuild(l, f).fv)
            for fv in parts:
                if '@' + tname in fv or (jname and jname in fv) or 'M' in fv:
                    bad = (g, l)
        return led.ok(name, bad is None, '' if bad is None else 'case %s: %s depends on other temperatures' % (
            show_guard(bad[0]), str(bad[1])[:500]), led._cands(c, bad[0]) if bad else ())
    finally:
        C.set_ctx(old)


def c13_kinds(led, kinds):
    base_val = {}
    for tag, dt, M in (('float', {}, None), ('integer temperatures', {'T': 'int64'}, None), ('one temperature', {}, 1),
                       ('32-bit integer temperatures', {'T': 'int32'}, None)):
        if tag.startswith('32') and kinds not in ('e', 'eqr'):
            continue
        s = Syms(dt=dt, M=M)
        i = C.new_index(s.N, 'i')
        j = C.new_index(s.M, 'j') if M is None else ZERO
        w = L.World()

        def q():
            x = sup(w, kinds, s)
            T = s.T()
            o = S.new((s.N, lift(1)), lambda idx: pv(app('O', [idx[0]])), 'float64')
            return (x.calc_partition_functions(T), x.calc_probability(T), x.calc_heat_capacity(T),
                    x.calc_ensemble_average(T, o))
        for c, res in led.run('[%s] (%s)' % (kinds, tag), q):
            for nm, a, ix in zip(('partition functions', 'probabilities', 'heat capacity', 'ensemble average'), res,
                                 ((i, j), (i, j), (ZERO, j), (ZERO, j))):
                if led.shape('%s [%s] one column per temperature (%s)' % (nm, kinds, tag), c, a,
                             (s.N if ix[0] is i else 1, s.M)).status != 'proved':
                    continue
                p = at(c, a, ix)
                local_in_T(led, '%s [%s] at a temperature depends on that temperature only (%s)' % (
                    nm, kinds, tag), c, p, j, 'T')
                # the same function of T for every dtype and length
                ref = base_val.get(nm)
                if ref is None:
                    base_val[nm] = (i, j, p)
                else:
                    i0, j0, p0 = ref
                    led.equal('%s [%s] same value as for a float grid (%s)' % (nm, kinds, tag), c, p,
                              under(c, lambda: rename(p0, {i0: i, j0: j})))


def c13(led):
    for kinds in ALL:
        touch(led, kinds, ALLM, SUPC)
        led.guard('[%s]' % kinds, lambda kinds=kinds: c13_kinds(led, kinds))

    def ab():
        s, K, i, j, base = abstract_setup()
        o = S.new((s.N, lift(1)), lambda idx: pv(app('O', [idx[0]])), 'float64')

        def q():
            x = abstract_sup(L.World(), s, K)
            T = s.T()
            return x.calc_partition_functions(T), x.calc_probability(T), x.calc_heat_capacity(T), x.calc_ensemble_average(T, o)
        for c, res in led.run('[any contributions]', q, base):
            for nm, a, ix in zip(('partition functions', 'probabilities', 'heat capacity', 'ensemble average'), res,
                                 ((i, j), (i, j), (ZERO, j), (ZERO, j))):
                local_in_T(led, '%s [any contributions] at a temperature depends on it only' % nm, c, at(c, a, ix), j, 'T')
    led.guard('[any contributions]', ab)


def rename(p, m):
    """Rename index variables in a PV."""
    mm = {C.varname(k): v for k, v in m.items() if k is not v and k is not ZERO}
    return L.psubst(p, mm) if mm else p


# ---------------------------------------------------------------- C14

ROWARG = {'E': 0, 'g': 0, 'nu': 0, 'sg': 0, 'I': 0, 'O': 0, 'Z': 1, 'Zw': 1, 'Zv': 1}


def symmetric_in_rows(led, name, c, p, i, s):
    """Every element of the inputs is read either from row i or from a bound row variable of a
    sum / product / minimum / existential over all minima, so that a permutation of the minima
    only reorders commutative operators."""
    bad = []

    def walk(r, bound):
        for (pw, ex) in r.t:
            for a, _ in pw:
                atom(a, bound)
            if ex is not None:
                walk(ex, bound)

    def atom(a, bound):
        if a.kind == 'var':
            if a.data == C.varname(i) or bound.get(a.data) == 'row':
                bad.append(a)        # a row number used as a value
        elif a.kind in ('app', 'fn'):
            pos = ROWARG.get(a.data[0]) if a.kind == 'app' else None
            for k, x in enumerate(a.data[1]):
                if k == pos:
                    if x is i:
                        continue
                    sg = x.single()
                    nm = C.varname(x) if sg and len(sg[1][0]) == 1 and sg[1][0][0][0].kind == 'var' and \
                        sg[1][0][0][1] == 1 and sg[1][1] is None and sg[0] == 1 else None
                    if nm is None or bound.get(nm) != 'row':
                        bad.append(a)
                else:
                    walk(x, bound)
        elif a.kind == 'poly':
            walk(a.data, bound)
        elif a.kind in ('sum', 'prod', 'min'):
            d, body, bn = a.data
            walk(d, bound)
            b2 = dict(bound)
            b2[bn] = 'row' if d is s.N else 'other'
            walk(body, b2)
        elif a.kind == 'ind':
            cond(a.data, bound)
        elif a.kind == 'ite':
            cond(a.data[0], bound)
            walk(a.data[1], bound)
            walk(a.data[2], bound)

    def cond(cc, bound):
        if cc.kind in ('gt', 'eq'):
            walk(cc.r, bound)
        elif cc.kind == 'b':
            for x in cc.data[1]:
                walk(x, bound)
        else:
            d, dnf, bn = cc.data
            b2 = dict(bound)
            b2[bn] = 'row' if d is s.N else 'other'
            for g in dnf:
                for x, _ in g:
                    cond(x, b2)
    where = None
    for g, l in p.cases:
        if g and not c.feasible(g):
            continue
        for cc, _ in g:
            cond(cc, {})
        if isinstance(l, R):
            walk(l, {})
        if bad and where is None:
            where = (g, l)
    return led.ok(name, not bad, '' if not bad else 'case %s: %s singles out a row (%r)' % (
        show_guard(where[0]), str(where[1])[:400], bad[0]), led._cands(c, where[0]) if where else ())


def c14(led):
    for kinds in ALL:
        s = Syms()
        i, j = idxs(s)
        touch(led, kinds, ALLM, SUPC)

        def go(kinds=kinds, s=s, i=i, j=j):
            o = S.new((s.N, s.M), lambda idx: pv(app('O', list(idx))), 'float64')

            def q():
                x = sup(L.World(), kinds, s)
                T = s.T()
                return x.calc_probability(T), x.calc_heat_capacity(T), x.calc_ensemble_average(T, o)
            for c, res in led.run('[%s]' % kinds, q):
                for nm, a, ix in zip(('probabilities', 'heat capacity', 'ensemble average'), res, ((i, j), (ZERO, j), (ZERO, j))):
                    p = at(c, a, ix)
                    symmetric_in_rows(led, '%s [%s] equivariant under relabelling' % (nm, kinds), c, p, i, s)
        led.guard('[%s]' % kinds, go)

    def ab():
        s, K, i, j, base = abstract_setup()
        o = S.new((s.N, s.M), lambda idx: pv(app('O', list(idx))), 'float64')

        def q():
            x = abstract_sup(L.World(), s, K)
            T = s.T()
            return x.calc_probability(T), x.calc_heat_capacity(T), x.calc_ensemble_average(T, o)
        for c, res in led.run('[any contributions]', q, base):
            for nm, a, ix in zip(('probabilities', 'heat capacity', 'ensemble average'), res, ((i, j), (ZERO, j), (ZERO, j))):
                symmetric_in_rows(led, '%s [any contributions] equivariant under relabelling' % nm, c, at(c, a, ix), i, s)
    led.guard('[any contributions]', ab)


# ---------------------------------------------------------------- C15

def queries(x, T, o):
    return [x.calc_partition_functions(T), x.calc_probability(T), x.calc_ensemble_average(T, o), x.calc_heat_capacity(T)]


QN = ('partition functions', 'probabilities', 'ensemble average', 'heat capacity')


def c15(led):
    for kinds in ALL:
        touch(led, kinds, ALLM, SUPC)
        s = Syms()
        s2 = Syms(tname='U')          # a second temperature grid of the same size
        i, j = idxs(s)

        def inp(s):
            return [(n, a, a.buf.version, a.buf.elem) for n, (a, _) in s.bufs.items()]

        def go(kinds=kinds, s=s, s2=s2, i=i, j=j, part=0):
            mk = lambda: S.new((s.N, s.M), lambda idx: pv(app('O', list(idx))), 'float64')

            def fresh():
                x = sup(L.World(), kinds, s)
                return queries(x, s.T(), mk())

            def freshU():
                x = sup(L.World(), kinds, s2)
                return queries(x, s2.T(), mk())

            def history():
                w = L.World()
                arrs = {}
                E, g, nu, sg, I = s.E(), s.g(), s.nu(), s.sg(), s.I()
                pf = w.partitionfunctions
                def b(k):
                    return {'e': lambda: pf.ElectronicPF(E, g), 'c': lambda: pf.ClassicalHarmonicPF(nu),
                            'q': lambda: pf.QuantumHarmonicPF(nu), 'r': lambda: pf.RotationalPF(sg, I)}[k]()
                T, U, o = s.T(), s2.T(), mk()
                inputs = [('E', E), ('g', g), ('nu', nu), ('sg', sg), ('I', I), ('T', T), ('U', U), ('O', o)]
                v0 = {n: a.buf.version for n, a in inputs}
                x = w.superpositions.SuperpositionApproximation()
                other = w.superpositions.SuperpositionApproximation()
                ps = [b(k) for k in kinds]
                for p in ps:
                    x.add_partition_functions(p)
                q1 = queries(x, T, o)
                # the caller scribbles over the results it got
                for a in queries(x, T, o):
                    a[...] = 7
                    a *= 2
                qU = queries(x, U, o)
                q2 = queries(x, T, o)
                # another superposition sharing the contributions, plus one of its own
                other.add_partition_functions(ps)
                other.add_partition_functions(b(kinds[0]))
                queries(other, U, o)
                # direct calls on the contributions, results scribbled over
                for p in ps:
                    for m in ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v'):
                        r = getattr(p, m)(T)
                        r[...] = 3
                q3 = queries(x, T, o)
                changed = [n for n, a in inputs if a.buf.version != v0[n]]
                return q1, qU, q2, q3, changed

            def inplace():
                """One temperature array object refilled between two queries."""
                x = sup(L.World(), kinds, s)
                buf, o = s.T(), mk()
                queries(x, buf, o)
                buf[...] = s2.T()
                return queries(x, buf, o)

            def later():
                """A contribution added after a first query counts from then on."""
                w = L.World()
                x = sup(w, kinds[:1], s)
                T, o = s.T(), mk()
                first = queries(x, T, o)
                for k in kinds[1:]:
                    x.add_partition_functions(build(w, k, s))
                return first, queries(x, T, o), queries(sup(L.World(), kinds[:1], s), T, o)
            ix = ((i, j), (i, j), (ZERO, j), (ZERO, j))

            def same(name, c, got, ref):
                for nm, a, b, k in zip(QN, got, ref, ix):
                    led.equal('%s [%s]: %s' % (nm, kinds, name), c, at(c, a, k), at(c, b, k))
            if part == 0:
                for c, (ref, refU, (q1, qU, q2, q3, changed)) in led.run(
                        'history [%s]' % kinds, lambda: (fresh(), freshU(), history())):
                    led.ok('no input array is written [%s]' % kinds, not changed, 'written: ' + ', '.join(changed), led._cands(c, ()))
                    same('first query', c, q1, ref)
                    same('other temperatures of the same number', c, qU, refU)
                    same('after other queries and scribbled results', c, q2, ref)
                    same('after the use of another superposition and direct calls', c, q3, ref)
            if part == 1:
                for c, (refU, got) in led.run('refilled temperature array [%s]' % kinds, lambda: (freshU(), inplace())):
                    same('temperature array refilled in place', c, got, refU)
            if part == 2:
                for c, (ref, (f, l, f2)) in led.run('later additions [%s]' % kinds, lambda: (fresh(), later())):
                    same('results before a later addition', c, f, f2)
                    same('results after a later addition', c, l, ref)
        for part, title in enumerate(('history [%s]', 'refilled temperature array [%s]', 'later additions [%s]')):
            if part < 2 or len(kinds) > 1:
                led.guard(title % kinds, lambda part=part, go=go: go(part=part))


# ---------------------------------------------------------------- C16

def c16(led):
    led.functions |= {'superpositions.SuperpositionApproximation.' + m for m in SUPC}
    s = Syms()
    i, j = idxs(s)

    def empty(prep):
        def f():
            w = L.World()
            x = w.superpositions.SuperpositionApproximation()
            prep(x)
            T = s.T()
            o = S.new((s.N, s.M), lambda idx: pv(app('O', list(idx))), 'float64')
            return queries(x, T, o)
        return f

    def nothing(x):
        pass

    def empty_list(x):
        x.add_partition_functions([])

    def empty_tuple(x):
        x.add_partition_functions(())

    def go():
        for f in (nothing, empty_list, empty_tuple):
            for c, res in led.run('empty superposition (%s)' % f.__name__, empty(f)):
                for nm, r in zip(QN, res):
                    led.ok('%s of an empty superposition is None (%s)' % (nm, f.__name__), r is None,
                           'returned %s' % type(r).__name__, led._cands(c, ()))
    led.guard('empty superposition', go)
    for kinds in ALL:
        touch(led, kinds, ALLM)

        def go(kinds=kinds):
            def q():
                x = sup(L.World(), kinds, s)
                o = S.new((s.N, s.M), lambda idx: pv(app('O', list(idx))), 'float64')
                return queries(x, s.T(), o)
            for c, res in led.run('[%s]' % kinds, q):
                for nm, r in zip(QN, res):
                    led.ok('%s [%s] is an array' % (nm, kinds), isinstance(r, S.SymArray), 'returned %r' % type(r), led._cands(c, ()))
        led.guard('[%s]' % kinds, go)

    def mismatch(kinds):
        # contributions for N and for N + P minima, P >= 1, N >= 2 (N = 1 broadcasts in NumPy terms)
        P = dim('P')
        s2 = Syms(N=s.N + P)

        def f(qn):
            def g():
                w = L.World()
                x = w.superpositions.SuperpositionApproximation()
                x.add_partition_functions(build(w, kinds[0], s))
                x.add_partition_functions(build(w, kinds[1], s2))
                o = S.new((s.N, s.M), lambda idx: pv(app('O', list(idx))), 'float64')
                T = s.T()
                return {'partition functions': lambda: x.calc_partition_functions(T),
                        'probabilities': lambda: x.calc_probability(T),
                        'ensemble average': lambda: x.calc_ensemble_average(T, o),
                        'heat capacity': lambda: x.calc_heat_capacity(T)}[qn]()
            return g
        for qn in QN:
            for c, kind, v in led.run('%s of inconsistent contributions [%s]' % (qn, kinds), f(qn), expect_raise=True):
                led.ok('%s of inconsistent contributions [%s] is not None' % (qn, kinds), kind == 'raise' or v is not None,
                       'returned None', led._cands(c, ()))
    for kinds in ('er', 'ec', 'cr', 'qr', 'eq', 're'):
        led.guard('inconsistent contributions [%s]' % kinds, lambda kinds=kinds: mismatch(kinds))

    def bad_observable(kinds, nm, rows, cols):
        # an observable whose shape does not match the minima or the temperatures
        def f():
            x = sup(L.World(), kinds, s)
            o = S.new((rows, cols), lambda idx: pv(app('O', list(idx))), 'float64')
            return x.calc_ensemble_average(s.T(), o)
        name = 'ensemble average of an observable with %s [%s]' % (nm, kinds)
        for c, kind, v in led.run(name, f, expect_raise=True):
            led.ok(name + ' is not None', kind == 'raise' or v is not None, 'returned None', led._cands(c, ()))
    def invalid(kinds, what, val):
        # whatever is not an array of numbers is refused, or answered, never None
        def f(qn):
            def g():
                x = sup(L.World(), kinds, s)
                o = S.new((s.N, s.M), lambda idx: pv(app('O', list(idx))), 'float64')
                T = s.T()
                if what == 'observable':
                    o = val
                else:
                    T = val
                return {'partition functions': lambda: x.calc_partition_functions(T), 'probabilities': lambda: x.calc_probability(T),
                        'ensemble average': lambda: x.calc_ensemble_average(T, o), 'heat capacity': lambda: x.calc_heat_capacity(T)}[qn]()
            return g
        for qn in QN if what == 'temperature' else ('ensemble average',):
            name = '%s [%s] for the %s %r' % (qn, kinds, what, val)
            for c, kind, v in led.run(name, f(qn), expect_raise=True):
                led.ok(name + ' is not None', kind == 'raise' or v is not None, 'returned None', led._cands(c, ()))
    for kinds in ('e', 'c', 'q', 'r', 'eqr'):
        for what, val in (('observable', None), ('temperature', None), ('observable', 'x')):
            if what == 'observable' or kinds not in ('c', 'r'):
                led.guard('%s %r [%s]' % (what, val, kinds), lambda a=(kinds, what, val): invalid(*a))
    P = dim('P')
    for kinds in ('e', 'c', 'q', 'r', 'eqr'):
        for nm, rows, cols in (('more rows than minima', s.N + P, s.M), ('more columns than temperatures', s.N, s.M + P),
                               ('more rows and one column', s.N + P, lift(1)), ('one row', lift(1), s.M)):
            led.guard('observable with %s [%s]' % (nm, kinds), lambda a=(kinds, nm, rows, cols): bad_observable(*a))


# ---------------------------------------------------------------- C22

def c22(led):
    led.functions |= {'utils.calc_beta', 'utils.calc_exponent', 'utils.calc_geometric_mean'}
    for tag, dt in (('float', {}), ('integer temperatures', {'T': 'int64'}), ('integer energies', {'E': 'int64'}),
                    ('extended precision energies', {'E': 'longdouble'}), ('integers throughout', INTS)):
        s = Syms(dt=dt)
        i, j = idxs(s)
        d = C.new_index(s.D, 'd')

        def go(s=s, i=i, j=j, d=d, tag=tag):
            w = L.World()
            kb = const_of(w, 'utils', 'KB', KB_REF)
            t = Tj(s, j)
            pos, zer = pos_T(s, j), zero_T(s, j)
            if 'E' not in s.dt:
                for c, b in led.run('calc_beta (%s)' % tag, lambda: w.utils.calc_beta(s.T())):
                    led.shape('calc_beta keeps the shape (%s)' % tag, c, b, (s.M,))
                    led.equal('calc_beta is 1/(kB T) for T > 0 (%s)' % tag, c, under(c, lambda: b.elem((j,)), pos),
                              under(c, lambda: (lift(kb) * t).inv(), pos), pos)
                    led.equal('calc_beta is +inf at 0 K (%s)' % tag, c, under(c, lambda: b.elem((j,)), zer), INF, zer)
            for shp, nm in (((s.N,), '1-D'), ((s.N, s.D, lift(1)), 'stacked')):
                def en():
                    return s.arr('E', shp, lambda idx: pv(app('E', list(idx)[:len(shp) - (1 if len(shp) == 3 else 0)])))
                out = (s.N, s.M) if len(shp) == 1 else (s.N, s.D, s.M)
                ix = (i, j) if len(shp) == 1 else (i, d, j)
                e = app('E', [i] if len(shp) == 1 else [i, d])
                for c, x in led.run('calc_exponent %s (%s)' % (nm, tag), lambda: w.utils.calc_exponent(en(), s.T())):
                    led.shape('calc_exponent shape, %s energies (%s)' % (nm, tag), c, x, out)
                    led.equal('calc_exponent is E/(kB T) for T > 0, %s energies (%s)' % (nm, tag), c,
                              under(c, lambda: x.elem(ix), pos), under(c, lambda: e * (lift(kb) * t).inv(), pos), pos)
                    led.equal('calc_exponent at 0 K, %s energies (%s)' % (nm, tag), c, under(c, lambda: x.elem(ix), zer),
                              under(c, lambda: C.sgn_split(e, INF, ZERO, NINF), zer), zer)
        led.guard('conversions (%s)' % tag, go)
    for tag, dt, sign, D in (('positive', {}, '+', None), ('non-negative', {}, '0+', None), ('one column', {}, '0+', 1),
                             ('two columns', {}, '0+', 2), ('three columns', {}, '+', 3),
                             ('extended precision', {'A': 'longdouble'}, '+', None)):
        s = Syms(dt=dt, D=D)
        C.DOMSIGN['A'] = sign
        i = C.new_index(s.N, 'i')
        C.reset_caches()

        def go(s=s, i=i, tag=tag, sign=sign):
            w = L.World()
            for c, m in led.run('calc_geometric_mean (%s)' % tag,
                                lambda: w.utils.calc_geometric_mean(s.arr('A', (s.N, s.D)))):
                led.shape('calc_geometric_mean has one value per row (%s)' % tag, c, m, (s.N,))
                v = C.new_index(s.D)
                a = app('A', [i, v])

                def want():
                    z = C.exists(v, s.D, [frozenset([eq(a)])]) if sign == '0+' else False
                    if s.D.const() is not None and sign == '0+':
                        def go(k):
                            if k == int(s.D.const()):
                                p = ONE
                                for m_ in range(k):
                                    p = p * app('A', [i, lift(m_)])
                                return pv(tm.rpow(p, Fraction(1, k)))
                            return C.split(eq(app('A', [i, lift(k)])), ZERO, lambda: go(k + 1))
                        return go(0)

                    def root():
                        return tm.exp(tm.bigsum(v, s.D, tm.log(a)) * s.D.inv())
                    if z is False:
                        return pv(root())
                    return C.split(z, ZERO, lambda: root_nz(s, i))
                led.equal('calc_geometric_mean is the D-th root of the product (%s)' % tag, c, at(c, m, (i,)), under(c, want))
        led.guard('calc_geometric_mean (%s)' % tag, go)
        C.DOMSIGN['A'] = '+'
        C.reset_caches()


def root_nz(s, i):
    v = C.new_index(s.D)
    a = app('A', [i, v])
    return tm.exp(tm.bigsum(v, s.D, tm.log(a) * (ONE - tm.ind(eq(a)))) * s.D.inv())
