"""Contracts of occuprob.io, occuprob.cli and utils.compare_numpy_dictionaries: C17 - C21, C23, C24."""
import os
import re
import sys
from fractions import Fraction

from vc import core as C, symnp as S, terms as tm, loader as L
from vc.core import PV, pv, gt, eq, neg, INF, NINF, NAN
from vc.symnp import SymArray, SymSeq, VList
from vc.terms import R, lift, ZERO, ONE, Unsupported, app
from .base import Syms, at, under, dim
from . import iolib
from .numeric import build, sup, touch, idxs, SUPC, ALLM


def symmetry_count(i):
    """Number of proper operations of isomer i."""
    n = app('nops', [i])
    k = C.new_index(n)
    return tm.bigsum(k, n, tm.ind(neg(C.bsym('improper', i, k))))


# ---------------------------------------------------------------- C17

KEYS = {'energy', 'multiplicity', 'frequencies', 'moments', 'symmetry'}


def c17(led):
    led.functions |= {'io.load_properties_from_extxyz', 'io.calc_symmetry_order'}
    for tag, kw in (('float values', {}), ('a single mode given as a scalar', {'freq': 'scalar'}),
                    ('integer values', {'etype': 'int64', 'ftype': 'int64'}), ('real multiplicities', {'gtype': 'float64'})):
        def go(tag=tag, kw=kw):
            N, D = dim('N'), dim('D') if kw.get('freq') != 'scalar' else lift(1)
            lib = iolib.Lib(N, D, **kw)
            i, d, k = C.new_index(N, 'i'), C.new_index(D, 'd'), C.new_index(lift(3), 'k')

            def f():
                lib.reads.clear()
                w = iolib.world(lib)
                return w.io.load_properties_from_extxyz('some file.xyz'), list(lib.reads), list(w.effects.log)
            for c, (p, reads, eff) in led.run('load (%s)' % tag, f):
                led.ok('the given file is read (%s)' % tag, reads == ['some file.xyz'], 'read: %r' % (reads,), led._cands(c, ()))
                led.ok('nothing is written (%s)' % tag, not [e for e in eff if e[0] != 'print'], repr(eff)[:200], led._cands(c, ()))
                ks = set(p) if isinstance(p, dict) else None
                led.ok('the properties are the five documented ones (%s)' % tag, ks is not None and ks >= KEYS, 'keys: %r' % (ks,), led._cands(c, ()))
                if ks is None or not ks >= KEYS:
                    continue
                a = {n: S.asarr(p[n]) for n in KEYS}
                for n, shp in (('energy', (N,)), ('multiplicity', (N,)), ('frequencies', (N, D)), ('moments', (N, lift(3))), ('symmetry', (N,))):
                    led.shape('shape of %s (%s)' % (n, tag), c, a[n], shp)
                led.ok('frequencies in extended precision (%s)' % tag, a['frequencies'].dtype == S._dt('longdouble'),
                       'dtype %s' % a['frequencies'].dtype, led._cands(c, ()))
                led.ok('energies in double precision or better (%s)' % tag, a['energy'].dtype in (S._dt('float64'), S._dt('longdouble')) or
                       'etype' in kw, 'dtype %s' % a['energy'].dtype, led._cands(c, ()))
                led.equal('energy of isomer i (%s)' % tag, c, at(c, a['energy'], (i,)), pv(app('fE', [i])))
                led.equal('multiplicity of isomer i (%s)' % tag, c, at(c, a['multiplicity'], (i,)), pv(app('fg', [i])))
                led.equal('frequency d of isomer i (%s)' % tag, c, at(c, a['frequencies'], (i, d)), pv(app('fnu', [i, d])))
                led.equal('moment k of isomer i (%s)' % tag, c, at(c, a['moments'], (i, k)), pv(app('fI', [i, k])))
                led.equal('symmetry order of isomer i (%s)' % tag, c, at(c, a['symmetry'], (i,)), under(c, lambda: symmetry_count(i)))
        led.guard('load (%s)' % tag, go)


# ---------------------------------------------------------------- C18

def c18(led):
    led.functions.add('io.calc_symmetry_order')

    def go():
        N = dim('N')
        lib = iolib.Lib(N, dim('D'))
        i = app('isomer', [])        # an arbitrary isomer

        def f():
            w = iolib.world(lib)
            return w.io.calc_symmetry_order(iolib.Atoms(lib, i))
        for c, r in led.run('symmetry order', f):
            a = S.asarr(r)
            led.shape('the symmetry order is a number', c, a, ())
            led.equal('the symmetry order counts the operations with determinant +1', c,
                      under(c, lambda: S.with_counts(a.scalar_pv())), under(c, lambda: symmetry_count(i)))
    led.guard('symmetry order', go)


# ---------------------------------------------------------------- C19, C20: the command line

def argv_case(fl, case):
    """The flags of one combination, written in one of the accepted ways."""
    if case == 'upper':
        return ['-' + x.upper() for x in fl]
    if case == 'joined':
        return ['-' + ''.join(fl).upper()] if fl else []
    return ['-' + x for x in fl]


def run_main(w, argv):
    old = sys.argv
    err = sys.stderr
    sys.argv = ['occuprob'] + argv
    try:
        sys.stderr = open(os.devnull, 'w')
        w.cli.main()
        return 'returned'
    except SystemExit as e:
        return 'exit %r' % (e.code,)
    finally:
        sys.stderr.close()
        sys.stderr = err
        sys.argv = old


def cli_world(s, in_file, plots=None):
    """The command line over the contract of load_properties_from_extxyz (C17) and a recording plotter."""
    lib = iolib.Lib(s.N, s.D)
    w = iolib.world(lib, plots)
    loads = []

    def load(name):
        loads.append(name)
        return {'energy': s.E(), 'multiplicity': s.g(), 'frequencies': s.nu(), 'moments': s.I(), 'symmetry': s.sg()}
    w.io.load_properties_from_extxyz = load
    return w, loads


def temps():
    C.VARSIGN['tmin'] = '0+'
    C.VARSIGN['span'] = '0+'
    t = tm.var('tmin')
    return t, t + tm.var('span')


def floor_of(x):
    return S.one_leaf(S._UF['floor'](S.scalar(x, weak=float)).scalar_pv())


def library(w, fl, s, T):
    """What the library gives for exactly the requested contributions."""
    pf = w.partitionfunctions
    parts = []
    if 'e' in fl:
        parts.append(pf.ElectronicPF(s.E(), S.np_ones_like(s.E())))
    if 's' in fl:
        parts.append(pf.ElectronicPF(s.E(), s.g()))
    if 'c' in fl:
        parts.append(pf.ClassicalHarmonicPF(s.nu()))
    if 'q' in fl:
        parts.append(pf.QuantumHarmonicPF(s.nu()))
    if 'r' in fl:
        parts.append(pf.RotationalPF(s.sg(), s.I()))
    x = w.superpositions.SuperpositionApproximation()
    for p in parts:
        x.add_partition_functions(p)
    return x.calc_probability(T), x.calc_heat_capacity(T)


def saved(eff):
    return [(a[0], a[1], k) for n, a, k in eff if n == 'savetxt']


COMBOS = [(a, b, c) for a in ('', 'e', 's') for b in ('', 'c', 'q') for c in ('', 'r')]


def c19(led):
    led.functions |= {'cli.main', 'cli.save_results'} | {'superpositions.SuperpositionApproximation.' + m for m in SUPC}
    s = Syms()
    t0, t1 = temps()
    for n, combo in enumerate(COMBOS):
        fl = [x for x in combo if x]
        if fl:
            touch(led, [x.replace('s', 'e') for x in fl], ALLM)
        for case in ('lower', 'upper' if n % 2 else 'joined'):
            def go(fl=fl, case=case):
                one_combo(led, s, fl, case, t0, t1)
            led.guard('flags %s (%s)' % (''.join(fl) or 'none', case), go)

    def defaults():
        # without --min_temp and --max_temp the grid is 0, 1, ... 500 K
        led.case = {'flags': ['-s'], 'file': 'a.xyz', 'grid': [None, None]}

        def f():
            w, loads = cli_world(s, 'a.xyz')
            st = run_main(w, ['a.xyz', '-s'])
            return st, saved(w.effects.log)
        for c, (st, sv) in led.run('default grid', f):
            led.ok('default grid: two files are written', st == 'returned' and len(sv) == 2, '%s, %d files' % (st, len(sv)), led._cands(c, ()))
            for fn, a, _ in sv:
                led.ok('default grid has 501 temperatures', S.same_dim(a.shp[0], lift(501)), 'rows: %r' % (a.shp[0],), led._cands(c, ()))
                j = C.new_index(a.shp[0], 'j')
                led.equal('default grid is 0, 1, ... K', c, at(c, a, (j, ZERO)), pv(j))
    led.guard('default grid', defaults)

    def exclusive(fl):
        def f():
            w, loads = cli_world(s, 'a.xyz')
            return run_main(w, ['a.xyz'] + ['-' + x for x in fl]), saved(w.effects.log)
        for c, (st, sv) in led.run('flags %s' % fl, f):
            led.ok('the contradictory flags %s write no result' % fl, not sv, st, led._cands(c, ()))
    for fl in ('es', 'cq', 'SE', 'QC'):
        led.guard('contradictory flags %s' % fl, lambda fl=fl: exclusive(fl))


def one_combo(led, s, fl, case, t0, t1):
    name = 'flags %s (%s)' % (''.join(fl) or 'none', case)
    led.case = {'flags': argv_case(fl, case), 'file': 'a.xyz'}

    def f():
        w, loads = cli_world(s, 'a.xyz')
        st = run_main(w, ['a.xyz', '--min_temp', S.token('f', t0, case != 'lower'), '--max_temp=' + S.token('f', t1, case != 'lower')] + argv_case(fl, case))
        sv = saved(w.effects.log)
        wr = [e for e in w.effects.log if e[0] not in ('savetxt', 'print')]
        want = None
        M = floor_of(t1 - t0) + 1
        if fl:
            T = S.new((M,), lambda idx: pv(t0 + idx[0]), 'float64')
            want = library(w, fl, s, T)
        return st, loads, sv, wr, want, M, list(w.printed)
    for c, (st, loads, sv, wr, want, M, printed) in led.run(name, f):
        cd = led._cands(c, ())
        led.ok(name + ': the program ends normally', st == 'returned', st, cd)
        if not fl:
            led.ok(name + ': no result is written', not sv and not wr, repr([x[0] for x in sv])[:200], cd)
            led.ok(name + ': a message is printed', bool(printed), 'no message', cd)
            continue
        led.ok(name + ': the input file is loaded', 'a.xyz' in loads, repr(loads), cd)
        by = {'P': [x for x in sv if str(x[0]).endswith('_P.dat')], 'C': [x for x in sv if str(x[0]).endswith('_C.dat')]}
        led.ok(name + ': one table of each kind', len(by['P']) == 1 and len(by['C']) == 1, repr([x[0] for x in sv])[:200], cd)
        for key, arr, n in (('P', want[0], s.N), ('C', want[1], lift(1))):
            for _, a, _k in by[key][:1]:
                if not led.shape('%s: size of the %s table' % (name, key), c, a, (M, n + 1)):
                    continue
                j, i = C.new_index(M, 'j'), C.new_index(n, 'i')
                led.equal('%s: the grid of the %s table starts at min_temp and advances by 1 K' % (name, key), c, at(c, a, (j, ZERO)), pv(t0 + j))
                led.equal('%s: the %s table holds the results of the requested contributions' % (name, key), c, at(c, a, (j, i + 1)), at(c, arr, (i, j)))


NAMES = [  # input path, --out_file, PREFIX
    ('iso.xyz', None, 'iso'), ('a.b/iso.extxyz', None, 'a.b/iso'), ('run.xyz.d/file.xyz', None, 'run.xyz.d/file'), ('data', None, 'data'),
    ('.hidden', None, '.hidden'), ('dir.dat/x.y.xyz', None, 'dir.dat/x.y'), ('dir.d/data', None, 'dir.d/data'), ('./iso.xyz', None, './iso'),
    ('../up/iso.XYZ', None, '../up/iso'), ('/abs.olute/iso.dat', None, '/abs.olute/iso'), ('iso.xyz', 'res', 'res'), ('iso.xyz', 'o.dat/res', 'o.dat/res'),
    ('iso.xyz', 'x.y', 'x.y'), ('iso.xyz', 'P_C.dat', 'P_C.dat'), ('a.xyz.xyz', None, 'a.xyz'), ('iso.xyz', 'sub/pre.xyz', 'sub/pre.xyz'),
    ('my_P.dat.xyz', None, 'my_P.dat'), ('iso.xyz', './out', './out'), ('with space.xyz', None, 'with space'), ('svg.xyz', 'svg', 'svg'),
    ('xyz', None, 'xyz'), ('xyz.xyz', None, 'xyz'), ('iso.xyz', 'iso.', 'iso.')]


def digits(fmt):
    """Does this savetxt format keep double precision?"""
    fs = fmt if isinstance(fmt, (list, tuple)) else re.findall(r'%[^%]*?[a-zA-Z]', fmt) if isinstance(fmt, str) else []
    if not fs:
        return False
    for f in fs:
        m = re.match(r'^%[-+ 0#]*\d*(?:\.(\d+))?l*([eEgGrsf])', f)
        if not m:
            return False
        p, k = m.group(1), m.group(2)
        if k in 'rs' and p is None:
            continue
        p = 6 if p is None else int(p)
        if not (k in 'eE' and p >= 16 or k in 'gG' and p >= 17):
            return False
    return True


def c20(led):
    led.functions |= {'cli.main', 'cli.save_results', 'cli.plot_results', 'io.plot_results'}
    s = Syms()
    t0, t1 = temps()
    flags = [['e'], ['s', 'c'], ['e', 'q', 'r'], ['r']]
    for n, (inf, out, prefix) in enumerate(NAMES):
        for pl, ext in (((), None), (('--plot',), 'svg'), (('--plot', '--plot_format', 'png'), 'png'), (('--plot', '--plot_format=PDF', '--size', '3', '4'), 'pdf')):
            if pl and n % 2 and ext != 'png':
                continue

            def go(inf=inf, out=out, prefix=prefix, pl=pl, ext=ext, fl=flags[n % 4]):
                files(led, s, inf, out, prefix, pl, ext, fl, t0, t1)
            led.guard('files %s %s %s' % (inf, out, ' '.join(pl)), go)

    def save(dt):
        # save_results alone, on any results
        K = dim('K')

        def f():
            w = iolib.world(iolib.Lib(s.N, s.D), iolib.Plots())
            r = S.new((K, s.M), lambda idx: pv(app('res', list(idx))), dt)
            w.cli.save_results(r, s.T(), 'o.dat')
            return saved(w.effects.log), w.effects.log
        for c, (sv, eff) in led.run('save_results (%s)' % dt, f):
            cd = led._cands(c, ())
            led.ok('save_results writes one file (%s)' % dt, len(sv) == 1 and len(eff) == 1 and sv[0][0] == 'o.dat', repr([e[0] for e in eff]), cd)
            for fn, a, kw in sv[:1]:
                table(led, 'save_results (%s)' % dt, c, a, kw, s.M, K, lambda j: app('T', [j]), lambda i, j: app('res', [i, j]))
    for dt in ('float64', 'longdouble'):
        led.guard('save_results (%s)' % dt, lambda dt=dt: save(dt))


def table(led, name, c, a, kw, M, K, T, val):
    cd = led._cands(c, ())
    led.ok(name + ': enough digits', digits(kw['fmt']), 'format %r' % (kw['fmt'],), cd)
    led.ok(name + ': columns separated by white space, one line per temperature', kw['delimiter'].strip() == '' and kw['delimiter'] and kw['newline'] == '\n' and not
           kw['header'] and not kw['footer'], repr(kw), cd)
    led.ok(name + ': values in double precision or better', a.dtype in (S._dt('float64'), S._dt('longdouble')), 'dtype %s' % a.dtype, cd)
    if led.shape(name + ': one line per temperature, one column per minimum after it', c, a, (M, K + 1)):
        j, i = C.new_index(M, 'j'), C.new_index(K, 'i')
        led.equal(name + ': each line starts with its temperature', c, at(c, a, (j, ZERO)), pv(T(j)))
        led.equal(name + ': the values follow in order', c, at(c, a, (j, i + 1)), val(i, j) if not isinstance(val(i, j), R) else pv(val(i, j)))


def files(led, s, inf, out, prefix, pl, ext, fl, t0, t1):
    name = 'files (%s%s%s)' % (inf, ' --out_file ' + out if out else '', ' ' + ' '.join(pl) if pl else '')
    T0, T1 = S.token('f', t0), S.token('f', t1)
    led.case = {'flags': ['-' + x for x in fl], 'file': inf, 'out': out, 'plot': None if not pl else 'default' if len(pl) == 1 else ext}

    def f():
        plots = iolib.Plots()
        w, loads = cli_world(s, inf, plots)
        M = floor_of(t1 - t0) + 1
        rec = {}
        K = w.superpositions.SuperpositionApproximation
        # the results of the library are those of its contract: arbitrary arrays P (N, M) and C (1, M)
        K.calc_probability = lambda self, T: S.new((s.N, S.asarr(T).shp[0]), lambda idx: pv(app('resP', list(idx))), 'longdouble' if 'q' in fl else 'float64')
        K.calc_heat_capacity = lambda self, T: S.new((lift(1), S.asarr(T).shp[0]), lambda idx: pv(app('resC', list(idx))), 'longdouble' if 'q' in fl else 'float64')
        C.DOMSIGN['resP'] = C.DOMSIGN['resC'] = '0+'
        st = run_main(w, [inf, '--min_temp=' + T0, '--max_temp=' + T1] + ['-' + x for x in fl] + (['--out_file', out] if out else []) + list(pl))
        return st, list(w.effects.log), M
    for c, (st, eff, M) in led.run(name, f):
        cd = led._cands(c, ())
        led.ok(name + ': the program ends normally', st == 'returned', st, cd)
        sv = saved(eff)
        led.ok(name + ': names of the tables', sorted(str(x[0]) for x in sv) == sorted([prefix + '_P.dat', prefix + '_C.dat']), repr([x[0] for x in sv])[:200], cd)
        im = sorted(str(e[1][1]) for e in eff if e[0] == 'savefig')
        led.ok(name + ': names of the images', im == (sorted(prefix + '_' + k + '.' + ext for k in 'PC') if ext else []), repr(im), cd)
        led.ok(name + ': nothing else is written', not [e for e in eff if e[0] in ('write', 'open')], repr([e[:2] for e in eff if e[0] in ('write', 'open')])[:200], cd)
        for fn, a, kw in sv:
            k = 'P' if str(fn).endswith('_P.dat') else 'C'
            table(led, '%s: %s table' % (name, k), c, a, kw, M, s.N if k == 'P' else lift(1), lambda j: t0 + j,
                  lambda i, j: app('res' + k, [i, j]))


# ---------------------------------------------------------------- C21

class Curves:
    """The curves of one figure: families (extent, f(i) -> (x, y, label))."""

    def __init__(self, eff, fig):
        self.fam = []
        for e in eff:
            self.add(e, fig, [])

    def add(self, e, fig, outer):
        if e[0] == 'forall':
            v, n, inner = e[1]
            for x in inner:
                self.add(x, fig, outer + [(v, n)])
        elif e[0] == 'plot' and e[1][0] == fig:
            if len(outer) > 1:
                raise Unsupported('nested drawing loops')
            _, x, y, lab = e[1]
            if outer:
                v, n = outer[0]
                if y.ndim != 1:
                    raise Unsupported('several curves in a loop')
                self.fam.append((n, lambda i, x=x, y=y, lab=lab, v=v: tuple(L.subst_obj(q, {v: i}) for q in (x, y, lab))))
            elif y.ndim == 1:
                self.fam.append((lift(1), lambda i, x=x, y=y, lab=lab: (x, y, lab)))
            elif y.ndim == 2:
                labs = L.as_symseq(lab) if lab is not None and not isinstance(lab, str) else None

                def one(i, x=x, y=y, lab=lab, labs=labs):
                    l = labs.at(i) if labs is not None else (S._pick(lab, i) if isinstance(lab, (list, tuple)) else lab)
                    return x, y[:, S.mkint(i)], l
                self.fam.append((y.shp[1], one))
            else:
                raise Unsupported('curve of %d dimensions' % y.ndim)


def drawn(led, name, c, eff, out, N, M, val, label, lims, T=lambda j: app('T', [j])):
    """The saved figure shows exactly one curve per row, at its temperatures, within its ranges."""
    cd = led._cands(c, ())
    sf = [k for k, e in enumerate(eff) if e[0] == 'savefig']
    if not led.ok(name + ': one image is saved under the given name', len(sf) == 1 and eff[sf[0]][1][1] == out, repr([eff[k][1] for k in sf])[:200], cd):
        return
    fig = eff[sf[0]][1][0]
    led.ok(name + ': drawn on a figure of its own', fig != 0, 'drawn over an earlier figure', cd)
    before = eff[:sf[0]]
    cv = Curves(before, fig)
    one = len(cv.fam) == 1 and S.same_dim(cv.fam[0][0], N)
    led.ok(name + ': exactly one curve per row', one, 'families of curves: %r' % [n for n, _ in cv.fam], cd)
    if not one:
        return
    i, j = C.new_index(N, 'i'), C.new_index(M, 'j')
    x, y, lab = under(c, lambda: cv.fam[0][1](i))
    if led.shape(name + ': a point per temperature', c, y, (M,)) and led.shape(name + ': abscissae', c, x, (M,)):
        led.equal(name + ': curves are drawn against the temperatures', c, at(c, x, (j,)), pv(T(j)))
        led.equal(name + ': each curve has the values of its row', c, at(c, y, (j,)), pv(val(i, j)))
    want = label(i) if label else None
    led.ok(name + ': each curve has its own label', same_label(lab, want), 'label %r' % (lab,), cd)
    xl = [e[1] for e in before if e[0] == 'xlim' and e[1][0] == fig]
    if led.ok(name + ': a temperature range is set', bool(xl), 'no range', cd):
        led.equal(name + ': temperature axis starts at the first temperature', c, under(c, xl[-1][1].scalar_pv), pv(T(ZERO)))
        led.equal(name + ': temperature axis ends at the last temperature', c, under(c, xl[-1][2].scalar_pv), pv(T(M - 1)))
    yl = [e[1] for e in before if e[0] == 'ylim' and e[1][0] == fig]
    if lims == 'auto':
        led.ok(name + ': the vertical range is left to the values', not yl, repr(yl)[:200], cd)
    elif lims == 'P':
        for _, lo, hi in yl[-1:]:
            led.finite(name + ': the vertical range contains 0', c, under(c, lambda: C.lift_op(C.l_neg, lo.scalar_pv())), ('+', '0+', '0'))
            led.finite(name + ': the vertical range contains 1', c, under(c, lambda: C.add(hi.scalar_pv(), pv(-ONE))), ('+', '0+', '0'))
    elif lims == 'C':
        v = val(i, j)
        for _, lo, hi in yl[-1:]:
            led.finite(name + ': the vertical range starts below every value', c, under(c, lambda: C.add(pv(v), C.lift_op(C.l_neg, lo.scalar_pv()))), ('+', '0+', '0'))
            led.finite(name + ': the vertical range ends above every value', c, under(c, lambda: C.add(hi.scalar_pv(), pv(-v))), ('+', '0+', '0'))
    else:
        if led.ok(name + ': a vertical range is set', bool(yl), 'none', cd):
            led.equal(name + ': lower limit', c, under(c, yl[-1][1].scalar_pv), pv(lims[0]))
            led.equal(name + ': upper limit', c, under(c, yl[-1][2].scalar_pv), pv(lims[1]))


def same_label(a, b):
    if a is None or b is None:
        return a is b
    if not isinstance(a, str) or not isinstance(b, str):
        return False
    pa, pb = S.untoken(a), S.untoken(b)
    if len(pa) != len(pb):
        return False
    for x, y in zip(pa, pb):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not (x[1] - y[1]).t == {} and C.ctx().sign(x[1] - y[1]) != '0':
            return False
    return True


def isomer_label(i):
    return 'Isomer ' + S.token('i', i + 1)


def c21(led):
    led.functions |= {'cli.plot_results', 'io.plot_results'}
    for tag, n in (('any number of minima', None), ('one minimum', 1), ('two minima', 2), ('eleven minima', 11)):
        s = Syms(N=n)

        def prob(s=s, tag=tag):
            def f():
                pl = iolib.Plots()
                w = iolib.world(iolib.Lib(s.N, s.D), pl)
                C.DOMSIGN['resP'] = '0+'
                r = S.new((s.N, s.M), lambda idx: pv(app('resP', list(idx))), 'float64')
                w.cli.plot_results(r, 'P', s.T(), 'o.svg', (8., 6.))
                return list(w.effects.log)
            for c, eff in led.run('probability plot (%s)' % tag, f):
                if s.N.const() is None:
                    drawn(led, 'probability plot (%s)' % tag, c, eff, 'o.svg', s.N, s.M, lambda i, j: app('resP', [i, j]), isomer_label, 'P')
                else:
                    concrete(led, 'probability plot (%s)' % tag, c, eff, int(s.N.const()), s.M)
        led.guard('probability plot (%s)' % tag, prob)
    s = Syms()

    def heat(dt):
        def f():
            pl = iolib.Plots()
            w = iolib.world(iolib.Lib(s.N, s.D), pl)
            C.DOMSIGN['resC'] = '0+'
            r = S.new((lift(1), s.M), lambda idx: pv(app('resC', list(idx))), dt)
            w.cli.plot_results(r, 'C', s.T(), 'o.svg', (8., 6.))
            return list(w.effects.log)
        for c, eff in led.run('heat-capacity plot (%s)' % dt, f):
            drawn(led, 'heat-capacity plot (%s)' % dt, c, eff, 'o.svg', lift(1), s.M, lambda i, j: app('resC', [i, j]), None, 'C')
    for dt in ('float64', 'longdouble'):
        led.guard('heat-capacity plot (%s)' % dt, lambda dt=dt: heat(dt))

    def direct(tag, fmt, label, lims):
        K = dim('K')

        def f():
            pl = iolib.Plots()
            w = iolib.world(iolib.Lib(s.N, s.D), pl)
            r = S.new((K, s.M), lambda idx: pv(app('res', list(idx))), 'float64')
            w.io.plot_results(r, s.T(), 'o.png', **fmt(K))
            return list(w.effects.log)
        for c, eff in led.run('io.plot_results (%s)' % tag, f):
            drawn(led, 'io.plot_results (%s)' % tag, c, eff, 'o.png', K, s.M, lambda i, j: app('res', [i, j]), label, lims)

    def names(K):
        return VListOf(K, lambda i: 'curve ' + S.token('i', i * 2 + 5))
    for tag, fmt, label, lims in (
            ('no format', lambda K: {}, None, 'auto'),
            ('labels', lambda K: {'labels': names(K)}, lambda i: 'curve ' + S.token('i', i * 2 + 5), 'auto'),
            ('limits', lambda K: {'ylims': (S.scalar(lift(-3), weak=float), S.scalar(lift(7), weak=float)), 'ylabel': 'y', 'hline_pos': [0, 1]}, None, (lift(-3), lift(7))),
            ('size and width', lambda K: {'size': (3, 4), 'linewidth': 1, 'labels': names(K)}, lambda i: 'curve ' + S.token('i', i * 2 + 5), 'auto')):
        led.guard('io.plot_results (%s)' % tag, lambda a=(tag, fmt, label, lims): direct(*a))


def VListOf(n, f):
    v = VList()
    v.tail = SymSeq(n, f)
    return v


def concrete(led, name, c, eff, n, M):
    """A known number of rows: the curves one by one."""
    cd = led._cands(c, ())
    fig = [e[1][0] for e in eff if e[0] == 'savefig']
    if not led.ok(name + ': one image', len(fig) == 1, repr(fig), cd):
        return
    cv = Curves(eff, fig[0])
    got = []
    for m, f in cv.fam:
        k = m.const()
        if k is None:
            raise Unsupported('symbolic number of curves')
        got += [under(c, lambda i=i: f(lift(i))) for i in range(int(k))]
    if not led.ok(name + ': exactly one curve per row', len(got) == n, '%d curves' % len(got), cd):
        return
    j = C.new_index(M, 'j')
    for i, (x, y, lab) in enumerate(got):
        led.equal('%s: values of curve %d' % (name, i + 1), c, at(c, y, (j,)), pv(app('resP', [lift(i), j])))
        led.equal('%s: abscissae of curve %d' % (name, i + 1), c, at(c, x, (j,)), pv(app('T', [j])))
        led.ok('%s: label of curve %d' % (name, i + 1), same_label(lab, 'Isomer %d' % (i + 1)), repr(lab), cd)


# ---------------------------------------------------------------- C24

ATOL, RTOL = Fraction(1, 10**8), Fraction(1, 10**5)


def beyond(x, y, loose):
    """Cases (guard, |x - y| exceeds the floating-point tolerance of the larger (loose) or smaller magnitude)."""
    if S.OPAQUE_CLOSE[0]:
        return C.bsplit(neg(C.bsym('close', x, y))).cases

    def tol(z):
        return C.add(pv(lift(ATOL)), C.lift_op(C.l_mul, pv(lift(RTOL)), C.lift_op(C.l_abs, pv(z))))
    slack = Fraction(1000001, 1000000)
    d = C.lift_op(C.l_mul, C.lift_op(C.l_abs, pv(x - y)), pv(lift(1 / slack if loose else slack)))
    more = [C.lift_op(lambda p, q: C.l_cmp('>', p, q), d, tol(z)) for z in (x, y)]
    return C.lift_op(lambda p, q: (p and q) if loose else (p or q), *[C.truth(m) for m in more]).cases


def differ(shp, fa, fb):
    """Some element differs by more than the tolerance of the smaller magnitude (a literal), rank 1 or more."""
    idx = [C.new_index(n) for n in shp]
    dnf = [g for g, far in beyond(fa(*idx), fb(*idx), False) if far]
    for k in reversed(range(len(shp))):
        l = C.exists(idx[k], lift(shp[k]), dnf)
        if isinstance(l, bool):
            return l
        dnf = [[l]]
    return l


def c24(led):
    led.functions.add('utils.compare_numpy_dictionaries')
    N, M, D = dim('N'), dim('M'), dim('D')
    one = lift(1)
    shapes = [(), (one,), (N,), (M,), (N, D), (N, one), (one, N), (D, N), (N, M, D)]

    def arr(name, shp, dt='float64'):
        return S.new(tuple(lift(n) for n in shp), lambda idx: pv(app(name, list(idx))), dt)
    eqs = [({'x': s}, {'x': s}) for s in shapes] + [({'x': s}, {'x': t}) for s in shapes for t in shapes if s != t]
    eqs += [({'x': (N,), 'y': (N, D)}, {'y': (N, D), 'x': (N,)}), ({'x': (N,), 'y': (N,), 'z': ()}, {'x': (N,), 'y': (N,), 'z': ()}),
            ({'x': (N,), 'y': (M,)}, {'x': (N,), 'y': (N,)})]
    keys = [({}, {'x': (N,)}), ({'x': (N,)}, {'y': (N,)}), ({'x': (N,)}, {'x': (N,), 'y': (N,)}), ({'x': (N,), 'y': (M,)}, {'x': (N,), 'z': (M,)}),
            ({'x': (N,), 'y': (M,), 'z': (M,)}, {'x': (N,), 'y': (M,)}), ({'x': (N,)}, {'X': (N,)}), ({'x': ()}, {})]

    def both(a, b, f, dts=('float64', 'float64')):
        for p, q in ((a, b), (b, a)):
            name = 'shapes %s and %s%s' % (show(p), show(q), '' if dts == ('float64', 'float64') else ' (%s, %s)' % dts)
            led.guard(name, lambda p=p, q=q: f(name, p, q, dts))

    def call(p, q, dts, same=False):
        def f():
            w = iolib.world(iolib.Lib(N, D))
            x = {k: arr('a_' + k, s, dts[0]) for k, s in p.items()}
            y = {k: arr(('a_' if same else 'b_') + k, s, dts[1]) for k, s in q.items()}
            return bool(w.utils.compare_numpy_dictionaries(x, y))
        return f

    def other_keys(name, p, q, dts):
        for c, r in led.run(name, call(p, q, dts)):
            led.ok('different keys are never equal: ' + name, r is False, 'result %r' % (r,), led._cands(c, ()))

    def same_keys(name, p, q, dts):
        """First with the tolerance as one relation; over its arithmetic only where that does not decide."""
        n = len(led.obs)
        S.OPAQUE_CLOSE[0] = True
        try:
            same_keys_(name, p, q, dts)
        except (Unsupported, RecursionError):
            led.ok(name, False)
        finally:
            S.OPAQUE_CLOSE[0] = False
        if any(o.status != 'proved' for o in led.obs[n:]) or p == q == {'x': (N,)}:
            del led.obs[n:]
            same_keys_(name, p, q, dts)

    def same_keys_(name, p, q, dts):
        for c, r in led.run(name, call(p, q, dts)):
            if r:
                for k in p:
                    s, t = p[k], q[k]
                    same = len(s) == len(t) and all(c.prove_zero(lift(x) - lift(y)) for x, y in zip(s, t))
                    if not led.ok('equal only with the same shapes: %s, key %s' % (name, k), same, 'equal for %s' % show(p), led._cands(c, ())):
                        continue
                    idx = [C.new_index(n) for n in s]
                    far = [g for g, x in under(c, lambda: beyond(app('a_' + k, idx), app('b_' + k, idx), True)) if x and c.feasible(g)]
                    led.ok('equal only with elements within the tolerance: %s, key %s' % (name, k), not far,
                           'an element beyond the tolerance', led._cands(c, far[0] if far else ()))
            else:
                if any(len(p[k]) != len(q[k]) for k in p):
                    led.ok('unequal when the ranks differ: ' + name, True)
                    continue
                hyp = [l for l in (eq(lift(x) - lift(y)) for k in p for x, y in zip(p[k], q[k])) if l is not True]
                if any(l is False for l in hyp) or not c.feasible(frozenset(hyp)):
                    led.ok('unequal when the shapes differ: ' + name, True)
                    continue
                # same shapes on this path: some element must be beyond the tolerance
                cc = c.child(hyp)
                close = [frozenset()]
                for k in p:
                    fa, fb = [lambda *i, n=n: app(n + k, list(i)) for n in ('a_', 'b_')]
                    if not p[k]:
                        gs = [g for g, x in under(cc, lambda: beyond(fa(), fb(), False)) if not x]
                    else:
                        l = under(cc, lambda: differ(p[k], fa, fb))
                        gs = ([] if l else [frozenset()]) if isinstance(l, bool) else [frozenset([neg(l)])]
                    close = [g | h for g in close for h in gs]
                close = [g for g in close if cc.feasible(g)]
                led.ok('unequal only with different shapes or an element beyond the tolerance: ' + name, not close,
                       'unequal with all elements within the tolerance', led._cands(cc, close[0] if close else ()))

    def identical(name, p, q, dts):
        for c, r in led.run(name, call(p, q, dts, same=True)):
            led.ok('equal to a dictionary of the same arrays: ' + name, r is True, 'result %r' % (r,), led._cands(c, ()))

    def special(shp, x, y, agree):
        # elements that are not finite: equal infinities agree, nothing else does
        def f():
            w = iolib.world(iolib.Lib(N, D))
            p, q = [{'x': S.new(tuple(lift(n) for n in shp), lambda idx, v=v: pv(app('a_x', list(idx))) if v is None else pv(v), 'float64')}
                    for v in (x, y)]
            return bool(w.utils.compare_numpy_dictionaries(p, q))
        name = 'elements %s and %s, shape %s' % (x, y, show({'x': shp}))
        for c, r in led.run(name, f):
            led.ok('%s: %s' % ('equal' if agree else 'never equal', name), r is agree, 'result %r' % (r,), led._cands(c, ()))
    for shp in ((), (N,), (N, D)):
        for x, y in ((NAN, NAN), (NAN, None), (None, NAN), (INF, None), (None, INF), (NINF, None), (None, NINF), (INF, NINF), (NINF, INF),
                     (NAN, INF), (INF, NAN), (INF, INF), (NINF, NINF)):
            led.guard('elements %s and %s' % (x, y), lambda a=(shp, x, y, x is y and x is not NAN): special(*a))
    led.guard('empty', lambda: identical('empty dictionaries', {}, {}, ('float64', 'float64')))
    for a, b in eqs:
        if [show({k: a[k]}) for k in sorted(a)] == [show({k: b[k]}) for k in sorted(b)]:
            led.guard('identical ' + show(a), lambda a=a, b=b: identical(show(a), a, b, ('float64', 'float64')))
        both(a, b, same_keys)
    for a, b in keys:
        both(a, b, other_keys)
    for dts in (('longdouble', 'float64'), ('int64', 'float64'), ('float64', 'longdouble')):
        both({'x': (N,)}, {'x': (N,)}, same_keys, dts)


def show(p):
    return '{%s}' % ', '.join('%s: (%s)' % (k, ', '.join(repr(n) for n in s)) for k, s in p.items())
