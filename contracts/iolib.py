"""Contracts assumed for the external libraries of occuprob.io: ASE's reader and Atoms, pymatgen's
point-group analyzer, matplotlib's figures.  Only the listed operations exist; anything else is
outside the assumed contracts and makes the obligation unsupported."""
import types

from vc import core as C, symnp as S, terms as tm, loader as L
from vc.core import PV, pv, gt, neg
from vc.symnp import SymSeq, VList, SymArray, SymInt, scalar_of
from vc.terms import ZERO, ONE, app, lift, Unsupported, R

F64 = 'float64'


def sub(x, m):
    return tm.subst(x, m)


class Closed:
    """Object of an external library: attributes outside the contract are unsupported."""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s of an external library' % (type(self).__name__, n))


class Info(Closed):
    """The comment-line values of isomer i."""

    def __init__(self, lib, i):
        self.lib, self.i = lib, i

    def __getitem__(self, k):
        lib, i = self.lib, self.i
        if k == 'Energy':
            return scalar_of(pv(app('fE', [i])), lib.etype)
        if k == 'Multiplicity':
            return scalar_of(pv(app('fg', [i])), lib.gtype)
        if k == 'Frequencies':
            if lib.freq == 'scalar':
                return scalar_of(pv(app('fnu', [i, ZERO])), F64)
            return S.new((lib.D,), lambda idx: pv(app('fnu', [i, idx[0]])), lib.ftype)
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        return k in ('Energy', 'Multiplicity', 'Frequencies')

    def keys(self):
        return ['Energy', 'Multiplicity', 'Frequencies']

    def vc_subst(self, m):
        return Info(self.lib, sub(self.i, m))


class Symbols(Closed):
    """The element symbols of isomer i, an opaque list."""

    def __init__(self, i):
        self.i = i

    def vc_subst(self, m):
        return Symbols(sub(self.i, m))

    def copy(self):
        return self


class Atoms(Closed):
    def __init__(self, lib, i):
        self.lib, self.i = lib, i
        self.info = Info(lib, i)

    def vc_subst(self, m):
        return Atoms(self.lib, sub(self.i, m))

    def natoms(self):
        return app('natoms', [self.i])

    def _positions(self):
        return S.new((self.natoms(), lift(3)), lambda idx: pv(app('pos', [self.i] + list(idx))), F64)

    def get_positions(self, wrap=False, **kw):
        if wrap or kw:
            raise Unsupported('wrapped positions')
        return self._positions()

    @property
    def positions(self):
        a = self._positions()
        a.writable = False
        return a

    def get_chemical_symbols(self):
        return Symbols(self.i)

    @property
    def symbols(self):
        return Symbols(self.i)

    def get_moments_of_inertia(self, vectors=False):
        if vectors:
            raise Unsupported('principal axes')
        return S.new((lift(3),), lambda idx: pv(app('fI', [self.i, idx[0]])), F64)

    def copy(self):
        return Atoms(self.lib, self.i)


class Molecule(Closed):
    def __init__(self, species, coords, charge=None, spin_multiplicity=None, validate_proximity=False, site_properties=None,
                 labels=None, charge_spin_check=True, properties=None):
        self.i = None
        if isinstance(species, Symbols):
            i = species.i
            a = S.asarr(coords)
            n = app('natoms', [i])
            c = C.ctx()
            if a.ndim == 2 and S.same_dim(a.shp[0], n) and S.same_dim(a.shp[1], lift(3)):
                r, k = C.new_index(n), C.new_index(lift(3))
                if L.pv_equal(a.elem((r, k)), pv(app('pos', [i, r, k]))):
                    self.i = i
        if self.i is None:
            raise Unsupported('a molecule other than the symbols and positions of one isomer')


class Op(Closed):
    """Operation k of isomer i: orthogonal, determinant -1 exactly when improper(i, k)."""

    def __init__(self, i, k):
        self.i, self.k = i, k

    def vc_subst(self, m):
        return Op(sub(self.i, m), sub(self.k, m))

    def _entry(self, r, c):
        return pv(app('op', [self.i, self.k, r, c]))

    @property
    def affine_matrix(self):
        return S.new((lift(4), lift(4)), lambda idx: self._entry(*idx), F64)

    @property
    def rotation_matrix(self):
        return S.new((lift(3), lift(3)), lambda idx: self._entry(*idx), F64)

    def as_dict(self):
        m = VList(VList(scalar_of(self._entry(lift(r), lift(c)), F64) for c in range(4)) for r in range(4))
        return {'@module': 'pymatgen.core.operations', '@class': 'SymmOp', 'matrix': m, 'tolerance': 0.1}


def same_number(x, want):
    try:
        return S.asarr(x).scalar_pv().cases[0][1].const() == lift(want).const()
    except Exception:
        return x == want


class PointGroupAnalyzer(Closed):
    def __init__(self, mol, tolerance=0.3, eigen_tolerance=0.01, matrix_tolerance=0.1):
        if not isinstance(mol, Molecule):
            raise Unsupported('analyzer of another object')
        from fractions import Fraction as F
        for x, w in ((tolerance, F('0.3')), (eigen_tolerance, F('0.01')), (matrix_tolerance, F('0.1'))):
            if not same_number(x, w) and not (isinstance(x, float) and F(x) == w or F(float(w)) == x):
                raise Unsupported('analyzer tolerances other than the default ones')
        self.i = mol.i

    def get_symmetry_operations(self):
        return SymSeq(app('nops', [self.i]), lambda k: Op(self.i, k))


def det(a):
    """numpy.linalg.det on arrays of symmetry operations: +1 or -1 (the operations are orthogonal)."""
    a = S.asarr(a)
    if a.ndim >= 2:
        idx = [C.canon_index(s, '#det%d' % k) for k, s in enumerate(a.shp[:-2])]
        n = a.shp[-1].const()
        try:
            ok = n in (3, 4) and a.shp[-2].const() == n
            key = None
            for r in range(int(n) if ok else 0):
                for q in range(int(n)):
                    p = a.elem(tuple(idx) + (lift(r), lift(q)))
                    if len(p.cases) != 1 or p.cases[0][0]:
                        ok = False
                        break
                    l = p.cases[0][1]
                    args = op_args(l)
                    if args is None or args[2].const() != r or args[3].const() != q or key not in (None, (args[0].id, args[1].id)):
                        ok = False
                        break
                    key = (args[0].id, args[1].id)
                    pre = args[:2]
                if not ok:
                    break
        except Unsupported:
            ok = False
        if ok:
            names = [C.varname(v) for v in idx]

            def elem(ix):
                m = dict(zip(names, ix))
                i, k = tm.subst(pre[0], m), tm.subst(pre[1], m)
                b = C.bsym('improper', i, k)
                return PV([(frozenset([neg(b)]), ONE), (frozenset([b]), -ONE)])
            if a.shp[:-2]:
                return S.new(a.shp[:-2], elem, F64)
            return scalar_of(elem(()), F64)
    return S.np_det(a)


def op_args(l):
    """Arguments of a leaf that is exactly op(i, k, r, c)."""
    if not isinstance(l, R) or len(l.t) != 1:
        return None
    ((pw, ex), co), = l.t.items()
    if co != 1 or ex is not None or len(pw) != 1:
        return None
    (a, e), = pw
    if e != 1 or a.kind != 'app' or a.data[0] != 'op':
        return None
    return a.data[1]


class Lib:
    """One environment: N isomers in the file, D modes."""

    def __init__(self, N, D, freq='vector', etype=F64, gtype='int64', ftype=F64):
        self.N, self.D = N, D
        self.freq, self.etype, self.gtype, self.ftype = freq, etype, gtype, ftype
        for n, s in (('natoms', '+'), ('nops', '+'), ('fg', '+'), ('fnu', '+'), ('fI', '0+')):
            C.DOMSIGN[n] = s
        S.INTAPP.update(('natoms', 'nops'))
        self.reads = []

    def read(self, filename, index=None, format=None, parallel=True, **kw):
        if kw:
            raise Unsupported('reader options')
        if format not in (None, 'extxyz'):
            raise Unsupported('format %r' % (format,))
        self.reads.append(filename)
        al = SymSeq(self.N, lambda i: Atoms(self, i))
        if isinstance(index, str):
            parts = index.split(':')
            index = slice(*[int(p) if p.strip() else None for p in parts]) if len(parts) > 1 else int(index)
        if index is None:
            index = -1
        return al[index]

    def iread(self, filename, index=None, format=None, parallel=True, **kw):
        if index is None:
            index = ':'
        return self.read(filename, index, format, parallel, **kw)

    def modules(self, plots=None):
        def mod(name, **kw):
            m = L._ShimModule(name, None)
            m.__dict__.update(kw)
            return m
        io = mod('ase.io', read=self.read, iread=self.iread)
        atoms = type('AtomsType', (Closed,), {})
        ase = mod('ase', io=io, Atoms=Atoms)
        st = mod('pymatgen.core.structure', Molecule=Molecule)
        core = mod('pymatgen.core', structure=st, Molecule=Molecule)
        an = mod('pymatgen.symmetry.analyzer', PointGroupAnalyzer=PointGroupAnalyzer)
        sy = mod('pymatgen.symmetry', analyzer=an)
        pm = mod('pymatgen', core=core, symmetry=sy)
        out = {'ase': ase, 'ase.io': io, 'pymatgen': pm, 'pymatgen.core': core, 'pymatgen.core.structure': st,
               'pymatgen.symmetry': sy, 'pymatgen.symmetry.analyzer': an}
        out.update(plots.modules() if plots else Plots().modules())
        return out


def world(lib, plots=None):
    w = L.World(overrides=lib.modules(plots))
    w.det = det
    if plots:
        plots.bind(w)
    return w


# ---------------------------------------------------------------- matplotlib

IGNORED = {'xlabel', 'ylabel', 'title', 'tight_layout', 'grid', 'hlines', 'vlines', 'axhline', 'axvline', 'legend', 'xticks', 'yticks',
           'text', 'annotate', 'rc', 'style', 'ion', 'ioff', 'show', 'draw', 'suptitle', 'margins', 'tick_params', 'subplots_adjust',
           'fill_between', 'set_size_inches', 'minorticks_on', 'setp', 'set_dpi', 'set_tight_layout', 'set_title', 'set_xlabel', 'set_ylabel',
           'set_xticks', 'set_yticks', 'use', 'axhspan', 'switch_backend'}


class Axes:
    """Forwards to the effect log of the world: ('plot', fig, x, y, label), ('xlim', fig, lo, hi), ..."""

    def __init__(self, plots, fig):
        self._p, self._f = plots, fig

    def _log(self, name, *args):
        self._p.w.effects.add(name, self._f, *args)

    def plot(self, *args, **kw):
        if len(args) == 3 and isinstance(args[2], str):
            args = args[:2]
        if len(args) != 2:
            raise Unsupported('plot with %d arguments' % len(args))
        for k in ('scalex', 'scaley', 'data', 'transform', 'visible', 'alpha', 'xdata', 'ydata', 'animated', 'clip_path', 'linestyle', 'ls'):
            if k in kw and not (k in ('linestyle', 'ls') and kw[k] not in ('', ' ', 'None', 'none')):
                raise Unsupported('plot(%s=)' % k)
        self._log('plot', S.asarr(args[0]).copy(), S.asarr(args[1]).copy(), kw.get('label'))
        return VList([Closed()])

    def _lim(self, axis, lo, hi, kw):
        names = {'x': ('xmin', 'xmax', 'left', 'right'), 'y': ('ymin', 'ymax', 'bottom', 'top')}[axis]
        lo = kw.pop(names[0], kw.pop(names[2], lo))
        hi = kw.pop(names[1], kw.pop(names[3], hi))
        if kw:
            raise Unsupported('limits with %s' % list(kw))
        if isinstance(lo, SymArray) and lo.ndim == 1 and hi is None:
            lo, hi = lo[0], lo[1]
        elif isinstance(lo, (tuple, list)) and hi is None:
            lo, hi = lo
        if lo is None and hi is None:
            return
        if lo is None or hi is None:
            raise Unsupported('one-sided limits')
        self._log(axis + 'lim', S.asarr(lo), S.asarr(hi))

    def xlim(self, lo=None, hi=None, **kw):
        self._lim('x', lo, hi, kw)

    def ylim(self, lo=None, hi=None, **kw):
        self._lim('y', lo, hi, kw)
    set_xlim, set_ylim = xlim, ylim

    def axis(self, arg=None, **kw):
        if isinstance(arg, (list, tuple)) and len(arg) == 4:
            self.xlim(arg[0], arg[1])
            self.ylim(arg[2], arg[3])
        else:
            raise Unsupported('axis()')

    def set(self, **kw):
        for k in ('xlim', 'ylim'):
            if k in kw:
                getattr(self, k)(kw.pop(k))
        if set(kw) - {'xlabel', 'ylabel', 'title'}:
            raise Unsupported('set(%s)' % list(kw))

    def savefig(self, fname, **kw):
        if set(kw) - {'dpi', 'bbox_inches', 'format', 'transparent', 'facecolor', 'pad_inches'}:
            raise Unsupported('savefig options')
        self._log('savefig', fname, kw.get('format'))

    def gca(self, **kw):
        return self

    def get_figure(self):
        return self

    def add_subplot(self, *a, **k):
        self._p.axes_made(self._f)
        return self
    add_axes = add_subplot

    @property
    def figure(self):
        return self

    def __getattr__(self, n):
        if n in IGNORED:
            return lambda *a, **k: Closed()
        raise Unsupported('matplotlib %s' % n)

    def vc_subst(self, m):
        return self


class Plots:
    """Records what is drawn.  Figure 0 is left over from earlier drawing."""

    def __init__(self):
        self.cur = 0
        self.n = 0
        self.w = None
        self.made = set()

    def bind(self, w):
        self.w = w

    def ax(self):
        return Axes(self, self.cur)

    def axes_made(self, f):
        if f in self.made:
            raise Unsupported('several axes')
        self.made.add(f)

    def figure(self, num=None, figsize=None, **kw):
        if num is not None or kw.get('clear'):
            raise Unsupported('figure(num)')
        self.n += 1
        self.cur = self.n
        return self.ax()

    def subplots(self, nrows=1, ncols=1, **kw):
        if nrows != 1 or ncols != 1:
            raise Unsupported('several axes')
        self.figure()
        return self.ax(), self.ax()

    def close(self, *a):
        self.cur = 0

    def clf(self):
        self.n += 1
        self.cur = self.n

    def modules(self):
        me = self

        class Mod(L._ShimModule):
            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                if n in ('figure', 'subplots', 'close', 'clf', 'cla'):
                    return getattr(me, 'clf' if n == 'cla' else n)
                if n == 'gcf':
                    return lambda: me.ax()
                return getattr(me.ax(), n)
        pp = Mod('matplotlib.pyplot', None)
        m = L._ShimModule('matplotlib', None)
        m.__dict__.update(pyplot=pp, use=lambda *a, **k: None)
        return {'matplotlib': m, 'matplotlib.pyplot': pp}
