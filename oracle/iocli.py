"""Run-time contracts of occuprob.io and occuprob.cli (C17 - C21), run in scratch directories."""
import contextlib
import hashlib
import io as stdio
import itertools
import os
import re
import shutil
import sys
import tempfile

import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt
from ase.data import atomic_masses, atomic_numbers

import occuprob.io as oio
import occuprob.cli as cli
import occuprob.superpositions as sp
import gen
from ref import Ref
from props import Fail, need, near, heat_tol, RT, LD, TINY


# ------------------------------------------------------------------ molecules

def rot(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    a, b, c, d = q
    return np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
                     [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]])


def tetra(r):
    return np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) * r / np.sqrt(3)


def ring(n, r, z=0., off=0.):
    return np.array([[r * np.cos(2 * np.pi * k / n + off), r * np.sin(2 * np.pi * k / n + off), z] for k in range(n)])


def molecules():
    """name -> (symbols, positions, number of proper rotations or None)"""
    m = {}
    m['H2O'] = (['O', 'H', 'H'], [[0, 0, 0], [0.76, 0.59, 0], [-0.76, 0.59, 0]], 2)
    m['HDO-like'] = (['O', 'H', 'F'], [[0, 0, 0], [0.76, 0.59, 0], [-0.76, 0.59, 0]], 1)
    m['NH3'] = (['N', 'H', 'H', 'H'], np.vstack([[[0, 0, 0.3]], ring(3, 0.94)]), 3)
    m['CH4'] = (['C'] + ['H'] * 4, np.vstack([[[0, 0, 0]], tetra(1.09)]), 12)
    m['CH3F'] = (['C', 'F', 'H', 'H', 'H'], np.vstack([[[0, 0, 0]], tetra(1.09)]), 3)
    m['CH2F2'] = (['C', 'F', 'F', 'H', 'H'], np.vstack([[[0, 0, 0]], tetra(1.09)]), 2)
    m['CHFClBr'] = (['C', 'F', 'Cl', 'Br', 'H'], np.vstack([[[0, 0, 0]], tetra(1.5)]), 1)
    m['BF3'] = (['B', 'F', 'F', 'F'], np.vstack([[[0, 0, 0]], ring(3, 1.3)]), 6)
    m['benzene'] = (['C'] * 6 + ['H'] * 6, np.vstack([ring(6, 1.39), ring(6, 2.48)]), 12)
    m['square'] = (['Na'] * 4, ring(4, 2.2), 8)
    m['rhombus'] = (['Na'] * 4, [[1.5, 0, 0], [-1.5, 0, 0], [0, 2.6, 0], [0, -2.6, 0]], 4)
    m['octahedron'] = (['S'] + ['F'] * 6, [[0, 0, 0], [1.56, 0, 0], [-1.56, 0, 0], [0, 1.56, 0], [0, -1.56, 0], [0, 0, 1.56], [0, 0, -1.56]], 24)
    m['ethane'] = (['C', 'C'] + ['H'] * 6, np.vstack([[[0, 0, .77], [0, 0, -.77]], ring(3, 1.03, 1.16), ring(3, 1.03, -1.16, np.pi / 3)]), 6)
    m['H2O2'] = (['O', 'O', 'H', 'H'], [[0, .73, -.05], [0, -.73, -.05], [.8, .88, .4], [-.8, -.88, .4]], 2)
    m['C2h'] = (['C', 'C', 'F', 'F', 'H', 'H'], [[.67, 0, 0], [-.67, 0, 0], [1.4, 1.1, 0], [-1.4, -1.1, 0], [1.3, -.9, 0], [-1.3, .9, 0]], 2)
    m['bent chain'] = (['Au', 'Au', 'Au', 'Ag'], [[0, 0, 0], [2.5, .3, 0], [4., 2.4, .7], [5.5, 2.4, 3.1]], 1)
    m['CO2'] = (['C', 'O', 'O'], [[0, 0, 0], [0, 0, 1.16], [0, 0, -1.16]], None)
    m['HCN'] = (['H', 'C', 'N'], [[0, 0, -1.06], [0, 0, 0], [0, 0, 1.15]], None)
    m['N2'] = (['N', 'N'], [[0, 0, 0], [0, 0, 1.1]], None)
    g = (1 + 5 ** .5) / 2
    ico = [(0, s * 1., t * g) for s in (1, -1) for t in (1, -1)]
    ico = ico + [(a, b, c) for (c, a, b) in ico] + [(b, c, a) for (c, a, b) in [(x[0], x[1], x[2]) for x in ico]]
    ico = np.array([(0, s, t * g) for s in (1, -1) for t in (1, -1)] + [(s, t * g, 0) for s in (1, -1) for t in (1, -1)] +
                   [(t * g, 0, s) for s in (1, -1) for t in (1, -1)]) * 1.5
    m['icosahedron'] = (['B'] * 12, ico, 60)
    m['nearly square'] = (['Na'] * 4, ring(4, 2.2) + np.array([[.12, 0, 0], [0, .03, 0], [0, 0, .05], [0, 0, 0]]), None)
    m['nearly CH4'] = (['C'] + ['H'] * 4, np.vstack([[[0, 0, 0]], tetra(1.09) * np.array([[1, 1, 1.06]])]), None)
    m['nearly octahedral'] = (['Au'] * 6, np.array(m['octahedron'][1])[1:] * np.array([1, 1, 1.02]), None)
    return {k: (list(s), np.array(p, float), o) for k, (s, p, o) in m.items()}


MOL = molecules()


def count_proper(symbols, pos):
    from pymatgen.core.structure import Molecule
    from pymatgen.symmetry.analyzer import PointGroupAnalyzer
    ops = PointGroupAnalyzer(Molecule(symbols, pos), eigen_tolerance=0.01).get_symmetry_operations()
    n = 0
    for o in ops:
        r = np.asarray(o.affine_matrix)[:3, :3]
        d = (r[0, 0] * (r[1, 1] * r[2, 2] - r[1, 2] * r[2, 1]) - r[0, 1] * (r[1, 0] * r[2, 2] - r[1, 2] * r[2, 0]) +
             r[0, 2] * (r[1, 0] * r[2, 1] - r[1, 1] * r[2, 0]))
        n += d > 0
    return int(n)


def moments(symbols, pos):
    m = np.array([atomic_masses[atomic_numbers[s]] for s in symbols])
    p = pos - (m[:, None] * pos).sum(0) / m.sum()
    t = np.zeros((3, 3))
    for a, x in zip(m, p):
        t += a * ((x @ x) * np.eye(3) - np.outer(x, x))
    return np.linalg.eigvalsh(t)


def propeller(n):
    """About n atoms on an axis of high order, elements in no regular order; the key of MOL."""
    k = max(3, -(-n // 3))
    at = []
    for j in range(k):
        for r, z, e, o in ((3., 0., 'C', 0.), (4.1, .3, 'H', 0.), (5.3, -.2, 'N', .3)):
            a = 2 * np.pi * j / k + o
            q = max(1., k / 12)
            at.append((e, (q * r * np.cos(a), q * r * np.sin(a), z)))
    at[1], at[2] = at[2], at[1]
    nm = 'propeller %d' % n
    MOL[nm] = [e for e, _ in at], np.array([p for _, p in at]), k
    return nm


BORDER = [('square', (1, 0, 0)), ('octahedron', (0, 0, 1)), ('CH4', (0, 0, 1)), ('BF3', (0, 1, 0)), ('icosahedron', (1, 0, 0)),
          ('benzene', (1, 0, 0)), ('octahedron', (1, -1, 0)), ('NH3', (1, 0, 0))]


def border(nm, v):
    """Stretches just below and above the one at which the analyser finds another order."""
    f = lambda s: count_proper(MOL[nm][0], MOL[nm][1] * (1 + s * v))
    lo, hi, a = 0., 0.3, f(0.)
    if f(hi) == a:
        return []
    while hi - lo > 1e-5:
        c = (lo + hi) / 2
        lo, hi = (c, hi) if f(c) == a else (lo, c)
    return [x for x in (lo - 1e-3, lo - 2e-4, lo - 3e-5, lo, hi, hi + 3e-5, hi + 2e-4, hi + 1e-3) if x > 0]


def strlits(repo):
    """Integers inside the string literals of the source."""
    import ast
    import re
    out = set()
    for fn in ('io.py', 'cli.py'):
        try:
            t = ast.parse(open(os.path.join(repo, 'occuprob', fn)).read())
        except Exception:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40:
                out |= {int(x) for x in re.findall(r'\d{1,4}', n.value)}
            if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                out.add(n.value)
    return out


WORDS = {' Utility functions. ', '$T$ [K]', '%(prog)s ', '--', '--max_temp', '--min_temp', '--out_file', '--plot', '--plot_format', '--size',
         '--version', '-C', '-E', '-Q', '-R', '-S', '-c', '-e', '-q', '-r', '-s', '.', '.dat', ':', 'C', 'Energy', 'F', 'Frequencies',
         'Isomer ', 'Multiplicity', 'Output filename prefix', 'P', '_', '__main__', 'calc_part_func', 'calc_part_func_', 'energy',
         'frequencies', 'hline_pos', 'in_file', 'labels', 'linewidth', 'matrix', 'moments', 'multiplicity', 'silver', 'size', 'store_true',
         'svg', 'symmetry', 'v', 'version', 'w', 'ylabel', 'ylims'}


def words(repo):
    """Short strings that the source did not hold when this was written, as parts of a path."""
    import ast
    import re
    out = []
    for fn in ('cli.py', 'io.py'):
        try:
            t = ast.parse(open(os.path.join(repo, 'occuprob', fn)).read())
        except Exception:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 24 and n.value not in WORDS:
                w = re.sub('[^A-Za-z0-9._+=-]', '', n.value).lstrip('-')
                if w and w not in out and w not in ('.', '..'):
                    out.append(w)
    return out


def isomer(rng, name, energy, mult, freqs, move=True):
    s, p, o = MOL[name]
    if move:
        p = p @ rot(rng).T + rng.uniform(-5, 5, 3)
    return {'name': name, 'symbols': s, 'pos': [[float('%.12f' % x) for x in r] for r in p], 'E': energy, 'g': mult, 'nu': freqs}


def write_xyz(path, isos, extra=False):
    with open(path, 'w') as f:
        for k, i in enumerate(isos):
            f.write('%d\n' % len(i['symbols']))
            fr = 'Frequencies="%s"' % ' '.join(repr(x) for x in i['nu'])
            e = 'Energy=%r' % i['E']
            g = 'Multiplicity=%r' % i['g']
            c = [e, g, fr] if (k % 2 == 0) == (not extra) else [fr, 'Label=iso%d' % k, g, e]
            if i.get('cell'):
                c.insert(k % 3, 'Lattice="%r 0.0 0.0 0.0 %r 0.0 0.0 0.0 %r"' % tuple(i['cell']))
                c.append('pbc="T T T"')
            c += ['%s=%s' % kv for kv in (i.get('keys') or {}).items()]
            if i.get('columns'):
                c.insert(0, 'Properties=species:S:1:pos:R:3:tags:I:1:forces:R:3')
            f.write(' '.join(c) + '\n')
            for n, (s, p) in enumerate(zip(i['symbols'], i['pos'])):
                f.write('%-2s %.12f %.12f %.12f%s\n' % (s, *p, ' %d 0.5 -1.25 %d.0' % (n % 2, n) if i.get('columns') else ''))


def isoset(rng, names, d, ints=False, n=None):
    out = []
    for k, nm in enumerate(names):
        fr = [float('%.6f' % x) for x in rng.uniform(1, 60, d)] if not ints else [int(x) for x in rng.integers(1, 60, d)]
        out.append(isomer(rng, nm, round(float(rng.uniform(-2, 0)), 9) - 100 * (not ints), int(rng.integers(1, 5)), fr))
    return out


def instances(pid, repo, seed, tier):
    rng = np.random.default_rng(500 + seed)
    names = sorted(MOL)
    out = []
    deep = tier != 'quick'
    lits = [int(v) for v in gen.literals(repo) if v == int(v) and 2 <= v <= 40]
    if pid == 'C17':
        for rep in range(3 if not deep else 15):
            for n, d in ((1, 3), (2, 1), (3, 9), (4, 3), (5, 12), (7, 6), (3, 30), (2, 2), (9, 9)):
                pick = [names[int(k)] for k in rng.integers(0, len(names), n)]
                out.append({'isos': isoset(rng, pick, d, ints=(n + rep) % 3 == 0)})
        for v in sorted(set(lits)):
            out.append({'isos': isoset(rng, ['H2O', 'CH3F'] * (v // 2) + ['NH3'], 3)})
            out.append({'isos': isoset(rng, ['H2O', 'CH3F'], v)})
        two = isoset(rng, ['H2O', 'H2O', 'H2O'], 3)
        two[1]['E'] = two[0]['E']
        two[1]['nu'] = list(two[0]['nu'])
        two[2] = dict(two[0])                 # a repeated isomer is still listed
        out.append({'isos': two})
        for gs in ((1.5, 2.5, 4), (200, 3, 70000), (1, 2.25, 1), (3.0000001, 1e-3, 5)):
            out.append({'isos': [dict(x, g=g) for x, g in zip(isoset(rng, ['H2O', 'CH4', 'NH3'], 3), gs)]})
        for n in sorted({30, 62} | {int(v) + 1 for v in gen.new_literals(repo) if v == int(v) and 4 <= v <= 150}):
            out.append({'isos': [isomer(rng, propeller(n), -1., 1, [2., 3.]) for _ in range(2)]})
        hi = isoset(rng, ['CH4', 'NH3'], 3)
        hi[0]['E'] = -1234567.123456789
        hi[0]['nu'] = [60.0, 2.0, 31.5]
        out.append({'isos': hi})
        for what in ('g', 'nu', 'both', 'symbols'):      # neighbours that agree but in one respect
            near = isoset(rng, ['NH3', 'NH3', 'H2O', 'NH3', 'NH3'], 3)
            for k in (1, 3, 4):
                near[k] = dict(near[0], g=near[0]['g'] + (k if what in ('g', 'both') else 0))
                if what in ('nu', 'both'):
                    near[k]['nu'] = [x + k for x in near[0]['nu']]
                if what == 'symbols':
                    near[k]['symbols'] = [{'H': 'F'}.get(s, s) if k != 3 else s for s in near[0]['symbols']]
            out.append({'isos': near})
        ids = [w for w in words(repo) if re.fullmatch('[A-Za-z][A-Za-z_0-9]{1,19}', w)][:8]
        for extra in (['energy', 'free_energy'], ['charge', 'label', 'energies_'], ids):      # other keys of the comment line
            more = isoset(rng, ['H2O', 'NH3', 'H2O', 'BF3'], 3)
            for k, x in enumerate(more):
                x['keys'] = {w: repr(-7.25 - k - j) for j, w in enumerate(extra) if k != 1}
            out.insert(0, {'isos': more})
        for v in [v for v in gen.new_literals(repo) if 1e-6 < v < 1e7][:12]:       # values around the literals of the source
            near = isoset(rng, ['H2O', 'NH3', 'CO2', 'H2O', 'BF3', 'NH3'], 3)
            for k, x in enumerate(near):
                w = v if k else .3 * v
                x['nu'] = [float('%.9g' % (w * q)) for q in ((1.05, 1.3, 2.1), (1., 1.2, 3.), (.4, .6, .95), (.5, 1.5, 2.5))[k % 4]]
                x['E'] = float('%.9g' % (w * (1.1, -1.2, .7, -.6, 3., -2.5)[k]))
                x['g'] = max(1, int(v * (1, .5, 2)[k % 3]) + k % 2)
            out.insert(0, {'isos': near})
            out.insert(0, {'isos': near[1:2]})
        for n in (36, 60):                    # large periodic structures
            big = [isomer(rng, propeller(n), -4. - k, 1 + k, [2., 3. + k]) for k in range(2)] + isoset(rng, ['CH4'], 2)
            for k, x in enumerate(big):
                if k != 1:
                    x['cell'] = [21., 22., 23.]
            out.append({'isos': big})
        for n in (70, 140):                   # many isomers
            out.append({'isos': isoset(rng, ['N2', 'H2O'] * (n // 2), 1 + n % 3)})
        for v in sorted(v for v in strlits(repo) if 40 < v <= 400):
            out.append({'isos': isoset(rng, ['N2'] * (v + 1), 1)})
        dup = isoset(rng, ['H2O', 'NH3', 'H2O', 'CO2', 'H2O'], 3)
        for k in (2, 4):
            dup[k]['E'] = dup[0]['E']
        for k in range(5):
            dup[k]['E'] = dup[k]['E'] if k % 2 == 0 else -dup[k]['E']
            dup[k]['nu'] = [1e-7, 123.4567891, 30.00000001] if k == 1 else dup[k]['nu']
        dup[3]['nu'] = [50., 7., 31.]          # not in ascending order
        out.append({'isos': dup})
        for cell in ([6., 7., 8.], [2.5, 2.5, 2.5]):         # periodic cells, molecules across their boundaries
            per = isoset(rng, ['H2O', 'NH3', 'CO2', 'CHFClBr', 'octahedron'], 4)
            for n, i in enumerate(per):
                i['cell'] = cell
                i['columns'] = n % 2 == 1
            out.append({'isos': per})
    elif pid == 'C18':
        for nm in names:
            for rep in range(1 if not deep else 5):
                i = isomer(rng, nm, 0., 1, [1.], move=rep > 0 or nm != 'CO2')
                out.append({'iso': i, 'order': MOL[nm][2]})
        for nm in names[:: (2 if not deep else 1)]:                      # atoms in another order
            i = isomer(rng, nm, 0., 1, [1.])
            p = rng.permutation(len(i['symbols']))
            i['symbols'] = [i['symbols'][k] for k in p]
            i['pos'] = [i['pos'][k] for k in p]
            out.append({'iso': i, 'order': MOL[nm][2]})
        for nm, stretch in BORDER:                                       # where the order found changes
            for s in border(nm, np.array(stretch)):
                out.append({'iso': {'name': nm, 'symbols': MOL[nm][0], 'pos': (MOL[nm][1] * (1 + s * np.array(stretch))).tolist(),
                                    'E': 0., 'g': 1, 'nu': [1.]}, 'order': None})
        for n in sorted({18, 31, 64} | {int(v) + k for v in gen.new_literals(repo) if v == int(v) and 4 <= v <= 150 for k in (0, 2)}):
            out.append({'iso': isomer(rng, propeller(n), 0., 1, [1.]), 'order': None})
        for n in (14, 17, 24):
            MOL['ring %d' % n] = ['C'] * n, ring(n, 1.4 / (2 * np.sin(np.pi / n))), 2 * n
            out.append({'iso': isomer(rng, 'ring %d' % n, 0., 1, [1.]), 'order': None})
        for k, nm in enumerate(names):                                   # in a periodic cell smaller than the shifts
            i = isomer(rng, nm, 0., 1, [1.], move=nm != 'CO2')
            i['cell'] = [[6., 7., 8.], [30., 30., 30.], [3., 3., 3.]][k % 3]
            out.append({'iso': i, 'order': MOL[nm][2]})
    elif pid in ('C19', 'C20'):
        flags = [[a, b, c] for a in ('', '-e', '-s') for b in ('', '-c', '-q') for c in ('', '-r')]
        grids = [(None, None), ('0', '12'), ('10', '13.5'), ('0.5', '3.25'), ('100', '100'), ('250', '250.75'), ('5', '6'),
                 ('1.5', '20.4'), ('0', '1'), (None, '3'), ('490', None), ('7.3', '9.3'), ('20', '60.999')]
        for k, fl in enumerate(flags):
            n = 1 + k % 4
            out.append({'isos': isoset(rng, [names[(3 * k + j) % len(names)] for j in range(n)], 1 + k % 4),
                        'flags': [f.upper() if k % 5 == 3 else f for f in fl if f], 'grid': grids[(k * 5 + 1) % len(grids)],
                        'file': ['iso.xyz', 'a.b/iso.extxyz', 'run.xyz.d/file.xyz', 'data', '.hidden', 'dir.dat/x.y.xyz'][k % 6],
                        'out': [None, 'res', 'o.dat/res', 'x.y', 'P_C.dat', 'sub/pre.xyz'][(k * 7 + 3) % 6], 'plot': None})
        for k, gr in enumerate(grids):
            out.append({'isos': isoset(rng, ['H2O', 'NH3', 'CO2'], 3), 'flags': [['-e', '-q', '-r'], ['-s', '-c'], ['-e'], ['-s', '-q']][k % 4],
                        'grid': gr, 'file': 'iso.xyz', 'out': None if k % 2 else 'result', 'plot': None})
        if pid == 'C20':
            for k, (fn, o, fmt) in enumerate((('iso.xyz', None, 'svg'), ('m.dat/iso.xyz', None, 'png'), ('iso.dat.xyz', None, 'PNG'),
                                              ('w.xyz.d/n.xyz', 'd.dat/pre.dat', 'Pdf'), ('iso.xyz', 'a_C', None), ('data', 'p.dat', 'png'),
                                              ('my_P.dat.d/iso.xyz', None, 'png'), ('png/iso.xyz', 'png', 'png'))):
                out.append({'isos': isoset(rng, ['H2O', 'NH3'], 3), 'flags': [['-e', '-c'], ['-s', '-q', '-r']][k % 2], 'grid': ('0', '5'),
                            'file': fn, 'out': o, 'plot': fmt or 'default'})
        def cli(isos, flags, lo, hi, front=False):
            out.insert(0 if front else len(out), {'isos': isos, 'flags': flags, 'grid': (lo, hi), 'file': 'iso.xyz', 'out': None, 'plot': None})
        steps = isoset(rng, ['H2O', 'NH3', 'CO2', 'BF3'], 2)          # populations over many orders of magnitude
        for k, x in enumerate(steps):
            x['E'] = -1. + .3 * k
        cli(steps, ['-e'], '90', '103')
        cli(steps, ['-s', '-q', '-r'], '40.5', '44')
        cli(isoset(rng, ['H2O', 'N2'] * 36, 2), ['-e', '-c'], '200', '203')
        for k, v in enumerate(sorted(v for v in gen.new_literals(repo) if 1e-3 < v <= 3000)[:12]):
            for fl in (['-s', '-q', '-r'], ['-e', '-c'], ['-q']):
                for lo, hi in ((1.125 * v, 1.125 * v + 2), (v, v + 2.5), (.5 * v, min(1.5 * v, .5 * v + 400)), (0., v), (.25, v + 7.75)):
                    cli(isoset(rng, ['H2O', 'NH3', 'CO2'], 3), fl, repr(round(lo, 4)), repr(round(hi, 4)), True)
            if v == int(v) and 3 <= v <= 150:
                cli(isoset(rng, (['H2O', 'N2'] * int(v))[:int(v) + 1], 2), ['-e', '-c'], '200', '203', True)
        for w in words(repo)[:6]:              # the words of the source in the paths
            for fn, o in (('d/a.xyz', 'd/%s/o' % w), ('%s/a.xyz' % w, None), ('x%sy.xyz' % w, None), ('a.xyz', '%sq' % w), ('a.xyz', 'q%s' % w),
                          ('%s.xyz' % w, '%s/p' % w), ('d/a.xyz', '%s' % w)):
                for fmt in ('default', 'png'):
                    out.append({'isos': isoset(rng, ['H2O', 'NH3'], 2), 'flags': ['-e', '-c'], 'grid': ('0', '3'), 'file': fn, 'out': o, 'plot': fmt})
        for v in sorted(set(lits))[:8 if not deep else 40]:
            out.append({'isos': isoset(rng, (['H2O', 'NH3', 'CH4'] * v)[:v], 2), 'flags': ['-e', '-c'], 'grid': ('0', str(v)), 'file': 'iso.xyz',
                        'out': None, 'plot': None})
        if not deep and pid == 'C19':
            pass
    elif pid == 'C21':
        for k in range(14 if not deep else 60):
            n, m = [(1, 5), (2, 2), (3, 7), (4, 4), (12, 6), (5, 501), (2, 1), (7, 3), (30, 11)][k % 9]
            P = rng.uniform(0, 1, (n, m))
            P /= P.sum(0)
            if k % 3 == 0:
                P = np.zeros((n, m))
                P[k % n] = 1.
            c = rng.uniform(0, [1e-3, 1., 3., 30., 200.][k % 5], (1, m))
            if k % 4 == 1:
                c = np.full((1, m), [0., 2., 4., 7.5][k % 4])
            T = [np.arange(m) * 1., np.linspace(10, 400, m), np.arange(m) + 273.15, np.geomspace(.1, 900, m)][k % 4]
            out.append({'P': P, 'C': c, 'T': T})
        big = sorted({int(v) + 1 for v in gen.new_literals(repo) if v == int(v) and 2 <= v <= 30000})[:12]
        for n, m in [(45, 4), (110, 3), (2, 1300)] + [(2, v) for v in big] + [(v, 3) for v in big if v <= 300] + [(v * v // 2, 3) for v in big if v <= 12]:
            P = rng.uniform(0, 1, (n, m))
            out.append({'P': P / P.sum(0), 'C': rng.uniform(0, 9, (1, m)), 'T': np.arange(m) * 1.})
        for v in gen.new_literals(repo)[:20]:
            if 1e-6 < v < 1e6:
                out.append({'P': np.full((2, 3), .5), 'C': np.array([[.4 * v, 1.02 * v, .99 * v]]), 'T': v + np.arange(3.)})
                out.append({'P': np.array([[min(v, 1.), .5], [1 - min(v, 1.), .5]]), 'C': np.array([[1.5 * v, 3. * v]]), 'T': np.array([v / 2, v])})
        for v in sorted(set(lits))[:30]:
            P = np.full((v, 3), 1 / v)
            out.append({'P': P, 'C': np.full((1, v), float(v)), 'T': np.arange(v) * 1., 'PT': np.arange(3) * 2.})
    return out


def convert(pid, c):
    """Inputs of this companion from a counterexample of the verifier over the symbolic inputs."""
    if 'isos' in c or 'iso' in c or 'P' in c:
        return [c]                   # a replay
    case = c.get('case') or {}
    rng = np.random.default_rng(3)
    n, d = (np.shape(c['nu'])[0], np.shape(c['nu'])[1]) if 'nu' in c else (3, 3)
    n, d = min(n, 60), min(d, 30)
    if pid == 'C18':
        return []
    if pid == 'C21':
        m = min(np.size(c['T']), 600) if 'T' in c else 5
        T = np.arange(m) * 1. + (float(c['T'][0]) if 'T' in c and m == 1 else 0.)
        P = rng.uniform(0, 1, (n, m))
        flat = np.zeros((n, m))
        flat[n - 1] = 1.
        return [{'P': p, 'C': h, 'T': T} for p, h in ((P / P.sum(0), rng.uniform(0, 9, (1, m))), (flat, np.zeros((1, m))))]
    names = ['H2O', 'NH3', 'CHFClBr', 'CH4', 'BF3']
    isos = isoset(rng, [names[k % 5] for k in range(n)], d)
    for k, s in enumerate(isos):
        if 'nu' in c:
            s['E'] = round(float(c['E'][k]), 9)
            s['g'] = max(1, int(round(float(c['g'][k])))) if k % 2 else max(0.5, round(abs(float(c['g'][k])), 3))
            s['nu'] = [float('%.6f' % abs(x)) or 1. for x in np.asarray(c['nu'])[k, :d]]
    if pid == 'C17':
        return [{'isos': isos}]
    for k in ('file', 'out'):
        if case.get(k):              # stay inside the scratch directory
            case[k] = os.path.normpath('/' + case[k]).lstrip('/')
    lo = abs(round(float(c.get('tmin', 0.5)), 4))
    hi = round(lo + min(abs(float(c.get('span', 7.25))), 600.), 4)
    return [{'isos': isos, 'flags': list(case.get('flags', ['-e', '-c'])), 'grid': tuple(case.get('grid', (repr(lo), repr(hi)))),
             'file': case.get('file', 'iso.xyz'), 'out': case.get('out'), 'plot': case.get('plot')}]


# ------------------------------------------------------------------ C17, C18

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='occuprob-check-')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        plt.close('all')
        shutil.rmtree(d, ignore_errors=True)


def c17(i, known):
    isos = i['isos']
    n, d = len(isos), len(isos[0]['nu'])
    with scratch():
        write_xyz('file.xyz', isos)
        try:
            p = oio.load_properties_from_extxyz('file.xyz')
        except Exception as e:
            raise Fail('loading raised %s: %s' % (type(e).__name__, e))
    for k in ('energy', 'multiplicity', 'frequencies', 'moments', 'symmetry'):
        need(k in p, 'no %r in the result' % k)
    need(np.shape(p['energy']) == (n,) and np.shape(p['multiplicity']) == (n,) and np.shape(p['symmetry']) == (n,), 'one value per isomer')
    need(np.shape(p['frequencies']) == (n, d), 'frequencies of shape %r instead of %r' % (np.shape(p['frequencies']), (n, d)))
    need(np.shape(p['moments']) == (n, 3), 'moments of shape %r' % (np.shape(p['moments']),))
    need(p['frequencies'].dtype == np.longdouble, 'frequencies are %s, not extended precision' % p['frequencies'].dtype)
    for k, s in enumerate(isos):
        need(float(p['energy'][k]) == s['E'], 'energy of isomer %d: %r instead of %r' % (k, p['energy'][k], s['E']))
        need(p['multiplicity'][k] == s['g'], 'multiplicity of isomer %d: %r instead of %r' % (k, p['multiplicity'][k], s['g']))
        need([float(x) for x in p['frequencies'][k]] == [float(x) for x in s['nu']], 'frequencies of isomer %d: %s instead of %s' % (
            k, p['frequencies'][k], s['nu']))
        want = moments(s['symbols'], np.array(s['pos']))
        near(np.sort(p['moments'][k]), want, 'moments of isomer %d' % k, rt=1e-9, at=1e-6)
        o = count_proper(s['symbols'], np.array(s['pos']))
        need(int(p['symmetry'][k]) == o, 'symmetry order of isomer %d: %r instead of %r' % (k, p['symmetry'][k], o))


def c18(i, known):
    from ase import Atoms
    s = i['iso']
    a = Atoms(s['symbols'], positions=s['pos'], cell=s.get('cell'), pbc=bool(s.get('cell')))
    try:
        o = oio.calc_symmetry_order(a)
    except Exception as e:
        raise Fail('raised %s: %s' % (type(e).__name__, e))
    want = count_proper(s['symbols'], np.array(s['pos']))
    need(int(o) == o and int(o) == want, 'symmetry order of %s: %r, proper operations found: %r' % (s['name'], o, want))
    if i.get('order'):
        need(int(o) == i['order'], 'symmetry order of %s: %r instead of %r' % (s['name'], o, i['order']))


# ------------------------------------------------------------------ C19, C20

def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return out


class Recorder:
    """Results handed out by the library while the program runs."""

    def __init__(self):
        self.res = {'P': [], 'C': []}

    def __enter__(self):
        self.old = (sp.SuperpositionApproximation.calc_probability, sp.SuperpositionApproximation.calc_heat_capacity)
        rec = self.res

        def p(x, *a, **k):
            r = self.old[0](x, *a, **k)
            rec['P'].append(r)
            return r

        def c(x, *a, **k):
            r = self.old[1](x, *a, **k)
            rec['C'].append(r)
            return r
        sp.SuperpositionApproximation.calc_probability = p
        sp.SuperpositionApproximation.calc_heat_capacity = c
        return self

    def __exit__(self, *a):
        sp.SuperpositionApproximation.calc_probability, sp.SuperpositionApproximation.calc_heat_capacity = self.old


def run_cli(argv):
    old = sys.argv
    sys.argv = ['occuprob'] + argv
    try:
        with contextlib.redirect_stdout(stdio.StringIO()), contextlib.redirect_stderr(stdio.StringIO()):
            cli.main()
    except SystemExit as e:
        raise Fail('exited with %r' % (e.code,))
    except Exception as e:
        raise Fail('raised %s: %s' % (type(e).__name__, e))
    finally:
        sys.argv = old


def prefix(i):
    return i['out'] if i['out'] is not None else os.path.splitext(i['file'])[0]


def launch(i):
    for f in (i['file'], i['out'] or 'x'):
        if os.path.dirname(f):
            os.makedirs(os.path.dirname(f), exist_ok=True)
    write_xyz(i['file'] if not os.path.isdir(i['file']) else i['file'], i['isos'])
    for decoy in ('notes.txt', 'other_P.dat', 'iso_P.txt', '_P.dat'):
        with open(decoy, 'w') as f:
            f.write('keep ' + decoy)
    # ASE guesses the format from the extension; unknown ones are read as extended XYZ through the header
    argv = list(i['flags'])
    lo, hi = i['grid']
    if lo is not None:
        argv += ['--min_temp', lo]
    if hi is not None:
        argv += ['--max_temp', hi]
    if i['out'] is not None:
        argv += ['--out_file', i['out']]
    if i['plot']:
        argv += ['--plot']
        if i['plot'] != 'default':
            argv += ['--plot_format', i['plot']]
    argv.append(i['file'])
    before = tree('.')
    with Recorder() as rec:
        run_cli(argv)
    return before, tree('.'), rec.res


def read_table(path):
    rows = []
    for line in open(path):
        line = line.split('#')[0].split()
        if line:
            rows.append([float(x) for x in line])
    return rows


def kinds_for(flags):
    f = ['-' + y for x in flags for y in x.lstrip('-').lower()]         # one letter each, possibly joined
    k = ''
    if '-e' in f or '-s' in f:
        k += 'e'
    if '-c' in f:
        k += 'c'
    if '-q' in f:
        k += 'q'
    if '-r' in f:
        k += 'r'
    return k, '-s' in f


def setup_ref(i):
    isos = i['isos']
    kinds, spin = kinds_for(i['flags'])
    lo = 0. if i['grid'][0] is None else float(i['grid'][0])
    hi = 500. if i['grid'][1] is None else float(i['grid'][1])
    m = int(np.floor(hi - lo)) + 1
    T = lo + np.arange(m)
    inst = {'E': np.array([float(x['E']) for x in isos]), 'g': np.array([float(x['g']) if spin else 1. for x in isos]),
            'nu': np.array([x['nu'] for x in isos]).astype(LD), 'sg': np.array([count_proper(x['symbols'], np.array(x['pos'])) for x in isos]),
            'I': np.array([moments(x['symbols'], np.array(x['pos'])) for x in isos]), 'T': T}
    inst['I'] = np.where(inst['I'] > 1e-9, inst['I'], 0.)
    return kinds, inst, lo, hi


LINEAR = ('CO2', 'HCN', 'N2')


def usable(i):
    """The file formats ASE recognises by content; linear molecules carry noise in a vanishing moment."""
    if 'r' in kinds_for(i['flags'])[0] and any(s['name'] in LINEAR for s in i['isos']):
        i = dict(i)
        i['isos'] = [dict(s, **{k: v for k, v in zip(('name', 'symbols', 'pos'), ('NH3', MOL['NH3'][0], MOL['NH3'][1].tolist()))})
                     if s['name'] in LINEAR else s for s in i['isos']]
    if os.path.splitext(i['file'])[1] not in ('.xyz', '.extxyz'):
        i = dict(i)
        i['file'] = i['file'] + '.xyz'
    return i


def c19(i, known):
    i = usable(i)
    kinds, inst, lo, hi = setup_ref(i)
    with scratch():
        before, after, rec = launch(i)
        new = sorted(f for f in after if f not in before)
        if not kinds:
            need(not new and all(after.get(f) == before[f] for f in before), 'files written without any contribution: %s' % new)
            return
        tabs = {}
        for key in 'PC':
            f = prefix(i) + '_' + key + '.dat'
            if not os.path.exists(f):
                cand = [x for x in new if ('_' + key) in os.path.basename(x)]
                need(cand, 'no table of %s written (%s)' % (key, new))
                f = cand[0]
            tabs[key] = np.array(read_table(f), dtype=LD)
    for key, t in tabs.items():
        need(t.ndim == 2, 'the table of %s is not rectangular' % key)
        T = t[:, 0]
        need(T.size > 0 and abs(T[0] - lo) <= 1e-9 * (1 + abs(lo)), 'the grid starts at %s instead of %s' % (T[:1], lo))
        need((np.abs(np.diff(T) - 1) < 1e-9).all(), 'the grid does not advance by 1 K')
        need(T[-1] <= hi + 1e-9, 'the grid ends at %s, above the maximum %s' % (T[-1], hi))
        exact = (8 * lo) % 1 == 0 and (8 * hi) % 1 == 0
        need(hi - T[-1] < 1 + (0 if exact else 1e-9), 'the grid ends at %s, 1 K or more below the maximum %s' % (T[-1], hi))
    inst['T'] = tabs['P'][:, 0].astype(float)
    r = Ref(inst)
    ok = r.ok_columns(kinds)
    n = len(inst['E'])
    need(tabs['P'].shape[1] == n + 1 and tabs['C'].shape[1] == 2, 'wrong number of columns')
    if not r.representable(kinds) or not ok.any():
        return
    P, P0 = r.prob(kinds), r.prob(kinds, zpe=False)
    C, s = r.heat(kinds)
    for j in np.flatnonzero(ok):
        got = tabs['P'][j, 1:]
        try:
            near(got, P[:, j], 'probability at %g K with %s' % (inst['T'][j], i['flags']), rt=LD('1e-8'))
        except Fail:
            if inst['T'][j] != 0 or 'q' not in kinds:
                raise
            near(got, P0[:, j], 'probability at 0 K with %s' % i['flags'], rt=LD('1e-8'))       # C08, recorded finding
        near(tabs['C'][j, 1], C[j], 'heat capacity at %g K with %s' % (inst['T'][j], i['flags']), at=heat_tol(s[j]) * 10, rt=LD('1e-8'))


def c20(i, known):
    i = usable(i)
    for old in (False, True):
        c20_run(i, old)


def c20_run(i, old):
    """One run of the program, over the result files of an earlier one when `old`."""
    kinds, inst, lo, hi = setup_ref(i)
    with scratch():
        want = {}
        if kinds:
            for key in 'PC':
                want[os.path.normpath(prefix(i) + '_' + key + '.dat')] = key
                if i['plot']:
                    fmt = 'svg' if i['plot'] == 'default' else i['plot'].lower()
                    want[os.path.normpath(prefix(i) + '_' + key + '.' + fmt)] = None
        if old:
            for f in want:
                if os.path.dirname(f):
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, 'w') as h:
                    h.write('# of an earlier run\n' + '0.0 1.0 2.0 3.0\n' * 700)
        before, after, rec = launch(i)
        changed = sorted(f for f in after if before.get(f) != after[f])
        gone = [f for f in before if f not in after]
        need(not gone, 'files removed: %s' % gone)
        need(changed == sorted(want), 'files written: %s, specified: %s' % (changed, sorted(want)))
        for f, key in want.items():
            if key is None:
                need(os.path.getsize(f) > 0, 'empty image %s' % f)
                continue
            rows = read_table(f)
            m = len(inst['T'])
            n = len(inst['E']) if key == 'P' else 1
            need(len(rows) == m, '%s has %d lines for %d temperatures' % (f, len(rows), m))
            need(all(len(x) == n + 1 for x in rows), '%s: lines of %s numbers instead of %d' % (f, {len(x) for x in rows}, n + 1))
            got = np.array(rows, float)
            need((np.abs(got[:, 0] - inst['T']) <= 1e-12 * (1 + inst['T'])).all(), '%s: the first column is not the temperature' % f)
            recs = [a for a in rec[key] if isinstance(a, np.ndarray) and a.shape == (n, m)]
            if recs:
                w = np.asarray(recs[-1]).astype(float).T
                bad = got[:, 1:] != w
                need(not bad.any(), '%s: %r is not the computed value %r' % (f, got[:, 1:][bad][:1], w[bad][:1]))


# ------------------------------------------------------------------ C21

def shown(l):
    """Does the line leave any mark?"""
    import matplotlib.colors as mc
    line = l.get_linestyle() not in ('None', '', ' ', None) and l.get_linewidth() > 0
    mark = l.get_marker() not in ('None', '', ' ', None) and l.get_markersize() > 0
    return bool(l.get_visible() and (line or mark) and (l.get_alpha() is None or l.get_alpha() > 0) and mc.to_rgba(l.get_color())[3] > 0)


class Capture:
    def __enter__(self):
        self.figs = []
        self.old = matplotlib.figure.Figure.savefig

        def save(fig, fname, *a, **k):
            ax = fig.get_axes()[0]
            curves = []
            for l in ax.get_lines():
                if l.get_transform() == ax.transData or ax.transData in getattr(l.get_transform(), '_invalid', ()) or \
                        l.get_transform().contains_branch(ax.transData) and l.get_xdata() is not None:
                    if l.get_transform().contains_branch_seperately(ax.transData) == (True, True):
                        curves.append((np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_label(), shown(l)))
            leg = ax.get_legend()
            self.figs.append({'name': str(fname), 'curves': curves, 'xlim': ax.get_xlim(), 'ylim': ax.get_ylim(),
                              'legend': [t.get_text() for t in leg.get_texts()] if leg else None, 'axes': len(fig.get_axes())})
        matplotlib.figure.Figure.savefig = save
        return self

    def __exit__(self, *a):
        matplotlib.figure.Figure.savefig = self.old
        plt.close('all')


def plot_contract(fig, res, T, labels, what):
    curves = [c for c in fig['curves'] if len(c[0]) == len(T) and c[3]] if len(T) != 2 else \
        [c for c in fig['curves'] if not str(c[2]).startswith('_guide')]
    need(len(curves) == len(res), '%s: %d curves for %d rows' % (what, len(curves), len(res)))
    for k, (row, c) in enumerate(zip(res, curves)):
        need(np.array_equal(c[0], np.asarray(T, float)), '%s: curve %d is not drawn against the temperatures' % (what, k))
        need(np.array_equal(c[1], np.asarray(row, float)), '%s: curve %d does not show the values of its row' % (what, k))
        if labels:
            need(c[2] == labels[k], '%s: curve %d is labelled %r' % (what, k, c[2]))
    if labels:
        need(fig['legend'] is not None and fig['legend'] == labels, '%s: legend %r' % (what, fig['legend']))
    lo, hi = fig['xlim']
    need(lo <= T[0] and hi >= T[-1], '%s: temperature axis %r' % (what, (lo, hi)))
    if T[0] != T[-1]:
        need(abs(lo - T[0]) < 1e-6 and abs(hi - T[-1]) < 1e-6, '%s: temperature axis %r for %r - %r' % (what, (lo, hi), T[0], T[-1]))
    lo, hi = fig['ylim']
    need(lo <= res.min() + 1e-9 and hi >= res.max() - 1e-9, '%s: vertical range %r for values in [%g, %g]' % (
        what, (lo, hi), res.min(), res.max()))


def c21(i, known):
    P, T, Cv = i['P'], i['T'], i['C']
    TP = i.get('PT', T)
    with scratch():
        def shot(f, what):
            with Capture() as c:
                try:
                    f()
                except Exception as e:
                    raise Fail('%s raised %s: %s' % (what, type(e).__name__, e))
                need(len(c.figs) == 1, '%s: %d figures saved' % (what, len(c.figs)))
                return c.figs[0]
        lab = ['Isomer %d' % (k + 1) for k in range(len(P))]
        for rep in (1, 2):
            f = shot(lambda: cli.plot_results(P, 'P', TP, 'p.svg', [8., 6.]), 'probability plot')
            plot_contract(f, P, TP, lab, 'probability plot')
            need(f['name'].endswith('p.svg'), 'saved as %r' % f['name'])
            f = shot(lambda: cli.plot_results(Cv, 'C', T, 'c.svg', (5., 4.)), 'heat-capacity plot')
            plot_contract(f, Cv, T, None, 'heat-capacity plot')
        f = shot(lambda: oio.plot_results(P, TP, 'q.png', labels=list(lab), hline_pos=[0, 1], ylims=(-0.05, 1.05), ylabel='x'), 'plot')
        plot_contract(f, P, TP, lab, 'plot with labels')
        f = shot(lambda: oio.plot_results(P, TP, 'q.png'), 'plot')
        plot_contract(f, P, TP, None, 'plot without format')
        for S in (P - 0.4, -P * 1e-9, P * 1e7, np.where(P > P.mean(), P, 0)):
            f = shot(lambda: oio.plot_results(S, TP, 'q.png', labels=list(lab)), 'plot of other values')
            plot_contract(f, S, TP, lab, 'plot of other values')
        # the same through the program: the results and figures of two successive figures do not mix
        with Capture() as c:
            cli.plot_results(P, 'P', TP, 'p.svg', [8., 6.])
            cli.plot_results(Cv, 'C', T, 'c.svg', [8., 6.])
            need(len(c.figs) == 2, '%d figures saved' % len(c.figs))
            plot_contract(c.figs[1], Cv, T, None, 'second figure')
