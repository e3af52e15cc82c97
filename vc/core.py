"""Conditions, piecewise extended-real values, proof contexts, z3 bridge."""
from fractions import Fraction
import itertools
import z3
from . import terms as tm
from .terms import R, lift, ZERO, ONE, Unsupported, of_atom, rebuild, subst, fresh, varname

# ================================================================ conditions


class Cond:
    """Atomic condition: gt (r > 0), eq (r == 0), b (named boolean), ex (exists)."""
    __slots__ = ('kind', 'r', 'data', 'id', 'fv', 'depth')

    def __repr__(self):
        if self.kind == 'gt':
            return '%s > 0' % tm.show(self.r)
        if self.kind == 'eq':
            return '%s == 0' % tm.show(self.r)
        if self.kind == 'b':
            return '%s(%s)' % (self.data[0], ','.join(map(tm.show, self.data[1])))
        if self.kind == 'ex':
            dim, dnf, b = self.data
            return 'exists %s<%s: %s' % (b, tm.show(dim), ' or '.join(
                ' and '.join(('' if p else 'not ') + '(%r)' % c for c, p in g) for g in dnf))

    def evalf(self, env, mp):
        if self.kind == 'gt':
            return tm.evalf(self.r, env, mp) > 0
        if self.kind == 'eq':
            return tm.evalf(self.r, env, mp) == 0
        if self.kind == 'b':
            if self.data[0] == 'present' and '@present' not in env:
                return True
            return bool(env['@' + self.data[0]](*[tm.evalf(x, env, mp) for x in self.data[1]]))
        dim, dnf, b = self.data
        e2 = tm.inner_env(env)
        for i in range(int(tm.evalf(dim, env, mp))):
            e2[b] = i
            if any(all(c.evalf(e2, mp) == p for c, p in g) for g in dnf):
                return True
        return False


_conds = {}
_cid = itertools.count(1)


def _mkc(key, kind, r, data, fv, depth):
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.kind, c.r, c.data, c.fv, c.depth = kind, r, data, frozenset(fv), depth
        c.id = next(_cid)
        _conds[key] = c
    return c


TRUE, FALSE = True, False


def _norm(r):
    """Strip factors of known sign. Returns (r', sign multiplier)."""
    s = r.single()
    if s is not None:
        c, (pw, ex) = s
        keep = []
        sg = 1 if c > 0 else -1
        for a, e in pw:
            q = tm.sign(of_atom(a))
            if q == '+':
                continue
            if q == '-':
                if e.numerator % 2 and e.denominator % 2:
                    sg = -sg
                continue
            keep.append((a, e))
        out = ONE
        for a, e in keep:
            out = out * (of_atom(a, e))
        return out, sg
    if tm.neg_polys(r):
        # clear denominators of known sign
        for i, (a, e) in sorted(tm.neg_polys(r).items()):
            if tm.pos(a.data):
                pass
            else:
                break
        else:
            return _norm(tm.clear_denoms(r))
    c0, mono, q = tm.content(r)
    m, sg = _norm(tm.mk({mono: c0}))
    if m is ONE:
        return q, sg
    return q * m, sg


def gt(r):
    """Literal for r > 0: True/False or (Cond, polarity)."""
    r = lift(r)
    c = r.const()
    if c is not None:
        return c > 0
    sg = tm.sign(r)
    if sg == '+':
        return True
    if sg in ('-', '0', '0-'):
        return False
    if sg in ('0+', 'nz'):
        e = eq(r)
        if sg == '0+':
            return neg(e)
    q, s = _norm(r)
    if q.const() is not None:
        return (q.const() > 0) == (s > 0)
    if s < 0:
        # -q > 0  ; canonical: keep gt(-q)
        q = -q
    return (_mkc(('gt', q.id), 'gt', q, None, q.fv, q.depth), True)


def eq(r):
    r = lift(r)
    c = r.const()
    if c is not None:
        return c == 0
    sg = tm.sign(r)
    if sg in ('+', '-', 'nz'):
        return False
    if sg == '0':
        return True
    if tm.zero_test(r):
        return True
    q, s = _norm(r)
    if q.const() is not None:
        return q.const() == 0
    lead = min(q.t, key=tm._mkey)
    if q.t[lead] != 1:
        q = q * lift(1 / q.t[lead])
    # squares etc: a single atom to a positive power vanishes iff the atom does
    sm = q.single()
    if sm is not None and len(sm[1][0]) == 1 and sm[1][0][0][1] > 0:
        a = sm[1][0][0][0]
        if a.kind == 'ind':
            return (a.data, False)
        q = of_atom(a)
    return (_mkc(('eq', q.id), 'eq', q, None, q.fv, q.depth), True)


def bsym(name, *args):
    args = tuple(lift(a) for a in args)
    fv = {'@' + name}
    d = 0
    for a in args:
        fv |= a.fv
        d = max(d, a.depth)
    return (_mkc(('b', name) + tuple(a.id for a in args), 'b', None, (name, args), fv, d), True)


def neg(l):
    if l is True:
        return False
    if l is False:
        return True
    return (l[0], not l[1])


def exists(v, dim, dnf):
    """exists v < dim: DNF (list of guard frozensets)."""
    dnf = [frozenset(g) for g in dnf]
    if not dnf:
        return False
    name = varname(v)
    if any(not g for g in dnf):
        return True  # dim >= 1
    if all(name not in c.fv for g in dnf for c, _ in g):
        if len(dnf) == 1 and len(dnf[0]) == 1:
            return next(iter(dnf[0]))
    depth = 1 + max(c.depth for g in dnf for c, _ in g)
    b = '#%d' % depth
    m = {name: tm.var(b, 'int')}
    out = set()
    for g in dnf:
        ng = set()
        for c, p in g:
            l = csubst(c, m)
            if l is True or l is False:
                if l == p:
                    continue
                ng = None
                break
            ng.add(l if p else neg(l))
        if ng is None:
            continue
        if not ng:
            return True
        out.add(frozenset(ng))
    if not out:
        return False
    out = tuple(sorted(out, key=lambda g: sorted((c.id, p) for c, p in g)))
    fv = set(dim.fv)
    for g in out:
        for c, _ in g:
            fv |= c.fv
    fv.discard(b)
    key = ('ex', dim.id, tuple(tuple(sorted((c.id, p) for c, p in g)) for g in out))
    return (_mkc(key, 'ex', None, (dim, out, b), fv, depth), True)


def csubst(c, m):
    names = set(m)
    if not (c.fv & names):
        return (c, True)

    def f(a):
        if a.kind == 'var':
            return m.get(a.data)
        if not (a.fv & names):
            return of_atom(a)
        return None
    return crebuild(c, f, {})


def crebuild(c, f, cache):
    """-> literal / bool"""
    if c.kind == 'gt':
        return gt(rebuild(c.r, f, cache))
    if c.kind == 'eq':
        return eq(rebuild(c.r, f, cache))
    if c.kind == 'b':
        return bsym(c.data[0], *[rebuild(x, f, cache) for x in c.data[1]])
    dim, dnf, b = c.data
    v = new_index(dim)
    out = []
    for g in dnf:
        ng = []
        ok = True
        for cc, p in g:
            l = csubst(cc, {b: v})
            if not isinstance(l, bool):
                l2 = crebuild(l[0], f, {})
                l = l2 if l[1] else neg(l2)
            l = l if p else neg(l)
            if l is True:
                continue
            if l is False:
                ok = False
                break
            ng.append(l)
        if ok:
            out.append(frozenset(ng))
    return exists(v, rebuild(dim, f, cache), out)


def _ind_of(lit):
    if lit is True:
        return ONE
    if lit is False:
        return ZERO
    return tm.ind(lit)


tm._lit_rebuild_hook[0] = crebuild
tm._ind_rebuild_hook[0] = lambda c, f, cache: _ind_of(crebuild(c, f, cache))

# ================================================================ domain facts

INDEX = {}       # index variable name -> dim R
DOMSIGN = {}     # function name -> sign of its value ('+', '0+', ...)
DOMFACTS = {}    # function name -> callable(args) -> list of literals (facts)
VARSIGN = {}     # variable name -> sign
VARFACTS = {}    # variable name -> callable() -> list of literals


def new_index(dim, prefix='i'):
    v = fresh(prefix, 'int')
    INDEX[varname(v)] = dim = lift(dim)
    DIMNAMES.update(dim.fv)
    return v


DIMNAMES = set()


def relevant(lits, fv):
    """Literals connected to the free variables fv (dropping assumptions is always sound)."""
    plain = {x for x in fv if x[0] != '@'}
    todo = {x for x in plain if x not in DIMNAMES}
    out, rest = set(), []
    for l in lits:
        lv = {x for x in l[0].fv if x[0] != '@'}
        nd = lv - DIMNAMES
        if not nd:
            out.add(l)
        else:
            rest.append((l, nd))
    changed = True
    while changed and rest and todo:
        changed = False
        keep = []
        for l, nd in rest:
            if nd & todo:
                out.add(l)
                if not nd <= todo:
                    todo |= nd
                    changed = True
            else:
                keep.append((l, nd))
        rest = keep
    return frozenset(out)


_tm_open = tm.open_big


_open = {}


def canon_index(dim, bname):
    """One canonical generic index per (dimension, nesting level): keeps queries finite."""
    k = (dim.id, bname)
    v = _open.get(k)
    if v is None:
        v = tm.var('o%d%s' % (dim.id, bname.replace('#', '~')), 'int')
        INDEX[varname(v)] = dim
        DIMNAMES.update(dim.fv)
        _open[k] = v
    return v


def open_big(a):
    dim, body, bname = a.data
    v = canon_index(dim, bname)
    return v, dim, subst(body, {bname: v})


tm.open_big = open_big


def _canon_names(fv, lits):
    """Renaming of the generic index variables to canonical ones (answers are shared between
    terms that differ in the names of their indices only)."""
    names = {n for n in fv if n in INDEX}
    for c, _ in lits:
        names |= {n for n in c.fv if n in INDEX}
    names = sorted((n for n in names if '!' in n and not n.startswith('argmin') and n not in VARFACTS),
                   key=lambda n: int(n.split('!')[1]))
    if not names:
        return None
    m = {}
    for k, n in enumerate(names):
        d = INDEX[n]
        key = (d.id, k)
        v = _canonical.get(key)
        if v is None:
            v = tm.var('ci%d~%d' % (k, d.id), 'int')
            INDEX[varname(v)] = d
            DIMNAMES.update(d.fv)
            _canonical[key] = v
        m[n] = v
    return m


_canonical = {}


def _plain_csubst(c, m):
    """Substitution without solver calls for the sake of simplification."""
    old, z, cut = set_ctx(root_ctx()), Ctx.zdepth, Ctx.cut
    Ctx.zdepth += 2
    try:
        return csubst(c, m)
    finally:
        set_ctx(old)
        Ctx.zdepth, Ctx.cut = z, cut


def _subst_lits(lits, m):
    # rebuilt without the current hypotheses: they must not be used to simplify themselves
    old = set_ctx(root_ctx())
    try:
        out = set()
        for c, p in lits:
            x = csubst(c, m)
            if isinstance(x, bool):
                if x != p:
                    return None
                continue
            out.add((x[0], x[1] == p))
        return frozenset(out)
    finally:
        set_ctx(old)


class Stats:
    z3_queries = 0
    z3_time = 0.0
    z3_unknown = 0


stats = Stats()


class Ctx:
    """A set of assumed literals (path condition) with proof services."""
    cut = 0      # recursion guards hit so far (results obtained under a cut are not cached)
    zdepth = 0   # nesting depth of solver calls made to answer sign questions

    def __init__(self, timeout_ms=2000):
        self.lits = frozenset()
        self.timeout = timeout_ms
        self.sign_cache = {}
        self.feas_cache = {}
        self.parent = None
        self.busy = set()
        self.extra = []  # callables(Z) adding z3 facts

    registry = {}

    def only(self, lits):
        """The context with just these of its literals."""
        if lits == self.lits or self.extra:
            return self
        if not lits:
            return root_ctx()
        key = (lits, self.timeout)
        c = Ctx.registry.get(key)
        if c is None:
            c = Ctx.registry[key] = Ctx(self.timeout)
            c.lits = lits
            c.parent = root_ctx()
        return c

    def child(self, lits):
        ls = self.lits | frozenset(lits)
        if ls == self.lits:
            return self
        key = (ls, self.timeout)
        c = Ctx.registry.get(key) if not self.extra else None
        if c is None:
            c = Ctx(self.timeout)
            c.lits = ls
            c.extra = list(self.extra)
            if not self.extra:
                Ctx.registry[key] = c
        if c.parent is None and c is not self:
            c.parent = self
        return c

    # ---------------------------------------------------------- sign
    def sign(self, r):
        c = r.const()
        if c is not None:
            return '+' if c > 0 else '-' if c < 0 else '0'
        got = self.sign_cache.get(r.id)
        if got is not None:
            return got if got != '?' else None
        p = self.parent
        while p is not None:
            got = p.sign_cache.get(r.id)
            if got in ('+', '-', '0', 'nz'):
                self.sign_cache[r.id] = got
                return got
            p = p.parent
        if self.lits:
            rel = relevant(self.lits, r.fv)
            if rel != self.lits and not self.extra:
                s = self.only(rel).sign(r)
                if s is not None:
                    self.sign_cache[r.id] = s
                return s
        if r.id in self.busy:
            Ctx.cut += 1
            return None
        if not self.extra:
            m = _canon_names(r.fv, self.lits)
            if m:
                l2 = _subst_lits(self.lits, m)
                if l2 is not None:
                    s = root_ctx().only(l2).sign(subst(r, m))
                    if s is not None:
                        self.sign_cache[r.id] = s
                    return s
        self.busy.add(r.id)
        before = Ctx.cut
        try:
            s = self._struct_sign(r)
            if s not in ('+', '-', '0'):
                if Ctx.zdepth >= 2:
                    Ctx.cut += 1
                else:
                    Ctx.zdepth += 1
                    try:
                        s = self._z3_sign(r, s) or s
                    finally:
                        Ctx.zdepth -= 1
        finally:
            self.busy.discard(r.id)
        if s in ('+', '-', '0') or Ctx.cut == before:
            self.sign_cache[r.id] = s if s is not None else '?'
        return s

    def _struct_sign(self, r):
        signs = set()
        for (pw, ex), c in r.t.items():
            s = '+' if c > 0 else '-'
            for a, e in pw:
                s = _smul(s, _spow(self._atom_sign(a), e))
                if s is None:
                    return None
            signs.add(s)
        if signs <= {'+', '0+', '0'}:
            return '+' if '+' in signs else '0+'
        if signs <= {'-', '0-', '0'}:
            return '-' if '-' in signs else '0-'
        return None

    def _atom_sign(self, a):
        key = ('a', a.id)
        got = self.sign_cache.get(key)
        if got is not None:
            return got if got != '?' else None
        before = Ctx.cut
        s = self._atom_sign0(a)
        if s in ('+', '-', '0') or Ctx.cut == before:
            self.sign_cache[key] = s if s is not None else '?'
        return s

    def _atom_sign0(self, a):
        if a.kind == 'var':
            if a.data in VARSIGN:
                s = VARSIGN[a.data]
            elif a.data in INDEX:
                s = '0+'
            else:
                s = None
            return self._refine(a, s)
        if a.kind == 'app':
            return self._refine(a, DOMSIGN.get(a.data[0]))
        if a.kind == 'fn':
            n = a.data[0]
            if n == 'abs':
                return '0+'
            if n == 'const':
                return '+'
            if n == 'log':
                x = a.data[1][0]
                s = self.sign(x - 1)
                return s
            return self._refine(a, DOMSIGN.get(n))
        if a.kind == 'ind':
            return '0+'
        if a.kind == 'ite':
            c, x, y = a.data
            sx = self.child([(c, True)]).sign(x)
            sy = self.child([(c, False)]).sign(y)
            return _sjoin(sx, sy)
        if a.kind == 'poly':
            return self.sign(a.data)
        if a.kind in ('sum', 'prod', 'min'):
            return self._refine(a, self._big_sign(a))
        return None

    def _big_sign(self, a):
        if a.kind == 'sum':
            v, dim, body = open_big(a)
            s = self.sign(body)
            if s in ('+', '-'):
                d = self.sign(dim)
                return s if d == '+' else ('0+' if s == '+' else '0-')
            if s in ('0+', '0-'):
                # a witness index with a strictly positive term
                for w, m in witnesses(body, dim):
                    b2 = self.simplify(subst(body, {varname(v): w}))
                    s2 = self.sign(b2)
                    if s2 == ('+' if s == '0+' else '-'):
                        return s2
            return s
        if a.kind == 'prod':
            v, dim, body = open_big(a)
            s = self.sign(body)
            if s in ('+', '0+'):
                return s
            return None
        if a.kind == 'min':
            v, dim, body = open_big(a)
            s = self.sign(body)
            return s
        return None

    def _refine(self, a, s):
        """Use path literals that mention exactly this atom."""
        r = of_atom(a)
        for c, p in self.lits:
            if c.kind == 'eq' and c.r is r:
                if p:
                    return '0'
                if s == '0+':
                    s = '+'
                elif s == '0-':
                    s = '-'
            elif c.kind == 'gt':
                if c.r is r:
                    if p:
                        return '+'
                    s = '0' if s == '0+' else s
        return s

    def simplify(self, r):
        """Rewrite with the equations known for witness indices (value at the argmin equals
        the minimum) and equations among the path literals that are solvable for an
        application with constant coefficient."""
        eqs = []
        for w, ma in WITNESS.values():
            dim, body, b = ma.data
            eqs.append(subst(body, {b: w}) - of_atom(ma))
        for c, p in self.lits:
            if c.kind == 'eq' and p:
                eqs.append(c.r)
        return rewrite_eqs(r, eqs)

    # ---------------------------------------------------------- z3
    def _z3_sign(self, r, hint):
        if len(r.t) == 1 and hint is None and not self.lits:
            pass
        Z = Z3(self)
        x = Z.real(r)
        Z.assume(self.lits)
        tests = {'0+': [('+', x <= 0), ('0', x != 0)], '0-': [('-', x >= 0), ('0', x != 0)],
                 None: [('+', x <= 0), ('-', x >= 0), ('0+', x < 0), ('0-', x > 0)]}[hint]
        for name, negated in tests:
            if Z.check(negated, 700) == z3.unsat:
                return name
        if hint is None:
            if Z.check(x == 0, 700) == z3.unsat:
                return 'nz'
        return None

    def feasible(self, guards):
        """False only if guards contradict the context."""
        got = self.feas_cache.get(guards)
        if got is not None:
            return got
        seen = {}
        for c, p in guards:
            if seen.setdefault(c, p) != p:
                self.feas_cache[guards] = False
                return False
        for c, p in self.lits:
            if seen.get(c, p) != p:
                self.feas_cache[guards] = False
                return False
        if len(guards - self.lits) == 0:
            self.feas_cache[guards] = True
            return True
        Z = Z3(self)
        Z.assume(self.lits)
        Z.assume(guards)
        res = Z.check(None, 700)
        out = res != z3.unsat
        self.feas_cache[guards] = out
        return out

    def entails(self, lit):
        if lit is True:
            return True
        if lit is False:
            return not self.feasible(frozenset())
        return not self.feasible(frozenset([neg(lit)]))

    def prove_zero(self, r):
        """r == 0 under the context."""
        if tm.zero_test(r):
            return True
        r2 = self.simplify(r)
        if tm.zero_test(r2):
            return True
        r3 = clear_inds(self, r2)
        if tm.zero_test(r3):
            return True
        r3b = lin_sums(self, r3)
        if r3b is not r3 and tm.zero_test(r3b):
            return True
        r4 = unify_big(self, r3b)
        if r4 is not r3 and tm.zero_test(r4):
            return True
        Z = Z3(self)
        x = Z.real(tm.clear_denoms(r4))
        Z.assume(self.lits)
        return Z.check(x != 0, self.timeout) == z3.unsat

    def model(self, extra=()):
        Z = Z3(self)
        Z.assume(self.lits)
        Z.assume(extra)
        if Z.check(None, self.timeout, keep=True) == z3.sat:
            return Z.last_model, Z
        return None


def rewrite_eqs(r, eqs):
    for _ in range(6):
        changed = False
        for e in eqs:
            sol = _solve_app(e)
            if sol is None:
                continue
            a, val = sol
            if not _mentions(r, a):
                continue

            def f(x, a=a, val=val):
                if x is a:
                    return val
                return None
            try:
                r2 = rebuild(r, f)
            except Unsupported:
                continue  # e.g. 1/x rewritten with x = 0: the term belongs to another case
            if r2 is not r:
                r = r2
                changed = True
        if not changed:
            break
    return r


def _mentions(r, a, seen=None):
    if seen is None:
        seen = set()
    if r.id in seen:
        return False
    seen.add(r.id)
    for (pw, ex) in r.t:
        for b, _ in pw:
            if b is a:
                return True
            if b.kind in ('app', 'fn'):
                if any(_mentions(x, a, seen) for x in b.data[1]):
                    return True
            elif b.kind == 'poly':
                if _mentions(b.data, a, seen):
                    return True
            elif b.kind in ('sum', 'prod', 'min'):
                if _mentions(b.data[1], a, seen) or _mentions(b.data[0], a, seen):
                    return True
            elif b.kind in ('ind', 'ite'):
                c = b.data
                if b.kind == 'ite':
                    c = b.data[0]
                    if _mentions(b.data[1], a, seen) or _mentions(b.data[2], a, seen):
                        return True
                if c.kind in ('gt', 'eq') and _mentions(c.r, a, seen):
                    return True
                if c.kind in ('b', 'ex'):
                    return True
        if ex is not None and _mentions(ex, a, seen):
            return True
    return False


def _solve_app(e):
    """Solve e == 0 for an app/var atom occurring linearly with a constant coefficient."""
    best = None
    for (pw, ex), c in e.t.items():
        if ex is None and len(pw) == 1 and pw[0][1] == 1 and pw[0][0].kind in ('app', 'var'):
            a = pw[0][0]
            if a.kind == 'var' and a.data.startswith('#'):
                continue
            rest = e - of_atom(a) * lift(c)
            if not _mentions(rest, a):
                rank = 0 if a.kind == 'app' else 1
                cand = (rank, -a.id, a, rest * lift(Fraction(-1) / c))
                if best is None or cand[:2] < best[:2]:
                    best = cand
    return None if best is None else (best[2], best[3])


WITNESS = {}  # min atom id -> (index var, atom)


def min_atoms(r, out=None, seen=None):
    if out is None:
        out, seen = {}, set()
    if r.id in seen:
        return out
    seen.add(r.id)
    for (pw, ex) in r.t:
        for a, _ in pw:
            _min_atoms_atom(a, out, seen)
        if ex is not None:
            min_atoms(ex, out, seen)
    return out


def _min_atoms_atom(a, out, seen):
    if a.kind == 'min':
        out[a.id] = a
        min_atoms(a.data[1], out, seen)
    elif a.kind in ('app', 'fn'):
        for x in a.data[1]:
            min_atoms(x, out, seen)
    elif a.kind == 'poly':
        min_atoms(a.data, out, seen)
    elif a.kind in ('sum', 'prod'):
        min_atoms(a.data[1], out, seen)
    elif a.kind == 'ind':
        _min_atoms_cond(a.data, out, seen)
    elif a.kind == 'ite':
        _min_atoms_cond(a.data[0], out, seen)
        min_atoms(a.data[1], out, seen)
        min_atoms(a.data[2], out, seen)


def _min_atoms_cond(c, out, seen):
    if c.kind in ('gt', 'eq'):
        min_atoms(c.r, out, seen)
    elif c.kind == 'b':
        for x in c.data[1]:
            min_atoms(x, out, seen)
    elif c.kind == 'ex':
        for g in c.data[1]:
            for cc, _ in g:
                _min_atoms_cond(cc, out, seen)


def witness(ma):
    w = WITNESS.get(ma.id)
    if w is None:
        v = new_index(ma.data[0], 'argmin')
        WITNESS[ma.id] = w = (v, ma)

        def first(args, env, mp):
            dim, body, b = ma.data
            e2 = tm.inner_env(env)
            vals = []
            for i in range(int(tm.evalf(dim, env, mp))):
                e2[b] = i
                vals.append(tm.evalf(body, e2, mp))
            return vals.index(min(vals))
        tm.DERIVED[varname(v)] = first
    return w


def witnesses(body, dim):
    out = []
    for ma in min_atoms(body).values():
        if any(x.startswith('#') for x in ma.fv):
            continue
        if ma.data[0] is dim:
            out.append(witness(ma))
    return out


def _sjoin(a, b):
    if a == b:
        return a
    s = {a, b}
    if None in s:
        return None
    if s <= {'+', '0+', '0'}:
        return '0+'
    if s <= {'-', '0-', '0'}:
        return '0-'
    if s <= {'+', '-', 'nz'}:
        return 'nz'
    return None


def _smul(a, b):
    if a is None or b is None:
        return None
    if a == '0' or b == '0':
        return '0'
    if a == 'nz' or b == 'nz':
        return 'nz' if a in ('+', '-', 'nz') and b in ('+', '-', 'nz') else None
    strict = a in '+-' and b in '+-'
    sg = (1 if '+' in a else -1) * (1 if '+' in b else -1)
    return ('+' if sg > 0 else '-') if strict else ('0+' if sg > 0 else '0-')


def _spow(s, e):
    if e.denominator != 1:
        return '+' if s == '+' else '0+' if s in ('0+', '0') else None
    n = e.numerator
    if n % 2 == 0:
        if s in ('+', '-', 'nz'):
            return '+'
        return '0+'
    if n < 0 and s in ('0+', '0-', '0'):
        # 1/x with x >= 0: the code divided, a separate definedness case covers x == 0
        return {'0+': '+', '0-': '-'}.get(s)
    return s


def clear_inds(ctx, r):
    """Evaluate indicators (outside big operators) decided by the context, and inside
    big operators those decided for every index."""
    def f(a):
        if a.kind == 'ind':
            c = a.data
            if any(n.startswith('#') for n in c.fv):
                return None
            if ctx.entails((c, True)):
                return ONE
            if ctx.entails((c, False)):
                return ZERO
        if a.kind == 'ite':
            c = a.data[0]
            if any(n.startswith('#') for n in c.fv):
                return None
            if ctx.entails((c, True)):
                return rebuild(a.data[1], f)
            if ctx.entails((c, False)):
                return rebuild(a.data[2], f)
        return None
    return kill_inds(ctx, rebuild(r, f))


def kill_inds(ctx, r):
    """x * [x == 0] = 0 and ite(x == 0, 0, x*y) = x*y, also inside sums."""
    if not _has_ind(r):
        return r
    out = ZERO
    for (pw, ex), c in r.t.items():
        d = dict((a.id, e) for a, e in pw)
        dead = False
        for a, e in pw:
            if a.kind == 'ind' and a.data.kind == 'eq':
                q = a.data.r.single()
                if q is not None and q[1][1] is None and all(d.get(b.id, 0) > 0 for b, _ in q[1][0]):
                    dead = True
                    break
        if dead:
            continue
        t = tm.mk({((), ex): c})
        for a, e in pw:
            b = of_atom(a)
            if a.kind == 'sum' and _has_ind(a.data[1]):
                v = canon_index(a.data[0], a.data[2])
                body = subst(a.data[1], {a.data[2]: v})
                nb = kill_inds(ctx, body)
                if nb is not body:
                    b = tm.bigsum(v, a.data[0], nb)
            elif a.kind == 'poly' and _has_ind(a.data):
                b = kill_inds(ctx, a.data)
            elif a.kind == 'ite':
                b = _drop_ite(ctx, a)
            t = t * tm.rpow(b, e)
        out = out + t
    return out


def _drop_ite(ctx, a):
    c, x, y = a.data
    x, y = kill_inds(ctx, x), kill_inds(ctx, y)
    q = c.r.single() if c.kind == 'eq' else None
    if q is not None and q[1][1] is None and q[1][0]:
        need = [b.id for b, _ in q[1][0]]
        rest = {}
        for (pw, ex), k in y.t.items():
            d = dict((b.id, e) for b, e in pw)
            if all(d.get(n, 0) > 0 for n in need) and all(
                    e > 0 or ctx.sign(of_atom(b)) in ('+', '-', 'nz') for b, e in pw):
                continue
            rest[(pw, ex)] = k
        if tm.mk(rest) is x:
            return y
    return tm.ite((c, True), x, y)


_ind_seen = {}


def _has_ind(r):
    got = _ind_seen.get(r.id)
    if got is None:
        got = False
        for (pw, ex) in r.t:
            for a, _ in pw:
                got = got or a.kind in ('ind', 'ite') or any(_has_ind(x) for x in _kids(a))
            got = got or (ex is not None and _has_ind(ex))
        _ind_seen[r.id] = got
    return got


def has_ite(r):
    got = _has_ite.get(r.id)
    if got is None:
        got = False
        for (pw, ex) in r.t:
            for a, _ in pw:
                got = got or a.kind == 'ite' or any(has_ite(x) for x in _kids(a))
            got = got or (ex is not None and has_ite(ex))
        _has_ite[r.id] = got
    return got


_has_ite = {}


def _kids(a):
    if a.kind in ('app', 'fn'):
        return a.data[1]
    if a.kind == 'poly':
        return (a.data,)
    if a.kind in ('sum', 'prod', 'min'):
        return (a.data[0], a.data[1])
    return ()


def resolve_ites(l, guards):
    """Select the branches of conditional terms decided by the guards of the case."""
    if not isinstance(l, R) or not guards or not has_ite(l):
        return l
    known = dict(guards)

    def f(a):
        if a.kind == 'ite' and a.data[0] in known:
            return rebuild(a.data[1] if known[a.data[0]] else a.data[2], f)
        return None
    return rebuild(l, f)


def lin_sums(ctx, r):
    """Rewrite sums that are linear combinations of other sums over the same range."""
    for _ in range(4):
        groups = {}
        _collect_sums(r, groups, set())
        repl = {}
        for key in sorted(groups, key=lambda k: (int(k[1][1:]), k[0])):
            repl = _relations(list(groups[key].values()))
            if repl:
                break
        if not repl:
            return r
        r = rebuild(r, lambda x: repl.get(x.id))
    return r


def _collect_sums(r, groups, seen):
    if r.id in seen:
        return
    seen.add(r.id)
    for (pw, ex) in r.t:
        for a, _ in pw:
            if a.kind == 'sum':
                groups.setdefault((a.data[0].id, a.data[2]), {})[a.id] = a
            for x in _kids(a):
                _collect_sums(x, groups, seen)
        if ex is not None:
            _collect_sums(ex, groups, seen)


def _relations(atoms):
    atoms = sorted(atoms, key=lambda a: a.id)
    if len(atoms) < 2 or len(atoms) > 40:
        return {}
    dim, _, bn = atoms[0].data
    v = canon_index(dim, bn)
    bodies = [subst(a.data[1], {bn: v}) for a in atoms]
    # common denominator
    den = {}
    for b in bodies:
        for i, (a, e) in tm.neg_polys(b).items():
            if e.denominator != 1:
                return {}
            den[i] = (a, max(e, den.get(i, (a, e))[1]))
    lcd = ONE
    for i in sorted(den):
        a, e = den[i]
        for _ in range(int(e)):
            lcd = lcd * a.data
    if len(lcd.t) > 60:
        return {}
    if den:
        bodies = [_mul_clear(b, den) for b in bodies]
    rows = []  # (pivot monomial, vector, combination)
    repl = {}
    for a, b in zip(atoms, bodies):
        vec = dict(b.t)
        comb = {}
        for piv, pvec, pcomb in rows:
            c = vec.get(piv)
            if c:
                for m, x in pvec.items():
                    n = vec.get(m, 0) - c * x
                    if n:
                        vec[m] = n
                    else:
                        vec.pop(m, None)
                for k, x in pcomb.items():
                    comb[k] = comb.get(k, 0) + c * x
        if not vec:
            new = ZERO
            for k, x in comb.items():
                if x:
                    new = new + of_atom(k) * lift(x)
            repl[a.id] = new
            continue
        # normalise by the pivot; combination: row = (a - sum comb) / c
        piv = min(vec, key=tm._mkey)
        c = vec[piv]
        nvec = {m: x / c for m, x in vec.items()}
        ncomb = {k: -x / c for k, x in comb.items()}
        ncomb[a] = ncomb.get(a, 0) + 1 / c
        rows = [_elim(row, piv, nvec, ncomb) for row in rows]
        rows.append((piv, nvec, ncomb))
    return repl


def _elim(row, piv, nvec, ncomb):
    p, vec, comb = row
    c = vec.get(piv)
    if not c:
        return row
    vec, comb = dict(vec), dict(comb)
    for m, x in nvec.items():
        n = vec.get(m, 0) - c * x
        if n:
            vec[m] = n
        else:
            vec.pop(m, None)
    for k, x in ncomb.items():
        comb[k] = comb.get(k, 0) - c * x
    return p, vec, comb


def _mul_clear(b, den):
    out = ZERO
    for (pw, ex), c in b.t.items():
        left = {i: int(e) for i, (a, e) in den.items()}
        keep = []
        for a, e in pw:
            if a.id in left and e.denominator == 1:
                left[a.id] += int(e)
            else:
                keep.append((a, e))
        t = tm.mk({(tuple(keep), ex): c})
        for i, n in left.items():
            p = den[i][0]
            for _ in range(n):
                t = t * p.data
        out = out + t
    return out


def unify_big(ctx, r):
    """Merge big-operator atoms whose bodies are provably equal up to a common factor."""
    atoms = {}

    def walk(x):
        for (pw, ex) in x.t:
            for a, _ in pw:
                if a.kind in ('sum', 'prod', 'min'):
                    atoms[a.id] = a
                elif a.kind == 'poly':
                    walk(a.data)
            if ex is not None:
                walk(ex)
    walk(r)
    reps = []
    repl = {}
    for i in sorted(atoms):
        a = atoms[i]
        for b in reps:
            if a.kind == b.kind and a.data[0] is b.data[0]:
                v = canon_index(a.data[0], a.data[2])
                d = subst(a.data[1], {a.data[2]: v}) - subst(b.data[1], {b.data[2]: v})
                if ctx.depth_guard():
                    break
                ctx._unify_depth = getattr(ctx, '_unify_depth', 0) + 1
                try:
                    ok = ctx.prove_zero(d)
                finally:
                    ctx._unify_depth -= 1
                if ok:
                    repl[a.id] = of_atom(b)
                    break
        else:
            reps.append(a)
    if not repl:
        return r
    return rebuild(r, lambda x: repl.get(x.id))


Ctx.depth_guard = lambda self: getattr(self, '_unify_depth', 0) >= 2


class Z3:
    """Translation of terms and literals with instantiated domain facts."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.solver = z3.Solver()
        self.atoms = {}
        self.rc = {}
        self.cc = {}
        self.done_facts = set()
        self.exps = []
        self.bigs = []
        self.exconds = []
        self.indices = {}   # name -> dim
        self.apps = []
        self.level = 0

    def real(self, r):
        got = self.rc.get(r.id)
        if got is not None:
            return got
        parts = []
        for (pw, ex), c in r.t.items():
            f = [z3.Q(c.numerator, c.denominator)] if c != 1 or (not pw and ex is None) else []
            for a, e in pw:
                f.append(self.power(a, e))
            if ex is not None:
                f.append(self.expc(ex))
            x = f[0]
            for y in f[1:]:
                x = x * y
            parts.append(x)
        if not parts:
            res = z3.RealVal(0)
        else:
            res = parts[0] if len(parts) == 1 else z3.Sum(parts)
        self.rc[r.id] = res
        return res

    def expc(self, ex):
        key = ('exp', ex.id)
        got = self.atoms.get(key)
        if got is not None:
            return got
        e = z3.Real('exp!%d' % ex.id)
        self.atoms[key] = e
        x = self.real(ex)
        self.solver.add(e > 0, z3.Implies(x > 0, e > 1), z3.Implies(x == 0, e == 1), z3.Implies(x < 0, e < 1),
                        e >= 1 + x)
        for (x2, e2) in self.exps[-4:]:
            self.solver.add(z3.Implies(x < x2, e < e2), z3.Implies(x > x2, e > e2),
                            z3.Implies(x == x2, e == e2))
        self.exps.append((x, e))
        return e

    def power(self, a, e):
        if e.denominator == 1 and 0 < e <= 6:
            x = self.atom(a)
            out = x
            for _ in range(int(e) - 1):
                out = out * x
            return out
        if e.denominator == 1 and e < 0:
            key = ('inv', a.id)
            inv = self.atoms.get(key)
            if inv is None:
                x = self.atom(a)
                inv = z3.Real('inv!%d' % a.id)
                self.atoms[key] = inv
                self.solver.add(z3.Implies(x != 0, inv * x == 1), z3.Implies(x > 0, inv > 0),
                                z3.Implies(x < 0, inv < 0))
                # 1/x with x >= 0 only occurs where the code divided and x == 0 was split off
                s = self.ctx._atom_sign(a)
                if s in ('+', '0+'):
                    self.solver.add(inv > 0)
                elif s in ('-', '0-'):
                    self.solver.add(inv < 0)
            out = inv
            for _ in range(-int(e) - 1):
                out = out * inv
            return out
        if e.denominator == 2:
            key = ('sqrt', a.id)
            s = self.atoms.get(key)
            if s is None:
                x = self.atom(a)
                s = z3.Real('sqrt!%d' % a.id)
                self.atoms[key] = s
                self.solver.add(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)), z3.Implies(x > 0, s > 0))
            n = e.numerator
            if n > 0:
                out = s
                for _ in range(n - 1):
                    out = out * s
                return out
            inv = z3.Real('isqrt!%d' % a.id)
            self.solver.add(z3.Implies(s != 0, inv * s == 1), z3.Implies(s > 0, inv > 0))
            out = inv
            for _ in range(-n - 1):
                out = out * inv
            return out
        key = ('pw', a.id, e)
        s = self.atoms.get(key)
        if s is None:
            x = self.atom(a)
            s = z3.Real('pw!%d!%s' % (a.id, e))
            self.atoms[key] = s
            self.solver.add(z3.Implies(x > 0, s > 0))
        return s

    def atom(self, a):
        got = self.atoms.get(a.id)
        if got is not None:
            return got
        k = a.kind
        if k == 'var':
            if a.sort == 'int':
                i = z3.Int(a.data)
                x = z3.ToReal(i)
            else:
                x = z3.Real(a.data)
            self.atoms[a.id] = x
            if a.data in INDEX:
                dim = INDEX[a.data]
                self.indices[a.data] = (of_atom(a), dim)
                self.solver.add(x >= 0, x <= self.real(dim) - 1)
            s = VARSIGN.get(a.data)
            if s:
                self.solver.add(_zs(x, s))
            if a.data in VARFACTS:
                self.assume(VARFACTS[a.data]())
            return x
        if k in ('app', 'fn'):
            name, args = a.data
            zs = [self.real(x) for x in args]
            f = z3.Function(name + '/%d' % len(args), *([z3.RealSort()] * (len(args) + 1)))
            x = f(*zs) if args else z3.Real(name)
            self.atoms[a.id] = x
            s = DOMSIGN.get(name)
            if s:
                self.solver.add(_zs(x, s))
            if name == 'abs':
                y = zs[0]
                self.solver.add(x == z3.If(y >= 0, y, -y))
            elif name == 'const':
                self.solver.add(x == zs[0])
            elif name in ('rnd16', 'rnd32'):
                self.solver.add(z3.Implies(zs[0] >= 0, x >= 0), z3.Implies(zs[0] <= 0, x <= 0))
            elif name == 'floor':
                self.solver.add(x <= zs[0], zs[0] < x + 1, z3.IsInt(x))
            elif name == 'ceil':
                self.solver.add(x >= zs[0], zs[0] > x - 1, z3.IsInt(x))
            elif name == 'rint':
                self.solver.add(2 * x <= 2 * zs[0] + 1, 2 * zs[0] <= 2 * x + 1, z3.IsInt(x))
            elif name == 'log':
                y = zs[0]
                self.solver.add(z3.Implies(y > 1, x > 0), z3.Implies(y == 1, x == 0),
                                z3.Implies(z3.And(y > 0, y < 1), x < 0), z3.Implies(y > 0, x <= y - 1))
            if name in DOMFACTS:
                for l in DOMFACTS[name](*args):
                    self.assume([l])
            if k == 'app':
                self.apps.append(a)
            return x
        if k == 'poly':
            x = self.real(a.data)
            self.atoms[a.id] = x
            return x
        if k == 'ind':
            x = z3.If(self.cond(a.data), z3.RealVal(1), z3.RealVal(0))
            self.atoms[a.id] = x
            return x
        if k == 'ite':
            c, y, z = a.data
            x = z3.If(self.cond(c), self.real(y), self.real(z))
            self.atoms[a.id] = x
            return x
        if k in ('sum', 'prod', 'min'):
            x = z3.Real('%s!%d' % (k, a.id))
            self.atoms[a.id] = x
            self.bigs.append((a, x))
            return x
        raise Unsupported('z3 ' + k)

    def cond(self, c):
        got = self.cc.get(c.id)
        if got is not None:
            return got
        if c.kind == 'gt':
            b = self.real(c.r) > 0
        elif c.kind == 'eq':
            b = self.real(c.r) == 0
        elif c.kind == 'b':
            zs = [self.real(x) for x in c.data[1]]
            if zs:
                f = z3.Function('B' + c.data[0], *([z3.RealSort()] * len(zs) + [z3.BoolSort()]))
                b = f(*zs)
            else:
                b = z3.Bool('B' + c.data[0])
        else:
            b = z3.Bool('ex!%d' % c.id)
            self.exconds.append((c, b))
        self.cc[c.id] = b
        return b

    def lit(self, l):
        if l is True or l is False:
            return z3.BoolVal(l)
        b = self.cond(l[0])
        return b if l[1] else z3.Not(b)

    def assume(self, lits):
        for l in lits:
            self.solver.add(self.lit(l))

    def _finish(self):
        """Instantiate facts about big operators and existentials over the indices in scope."""
        size = None
        for rnd in range(5):
            now = (len(self.indices), len(self.exconds), len(self.bigs))
            if rnd >= 2 and now == size:
                break
            size = now
            idx = list(self.indices.values())
            for c, b in list(self.exconds):
                dim, dnf, bn = c.data
                key = ('ex', c.id)
                if key not in self.done_facts:
                    self.done_facts.add(key)
                    sk = tm.var('sk!%d' % c.id, 'int')
                    INDEX[varname(sk)] = dim
                    self.solver.add(z3.Implies(b, self.dnf(dnf, bn, sk)))
                for (v, d) in idx:
                    if d is dim and ('ex', c.id, varname(v)) not in self.done_facts:
                        self.done_facts.add(('ex', c.id, varname(v)))
                        self.solver.add(z3.Implies(z3.Not(b), z3.Not(self.dnf(dnf, bn, v))))
            for a, x in list(self.bigs):
                self._big_facts(a, x, idx)
        for f in self.ctx.extra:
            f(self)

    def dnf(self, dnf, bn, v):
        parts = []
        for g in dnf:
            ls = []
            for c, p in g:
                l = _plain_csubst(c, {bn: v})
                ls.append(self.lit(l if p else neg(l)))
            parts.append(z3.And(*ls) if ls else z3.BoolVal(True))
        return z3.Or(*parts)

    def _big_facts(self, a, x, idx):
        dim, body, bn = a.data
        key = ('big', a.id)
        if any(n.startswith('#') for n in a.fv):
            return
        if key not in self.done_facts:
            self.done_facts.add(key)
            if a.kind != 'min':
                s = self.ctx.sign(of_atom(a))
                if s:
                    self.solver.add(_zs(x, s))
            else:
                w, _ = witness(a)
                self.solver.add(self.real(subst(body, {bn: w})) == x)
                s = self.ctx._atom_sign(a)
                if s:
                    self.solver.add(_zs(x, s))
        ends = []
        if a.kind == 'min' and tm.pos(dim):
            for b in self.apps:
                for t in b.data[1]:
                    if t.const() == 0 or t is dim - 1:
                        if t not in ends:
                            ends.append(t)
        for (v, d) in idx + [(t, dim) for t in ends]:
            if d is not dim:
                continue
            k2 = ('big', a.id, v.id)
            if k2 in self.done_facts:
                continue
            self.done_facts.add(k2)
            if a.kind == 'min':
                self.solver.add(self.real(subst(body, {bn: v})) >= x)
            elif a.kind == 'sum':
                vv = canon_index(dim, bn)
                s = self.ctx.sign(subst(body, {bn: vv}))
                if s in ('+', '0+'):
                    self.solver.add(x >= self.real(subst(body, {bn: v})))
                elif s in ('-', '0-'):
                    self.solver.add(x <= self.real(subst(body, {bn: v})))

    def check(self, extra, timeout, keep=False):
        import time
        t0 = time.time()
        self._finish()
        self.solver.push()
        if extra is not None:
            self.solver.add(extra)
        self.solver.set('timeout', timeout)
        try:
            res = self.solver.check()
        except z3.Z3Exception:
            res = z3.unknown
        if keep and res == z3.sat:
            self.last_model = self.solver.model()
        self.solver.pop()
        stats.z3_queries += 1
        stats.z3_time += time.time() - t0
        if res == z3.unknown:
            stats.z3_unknown += 1
        return res


def _zs(x, s):
    return {'+': x > 0, '-': x < 0, '0': x == 0, '0+': x >= 0, '0-': x <= 0, 'nz': x != 0}[s]


# ================================================================ current context

def root_ctx():
    c = Ctx.registry.get('root')
    if c is None:
        c = Ctx.registry['root'] = Ctx()
    return c


def reset_caches():
    """Forget answers that depend on the declared facts about inputs."""
    Ctx.registry.clear()
    _rw_cache.clear()
    _current[0] = root_ctx()


_current = [root_ctx()]


def ctx():
    return _current[0]


def set_ctx(c):
    old = _current[0]
    _current[0] = c
    return old


tm._sign_oracle[0] = lambda r: _current[0].sign(r)


def _in_range(t, dim):
    c = ctx()
    return c.sign(t) in ('+', '0+', '0') and c.sign(dim - t) == '+'


tm._in_range[0] = _in_range

# ================================================================ piecewise values


class Special:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


INF, NINF, NAN, UNDEF = Special('inf'), Special('-inf'), Special('nan'), Special('uninitialised')


class PV:
    """Piecewise value: exhaustive, exclusive list of (guards, leaf).  Leaf: R, Special,
    True/False, or any other Python object for opaque data."""
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return '{' + '; '.join('%s -> %r' % (' & '.join(('' if p else '!') + '(%r)' % c for c, p in sorted(
            g, key=lambda l: l[0].id)) or 'always', l) for g, l in self.cases) + '}'


def pv(x):
    if isinstance(x, PV):
        return x
    if isinstance(x, (R, Special, bool)):
        return PV([(frozenset(), x)])
    if isinstance(x, float):
        if x != x:
            return PV([(frozenset(), NAN)])
        if x == float('inf'):
            return PV([(frozenset(), INF)])
        if x == float('-inf'):
            return PV([(frozenset(), NINF)])
    return PV([(frozenset(), lift(x))])


MAXCASES = 400


def lift_op(f, *args):
    """Apply f(leaf...) -> leaf or PV, over all feasible combinations."""
    c = ctx()
    acc = [(frozenset(), ())]
    for a in args:
        nxt = []
        for g0, ls in acc:
            for g1, l in a.cases:
                g = g0 | g1
                if g is not g0 and len(a.cases) > 1 and g != g0 and not c.feasible(g):
                    continue
                nxt.append((g, ls + (l,)))
        acc = nxt
        if len(acc) > MAXCASES:
            raise Unsupported('too many cases')
    out = []
    for g, ls in acc:
        v = f(*ls)
        if isinstance(v, PV):
            for g2, l in v.cases:
                gg = g | g2
                if not g2 or (gg != g and c.feasible(gg)) or gg == g:
                    out.append((gg, l))
        else:
            out.append((g, v))
    return simplify_pv(out)


def simplify_pv(cases):
    if len(cases) > 1:
        cases = [(g, resolve_ites(l, g)) for g, l in cases]
        l0 = cases[0][1]
        if all(l is l0 for _, l in cases[1:]):
            return PV([(frozenset(), l0)])
        for _ in range(60):
            new = _merge_pol(cases) or _merge_eq(cases)
            if new is None:
                break
            cases = new
    return PV(cases)


def _merge_pol(cases):
    """Two cases with the same leaf whose guards differ in the polarity of one literal."""
    byl = {}
    for i, (g, l) in enumerate(cases):
        byl.setdefault(id(l) if not isinstance(l, R) else ('r', l.id), []).append(i)
    for idxs in byl.values():
        for x in range(len(idxs)):
            for y in range(x + 1, len(idxs)):
                g1, g2 = cases[idxs[x]][0], cases[idxs[y]][0]
                d1, d2 = g1 - g2, g2 - g1
                if len(d1) == 1 and len(d2) == 1:
                    (a1, p1), = d1
                    (a2, p2), = d2
                    if a1 is a2 and p1 != p2:
                        l = cases[idxs[x]][1]
                        out = [cs for k, cs in enumerate(cases) if k not in (idxs[x], idxs[y])]
                        out.append((g1 & g2, l))
                        return out
    return None


_rw_cache = {}


def leaf_under(l, c):
    """Leaf l rewritten with the equation c (None if it has no value there)."""
    key = (l.id, c.id)
    if key not in _rw_cache:
        sol = _solve_app(c.r)
        if sol is None:
            res = None
        else:
            a, val = sol
            try:
                res = rebuild(l, lambda x: val if x is a else None)
            except Unsupported:
                res = None
        _rw_cache[key] = res
    return _rw_cache[key]


def _merge_eq(cases):
    """Case A (under x == 0) agrees with the leaf of case B (under x != 0) taken at x == 0:
    B then holds on both sides."""
    for ia, (ga, la) in enumerate(cases):
        if not isinstance(la, R):
            continue
        for c, p in ga:
            if not p or c.kind != 'eq':
                continue
            for ib, (gb, lb) in enumerate(cases):
                if ib == ia or not isinstance(lb, R) or (c, False) not in gb:
                    continue
                rest = gb - {(c, False)}
                if not ga <= rest | {(c, True)}:
                    continue
                more = rest - ga
                if len(more) > 1:
                    continue
                l2 = leaf_under(lb, c)
                if l2 is not la:
                    continue
                out = [cs for k, cs in enumerate(cases) if k not in (ia, ib)]
                out.append((rest, lb))
                if more:
                    (m,) = more
                    out.append((ga | {neg(m)}, la))
                return out
    return None


def split(lit, yes, no):
    """Case split on a literal: PV from leaves / PVs (thunks allowed)."""
    if lit is True:
        return pv(yes() if callable(yes) else yes)
    if lit is False:
        return pv(no() if callable(no) else no)
    out = []
    y = pv(yes() if callable(yes) else yes)
    n = pv(no() if callable(no) else no)
    c = ctx()
    for g, l in y.cases:
        gg = g | {lit}
        if c.feasible(gg):
            out.append((gg, l))
    for g, l in n.cases:
        gg = g | {neg(lit)}
        if c.feasible(gg):
            out.append((gg, l))
    return simplify_pv(out)


def isR(x):
    return isinstance(x, R)


def sgn_split(r, p, z, n):
    """By sign of r: leaves for positive, zero, negative (values or thunks)."""
    return split(gt(r), p, lambda: split(eq(r), z, n))


# ---------------------------------------------------------------- operations on leaves

def num(l):
    if l is True:
        return ONE
    if l is False:
        return ZERO
    if isinstance(l, PV):
        raise TypeError('cases where a single value is needed')
    return l


def l_add(a, b):
    a, b = num(a), num(b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is NAN or b is NAN:
        return NAN
    if isR(a) and isR(b):
        return a + b
    if isR(a):
        return b
    if isR(b):
        return a
    return a if a is b else NAN


def l_neg(a):
    a = num(a)
    if isR(a):
        return -a
    return {INF: NINF, NINF: INF}.get(a, a)


def l_mul(a, b):
    a, b = num(a), num(b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is NAN or b is NAN:
        return NAN
    if isR(a) and isR(b):
        return a * b
    if isR(b):
        a, b = b, a
    if isR(a):
        return sgn_split(a, b, NAN, l_neg(b))
    return INF if a is b else NINF


def l_div(a, b):
    a, b = num(a), num(b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is NAN or b is NAN:
        return NAN
    if isR(b):
        if isR(a):
            # zero denominators: +0 is assumed for an exact zero
            return split(eq(b), lambda: sgn_split(a, INF, NAN, NINF),
                         lambda: a * _inv(b))
        return sgn_split(b, a, a, l_neg(a))
    if isR(a):
        return ZERO
    return NAN


def _inv(b):
    # b == 0 was split off; make the nonzero-ness available to the term layer is not needed
    return b.inv()


def l_exp(a):
    a = num(a)
    if isR(a):
        return tm.exp(a)
    return {INF: INF, NINF: ZERO}.get(a, a)


def l_log(a):
    a = num(a)
    if isR(a):
        def yes():
            return with_lits([gt(a)], lambda: tm.log(a))
        return split(gt(a), yes, lambda: split(eq(a), NINF, NAN))
    return {INF: INF, NINF: NAN}.get(a, a)


def with_lits(lits, f):
    ls = [l for l in lits if not isinstance(l, bool)]
    if not ls:
        return f()
    old = set_ctx(ctx().child(ls))
    try:
        return f()
    finally:
        set_ctx(old)


def l_sinh(a):
    a = num(a)
    if isR(a):
        return (tm.exp(a) - tm.exp(-a)) * lift(Fraction(1, 2))
    return a


def l_cosh(a):
    a = num(a)
    if isR(a):
        return (tm.exp(a) + tm.exp(-a)) * lift(Fraction(1, 2))
    return {INF: INF, NINF: INF}.get(a, a)


def l_tanh(a):
    a = num(a)
    if isR(a):
        e = tm.exp(2 * a)
        return (e - 1) * (e + 1).inv()
    return {INF: ONE, NINF: -ONE}.get(a, a)


def l_sqrt(a):
    a = num(a)
    if isR(a):
        return split(neg(gt(-a)), lambda: with_lits([neg(gt(-a))], lambda: tm.rpow(a, Fraction(1, 2))), NAN)
    return {INF: INF, NINF: NAN}.get(a, a)


def l_abs(a):
    a = num(a)
    if isR(a):
        return split(neg(gt(-a)), a, lambda: -a)
    return {INF: INF, NINF: INF}.get(a, a)


def l_pow(a, b):
    a, b = num(a), num(b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isR(b):
        c = b.const()
        if c is not None and c == 0:
            return ONE
    if a is NAN or b is NAN:
        return NAN
    if isR(a) and isR(b):
        c = b.const()
        if c is not None and c.denominator == 1 and c > 0:
            return tm.rpow(a, c)
        if c is not None and c.denominator == 1:
            k = int(-c)
            if k % 2 == 0:
                return split(eq(a), INF, lambda: tm.rpow(a, c))
            return split(eq(a), INF, lambda: tm.rpow(a, c))
        if c is not None:
            def z():
                return ZERO if c > 0 else INF
            return split(gt(a), lambda: with_lits([gt(a)], lambda: tm.rpow(a, c)),
                         lambda: split(eq(a), z, NAN))

        def zero_base():
            return sgn_split(b, ZERO, ONE, INF)
        return split(gt(a), lambda: with_lits([gt(a)], lambda: tm.exp(b * tm.log(a))),
                     lambda: split(eq(a), zero_base, lambda: _unsup('negative base, symbolic exponent')))
    if isR(b):
        if a is INF:
            return sgn_split(b, INF, ONE, ZERO)
        c = b.const()
        if c is not None and c.denominator == 1:
            n = int(c)
            if n > 0:
                return INF if n % 2 == 0 else NINF
            return ZERO
    raise Unsupported('power of specials')


def _unsup(m):
    raise Unsupported(m)


def l_cmp(op, a, b):
    a, b = num(a), num(b)
    if a is UNDEF or b is UNDEF:
        raise Unsupported('comparison with uninitialised memory')
    if a is NAN or b is NAN:
        return op == '!='
    if isR(a) and isR(b):
        d = a - b
        if op == '>':
            return bsplit(gt(d))
        if op == '<':
            return bsplit(gt(-d))
        if op == '>=':
            return bsplit(neg(gt(-d)))
        if op == '<=':
            return bsplit(neg(gt(d)))
        if op == '==':
            return bsplit(eq(d))
        return bsplit(neg(eq(d)))
    rank = lambda x: 0 if isR(x) else (1 if x is INF else -1)
    x, y = rank(a), rank(b)
    return {'>': x > y, '<': x < y, '>=': x >= y, '<=': x <= y, '==': x == y, '!=': x != y}[op]


def bsplit(lit):
    if isinstance(lit, bool):
        return lit
    return PV([(frozenset([lit]), True), (frozenset([neg(lit)]), False)])


def l_not(a):
    return not _b(a)


def _b(a):
    if isinstance(a, bool):
        return a
    if isR(a):
        c = a.const()
        if c is not None:
            return c != 0
        raise Unsupported('truth of a real')
    if a in (INF, NINF, NAN):
        return True
    raise Unsupported('truth value')


def truth(p):
    """PV of numbers or booleans -> PV of booleans."""
    def f(l):
        if isR(l):
            return bsplit(neg(eq(l)))
        return _b(l)
    return lift_op(f, p)


def ite(mask, a, b):
    """Elementwise where on PVs."""
    c = ctx()
    out = []
    for g, m in truth(mask).cases:
        src = a if m else b
        src = src() if callable(src) else src
        for g2, l in src.cases:
            gg = g | g2
            if gg == g or c.feasible(gg):
                out.append((gg, l))
    return _fold_ite(simplify_pv(out))


def _wide(r):
    """Mentions an element of an array of two or more dimensions."""
    for (pw, ex) in r.t:
        for a, _ in pw:
            if a.kind == 'app' and len(a.data[1]) >= 2:
                return True
            if any(_wide(x) for x in _kids(a)):
                return True
        if ex is not None and _wide(ex):
            return True
    return False


def _fold_ite(p):
    """A finite two-way choice on an element of a matrix becomes a conditional term, so that
    products along a row do not multiply the number of cases."""
    if len(p.cases) != 2:
        return p
    (g1, a), (g2, b) = p.cases
    if len(g1) != 1 or len(g2) != 1 or not isR(a) or not isR(b):
        return p
    (l1,), (l2,) = g1, g2
    if l1[0] is not l2[0] or l1[1] == l2[1] or l1[0].kind not in ('eq', 'gt') or not _wide(l1[0].r):
        return p
    return pv(tm.ite(l1, a, b))


def add(a, b):
    return lift_op(l_add, a, b)


def mul(a, b):
    return lift_op(l_mul, a, b)


def div(a, b):
    return lift_op(l_div, a, b)


# ---------------------------------------------------------------- reductions over a symbolic axis

def _outer_inner(cases, name):
    """Split guards into those independent of / dependent on the index."""
    out = []
    for g, l in cases:
        o = frozenset(x for x in g if name not in x[0].fv)
        out.append((o, g - o, l))
    return out


def reduce_sym(v, dim, body, kind):
    """Sum / product / min / max over v < dim of a PV body."""
    name = varname(v)
    c = ctx()
    # enumerate the outer combinations
    parts = _outer_inner(body.cases, name)
    atoms = []
    for o, _, _ in parts:
        for (cc, p) in o:
            if cc not in atoms:
                atoms.append(cc)
    outers = [frozenset()]
    for cc in atoms:
        nxt = []
        for o in outers:
            for p in (True, False):
                oo = o | {(cc, p)}
                if c.feasible(oo):
                    nxt.append(oo)
        outers = nxt
    res = []
    for o in outers:
        sel = [(i, l) for oo, i, l in parts if oo <= o and c.feasible(o | i)]
        val = with_lits(o, lambda: _reduce_inner(v, name, dim, sel, kind))
        for g, l in val.cases:
            gg = o | g
            if gg == o or c.feasible(gg):
                res.append((gg, l))
    return simplify_pv(res)


def _reduce_inner(v, name, dim, sel, kind):
    if kind in ('any', 'all'):
        want = (kind == 'any')
        dnf = []
        for i, l in sel:
            if not isinstance(l, bool):
                l = _b(l)
            if l == want:
                dnf.append(i)
        if not dnf:
            return pv(not want)
        if any(not i for i in dnf):
            return pv(want)
        lit = exists(v, dim, dnf)
        if not want:
            lit = neg(lit)
        return pv(bsplit(lit))
    fins = [(i, num(l)) for i, l in sel if isR(num(l))]
    spec = [(i, l) for i, l in sel if not isR(num(l))]
    if any(not isinstance(l, Special) for _, l in spec):
        raise Unsupported('reduction of non-numbers')

    def finite():
        term = ZERO
        if kind in ('sum',):
            for i, l in fins:
                f = l
                for lit in i:
                    f = f * tm.ind(lit)
                term = term + f
            return tm.bigsum(v, dim, term)
        # product/min: one case only, or combine with indicators
        if len(fins) == 1:
            term = fins[0][1]
        else:
            for i, l in fins:
                f = l
                for lit in i:
                    f = f * tm.ind(lit)
                term = term + f
        if kind == 'prod':
            return tm.bigprod(v, dim, term)
        if kind == 'min':
            return tm.bigmin(v, dim, term)
        if kind == 'max':
            return tm.bigmax(v, dim, term)
        raise Unsupported(kind)
    if not spec:
        return pv(finite())
    if kind in ('min', 'max', 'prod'):
        # a special value somewhere: decide by existence, finite part only when absent
        if not fins and len({l for _, l in spec}) == 1 and not (kind == 'prod' and spec[0][1] is NINF):
            return pv(spec[0][1])
        lit = exists(v, dim, [i for i, _ in spec])
        if kind == 'prod' or any(l in (NAN, UNDEF) for _, l in spec):
            return split(lit, NAN if kind == 'prod' else NAN, finite) if fins else pv(NAN)
        bad = NINF if kind == 'min' else INF
        if all(l is bad for _, l in spec):
            return split(lit, bad, finite)
        raise Unsupported('min/max over infinities')
    # sum
    kinds = {}
    for i, l in spec:
        kinds.setdefault(l, []).append(i)
    if UNDEF in kinds:
        return split(exists(v, dim, kinds[UNDEF]), UNDEF, lambda: _reduce_inner(
            v, name, dim, [(i, l) for i, l in sel if l is not UNDEF], kind))
    if NAN in kinds:
        return split(exists(v, dim, kinds[NAN]), NAN, lambda: _reduce_inner(
            v, name, dim, [(i, l) for i, l in sel if l is not NAN], kind)
            if len(sel) > len(kinds[NAN]) else pv(NAN))
    if INF in kinds and NINF in kinds:
        return split(exists(v, dim, kinds[INF]),
                     lambda: split(exists(v, dim, kinds[NINF]), NAN, INF),
                     lambda: split(exists(v, dim, kinds[NINF]), NINF, finite) if fins else pv(NINF))
    (k, gs), = kinds.items()
    if not fins:
        return pv(k)
    return split(exists(v, dim, gs), k, finite)
