"""Real-valued terms in canonical form.

A term `R` is a finite sum of monomials with rational coefficients.  A monomial
is a product of rational powers of atoms times exp(term).  Atoms are variables,
applications of uninterpreted functions (array elements), big operators
(sum, product, min over a symbolic index range), bases of several monomials
(kept only for non-positive-integer powers), indicators of conditions and opaque
functions.  Everything is hash-consed, so equality of canonical terms is identity
of objects; `zero_test` decides equality of rational functions over the atoms.

The rewriting rules used (distribution of sums, exp/log laws, products of
products, ...) are the ones proved in /verif/lean/Lemmas.lean.
"""
from fractions import Fraction
import itertools

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(BaseException):
    """The engine has no rule for this construct (never a verdict)."""


_ids = itertools.count(1)
_atoms = {}
_rs = {}


class Atom:
    __slots__ = ('kind', 'data', 'id', 'fv', 'depth', 'sort', 'key')

    def __repr__(self):
        return show_atom(self)


def _mk_atom(kind, data, key, fv, depth, sort='real'):
    k = (kind,) + key
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind, a.data, a.fv, a.depth, a.sort, a.key = kind, data, frozenset(fv), depth, sort, k
        a.id = next(_ids)
        _atoms[k] = a
    return a


class R:
    __slots__ = ('t', 'id', '_fv', '_depth', '__weakref__')

    # t: dict mono -> Fraction ; mono = (((atom, exp), ...) sorted by atom id, ex R or None)

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for (pw, ex) in self.t:
                for a, _ in pw:
                    s |= a.fv
                if ex is not None:
                    s |= ex.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def depth(self):
        if self._depth is None:
            d = 0
            for (pw, ex) in self.t:
                for a, _ in pw:
                    d = max(d, a.depth)
                if ex is not None:
                    d = max(d, ex.depth)
            self._depth = d
        return self._depth

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        o = lift(o)
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, F0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return mk(d)
    __radd__ = __add__

    def __neg__(self):
        return mk({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        if not self.t or not o.t:
            return ZERO
        if o is ONE:
            return self
        if self is ONE:
            return o
        out = {}
        extra = ZERO
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, fac = mono_mul(m1, m2)
                if fac is None:
                    n = out.get(m, F0) + c1 * c2
                    if n:
                        out[m] = n
                    else:
                        out.pop(m, None)
                else:
                    extra = extra + mk({m: c1 * c2}) * fac
        r = mk(out)
        return r + extra if extra.t else r
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * lift(o).inv()

    def __rtruediv__(self, o):
        return lift(o) * self.inv()

    def __pow__(self, n):
        return rpow(self, n)

    def inv(self):
        return rpow(self, -1)

    def const(self):
        """Rational value if constant, else None."""
        if not self.t:
            return F0
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == EMPTY:
                return c
        return None

    def single(self):
        """(coeff, mono) if a single monomial."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None


EMPTY = ((), None)


def mk(d):
    k = frozenset((tuple((a.id, e) for a, e in m[0]), m[1].id if m[1] is not None else 0, c)
                  for m, c in d.items())
    r = _rs.get(k)
    if r is None:
        r = R()
        r.t = d
        r._fv = None
        r._depth = None
        r.id = next(_ids)
        _rs[k] = r
    return r


ZERO = mk({})
ONE = mk({EMPTY: F1})


def lift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, bool):
        raise Unsupported('bool as real')
    if isinstance(x, (int, Fraction)):
        return mk({EMPTY: Fraction(x)}) if x else ZERO
    ex = getattr(x, 'exact', None)
    if ex is not None:
        return lift(ex)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant as real term')
        return lift(Fraction(x))
    raise Unsupported('cannot lift %r' % (type(x),))


def of_atom(a, e=F1):
    return mk({(((a, Fraction(e)),), None): F1})


def mono_mul(m1, m2):
    """Product of monomials -> (mono, factor R or None)."""
    pw1, ex1 = m1
    pw2, ex2 = m2
    if ex1 is None:
        ex = ex2
    elif ex2 is None:
        ex = ex1
    else:
        ex = ex1 + ex2
        if not ex.t:
            ex = None
    if not pw1:
        return (pw2, ex), None
    if not pw2:
        return (pw1, ex), None
    d = {}
    order = {}
    for a, e in pw1:
        d[a.id] = e
        order[a.id] = a
    merged = False
    for a, e in pw2:
        if a.id in d:
            merged = True
            d[a.id] += e
        else:
            d[a.id] = e
            order[a.id] = a
    fac = None
    out = []
    for i in sorted(d):
        a, e = order[i], d[i]
        if not e:
            continue
        if merged:
            if a.kind == 'ind' and e > 1:
                e = F1
            elif a.kind == 'poly' and e >= 1:
                n = int(e)  # floor for positive
                p = a.data
                f = p
                for _ in range(n - 1):
                    f = f * p
                fac = f if fac is None else fac * f
                e = e - n
                if not e:
                    continue
        out.append((a, e))
    return (tuple(out), ex), fac


# ---------------------------------------------------------------- atoms

def var(name, sort='real'):
    return of_atom(_mk_atom('var', name, (name, sort), {name}, 0, sort))


def app(name, args):
    args = tuple(lift(a) for a in args)
    fv = set()
    d = 0
    for a in args:
        fv |= a.fv
        d = max(d, a.depth)
    fv.add('@' + name)
    return of_atom(_mk_atom('app', (name, args), (name,) + tuple(a.id for a in args), fv, d))


def fn(name, *args):
    """Opaque real function of real arguments (congruence only)."""
    args = tuple(lift(a) for a in args)
    fv = set()
    d = 0
    for a in args:
        fv |= a.fv
        d = max(d, a.depth)
    return of_atom(_mk_atom('fn', (name, args), (name,) + tuple(a.id for a in args), fv, d))


_cond_fv = None  # set by cond module: cond -> (key, fv, depth)


def ind(cond):
    """Indicator of a condition literal (cond, polarity) -> 0/1 term."""
    c, pol = cond
    a = of_atom(_mk_atom('ind', c, (c.id,), c.fv, c.depth))
    return a if pol else ONE - a


def ite(lit, x, y):
    """Conditional term."""
    c, pol = lit
    if not pol:
        x, y = y, x
    if x is y:
        return x
    return of_atom(_mk_atom('ite', (c, x, y), (c.id, x.id, y.id), c.fv | x.fv | y.fv, max(c.depth, x.depth, y.depth)))


def poly_atom(p):
    return _mk_atom('poly', p, (p.id,), p.fv, p.depth)


def rcmp_key(p):
    return p.id


def content(p):
    """Factor a polynomial of several monomials as c * mono * q with q canonical
    (invariant under multiplication of p by a monomial with exp factor)."""
    atoms = {}
    n = len(p.t)
    for (pw, ex) in p.t:
        for a, e in pw:
            atoms.setdefault(a.id, (a, []))[1].append(e)
    common = []
    for i, (a, es) in sorted(atoms.items()):
        if a.kind == 'ind':
            if len(es) == n:
                common.append((a, F1))
            continue
        lo = min(es) if len(es) == n else min(min(es), F0)
        if lo:
            common.append((a, lo))
    # exp part: translation-invariant minimum
    exs = [(ex if ex is not None else ZERO) for (_, ex) in p.t]
    base = exs[0]
    for e in exs[1:]:
        if _lt(e, base):
            base = e
    mono = (tuple(common), base if base.t else None)
    if mono == EMPTY:
        q = p
    else:
        inv = (tuple((a, -e) for a, e in common if a.kind != 'ind'), -base if base.t else None)
        inv_r = mk({inv: F1}) if inv != EMPTY else ONE
        q = ZERO
        for m, c in p.t.items():
            pw = tuple((a, e) for a, e in m[0] if not (a.kind == 'ind' and (a, F1) in common))
            q = q + mk({(pw, m[1]): c}) * inv_r
    lead = min(q.t, key=_mkey)
    c0 = q.t[lead]
    if c0 != 1:
        q = mk({m: c / c0 for m, c in q.t.items()})
    if sign(q) == '-':
        return -c0, mono, -q
    return c0, mono, q


def _mkey(m):
    return (tuple((a.id, e) for a, e in m[0]), m[1].id if m[1] is not None else 0)


def _lt(a, b):
    d = b - a
    if not d.t:
        return False
    m = min(d.t, key=_mkey)
    return d.t[m] > 0


_sign_oracle = [None]  # callable R -> one of '+','-','0','0+','0-',None


def sign(r):
    return _sign_oracle[0](r) if _sign_oracle[0] else None


def pos(r):
    return sign(r) == '+'


def nonneg(r):
    return sign(r) in ('+', '0+', '0')


def rpow(r, n):
    if isinstance(n, R):
        c = n.const()
        if c is None:
            # r ** n for symbolic n: exp(n log r), r > 0
            if not pos(r):
                raise Unsupported('symbolic power of a base not known positive')
            return exp(n * log(r))
        n = c
    n = Fraction(n)
    if n == 0:
        return ONE
    if n == 1:
        return r
    if not r.t:
        if n > 0:
            return ZERO
        raise Unsupported('power of zero')
    s = r.single()
    if s is not None:
        c, (pw, ex) = s
        if n.denominator == 1:
            ni = n.numerator
            coeff = c ** ni
            if any(a.kind == 'poly' for a, e in pw) and ni > 0:
                out = lift(coeff)
                base = mk({(pw, None): F1})
                for _ in range(ni):
                    out = out * base
                return out * (exp(ex * ni) if ex is not None else ONE)
            npw = []
            for a, e in pw:
                if a.kind == 'ind':
                    if n < 0:
                        raise Unsupported('inverse of an indicator')
                    npw.append((a, F1))
                else:
                    npw.append((a, e * n))
            m = (tuple(npw), ex * n if ex is not None else None)
            res = mk({m: coeff})
            return _expand_poly(res)
        # fractional power: split when every factor is nonnegative
        if c > 0 and all((_nonneg_pow(a, e)) for a, e in pw):
            out = _frac_const(c, n)
            for a, e in pw:
                if a.kind == 'ind':
                    out = out * of_atom(a, 1)
                else:
                    base = _abs_atom_pow(a, e)
                    out = out * of_atom(base[0], base[1] * n)
            if ex is not None:
                out = out * exp(ex * n)
            return _expand_poly(out)
        return of_atom(poly_atom(r), n)
    if n.denominator == 1 and n > 0:
        out = r
        for _ in range(n.numerator - 1):
            out = out * r
        return out
    c0, mono, q = content(r)
    if n.denominator != 1:
        cm = mk({mono: c0})
        if pos(cm):
            return rpow(cm, n) * of_atom(poly_atom(q), n)
        if pos(-cm):
            c1, m1, q1 = -c0, mono, -q
            return rpow(mk({mono: -c0}), n) * of_atom(poly_atom(-q), n)
        return of_atom(poly_atom(r), n)
    return rpow(mk({mono: c0}), n) * of_atom(poly_atom(q), n)


def _expand_poly(r):
    """Expand poly atoms with exponent >= 1."""
    out = ZERO
    changed = False
    for (pw, ex), c in r.t.items():
        fac = None
        keep = []
        for a, e in pw:
            if a.kind == 'poly' and e >= 1:
                k = int(e)
                f = a.data
                for _ in range(k - 1):
                    f = f * a.data
                fac = f if fac is None else fac * f
                if e - k:
                    keep.append((a, e - k))
            else:
                keep.append((a, e))
        if fac is None:
            out = out + mk({(pw, ex): c})
        else:
            changed = True
            out = out + mk({(tuple(keep), ex): c}) * fac
    return out if changed else r


def _nonneg_pow(a, e):
    if a.kind == 'ind':
        return True
    if e.denominator == 1 and e.numerator % 2 == 0:
        return nonneg(of_atom(a)) or a.kind != 'poly'  # |a| is used below
    return nonneg(of_atom(a))


def _abs_atom_pow(a, e):
    if nonneg(of_atom(a)):
        return a, e
    ab = fn('abs', of_atom(a))
    (m, _), = ab.t.items()
    return m[0][0][0], e


def _frac_const(c, n):
    """c ** n for rational c > 0 and fractional n; perfect powers are evaluated."""
    if c == 1:
        return ONE
    p, q = n.numerator, n.denominator

    def root(x):
        r = round(x ** (1.0 / q))
        for y in (r - 1, r, r + 1):
            if y >= 0 and y ** q == x:
                return y
        return None
    a, b = root(c.numerator), root(c.denominator)
    if a is not None and b is not None:
        return lift(Fraction(a, b) ** p)
    a = fn('const', lift(c))
    (m, _), = a.t.items()
    # canonical: const atom to a fractional power in (0,1)
    whole = n.numerator // n.denominator
    frac = n - whole
    return lift(c ** whole) * of_atom(m[0][0][0], frac)


def exp(r):
    r = lift(r)
    if not r.t:
        return ONE
    out = ONE
    rest = {}
    for m, c in r.t.items():
        pw, ex = m
        if ex is None and len(pw) == 1 and pw[0][1] == 1:
            a = pw[0][0]
            if a.kind == 'fn' and a.data[0] == 'log':
                out = out * rpow(a.data[1][0], c)
                continue
            if a.kind == 'sum':
                lg = _sum_of_log(a)
                if lg is not None:
                    out = out * rpow(lg, c)
                    continue
        rest[m] = c
    if rest:
        out = out * mk({((), mk(rest)): F1})
    return out


def _sum_of_log(a):
    """sum_b log f(b) -> prod_b f(b) (only a bare log body)."""
    dim, body, bname = a.data
    s = body.single()
    if s is None:
        return None
    c, (pw, ex) = s
    if ex is None and len(pw) == 1 and pw[0][1] == 1 and c == 1:
        b = pw[0][0]
        if b.kind == 'fn' and b.data[0] == 'log':
            v = fresh('v', 'int')
            return bigprod(v, dim, subst(b.data[1][0], {bname: v}))
    return None


def log(r):
    """log of a positive term."""
    r = lift(r)
    s = r.single()
    if s is None:
        c0, mono, q = content(r)
        cm = mk({mono: c0})
        if cm is not ONE:
            if pos(cm):
                return log(cm) + log(q)
            if pos(-cm):
                return log(-cm) + log(-q)
        return fn('log', r)
    c, (pw, ex) = s
    if c > 0 and (len(pw) + (c != 1) + (ex is not None) > 1 or
                  (len(pw) == 1 and (pw[0][1] != 1 or pw[0][0].kind == 'prod')) or not pw) and \
            all(pos(of_atom(a)) for a, _ in pw):
        out = ex if ex is not None else ZERO
        if c != 1:
            out = out + log_const(c)
        for a, e in pw:
            if a.kind == 'prod':
                dim, body, bname = a.data
                v = fresh('v', 'int')
                out = out + lift(e) * bigsum(v, dim, log(subst(body, {bname: v})))
            elif a.kind == 'poly':
                out = out + lift(e) * log(a.data)
            else:
                out = out + lift(e) * fn('log', of_atom(a))
        return out
    return fn('log', r)


def log_const(c):
    """log of a positive rational, as a sum over a multiplicative basis of primes is not
    needed: reciprocal and power-of-ten/two free form is enough for the code at hand."""
    if c < 1:
        return -fn('log', lift(1 / c))
    return fn('log', lift(c))


_fresh = itertools.count()


def fresh(prefix='v', sort='int'):
    return var('%s!%d' % (prefix, next(_fresh)), sort)


def varname(v):
    (m, _), = v.t.items()
    return m[0][0][0].data


# ---------------------------------------------------------------- substitution

def rebuild(r, f, cache=None):
    """Rebuild r bottom-up; f(atom) -> R or None is asked first for var/app/fn atoms."""
    if cache is None:
        cache = {}
    got = cache.get(r.id)
    if got is not None:
        return got
    out = ZERO
    for (pw, ex), c in r.t.items():
        term = lift(c)
        for a, e in pw:
            base = rebuild_atom(a, f, cache)
            if a.kind == 'ind':
                term = term * base
            else:
                term = term * rpow(base, e)
        if ex is not None:
            term = term * exp(rebuild(ex, f, cache))
        out = out + term
    cache[r.id] = out
    return out


def rebuild_atom(a, f, cache):
    key = ('a', a.id)
    got = cache.get(key)
    if got is not None:
        return got
    res = f(a)
    if res is None:
        if a.kind == 'var':
            res = of_atom(a)
        elif a.kind == 'app':
            name, args = a.data
            res = app(name, [rebuild(x, f, cache) for x in args])
        elif a.kind == 'fn':
            name, args = a.data
            nargs = [rebuild(x, f, cache) for x in args]
            if name == 'log':
                res = log(nargs[0])
            elif name == 'abs' and nonneg(nargs[0]):
                res = nargs[0]
            else:
                res = fn(name, *nargs)
        elif a.kind == 'poly':
            res = rebuild(a.data, f, cache)
        elif a.kind in ('sum', 'prod', 'min'):
            dim, body, bname = a.data
            v = fresh('v', 'int')
            b2 = subst(body, {bname: v})
            b2 = rebuild(b2, f, {})
            d2 = rebuild(dim, f, cache)
            res = {'sum': bigsum, 'prod': bigprod, 'min': bigmin}[a.kind](v, d2, b2)
        elif a.kind == 'ind':
            res = _ind_rebuild(a.data, f, cache)
        elif a.kind == 'ite':
            c, x, y = a.data
            l = _lit_rebuild_hook[0](c, f, cache)
            if l is True:
                res = rebuild(x, f, cache)
            elif l is False:
                res = rebuild(y, f, cache)
            else:
                res = ite(l, rebuild(x, f, cache), rebuild(y, f, cache))
        else:
            raise Unsupported('rebuild ' + a.kind)
    cache[key] = res
    return res


_ind_rebuild_hook = [None]
_lit_rebuild_hook = [None]


def _ind_rebuild(c, f, cache):
    return _ind_rebuild_hook[0](c, f, cache)


def subst(r, m):
    """m: variable name -> R"""
    names = set(m)
    if not (r.fv & names):
        return r

    def f(a):
        if a.kind == 'var':
            return m.get(a.data)
        if not (a.fv & names):
            return of_atom(a)
        return None
    return rebuild(r, f)


# ---------------------------------------------------------------- big operators

def _close(v, dim, body, kind):
    name = varname(v)
    d = body.depth + 1
    bname = '#%d' % d
    b = subst(body, {name: var(bname, 'int')})
    fv = (b.fv - {bname}) | dim.fv
    return of_atom(_mk_atom(kind, (dim, b, bname), (dim.id, b.id), fv, d))


def _split_mono(m, name):
    pw, ex = m
    ip, dp = [], []
    for a, e in pw:
        (dp if name in a.fv else ip).append((a, e))
    if ex is None:
        iex = dex = None
    else:
        it, dt = {}, {}
        for mm, c in ex.t.items():
            dep = any(name in a.fv for a, _ in mm[0]) or (mm[1] is not None and name in mm[1].fv)
            (dt if dep else it)[mm] = c
        iex = mk(it) if it else None
        dex = mk(dt) if dt else None
    return (tuple(ip), iex), (tuple(dp), dex)


def bigsum(v, dim, body):
    """sum_{v=0}^{dim-1} body"""
    dim, body = lift(dim), lift(body)
    name = varname(v)
    n = dim.const()
    if n is not None:
        out = ZERO
        for i in range(int(n)):
            out = out + subst(body, {name: lift(i)})
        return out
    if name not in body.fv:
        return dim * body
    groups = {}
    out = ZERO
    for m, c in body.t.items():
        im, dm = _split_mono(m, name)
        if dm == EMPTY:
            out = out + dim * mk({im: c})
        else:
            out = out + mk({im: c}) * _sum_atom(v, dim, mk({dm: F1}))
    return out


def _sum_atom(v, dim, body):
    # Kronecker delta: sum_v [v == t] f(v) = f(t) when 0 <= t < dim is known
    name = varname(v)
    c, (pw, ex) = body.single()
    for a, e in pw:
        if a.kind == 'ind' and a.data.kind == 'eq':
            sol = solve_linear(a.data.r, name)
            if sol is not None and name not in sol.fv and _in_range[0] and _in_range[0](sol, dim):
                rest = mk({(tuple(x for x in pw if x[0] is not a), ex): c})
                return subst(rest, {name: sol})
    return _close(v, dim, body, 'sum')


_in_range = [None]


def solve_linear(r, name):
    """r == 0 solved for variable `name` if linear with constant coefficient."""
    coeff = F0
    rest = ZERO
    for m, c in r.t.items():
        pw, ex = m
        if ex is None and len(pw) == 1 and pw[0][0].kind == 'var' and pw[0][0].data == name and pw[0][1] == 1:
            coeff = c
        else:
            rest = rest + mk({m: c})
    if coeff == 0 or name in rest.fv:
        return None
    return rest * (F1 / -coeff)


def bigprod(v, dim, body):
    dim, body = lift(dim), lift(body)
    name = varname(v)
    n = dim.const()
    if n is not None:
        out = ONE
        for i in range(int(n)):
            out = out * subst(body, {name: lift(i)})
        return out
    if not body.t:
        return ZERO  # dim >= 1
    if name not in body.fv:
        if body is ONE:
            return ONE
        if pos(body):
            return exp(dim * log(body))
        return _close(v, dim, body, 'prod')
    s = body.single()
    if s is None:
        c0, mono, q = content(body)
        cm = mk({mono: c0})
        if cm is ONE:
            return _close(v, dim, body, 'prod')
        if c0 < 0 and pos(-cm):
            return bigprod(v, dim, -cm) * _close(v, dim, -q, 'prod')
        return bigprod(v, dim, cm) * _close(v, dim, q, 'prod')
    c, (pw, ex) = s
    out = ONE
    rest = ONE
    if c != 1:
        if c > 0:
            out = out * exp(dim * log_const(c))
        else:
            rest = rest * lift(c)
    for a, e in pw:
        at = of_atom(a)
        if name not in a.fv:
            if pos(at):
                out = out * exp(dim * lift(e) * log(at))
            else:
                rest = rest * of_atom(a, e)
        elif a.kind == 'ind':
            rest = rest * at
        elif a.kind == 'poly':
            if e.denominator == 1 or pos(at):
                out = out * rpow(bigprod(v, dim, a.data), e)
            else:
                rest = rest * of_atom(a, e)
        elif a.kind == 'prod':
            # product of products: keep as an atom, body is the inner product
            out = out * rpow(_close(v, dim, at, 'prod'), e) if (e.denominator == 1 or pos(at)) else out
            if not (e.denominator == 1 or pos(at)):
                rest = rest * of_atom(a, e)
        else:
            if e.denominator == 1 or pos(at):
                out = out * rpow(_close(v, dim, at, 'prod'), e)
            else:
                rest = rest * of_atom(a, e)
    if ex is not None:
        out = out * exp(bigsum(v, dim, ex))
    if rest is not ONE:
        out = out * _close(v, dim, rest, 'prod')
    return out


def bigmin(v, dim, body):
    dim, body = lift(dim), lift(body)
    name = varname(v)
    n = dim.const()
    if n is not None and int(n) == 1:
        return subst(body, {name: ZERO})
    ind_, dep = ZERO, ZERO
    for m, c in body.t.items():
        if any(name in a.fv for a, _ in m[0]) or (m[1] is not None and name in m[1].fv):
            dep = dep + mk({m: c})
        else:
            ind_ = ind_ + mk({m: c})
    if not dep.t:
        return ind_
    s = dep.single()
    if s is not None and s[0] > 0 and s[0] != 1:
        return ind_ + lift(s[0]) * _close(v, dim, mk({s[1]: F1}), 'min')
    return ind_ + _close(v, dim, dep, 'min')


def bigmax(v, dim, body):
    return -bigmin(v, dim, -lift(body))


def open_big(a):
    """(v, dim, body) with a fresh variable."""
    dim, body, bname = a.data
    v = fresh('v', 'int')
    return v, dim, subst(body, {bname: v})


# ---------------------------------------------------------------- equality

def neg_polys(r):
    out = {}
    for (pw, ex) in r.t:
        for a, e in pw:
            if a.kind == 'poly' and e < 0:
                out[a.id] = (a, max(out.get(a.id, (a, F0))[1], -e))
    return out


def clear_denoms(r, limit=40):
    """Multiply by poly atoms until none has a negative exponent."""
    for _ in range(limit):
        d = neg_polys(r)
        if not d:
            return r
        i = sorted(d)[0]
        a, e = d[i]
        k = -(-e.numerator // e.denominator)
        f = of_atom(a, k) if False else None
        # multiply each term: raise exponent of atom a by k
        out = ZERO
        p = a.data
        for (pw, ex), c in r.t.items():
            cur = F0
            rest = []
            for b, x in pw:
                if b is a:
                    cur = x
                else:
                    rest.append((b, x))
            new = cur + k
            term = mk({(tuple(rest), ex): c})
            n = new.numerator // new.denominator
            frac = new - n
            for _i in range(n):
                term = term * p
            if frac:
                term = term * of_atom(a, frac)
            out = out + term
        r = out
    raise Unsupported('denominators')


def zero_test(r):
    if not r.t:
        return True
    r = clear_denoms(r)
    return not r.t


# ---------------------------------------------------------------- derivative

def diff(r, name, dapp=None):
    """d r / d name.  dapp(atom) gives the derivative of apps/fns depending on name."""
    if name not in r.fv:
        return ZERO
    out = ZERO
    for (pw, ex), c in r.t.items():
        term = mk({(pw, ex): c})
        for a, e in pw:
            if name in a.fv:
                da = diff_atom(a, name, dapp)
                out = out + term * lift(e) * da * of_atom(a, -1)
        if ex is not None and name in ex.fv:
            out = out + term * diff(ex, name, dapp)
    return out


def diff_atom(a, name, dapp):
    if a.kind == 'var':
        return ONE if a.data == name else ZERO
    if a.kind == 'poly':
        return diff(a.data, name, dapp)
    if a.kind == 'sum':
        v, dim, body = open_big(a)
        return bigsum(v, dim, diff(body, name, dapp))
    if a.kind == 'prod':
        v, dim, body = open_big(a)
        return of_atom(a) * bigsum(v, dim, diff(body, name, dapp) * body.inv())
    if a.kind == 'fn' and a.data[0] == 'log':
        x = a.data[1][0]
        return diff(x, name, dapp) * x.inv()
    if dapp is not None:
        d = dapp(a)
        if d is not None:
            return d
    raise Unsupported('derivative of ' + a.kind)


# ---------------------------------------------------------------- printing

def show_atom(a):
    if a.kind == 'var':
        return a.data
    if a.kind in ('app', 'fn'):
        return '%s(%s)' % (a.data[0], ', '.join(map(show, a.data[1])))
    if a.kind == 'poly':
        return '(%s)' % show(a.data)
    if a.kind in ('sum', 'prod', 'min'):
        dim, body, b = a.data
        return '%s[%s<%s](%s)' % (a.kind, b, show(dim), show(body))
    if a.kind == 'ind':
        return '[%r]' % (a.data,)
    if a.kind == 'ite':
        return 'ite(%r, %s, %s)' % (a.data[0], show(a.data[1]), show(a.data[2]))
    return '?'


def show(r):
    if not r.t:
        return '0'
    parts = []
    for m, c in sorted(r.t.items(), key=lambda mc: _mkey(mc[0])):
        pw, ex = m
        f = []
        if c != 1 or (not pw and ex is None):
            f.append(str(c) if c.denominator < 10**7 else '%.17g' % float(c))
        for a, e in pw:
            f.append(show_atom(a) + ('' if e == 1 else '^%s' % (e if e > 0 else '(%s)' % e)))
        if ex is not None:
            f.append('exp(%s)' % show(ex))
        parts.append('*'.join(f))
    return ' + '.join(parts)


# ---------------------------------------------------------------- numeric evaluation

def evalf(r, env, mp):
    """Evaluate with mpmath.  env: dict variable -> number, '@name' -> python function."""
    tot = mp.mpf(0)
    for (pw, ex), c in r.t.items():
        x = mp.mpf(c.numerator) / c.denominator
        if any(a.kind == 'ind' and not eval_atom(a, env, mp) for a, e in pw):
            continue        # the other factors need not have a value here
        for a, e in pw:
            v = eval_atom(a, env, mp)
            if e == 1:
                x *= v
            elif e.denominator == 1:
                x *= v ** int(e)
            else:
                x *= mp.power(v, mp.mpf(e.numerator) / e.denominator)
        if ex is not None:
            x *= mp.exp(evalf(ex, env, mp))
        tot += x
    return tot


def inner_env(env):
    """The same interpretation with room for the values of bound variables."""
    f = getattr(env, 'copy_of', None)
    return f() if f is not None else dict(env)


DERIVED = {}     # names whose value is determined by that of others -> function(arguments, env, mp)


def eval_atom(a, env, mp):
    if a.kind == 'var':
        f = DERIVED.get(a.data)
        if f is not None:
            return mp.mpf(f((), env, mp))
        return mp.mpf(env[a.data])
    if a.kind == 'app':
        name, args = a.data
        f = DERIVED.get('@' + name)
        if f is not None:
            return mp.mpf(f([evalf(x, env, mp) for x in args], env, mp))
        return mp.mpf(env['@' + name](*[evalf(x, env, mp) for x in args]))
    if a.kind == 'fn':
        name, args = a.data
        xs = [evalf(x, env, mp) for x in args]
        if name == 'log':
            return mp.log(xs[0])
        if name == 'abs':
            return abs(xs[0])
        if name == 'const':
            return xs[0]
        if name == 'floor':
            return mp.floor(xs[0])
        if name == 'ceil':
            return mp.ceil(xs[0])
        if name == 'rint':
            return mp.nint(xs[0])
        if name in ('sin', 'cos'):
            return getattr(mp, name)(xs[0])
        if name == 'pi':
            return +mp.pi
        if name in ('rnd16', 'rnd32'):
            import numpy
            with numpy.errstate(all='ignore'):
                return mp.mpf(float(getattr(numpy, 'float' + name[3:])(float(xs[0]))))
        raise Unsupported('eval fn ' + name)
    if a.kind == 'poly':
        return evalf(a.data, env, mp)
    if a.kind in ('sum', 'prod', 'min'):
        dim, body, b = a.data
        n = int(evalf(dim, env, mp))
        vals = []
        e2 = inner_env(env)
        for i in range(n):
            e2[b] = i
            vals.append(evalf(body, e2, mp))
        if a.kind == 'sum':
            return mp.fsum(vals)
        if a.kind == 'min':
            return min(vals)
        x = mp.mpf(1)
        for y in vals:
            x *= y
        return x
    if a.kind == 'ind':
        return mp.mpf(1 if a.data.evalf(env, mp) else 0)
    if a.kind == 'ite':
        return evalf(a.data[1] if a.data[0].evalf(env, mp) else a.data[2], env, mp)
    raise Unsupported('eval ' + a.kind)
