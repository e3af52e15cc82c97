"""Loads the real source files of the repository and executes them on symbolic values.

Mechanical rewrites (everything else runs as written, under CPython):
  * float literals keep their decimal value (XFloat); `a / b` of Python numbers stays exact;
  * list displays and `list(...)` build VList, a list that can hold a symbolic segment;
  * comprehensions / generator expressions with one `for`, and `for` loops, get a second
    version used when the iterable has symbolic length: the comprehension becomes a symbolic
    sequence, the loop is summarised by induction (class Loop);
  * builtins len, range, enumerate, zip, sum, ... accept symbolic values;
  * imports of numpy, ase, pymatgen, matplotlib resolve to their contracts.
"""
import ast
import builtins
import collections
import functools
import importlib
import itertools
import math as _math
import os
import sys
import types
from fractions import Fraction

import numpy as _np

from . import core as C
from . import symnp as S
from . import npmore
from . import terms as tm
from .core import PV, pv, neg, eq, gt
from .symnp import (SymArray, SymInt, SymBool, SymSeq, VList, XFloat, Unsupported, asarr, mkint, scalar,
                    scalar_of, as_symseq)
from .terms import R, ZERO, ONE, lift

REPO = os.environ.get('VC_REPO', '/repo')


# ---------------------------------------------------------------- effects

class Effects:
    def __init__(self):
        self.log = []

    def add(self, name, *args, **kw):
        self.log.append((name, args, kw))


class VFile:
    """A file created anew for writing; one whole table may be written to it."""

    def __init__(self, world, name, mode):
        self.world, self.name, self.mode = world, name, mode
        self.closed, self.used = False, False
        self.entry = ('open', (name, mode), {})
        world.effects.log.append(self.entry)

    def table(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        log = self.world.effects.log
        if self.used or not log or log[-1] is not self.entry:
            raise Unsupported('more than one table in a file')
        self.used = True
        log.pop()
        return self.name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __getattr__(self, n):
        raise Unsupported('file.' + n)


# ---------------------------------------------------------------- substitution on objects

def psubst(p, m):
    out = []
    c = C.ctx()
    for g, l in p.cases:
        ng = set()
        dead = False
        for cc, pol in g:
            x = C.csubst(cc, m)
            x = x if pol else neg(x)
            if x is False:
                dead = True
                break
            if x is not True:
                ng.add(x)
        if dead:
            continue
        ng = frozenset(ng)
        if ng and not c.feasible(ng):
            continue
        out.append((ng, tm.subst(l, m) if isinstance(l, R) else l))
    return C.simplify_pv(out)


def subst_obj(o, m):
    """Replace index variables in a value."""
    if isinstance(o, SymInt):
        return mkint(tm.subst(o.r, m))
    if isinstance(o, SymBool):
        return SymBool(psubst(o.p, m))
    if isinstance(o, SymArray):
        f = o.reader()
        shp = tuple(tm.subst(s, m) for s in o.shp)
        names = set(m)

        def elem(idx):
            safe, back = [], {}
            for i in idx:
                if i.fv & names:
                    v = C.fresh('z', 'int')
                    back[C.varname(v)] = i
                    safe.append(v)
                else:
                    safe.append(i)
            r = psubst(f(tuple(safe)), m)
            return psubst(r, back) if back else r
        a = S.new(shp, elem, o.dtype)
        a.weak = o.weak
        return a
    if isinstance(o, str):
        if '\u27e6' not in o:
            return o
        out = ''
        for part in S.untoken(o):
            out += part if isinstance(part, str) else S.token(part[0], tm.subst(part[1], m))
        return out
    if isinstance(o, (int, float, type(None), type)) or callable(o) and not hasattr(o, 'vc_subst'):
        return o
    if isinstance(o, tuple):
        return tuple(subst_obj(x, m) for x in o)
    if isinstance(o, VList):
        r = VList(subst_obj(x, m) for x in list.__iter__(o))
        if o.tail is not None:
            t = o.tail
            r.tail = SymSeq(tm.subst(t.dim, m), lambda i: subst_obj(t.at(i), m))
        return r
    if isinstance(o, SymSeq):
        return SymSeq(tm.subst(o.dim, m), lambda i: subst_obj(o.at(i), m))
    if isinstance(o, list):
        return [subst_obj(x, m) for x in o]
    if isinstance(o, dict):
        return {k: subst_obj(v, m) for k, v in o.items()}
    f = getattr(o, 'vc_subst', None)
    if f is not None:
        return f(m)
    raise Unsupported('value of type %s carried by a loop' % type(o).__name__)


def mentions(o, names):
    """Do the terms of a value mention any of these names (variables or '@function')?"""
    names = set(names)
    if isinstance(o, SymInt):
        return bool(o.r.fv & names)
    if isinstance(o, SymArray):
        idx = tuple(C.canon_index(s, '#k%d' % k) for k, s in enumerate(o.shp))
        if any(s.fv & names for s in o.shp):
            return True
        p = o.elem(idx)
        return any((isinstance(l, R) and l.fv & names) or any(c.fv & names for c, _ in g) for g, l in p.cases)
    if isinstance(o, (tuple, list)):
        if isinstance(o, VList) and o.tail is not None:
            return True
        return any(mentions(x, names) for x in o)
    if isinstance(o, SymBool):
        return any(c.fv & names for g, _ in o.p.cases for c, _ in g)
    if isinstance(o, str):
        return any(not isinstance(p, str) and p[1].fv & names for p in S.untoken(o))
    return False


# ---------------------------------------------------------------- loops

class Unbound:
    """A local that has no value (or an unknown one) at this point."""

    def __getattr__(self, n):
        raise Unsupported('use of a loop-local value')
    __call__ = __bool__ = __iter__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __getitem__ = \
        __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __truediv__ = __array__ = \
        lambda self, *a: self.__getattr__('x')
    __hash__ = None


UNBOUND = Unbound()
_hv = itertools.count(1)
_loops = []     # stack of active summarised loops (for the journal of list appends)


def _chooser(guards):
    """Combine the element functions of several outcomes, each valid under its guard."""
    def choose(fs):
        def elem(idx):
            out = []
            c = C.ctx()
            for g, f in zip(guards, fs):
                if not c.feasible(g):
                    continue
                for g2, l in C.with_lits(g, lambda: f(idx)).cases:
                    if c.feasible(g | g2):
                        out.append((g | g2, l))
            return C.simplify_pv(out)
        return S.memo(elem)
    return choose


class _Growing:
    """Tail of a list that a summarised loop appends to, during its generic iteration: the list may
    be appended to but not looked at."""

    def __getattr__(self, n):
        raise Unsupported('a list is looked at while a loop appends to it')

    def __bool__(self):
        raise Unsupported('a list is looked at while a loop appends to it')


GROWING = _Growing()


def _state(world):
    """Mutable state within reach of the code that is running: containers, attributes, globals."""
    todo, out = [], {}
    f = sys._getframe(1)
    while f is not None:
        if str(f.f_globals.get('__name__', '')).startswith('occuprob'):
            todo.extend(f.f_locals.values())
        f = f.f_back
    for m in (world.modules.values() if world else ()):
        todo.append(getattr(m, '__dict__', None))
    while todo:
        x = todo.pop()
        k = id(x)
        if k in out:
            continue
        if isinstance(x, dict):
            out[k] = (x, tuple(x.items()))
            todo.extend(v for n, v in x.items() if n != '__builtins__')
        elif isinstance(x, (list, tuple, collections.deque)):
            out[k] = (x, tuple(list.__iter__(x)) if isinstance(x, list) else tuple(x))
            todo.extend(out[k][1])
        elif isinstance(x, (set, frozenset)):
            out[k] = (x, tuple(sorted(x, key=id)))
        elif isinstance(x, types.FunctionType):
            if str(x.__module__).startswith('occuprob'):
                out[k] = (x, ())
                todo += [x.__dict__, x.__defaults__, x.__kwdefaults__]
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(x, types.MethodType):
            todo.append(x.__self__)
        elif isinstance(x, type):
            if str(x.__module__).startswith('occuprob'):
                out[k] = (x, tuple(x.__dict__.items()))
                todo.extend(x.__dict__.values())
        elif str(type(x).__module__).startswith('occuprob') and hasattr(x, '__dict__'):
            out[k] = (x, ())
            todo.append(x.__dict__)
            todo.append(type(x))
    return out


def _changed(state):
    """Was any of the recorded containers changed since?  (Appends are left to the journal.)"""
    for x, old in state.values():
        if isinstance(x, dict):
            new = tuple(x.items())
            if len(new) != len(old) or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(old, new)):
                return True
        elif isinstance(x, (list, collections.deque)):
            new = tuple(list.__iter__(x)) if isinstance(x, list) else tuple(x)
            if len(new) < len(old) or any(a is not b for a, b in zip(old, new)) or len(new) != len(old) and not (
                    isinstance(x, _TrackedList)):
                return True
        elif isinstance(x, set):
            new = tuple(sorted(x, key=id))
            if len(new) != len(old) or any(a is not b for a, b in zip(old, new)):
                return True
        elif isinstance(x, type):
            new = tuple(x.__dict__.items())
            if len(new) != len(old) or any(a[1] is not b[1] for a, b in zip(old, new)):
                return True
    return False


class Fork:
    """Evaluation of a function of a generic element, once per outcome of its branches."""

    def __init__(self):
        self.trace, self.todo, self.tpos, self.plits = [], [], 0, []

    def decide(self, lit):
        if self.tpos < len(self.trace):
            if self.trace[self.tpos][0] != lit:
                raise Unsupported('branches on a generic element in a different order')
            choice = self.trace[self.tpos][1]
        else:
            if len(self.trace) > 12:
                raise Unsupported('too many branches on a generic element')
            self.todo.append(self.trace + [(lit, False)])
            self.trace = self.trace + [(lit, True)]
            choice = True
        self.tpos += 1
        l = lit if choice else neg(lit)
        self.plits.append(l)
        C.set_ctx(C.ctx().child([l]))
        return choice


def generic_eval(fn):
    """Value of fn(), a function of a generic element of a collection: it is executed once per outcome
    of the branches it takes on that element, and the values are merged into a conditional value."""
    fork = Fork()
    world = _world[-1] if _world else None
    eff = len(world.effects.log) if world else 0
    start = next(S._bid)
    saved = dict(S._touched)
    S._touched.clear()
    lists = [(l, list.__len__(l), l.tail) for l in _live_lists()]
    state = _state(world)
    base = C.ctx()
    entry = (None, fork)
    S._loop_index.append(entry)
    paths = []
    try:
        while True:
            try:
                v = fn()
            except Unsupported:
                raise
            except Exception:
                if fork.plits:
                    raise Unsupported('exception for some elements of a collection')
                raise
            if any(b.id < start for b in S._touched.values()) or world and len(world.effects.log) != eff or any(
                    l.tail is not t or list.__len__(l) != n for l, n, t in lists) or _changed(state):
                raise Unsupported('side effect of a generic element')
            if fork.tpos != len(fork.trace):
                raise Unsupported('branches on a generic element in a different order')
            paths.append((frozenset(fork.plits), v))
            extra = C.ctx().lits - frozenset(fork.plits) - base.lits
            if extra:
                base = base.child(list(extra))
            C.set_ctx(base)
            if len(paths) > 16:
                raise Unsupported('too many branches on a generic element')
            while fork.todo:
                fork.trace = fork.todo.pop()
                fork.tpos, fork.plits = 0, []
                if base.feasible(frozenset(l if ch else neg(l) for l, ch in fork.trace)):
                    break
            else:
                break
    finally:
        S._loop_index.remove(entry)
        saved.update(S._touched)
        S._touched.clear()
        S._touched.update(saved)
    if len(paths) == 1:
        return paths[0][1]
    return _join([v for _, v in paths], _chooser([g for g, _ in paths]))


def _join(vs, choose):
    v0 = vs[0]
    if all(v is v0 for v in vs[1:]):
        return v0
    if all(isinstance(v, (tuple, list)) and type(v) is type(v0) for v in vs) and all(
            getattr(v, 'tail', None) is None and list.__len__(v) == len(v0) if isinstance(v, list) else
            len(v) == len(v0) for v in vs):
        xs = [_join([v[k] for v in vs], choose) for k in range(len(v0))]
        return new_list(xs) if isinstance(v0, list) else tuple(xs)
    if all(isinstance(v, (bool, SymBool)) for v in vs):
        fs = [lambda idx, p=(pv(v) if isinstance(v, bool) else C.truth(v.p)): p for v in vs]
        return SymBool(choose(fs)(()))
    if all(type(v) is str and v == v0 for v in vs):
        return v0
    r = Loop._mix(vs, choose)
    if isinstance(r, _IntChoice):
        r = r.array()
        r.weak = int if all(isinstance(v, (int, SymInt)) for v in vs) else None
    if r is UNBOUND:
        raise Unsupported('value of a generic element that differs by branch')
    return r


S.generic_eval = generic_eval
_world = []


class Loop:
    def __init__(self, seq, names, locs, world):
        self.seq = seq
        self.dim = seq.dim
        self.names = names
        self.world = world
        self.phase = 0
        self.done = False
        self.forced = set()
        self.late = {}
        self.buf_after0 = None
        self.generic = False
        self.growing = {}

    # ---------------------------------------------------- protocol used by the generated code
    def next(self, locs):
        if self.phase == 0:
            self.init = {n: locs.get(n, UNBOUND) for n in self.names}
            if not tm.pos(self.dim) and not S.decide(gt(self.dim)):
                self.fin = self.init
                self.done = True
                return False
            self.phase = 1
            self._begin()
            self.start0 = self.start_id
            self.cur = dict(self.init)
            self.index = ZERO
            return True
        if self.phase == 1:
            self.v0 = {n: locs.get(n, UNBOUND) for n in self.names}
            self.j0 = self._end()
            if self.dim.const() == 1:
                self.fin = self.v0
                self.done = True
                return False
            self._prepare_generic()
            self.phase = 2
            self.base_ctx = C.ctx()
            self.paths, self.todo, self.trace, self.tpos, self.plits = [], [], [], 0, []
            return True
        if self.phase == 2:
            vi = {n: locs.get(n, UNBOUND) for n in self.names}
            ji = self._end()
            if self.plits or self.paths:
                self._record(vi, ji)
                if self.todo:
                    self.trace = self.todo.pop()
                    self.tpos, self.plits = 0, []
                    self._begin()
                    return True
                if not self.late:
                    vi, ji = self._merge()
            again = [n for n in self.names if n not in self.havoc and n not in self.forced and
                     self.cur[n] is not UNBOUND and not _same(vi[n], self.cur[n])]
            if again or self.late:
                # unchanged by the first iteration, changed by a later one: start from anything
                self.forced.update(again)
                for i, b in ji[0].items():
                    if i not in self.hbuf and i not in self.late:
                        raise Unsupported('buffers first modified in a later iteration')
                for i, (b, e) in self.late.items():
                    self.j0[0][i] = b
                    self.buf_after0[i] = self.buf_init[i] = e
                self.late = {}
                for l, n, _ in ji[1]:
                    list.__delitem__(l, slice(n, None))
                del self.world.effects.log[self.pre_eff:]
                S._loop_index.remove((self.iname, self))
                C.set_ctx(self.base_ctx)
                self._prepare_generic()
                self.paths, self.todo, self.trace, self.tpos, self.plits = [], [], [], 0, []
                return True
            S._loop_index.remove((self.iname, self))
            for l, t in self.growing.values():
                l.tail = t
            self._summarise(vi, ji)
            self.done = True
            return False
        raise Unsupported('loop')

    # ---------------------------------------------------- branches of the generic iteration
    def decide(self, lit):
        """A branch on a condition about the generic element: the iteration is executed once per
        outcome and the outcomes are merged into conditional values."""
        if self.tpos < len(self.trace):
            if self.trace[self.tpos][0] != lit:
                raise Unsupported('branches of a loop body in a different order')
            choice = self.trace[self.tpos][1]
        else:
            self.todo.append(self.trace + [(lit, False)])
            self.trace = self.trace + [(lit, True)]
            choice = True
        self.tpos += 1
        if len(self.paths) > 16:
            raise Unsupported('too many branches in a loop body')
        l = lit if choice else neg(lit)
        self.plits.append(l)
        C.set_ctx(C.ctx().child([l]))
        return choice

    def branched(self):
        return self.phase == 2 and bool(self.plits or self.paths)

    def _record(self, vi, ji):
        touched, lists, eff = ji
        if self.tpos != len(self.trace):
            raise Unsupported('branches of a loop body in a different order')
        self.paths.append((frozenset(self.plits), vi, {i: (b, b.elem) for i, b in touched.items()},
                           [(l, items) for l, n, items in lists], list(eff)))
        for i, b in touched.items():
            if i not in self.hbuf:      # untouched by the first iteration
                self.late[i] = (b, self.pre_elems[i])
                b.elem = self.pre_elems[i]
            else:
                b.elem = S.memo(lambda idx, nm=self.hbuf[i]: pv(tm.app(nm, list(idx))))
        for l, n, _ in lists:
            list.__delitem__(l, slice(n, None))
        del self.world.effects.log[self.pre_eff:]
        extra = C.ctx().lits - frozenset(self.plits) - self.base_ctx.lits
        self.base_ctx = self.base_ctx.child(list(extra)) if extra else self.base_ctx
        C.set_ctx(self.base_ctx)

    def _merge(self):
        paths = self.paths
        choose = _chooser([p[0] for p in paths])

        touched = {}
        for _, _, bufs, _, _ in paths:
            for i, (b, _) in bufs.items():
                touched[i] = b
        for i, b in touched.items():
            old = S.memo(lambda idx, nm=self.hbuf[i]: pv(tm.app(nm, list(idx))))
            b.elem = choose([bufs[i][1] if i in bufs else old for _, _, bufs, _, _ in paths])
        l0 = paths[0][3]
        lists = []
        for _, _, _, ls, eff in paths:
            if [(id(l), len(x)) for l, x in ls] != [(id(l), len(x)) for l, x in l0]:
                raise Unsupported('conditional append inside a loop')
            if eff:
                raise Unsupported('conditional effect inside a loop')
        for k, (l, items) in enumerate(l0):
            n = list.__len__(l)
            new = [self._mix([p[3][k][1][q] for p in paths], choose) for q in range(len(items))]
            if any(x is UNBOUND for x in new):
                raise Unsupported('conditional element of a list')
            for x in new:
                list.append(l, x)
            lists.append((l, n, new))
        vi = {n: self._mix([p[1][n] for p in paths], choose) for n in self.names}
        self.base_lits = None
        return vi, (touched, lists, [])

    @staticmethod
    def _mix(xs, choose):
        if all(x is xs[0] for x in xs[1:]):
            return xs[0]
        if all(isinstance(x, int) and not isinstance(x, bool) and x == xs[0] for x in xs):
            return xs[0]
        if not all(isinstance(x, (int, float, SymInt, SymArray)) and not isinstance(x, bool) for x in xs):
            return UNBOUND
        try:
            arrs = [asarr(x) for x in xs]
        except Unsupported:
            return UNBOUND
        a0 = arrs[0]
        if any(len(a.shp) != len(a0.shp) or not all(S.same_dim(p, q) for p, q in zip(a.shp, a0.shp)) for a in arrs):
            return UNBOUND
        if all(isinstance(x, (int, SymInt)) for x in xs):
            return _IntChoice(choose([a.reader() for a in arrs]), a0.dtype)
        out = S.new(a0.shp, choose([a.reader() for a in arrs]), S.result_type(*arrs))
        if all(a.weak for a in arrs):
            out.weak = float
        return out

    def state(self):
        return tuple(self.cur[n] for n in self.names)

    def item(self):
        return self.seq.at(self.index)

    def final(self):
        if not self.done:
            raise Unsupported('break out of a loop over a symbolic collection')
        return tuple(self.fin[n] for n in self.names)

    # ---------------------------------------------------- journal
    def _begin(self):
        self.start_id = next(S._bid)
        self.saved_touched = dict(S._touched)
        S._touched.clear()
        self.pre_elems = _snapshot_bufs()
        self.pre_lists = [(l, list.__len__(l), l.tail) for l in _live_lists()]
        self.pre_eff = len(self.world.effects.log)
        self.pre_state = _state(self.world) if self.phase else None

    def _end(self):
        if self.generic and _changed(self.pre_state):
            raise Unsupported('state that a loop carries from one iteration to the next')
        bufs = [b for b in S._touched.values() if b.id < self.start_id]
        touched = {b.id: b for b in bufs}
        old = self.saved_touched
        old.update(S._touched)
        S._touched.clear()
        S._touched.update(old)
        lists = []
        for l, n, t in self.pre_lists:
            if l.tail is not t:
                raise Unsupported('symbolic segment changed inside a loop')
            if list.__len__(l) != n:
                if list.__len__(l) < n:
                    raise Unsupported('list shrinks inside a loop')
                lists.append((l, n, [list.__getitem__(l, k) for k in range(n, list.__len__(l))]))
        eff = self.world.effects.log[self.pre_eff:]
        return touched, lists, eff

    def _prepare_generic(self):
        touched, lists, eff = self.j0
        # undo the visible side effects of the first pass
        for l, n, _ in lists:
            list.__delitem__(l, slice(n, None))
            if id(l) not in self.growing:
                self.growing[id(l)] = l, l.tail
            l.tail = GROWING
        self.generic = True
        del self.world.effects.log[self.pre_eff:]
        if self.buf_after0 is None:
            self.buf_after0 = {i: b.elem for i, b in touched.items()}
            self.buf_init = {i: self.pre_elems.get(i) for i in touched}
        self.hbuf = {}
        v = C.new_index(self.dim, 'loop')
        self.index = v
        self.iname = C.varname(v)
        S._loop_index.append((self.iname, self))
        for i, b in touched.items():
            nm = 'hb%d' % next(_hv)
            self.hbuf[i] = nm
            b.elem = S.memo(lambda idx, nm=nm: pv(tm.app(nm, list(idx))))
        self.havoc = {}
        self.cur = {}
        for n in self.names:
            x0, x1 = self.init[n], self.v0[n]
            self.cur[n] = x1
            forced = n in self.forced
            if isinstance(x1, SymArray) and (x1 is not x0 or forced):
                if x1.buf.id < self.start0 and not (forced and x1 is x0):
                    if forced:
                        self.cur[n] = UNBOUND
                    continue  # a view of an older buffer
                nm = 'hv%d' % next(_hv)
                self.havoc[n] = nm
                a = S.new(x1.shp, lambda idx, nm=nm: pv(tm.app(nm, list(idx))), x1.dtype)
                a.weak = x1.weak
                self.cur[n] = a
            elif isinstance(x1, (int, SymInt)) and not isinstance(x1, bool) and (forced or not (x0 is x1 or (
                    isinstance(x0, int) and isinstance(x1, int) and x0 == x1))):
                nm = 'hv%d' % next(_hv)
                self.havoc[n] = nm
                self.cur[n] = SymInt(tm.app(nm, []))
                S.INTAPP.add(nm)
            elif isinstance(x1, float) and (forced or not (isinstance(x0, float) and x0 == x1)):
                nm = 'hv%d' % next(_hv)
                self.havoc[n] = nm
                self.cur[n] = scalar(tm.app(nm, []), weak=float)
            elif x1 is not x0 or forced:
                self.cur[n] = UNBOUND
        self._begin()

    # ---------------------------------------------------- summaries
    def _summarise(self, vi, ji):
        touched, lists, eff = ji
        touched0, lists0, eff0 = self.j0
        if set(touched) - set(touched0):
            raise Unsupported('buffers first modified in a later iteration')
        if [id(l) for l, _, _ in lists] != [id(l) for l, _, _ in lists0]:
            raise Unsupported('irregular appends')
        m_i = self.iname
        allh = {'@' + n for n in list(self.havoc.values()) + list(self.hbuf.values())}
        # lists
        for l, n, items in lists:
            if len(items) != 1:
                raise Unsupported('several appends per iteration')
            it = items[0]
            if mentions(it, allh):
                raise Unsupported('appended value depends on an accumulator')
            list.__delitem__(l, slice(n, None))
            l.extend(SymSeq(self.dim, lambda i, it=it: subst_obj(it, {m_i: i})))
        # effects
        del self.world.effects.log[self.pre_eff:]
        if eff:
            self.world.effects.log.append(('forall', (m_i, self.dim, eff), {}))
        # buffers
        for i, b in touched0.items():
            nm = self.hbuf[i]
            newf = b.elem if i in touched else None
            init = self.buf_init[i]
            after0 = self.buf_after0[i]
            if newf is None:
                b.elem = after0
                continue
            b.elem = S.memo(self._acc(nm, newf, init, after0, len(b.shape), b.shape, allh))
            S._touched[b.id] = b
        # variables
        self.fin = {}
        for n in self.names:
            x0, x1, x2 = self.init[n], self.v0[n], vi[n]
            if n in self.havoc:
                nm = self.havoc[n]
                self.fin[n] = self._var(nm, x0, x1, x2, allh)
            elif _same(x2, self.cur[n]):
                self.fin[n] = x1 if x1 is not UNBOUND else UNBOUND
            elif self.cur[n] is UNBOUND:
                # a value local to the iteration: that of the last one
                try:
                    if mentions(x2, allh):
                        raise Unsupported('x')
                    self.fin[n] = subst_obj(x2, {m_i: self.dim - 1})
                except Unsupported:
                    self.fin[n] = UNBOUND
            else:
                self.fin[n] = x2 if not mentions_safe(x2, allh | {m_i}) else UNBOUND

    def _var(self, nm, x0, x1, x2, allh):
        whole = False
        if isinstance(x2, _IntChoice):
            x2, whole = x2.array(), isinstance(x1, (int, SymInt))
        try:
            a2 = asarr(x2)
        except Unsupported:
            return UNBOUND
        a1 = asarr(x1)
        if not mentions(x2, allh):
            return subst_obj(x2, {self.iname: self.dim - 1}) if mentions(x2, {self.iname}) else x2
        if len(a2.shp) != len(a1.shp) or not all(S.same_dim(p, q) for p, q in zip(a1.shp, a2.shp)):
            raise Unsupported('accumulator changes shape')
        init = None
        if x0 is not UNBOUND and x0 is not None:
            try:
                a0 = asarr(x0)
                f0 = a0.reader()
                if len(a0.shp) <= len(a1.shp):
                    init = lambda idx: f0(S.bidx(idx, a0.shp))
            except Unsupported:
                init = None
        f = self._acc(nm, a2.reader(), init, a1.reader(), len(a1.shp), a1.shp, allh)
        out = S.new(a1.shp, f, S.result_type(a1, a2) if not (a1.weak and a2.weak) else a2.dtype)
        out.weak = a2.weak if a1.weak else None
        if whole or isinstance(x2, (int, SymInt)) and isinstance(x1, (int, SymInt)):
            return mkint(S.one_leaf(out.scalar_pv()))
        return out

    def _acc(self, nm, newf, init, after0, nd, shp, allh):
        """Element function after the whole loop, from the element function after one generic
        iteration on arbitrary contents `nm`."""
        dim, iname, iv = self.dim, self.iname, self.index
        me = '@' + nm
        others = allh - {me}

        def check(l):
            fv = l.fv if isinstance(l, R) else frozenset()
            if fv & others:
                raise Unsupported('accumulators depend on each other')

        def extreme(b, h, p):
            """Running minimum or maximum: every iteration keeps the better of h and e."""
            es = {l for _, l in p.cases if l is not h}
            if len(es) != 1:
                raise Unsupported('guard depends on an accumulator')
            e = es.pop()
            if not isinstance(e, R) or me in e.fv:
                raise Unsupported('guard depends on an accumulator')
            for kind, leaf, sg in (('min', S._l_min, 1), ('max', S._l_max, -1)):
                if all(C.ctx().child(g).sign((e - h) * sg) in (('0', '0+', '+') if l is h else ('0', '0-', '-'))
                       for g, l in p.cases):
                    break
            else:
                raise Unsupported('guard depends on an accumulator')
            a0 = after0(b)
            ep = pv(e)
            first = psubst(ep, {iname: ZERO})
            v = C.new_index(dim)
            i0 = init(b) if init is not None else None
            if i0 is not None and any(l is C.UNDEF for _, l in i0.cases):
                i0 = None
            if i0 is not None and pv_equal(i0, psubst(ep, {iname: lift(-1)})) and (
                    pv_equal(C.lift_op(leaf, i0, first), a0)):
                v = C.new_index(dim + 1)
                return C.reduce_sym(v, dim + 1, psubst(ep, {iname: v - 1}), kind)
            total = C.reduce_sym(v, dim, psubst(ep, {iname: v}), kind)
            if pv_equal(a0, first):
                return total
            if i0 is not None and pv_equal(C.lift_op(leaf, i0, first), a0):
                return C.lift_op(leaf, i0, total)
            raise Unsupported('first iteration differs')

        def elem(b):
            h = tm.app(nm, list(b))
            p = newf(b)
            for g, l in p.cases:
                check(l)
                for c, _ in g:
                    if c.fv & others:
                        raise Unsupported('guard depends on an accumulator')
            if any(me in c.fv for g, _ in p.cases for c, _ in g):
                return extreme(b, h, p)
            # assignment pattern: one iteration writes this element
            for k in range(nd):
                hit = eq(b[k] - iv)
                if isinstance(hit, bool) or not any(hit[0] is c for g, _ in p.cases for c, _ in g):
                    continue
                miss = (hit[0], not hit[1])
                cases = []
                for g, l in p.cases:
                    if hit in g or miss in g or l is not h:
                        cases.append((g, l))
                    else:       # this branch of the iteration writes nothing
                        cases += [(g | {hit}, l), (g | {miss}, l)]
                inside = [(g - {hit}, l) for g, l in cases if hit in g]
                outside = [(g, l) for g, l in cases if hit not in g]
                if any((hit[0], not hit[1]) not in g or l is not h for g, l in outside):
                    continue
                q = psubst(PV(inside), {iname: b[k]})
                if any(isinstance(l, R) and me in l.fv for _, l in q.cases):
                    base = init(b)

                    def put(l):
                        if not isinstance(l, R) or me not in l.fv:
                            return l
                        d = l - h
                        if me not in d.fv:
                            return C.lift_op(C.l_add, base, pv(d))
                        d = l * h.inv()
                        if me not in d.fv:
                            return C.lift_op(C.l_mul, base, pv(d))
                        raise Unsupported('update pattern')
                    return C.lift_op(put, q)
                return q
            # accumulation patterns
            for op, ident, delta, kind in (
                    (C.l_add, ZERO, lambda l: l - h, 'sum'), (C.l_mul, ONE, lambda l: l * h.inv(), 'prod')):
                ds = []
                ok = True
                for g, l in p.cases:
                    if not isinstance(l, R):
                        ok = False
                        break
                    d = delta(l)
                    if me in d.fv:
                        ok = False
                        break
                    ds.append((g, d))
                if not ok:
                    continue
                dp = PV(ds)
                first = psubst(dp, {iname: ZERO})
                v = C.new_index(dim)
                body = psubst(dp, {iname: v})
                total = C.reduce_sym(v, dim, body, kind)
                a0 = after0(b)
                cands = [pv(ident)]
                if init is not None:
                    cands.insert(0, init(b))
                for cand in cands:
                    if any(l is C.UNDEF for _, l in cand.cases):
                        continue
                    if pv_equal(C.lift_op(op, cand, first), a0):
                        return C.lift_op(op, cand, total)
                raise Unsupported('first iteration differs')
            if all(me not in (l.fv if isinstance(l, R) else ()) for _, l in p.cases):
                return psubst(p, {iname: dim - 1})
            raise Unsupported('loop pattern')
        return elem


def _same(x, y):
    return x is y or isinstance(x, (int, float)) and isinstance(y, (int, float)) and type(x) is type(y) and x == y


def mentions_safe(o, names):
    try:
        return mentions(o, names)
    except Unsupported:
        return True


def pv_equal(p, q):
    """Provably equal piecewise values."""
    c = C.ctx()
    for g1, l1 in p.cases:
        for g2, l2 in q.cases:
            g = g1 | g2
            if g and not c.feasible(g):
                continue
            if l1 is l2:
                continue
            if isinstance(l1, R) and isinstance(l2, R):
                if not c.child(g).prove_zero(l1 - l2) if g else not c.prove_zero(l1 - l2):
                    return False
            else:
                return False
    return True


_lists = []


def _live_lists():
    return [l for l in (r() for r in _lists) if l is not None]


def _snapshot_bufs():
    return _BufSnap()


class _BufSnap(dict):
    """Remembers the element function a buffer had before its first change in the pass."""

    def __init__(self):
        dict.__init__(self)
        _snaps.append(self)

    def __del__(self):
        pass


_snaps = []
_orig_set = S.Buf.set


def _set(self, elem):
    for s in _snaps[-4:]:
        s.setdefault(self.id, self.elem)
    _orig_set(self, elem)


S.Buf.set = _set

import weakref


class _TrackedList(VList):
    def append(self, x):
        if self.tail is GROWING:
            list.append(self, x)
        else:
            VList.append(self, x)

    def extend(self, it):
        if self.tail is GROWING:
            for x in (list(it) if isinstance(it, (list, tuple)) else GROWING.items(it)):
                list.append(self, x)
        else:
            VList.extend(self, it)

    def vc_seq(self):
        if self.tail is GROWING:
            raise Unsupported('a list is looked at while a loop appends to it')
        return VList.vc_seq(self)

    def __iadd__(self, it):
        if self.tail is GROWING:
            self.extend(it)
            return self
        return VList.__iadd__(self, it)


def new_list(it=()):
    s = as_symseq(it)
    if s is not None:
        l = _TrackedList()
        l.tail = s
    elif isinstance(it, SymArray) and it.shp and it.shp[0].const() is None:
        l = _TrackedList()
        l.tail = iter_seq(it)
    else:
        l = _TrackedList(it)
    _lists.append(weakref.ref(l))
    return l


def iter_seq(a):
    return SymSeq(a.shp[0], lambda i: a[mkint(i)])


# ---------------------------------------------------------------- helpers named in generated code

def vc_iter(x):
    """Iterable used by a for loop / comprehension: SymSeq when its length is symbolic."""
    s = as_symseq(x)
    if s is not None:
        c = s.dim.const()
        return s if c is None else [s.at(lift(i)) for i in range(int(c))]
    if isinstance(x, SymArray):
        if not x.shp:
            raise TypeError('iteration over a 0-d array')
        c = x.shp[0].const()
        if c is None:
            return iter_seq(x)
        return [x[i] for i in range(int(c))]
    return x


def vc_while(i, n):
    """(iterations, value of the counter afterwards) of a counting loop of symbolic length."""
    if isinstance(n, SymInt) and type(i) is int and n >= i:
        return vc_iter(b_range(i, n)), n
    return None, None


def vc_unmoved(n, now):
    if not (isinstance(now, SymInt) and now.r is n.r):
        raise Unsupported('bound of a loop that changes')


def vc_issym(x):
    return isinstance(x, SymSeq)


def vc_listcomp(it, f, cond):
    it = vc_iter(it)
    if isinstance(it, SymSeq):
        if cond is not None:
            return Filtered(it, f, cond)
        r = SymSeqList(it.dim, lambda i: generic_eval(lambda: f(it.at(i))))
        r.at(C.canon_index(it.dim, '#lc%d' % next(S._seqid)))      # what happens for every element happens here
        return r
    return new_list([f(x) for x in it if cond is None or cond(x)])


class _IntChoice:
    """An integer that depends on the branch taken by the generic iteration."""

    def __init__(self, elem, dtype):
        self.elem, self.dtype = elem, dtype

    def array(self):
        return S.new((), self.elem, self.dtype)


class SymSeqList(SymSeq):
    pass


class Filtered:
    """The elements f(x) of a symbolic collection with cond(x): only counting and summing."""

    def __init__(self, it, f, cond):
        self.it, self.f, self.cond = it, f, cond

    def _total(self, value):
        def at(i):
            x = self.it.at(i)
            m = generic_eval(lambda: self.cond(x))
            if isinstance(m, bool):
                m = pv(m)
            elif isinstance(m, SymBool):
                m = m.p
            else:
                m = asarr(m).scalar_pv()
            g = generic_eval(lambda: value(x))
            return scalar_of(C.ite(m, lambda: asarr(g).scalar_pv(), pv(ZERO)), asarr(g).dtype)
        return S.np_sum(S.stack_seq(SymSeq(self.it.dim, at)), axis=0)

    def count(self):
        return mkint(S.one_leaf(self._total(lambda x: S.from_numpy(_np.array(1))).scalar_pv()))

    def total(self):
        return self._total(self.f)

    def __len__(self):
        raise Unsupported('len() of a filtered collection through the C protocol')

    def __iter__(self):
        raise Unsupported('filtered comprehension over a symbolic collection')

    def __bool__(self):
        return bool(self.count())

    def __getattr__(self, n):
        raise Unsupported('filtered comprehension over a symbolic collection')

    def __getitem__(self, n):
        raise Unsupported('filtered comprehension over a symbolic collection')


def vc_genexp(it, f, cond):
    it = vc_iter(it)
    if isinstance(it, SymSeq):
        if cond is not None:
            return Filtered(it, f, cond)
        return SymSeq(it.dim, lambda i: generic_eval(lambda: f(it.at(i))), 'generator')
    return (f(x) for x in it if cond is None or cond(x))


def vc_display(parts):
    """List display with starred elements."""
    l = new_list()
    for star, x in parts:
        if star:
            l.extend(x)
        else:
            l.append(x)
    return l


def vc_noreturn(*a):
    raise Unsupported('return from inside a loop over a symbolic collection')


# ---------------------------------------------------------------- builtins

def b_len(x):
    if isinstance(x, Filtered):
        return x.count()
    if isinstance(x, SymArray):
        if not x.shp:
            raise TypeError('len() of unsized object')
        return mkint(x.shp[0])
    s = as_symseq(x)
    if s is not None:
        return mkint(s.dim)
    return len(x)


def b_range(*args):
    idx = [S._as_index(a) for a in args]
    if any(i is None for i in idx):
        raise TypeError('object cannot be interpreted as an integer')
    if all(i.const() is not None for i in idx):
        return range(*[int(i.const()) for i in idx])
    st, step = ZERO, ONE
    if len(idx) == 1:
        en = idx[0]
    else:
        st, en = idx[:2]
        if len(idx) == 3:
            step = idx[2]
    if step.const() not in (1, -1):
        raise Unsupported('range step')
    n = (en - st) * step
    if not tm.nonneg(n) and S.decide(gt(-n)):
        return range(0)
    return SymSeq(n, lambda i: mkint(st + i * step), 'range')


def _seqs(its):
    out = [vc_iter(x) for x in its]
    if any(isinstance(x, SymSeq) for x in out):
        return out, True
    return out, False


def b_enumerate(it, start=0):
    it = vc_iter(it)
    if isinstance(it, SymSeq):
        st = S._as_index(start)
        return SymSeq(it.dim, lambda i: (mkint(i + st), it.at(i)), 'generator')
    return enumerate(it, start)


def b_zip(*its, strict=False):
    its, sym = _seqs(its)
    if not sym:
        return zip(*its, strict=strict)
    conv = []
    for x in its:
        if isinstance(x, SymSeq):
            conv.append(x)
        elif isinstance(x, itertools.count):
            raise Unsupported('zip with count')
        else:
            x = list(x)
            conv.append(SymSeq(len(x), lambda i, x=x: S._pick(x, i)))
    d = conv[0].dim
    for x in conv[1:]:
        if not S.same_dim(d, x.dim):
            if strict:
                raise ValueError('zip() arguments have different lengths')
            d2 = x.dim - d
            if S.decide(gt(-d2)):
                d = x.dim
    return SymSeq(d, lambda i: tuple(x.at(i) for x in conv), 'generator')


def b_reversed(x):
    s = vc_iter(x)
    if isinstance(s, SymSeq):
        return SymSeq(s.dim, lambda i: s.at(s.dim - 1 - i))
    return reversed(s)


def b_map(f, *its):
    its, sym = _seqs(its)
    if not sym:
        return map(f, *its)
    z = b_zip(*its)
    return SymSeq(z.dim, lambda i: generic_eval(lambda: f(*z.at(i))), 'generator')


def b_sum(it, start=0):
    if isinstance(it, Filtered):
        return it.total() + start
    it = vc_iter(it)
    if isinstance(it, SymSeq):
        a = S.stack_seq(it)
        r = S.np_sum(a, axis=0)
        if isinstance(start, int) and start == 0:
            return r
        return r + start
    acc = start
    for x in it:
        acc = acc + x
    return acc


def _bminmax(kind):
    real = getattr(builtins, kind)

    def f(*args, key=None, default=None):
        if len(args) == 1:
            it = vc_iter(args[0])
            if isinstance(it, SymSeq):
                if key is not None:
                    raise Unsupported(kind + ' with key')
                r = S.reduction(kind, S.stack_seq(it))
                return r
            args = list(it)
            if not args and default is not None:
                return default
        if any(isinstance(x, (SymArray, SymInt)) for x in args):
            if key is not None:
                raise Unsupported(kind + ' with key')
            best = args[0]
            for x in args[1:]:
                if (x < best) if kind == 'min' else (x > best):
                    best = x
            return best
        return real(args, key=key) if key else real(args)
    return f


def b_all(it):
    it = vc_iter(it)
    if isinstance(it, SymSeq):
        return SymBool(S.np_all(S.stack_seq(_boolseq(it))).scalar_pv())
    return all(it)


def b_any(it):
    it = vc_iter(it)
    if isinstance(it, SymSeq):
        return SymBool(S.np_any(S.stack_seq(_boolseq(it))).scalar_pv())
    return any(it)


def _boolseq(s):
    def at(i):
        x = s.at(i)
        if isinstance(x, bool):
            return S.from_numpy(_np.array(x))
        if isinstance(x, SymBool):
            return scalar_of(x.p, _np.bool_)
        return x
    return SymSeq(s.dim, at)


class _Meta(type):
    def __instancecheck__(cls, x):
        return cls.vc_inst(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.vc_real) if not isinstance(c, _Meta) else c.vc_real is cls.vc_real

    def __call__(cls, *a, **k):
        return cls.vc_call(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls.vc_real, n)

    def __eq__(cls, o):
        return o is cls or o is cls.vc_real

    def __hash__(cls):
        return hash(cls.vc_real)


class VFloat(metaclass=_Meta):
    vc_real = float
    vc_dtype = 'float64'

    @staticmethod
    def vc_inst(x):
        return isinstance(x, float) or (isinstance(x, SymArray) and x.weak is float)

    @staticmethod
    def vc_call(x=0.0):
        if isinstance(x, str):
            parts = S.untoken(x)
            if len(parts) == 1 and not isinstance(parts[0], str):
                return scalar(parts[0][1], weak=float)
            if any(not isinstance(p, str) for p in parts):
                raise ValueError('could not convert string to float')
            f = float(x)
            try:
                return XFloat(Fraction(x.strip()))
            except (ValueError, OverflowError):
                return f
        if isinstance(x, SymArray):
            return scalar_of(x.scalar_pv(), _np.float64, weak=float)
        if isinstance(x, SymInt):
            return scalar(x.r, weak=float)
        if isinstance(x, XFloat):
            return x
        if isinstance(x, int) and not isinstance(x, bool):
            return XFloat(x)
        return float(x)


class VInt(metaclass=_Meta):
    vc_real = int
    vc_dtype = 'int64'

    @staticmethod
    def vc_inst(x):
        return isinstance(x, (int, SymInt)) or (isinstance(x, SymArray) and x.weak is int)

    @staticmethod
    def vc_call(x=0, *a):
        if isinstance(x, SymArray):
            return mkint(S.one_leaf(C.lift_op(S.l_trunc, x.scalar_pv())))
        if isinstance(x, SymInt):
            return x
        if isinstance(x, str) and '\u27e6' in x:
            parts = S.untoken(x)
            if len(parts) == 1 and parts[0][0] == 'i':
                return mkint(parts[0][1])
            raise ValueError('invalid literal for int()')
        return int(x, *a)


class VStr(metaclass=_Meta):
    vc_real = str

    @staticmethod
    def vc_inst(x):
        return isinstance(x, str)

    @staticmethod
    def vc_call(*a, **k):
        return str(*a, **k)


class VListT(metaclass=_Meta):
    vc_real = list

    @staticmethod
    def vc_inst(x):
        return isinstance(x, list) or (isinstance(x, SymSeq) and x.kind == 'list')

    @staticmethod
    def vc_call(*a):
        return new_list(*[vc_iter(x) for x in a])


class VTuple(metaclass=_Meta):
    vc_real = tuple

    @staticmethod
    def vc_inst(x):
        return isinstance(x, tuple) or (isinstance(x, SymSeq) and x.kind == 'tuple')

    @staticmethod
    def vc_call(*a):
        if a:
            s = vc_iter(a[0])
            if isinstance(s, SymSeq):
                return SymSeq(s.dim, s._at, 'tuple')
            return tuple(s)
        return ()


def b_isinstance(x, t):
    import collections.abc as abc
    if isinstance(t, tuple):
        return any(b_isinstance(x, y) for y in t)
    if isinstance(x, SymSeq) and t in (abc.Iterable, abc.Sequence, abc.Sized, abc.Collection):
        return x.kind != 'generator' or t is abc.Iterable
    if isinstance(x, SymArray) and t in (abc.Iterable, abc.Sized):
        return True
    if isinstance(x, SymArray) and isinstance(t, type) and issubclass(t, numbers_Number):
        return x.weak is not None or not x.shp
    if isinstance(x, SymInt) and isinstance(t, type) and t in (numbers_Number, numbers.Integral, numbers.Real):
        return True
    return isinstance(x, t)


import numbers
numbers_Number = numbers.Number


def b_iter(x, *a):
    s = vc_iter(x)
    if isinstance(s, SymSeq):
        return s
    return iter(s, *a)


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if isinstance(x, SymInt):
        if n is None or (isinstance(n, int) and n >= 0):
            return x
        raise Unsupported('round of an integer')
    if isinstance(x, SymArray):
        from . import npmore
        r = npmore.around(x, 0 if n is None else n)
        if n is None:
            if x.shp:
                raise TypeError('type numpy.ndarray does not define __round__ method')
            return mkint(S.one_leaf(r.scalar_pv()))
        return r
    return round(x) if n is None else round(x, n)


def b_sorted(it, **k):
    it = vc_iter(it)
    if isinstance(it, SymSeq):
        if k.get('key') is not None:
            raise Unsupported('sorted with a key')
        a = npmore.sort(S.stack_seq(it))
        if a.ndim != 1:
            raise Unsupported('sorted')
        s = iter_seq(a)
        if k.get('reverse'):
            return new_list(SymSeq(s.dim, lambda i: s.at(s.dim - 1 - i)))
        return new_list(s)
    return new_list(sorted(it, **k))


def b_setattr(*a):
    return setattr(*a)


# ---------------------------------------------------------------- module contracts

class UnsFn:
    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *a, **k):
        raise Unsupported(self.__name__)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return UnsFn(self.__name__ + '.' + n)


class ScalarType:
    def __init__(self, name):
        self.vc_dtype = name
        self.__name__ = name

    def __call__(self, x=0):
        a = asarr(x)
        r = a.astype(self.vc_dtype)
        return scalar_of(r.scalar_pv(), r.dtype) if not r.shp else r

    def __eq__(self, o):
        try:
            return _np.dtype(self.vc_dtype) == S._dt(o)
        except TypeError:
            return False

    def __hash__(self):
        return hash(_np.dtype(self.vc_dtype))


class _ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def make_numpy(world):
    m = _ShimModule('numpy', _np)
    d = m.__dict__
    for n, u in S._UF.items():
        d[n] = u
    d.update(inf=float('inf'), nan=float('nan'), newaxis=None, pi=pi_const(), e=None, ndarray=SymArray,
             sum=S.np_sum, prod=S.np_prod, min=S.np_min, max=S.np_max, amin=S.np_min, amax=S.np_max,
             any=S.np_any, all=S.np_all, mean=S.np_mean, average=S.np_average,
             count_nonzero=S.np_count_nonzero, argmin=S.np_argmin, argmax=S.np_argmax, full=S.np_full, ones=S.np_ones,
             zeros=S.np_zeros, empty=S.np_empty, ones_like=S.np_ones_like, zeros_like=S.np_zeros_like,
             empty_like=S.np_empty_like, full_like=S.np_full_like, array=S.np_array, asarray=S.np_asarray,
             asanyarray=S.np_asarray, ascontiguousarray=S.np_asarray, atleast_1d=S.np_atleast_1d,
             atleast_2d=S.np_atleast_2d, expand_dims=S.np_expand_dims, broadcast_to=S.np_broadcast_to,
             broadcast_arrays=S.np_broadcast_arrays, outer=S.np_outer, where=S.np_where,
             nonzero=S.np_nonzero, flatnonzero=lambda a: S.np_nonzero(asarr(a).ravel())[0], stack=S.np_stack,
             concatenate=S.np_concatenate, vstack=S.np_vstack, row_stack=S.np_vstack, hstack=S.np_hstack,
             column_stack=S.np_column_stack, moveaxis=S.np_moveaxis, transpose=S.np_transpose,
             arange=S.np_arange, linspace=S.np_linspace, clip=S.np_clip, repeat=S.np_repeat, tile=S.np_tile,
             einsum=S.np_einsum, dot=S.np_dot, matmul=S.np_matmul, tensordot=S.np_tensordot,
             isclose=S.np_isclose, allclose=S.np_allclose, array_equal=S.np_array_equal,
             nan_to_num=S.np_nan_to_num, errstate=_ErrState, r_=S._RC(0), c_=S._RC(1),
             shape=lambda a: asarr(a).shape, ndim=lambda a: asarr(a).ndim, size=lambda a, axis=None: (
                 asarr(a).size if axis is None else asarr(a).shape[axis]),
             reshape=lambda a, s, order='C': asarr(a).reshape(s, order=order),
             ravel=lambda a, order='C': asarr(a).ravel(order), squeeze=lambda a, axis=None: asarr(a).squeeze(axis),
             swapaxes=lambda a, x, y: asarr(a).swapaxes(x, y), copy=lambda a, **k: asarr(a).copy(),
             copyto=np_copyto, dtype=S._dt, result_type=lambda *a: S.result_type(*[asarr(x) for x in a]),
             seterr=lambda **k: {}, inner=S.np_dot, vdot=S.np_dot, isscalar=lambda x: isinstance(
                 x, (int, float, SymInt)) or isinstance(x, SymArray) and not x.shp,
             fill_diagonal=UnsFn('fill_diagonal'))
    d.update(npmore.TABLE)
    for n in ('float64', 'float32', 'float16', 'longdouble', 'double', 'int64', 'int32', 'int_', 'bool_', 'intp',
              'uint64', 'int8', 'int16', 'float128', 'single', 'half'):
        if hasattr(_np, n):
            d[n] = ScalarType(n)
    d['abs'] = S._UF['absolute']
    d['ma'] = UnsFn('numpy.ma')
    d['random'] = UnsFn('numpy.random')
    la = _ShimModule('numpy.linalg', _np.linalg)
    la.__dict__.update(det=lambda a: world.det(a), slogdet=lambda a: (
        S._UF['sign'](world.det(a)), S._UF['log'](S._UF['absolute'](world.det(a)))),
        LinAlgError=_np.linalg.LinAlgError, **npmore.LINALG)
    d['linalg'] = la

    def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ',
                encoding=None):
        a = asarr(X)
        if isinstance(fname, VFile):
            fname = fname.table()
        world.effects.add('savetxt', fname, a.copy(), fmt=fmt, delimiter=delimiter, newline=newline,
                          header=header, footer=footer, comments=comments)
    d['savetxt'] = savetxt
    d['save'] = lambda f, *a, **k: world.effects.add('write', f)
    d['finfo'] = lambda t=float: _np.finfo(S._dt(t))
    d['iinfo'] = lambda t=int: _np.iinfo(S._dt(t))
    d['errstate'] = _ErrState
    d['issubdtype'] = lambda a, b: _np.issubdtype(S._dt(a), getattr(b, 'vc_dtype', b))
    for n in ('floating', 'integer', 'number', 'generic', 'exceptions', 'signedinteger', 'inexact'):
        d[n] = getattr(_np, n)
    return m


def np_copyto(dst, src, casting='same_kind', where=True):
    w = None
    if where is not True:
        w = asarr(where)
    v = asarr(src)
    if not v.weak and not _np.can_cast(v.dtype, dst.dtype, casting):
        raise TypeError('Cannot cast')
    if w is None:
        S.assign(dst, v)
    else:
        f = w.reader()
        S.assign(dst, v, mask=lambda idx: f(S.bidx(idx, w.shp)))


def pi_const():
    return PI


C.DOMSIGN['pi'] = '+'
PI_TERM = tm.fn('pi')


class _ShimModule(types.ModuleType):
    def __init__(self, name, real):
        super().__init__(name)
        self.__dict__['_real'] = real

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        real = self.__dict__['_real']
        if real is not None and not hasattr(real, n):
            raise AttributeError('module %r has no attribute %r' % (self.__name__, n))
        return UnsFn(self.__name__ + '.' + n)


PI = scalar(PI_TERM, weak=float)


_fscount = itertools.count()


def _file_question(*a, **k):
    """What the file system holds is not known: both answers are followed."""
    return SymBool(C.bsplit(C.bsym('present', next(_fscount))))


def make_os():
    import posixpath
    pth = _ShimModule('os.path', posixpath)
    for n in ('basename', 'dirname', 'join', 'split', 'splitext', 'splitdrive', 'normpath', 'normcase', 'isabs', 'commonprefix',
              'commonpath', 'sep', 'extsep', 'pardir', 'curdir', 'altsep', 'pathsep', 'devnull'):
        pth.__dict__[n] = getattr(posixpath, n)
    for n in ('exists', 'lexists', 'isfile', 'isdir', 'islink'):
        pth.__dict__[n] = _file_question
    m = _ShimModule('os', os)
    for n in ('fspath', 'sep', 'extsep', 'pardir', 'curdir', 'altsep', 'pathsep', 'linesep', 'devnull', 'name', 'PathLike', 'error',
              'R_OK', 'W_OK', 'X_OK', 'F_OK', 'O_RDONLY', 'O_WRONLY', 'O_CREAT', 'fsencode', 'fsdecode'):
        m.__dict__[n] = getattr(os, n)
    m.__dict__['access'] = _file_question
    m.__dict__['path'] = pth
    return m


def make_pathlib():
    import pathlib
    m = _ShimModule('pathlib', pathlib)

    class Path(pathlib.PurePosixPath):
        exists = is_file = is_dir = is_symlink = lambda self, *a, **k: _file_question()

        def __getattr__(self, n):
            if hasattr(pathlib.Path, n):
                return UnsFn('pathlib.Path.' + n)
            raise AttributeError(n)
    m.__dict__.update(Path=Path, PosixPath=Path, PurePath=pathlib.PurePosixPath, PurePosixPath=pathlib.PurePosixPath)
    return m


class _SysModule(_ShimModule):
    argv = property(lambda self: sys.argv)


def make_sys():
    m = _SysModule('sys', sys)
    for n in ('exit', 'stderr', 'stdout', 'float_info', 'maxsize', 'version_info', 'version', 'platform', 'byteorder', 'exc_info'):
        m.__dict__[n] = getattr(sys, n)
    return m


def make_io():
    import io
    m = _ShimModule('io', io)
    m.__dict__.update(StringIO=io.StringIO, BytesIO=io.BytesIO)
    return m


def make_math(world):
    m = _ShimModule('math', _math)

    def wrap(name, uf):
        u = S._UF[uf]

        def f(x, *a):
            if isinstance(x, (SymInt,)) or isinstance(x, SymArray) or isinstance(x, XFloat) or (
                    isinstance(x, int) and name in ('sqrt', 'exp', 'log')):
                if isinstance(x, SymArray) and x.shp:
                    raise TypeError('only length-1 arrays can be converted to Python scalars')
                r = u(x, *a)
                r = scalar_of(r.scalar_pv(), _np.float64, weak=float)
                if name in ('floor', 'ceil', 'trunc'):
                    return mkint(S.one_leaf(r.scalar_pv()))
                return r
            return getattr(_math, name)(x, *a)
        return f
    for n, u in (('sqrt', 'sqrt'), ('exp', 'exp'), ('log', 'log'), ('sinh', 'sinh'), ('cosh', 'cosh'),
                 ('tanh', 'tanh'), ('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc'), ('fabs', 'fabs'),
                 ('expm1', 'expm1'), ('log1p', 'log1p'), ('isnan', 'isnan'), ('isinf', 'isinf'),
                 ('isfinite', 'isfinite'), ('pow', 'power')):
        m.__dict__[n] = wrap(n, u)
    m.__dict__['pi'] = PI
    m.__dict__['inf'] = float('inf')
    m.__dict__['nan'] = float('nan')

    def prod(it, start=1):
        it = vc_iter(it)
        if isinstance(it, SymSeq):
            return S.np_prod(S.stack_seq(it), axis=0) * start
        acc = start
        for x in it:
            acc = acc * x
        return acc
    m.__dict__['prod'] = prod
    m.__dict__['fsum'] = b_sum
    return m


def make_functools(world):
    m = _ShimModule('functools', functools)
    for n in ('wraps', 'partial', 'lru_cache', 'cache', 'cached_property', 'total_ordering', 'singledispatch',
              'partialmethod', 'update_wrapper'):
        m.__dict__[n] = getattr(functools, n)
    _miss = object()

    def reduce(f, it, init=_miss):
        it = vc_iter(it)
        if isinstance(it, SymSeq):
            acc = init if init is not _miss else None
            L = Loop(it, ('acc',), {}, world)
            cur = {'acc': acc}
            while L.next(cur):
                (a,) = L.state()
                x = L.item()
                cur = {'acc': x if a is None and init is _miss else f(a, x)}
            return L.final()[0]
        return functools.reduce(f, it) if init is _miss else functools.reduce(f, it, init)
    m.__dict__['reduce'] = reduce
    return m


def make_itertools(world):
    m = _ShimModule('itertools', itertools)

    def chain(*its):
        l = new_list()
        for x in its:
            l.extend(vc_iter(x))
        return l

    def from_iterable(its):
        return chain(*its)
    chain.from_iterable = from_iterable
    m.__dict__['chain'] = chain
    for n in ('count', 'product', 'repeat', 'combinations', 'permutations', 'islice', 'starmap', 'zip_longest'):
        m.__dict__[n] = getattr(itertools, n)
    return m


# ---------------------------------------------------------------- source transformation

class Transformer(ast.NodeTransformer):
    def __init__(self):
        self.n = itertools.count()
        self.infunc = 0

    def visit_FunctionDef(self, node):
        self.infunc += 1
        try:
            self.generic_visit(node)
        finally:
            self.infunc -= 1
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.infunc += 1
        try:
            self.generic_visit(node)
        finally:
            self.infunc -= 1
        return node

    def visit_ClassDef(self, node):
        old, self.infunc = self.infunc, 0
        try:
            self.generic_visit(node)
        finally:
            self.infunc = old
        return node

    def visit_JoinedStr(self, node):
        return self.generic_visit(node)

    def visit_Constant(self, node):
        if type(node.value) is float and node.value == node.value and abs(node.value) != float('inf'):
            return _call('vc__f', [ast.Constant(repr(node.value))], node)
        return node

    def visit_Match(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return _call('vc__div', [node.left, node.right], node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if any(isinstance(e, ast.Starred) for e in node.elts):
                parts = [ast.Tuple([ast.Constant(isinstance(e, ast.Starred)),
                                    e.value if isinstance(e, ast.Starred) else e], ast.Load()) for e in node.elts]
                return _call('vc__display', [ast.Tuple(parts, ast.Load())], node)
            return _call('vc__list', [node], node)
        return node

    def _comp(self, node, fname):
        if len(node.generators) != 1 or node.generators[0].is_async:
            return self.generic_visit(node)
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            return self.generic_visit(node)
        g = node.generators[0]
        t = g.target
        if isinstance(t, ast.Name):
            names = [t.id]
        elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
            names = [e.id for e in t.elts]
        else:
            return self.generic_visit(node)
        if not self.infunc and False:
            return self.generic_visit(node)
        it = self.visit(g.iter)
        elt = self.visit(node.elt)
        conds = [self.visit(c) for c in g.ifs]

        def lam(body):
            args = ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[],
                                 defaults=[])
            l = ast.Lambda(args, body)
            if isinstance(t, ast.Name):
                return l
            a2 = ast.arguments(posonlyargs=[], args=[ast.arg('vc__t')], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.Lambda(a2, ast.Call(l, [ast.Starred(ast.Name('vc__t', ast.Load()), ast.Load())], []))
        cond = ast.Constant(None)
        if conds:
            cond = lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
        return _call(fname, [it, lam(elt), cond], node)

    def visit_ListComp(self, node):
        return self._comp(node, 'vc__listcomp')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'vc__genexp')

    def visit_While(self, node):
        """`while i < n: ...; i += 1` counts like `for i in range(n)` when i starts at 0."""
        form = _counting(node) if self.infunc else None
        if form is None:
            self.generic_visit(node)
            return node
        import copy
        i, n = form
        k = next(self.n)
        w, e = 'vc__w%d' % k, 'vc__e%d' % k
        loop = ast.For(ast.Name(i, ast.Store()), ast.Name(w, ast.Load()), [copy.deepcopy(s) for s in node.body[:-1]] or [ast.Pass()], [], None)
        ast.copy_location(loop, node)
        ast.fix_missing_locations(loop)
        loop = self.visit(loop)
        self.generic_visit(node)
        out = ast.parse('(%s, %s) = vc__while(%s, 0)\nif %s is not None:\n    vc__unmoved(%s, 0)\n    %s = %s\nelse:\n    pass' % (
            w, e, i, w, e, i, e)).body
        out[0].value.args[1] = copy.deepcopy(n)
        out[1].body[0].value.args[1] = copy.deepcopy(n)
        out[1].body = (loop if isinstance(loop, list) else [loop]) + out[1].body
        out[1].orelse = [node]
        for s in out:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return out

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.infunc or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            return node
        k = next(self.n)
        it, L = 'vc__it%d' % k, 'vc__L%d' % k
        names = sorted(_assigned(node.body) - _names(node.target) - _declared(node.body))
        tnames = sorted(_names(node.target))
        import copy
        symbody = [_NoReturn().visit(copy.deepcopy(s)) for s in node.body]
        # loop over a symbolic collection
        pre = ast.parse('%s = vc__Loop(%s, %r, locals())' % (L, it, tuple(names))).body
        head = []
        if names:
            head += ast.parse('(%s,) = %s.state()' % (', '.join(names), L)).body
        asg = ast.Assign([copy.deepcopy(node.target)], ast.parse('%s.item()' % L).body[0].value)
        wl = ast.While(ast.parse('%s.next(locals())' % L).body[0].value, head + [asg] + symbody, [])
        post = []
        if names:
            post += ast.parse('(%s,) = %s.final()' % (', '.join(names), L)).body
        else:
            post += ast.parse('%s.final()' % L).body
        post += [copy.deepcopy(s) for s in node.orelse]
        # loop-carried names whose value is unknown stay unbound placeholders
        conc = ast.For(node.target, ast.Name(it, ast.Load()), node.body, node.orelse, None)
        out = [ast.Assign([ast.Name(it, ast.Store())], _call('vc__iter', [node.iter], node)),
               ast.If(ast.parse('vc__issym(%s)' % it).body[0].value, pre + [wl] + post, [conc])]
        for s in out:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return out


def _counting(node):
    """(i, n) when the loop has the form `while i < n: ...; i += 1` with n left alone by its body."""
    t, b = node.test, node.body
    if node.orelse or not (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))):
        return None
    i, n, last = t.left.id, t.comparators[0], b[-1]
    if isinstance(last, ast.AugAssign):
        step = isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and last.value
    elif isinstance(last, ast.Assign):
        v = last.value
        step = len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i and isinstance(
            v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == i and v.right
    else:
        return None
    if not step or not isinstance(step, ast.Constant) or step.value != 1 or type(step.value) is not int:
        return None
    ok = (ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.Load, ast.Call, ast.BinOp, ast.Add, ast.Sub, ast.UnaryOp, ast.USub)
    if not all(isinstance(x, ok) for x in ast.walk(n)) or any(
            isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len') for x in ast.walk(n)):
        return None
    inner = [x for s in b[:-1] for x in ast.walk(s)]
    if any(isinstance(x, (ast.Continue, ast.Break, ast.Global, ast.Nonlocal, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in inner):
        return None
    names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    stored = {x.id for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    if i in names or i in stored or names & stored:
        return None
    attrs = {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)}
    if attrs & {x.attr for x in inner if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}:
        return None
    return i, n


class _NoReturn(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        return node
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, node):
        node.value = _call('vc__noreturn', [node.value] if node.value else [], node)
        return node


def _call(name, args, at):
    n = ast.Call(ast.Name(name, ast.Load()), args, [])
    ast.copy_location(n, at)
    ast.fix_missing_locations(n)
    return n


def _names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _assigned(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and not n.id.startswith('vc__'):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ClassDef = visit_ListComp
    for s in body:
        V().visit(s)
    return out


def _declared(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out |= set(n.names)
    return out


# ---------------------------------------------------------------- the world

class World:
    """One fresh load of the repository's modules, with its environment."""

    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        _world.append(self)
        del _world[:-1]
        self.effects = Effects()
        self.modules = {}
        self.overrides = overrides or {}   # module name -> module object
        self.printed = []
        self.det = S.np_det
        self.np = make_numpy(self)
        self.shims = {'numpy': self.np, 'math': make_math(self), 'functools': make_functools(self),
                      'itertools': make_itertools(self), 'os': make_os(), 'pathlib': make_pathlib(), 'sys': make_sys(),
                      'io': make_io()}
        self.shims['os.path'] = self.shims['posixpath'] = self.shims['os'].path
        self.builtins = dict(vars(builtins))
        self.builtins.update(
            len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, map=b_map,
            sum=b_sum, min=_bminmax('min'), max=_bminmax('max'), all=b_all, any=b_any, float=VFloat, int=VInt,
            str=VStr, list=VListT, tuple=VTuple, isinstance=b_isinstance, iter=b_iter, round=b_round,
            sorted=b_sorted, print=self._print, open=self._open, __import__=self._import, input=UnsFn('input'),
            eval=UnsFn('eval'), exec=UnsFn('exec'))
        self.hooks = {'vc__f': lambda s: XFloat(Fraction(s)), 'vc__div': S.pydiv, 'vc__list': new_list,
                      'vc__display': vc_display, 'vc__listcomp': vc_listcomp, 'vc__genexp': vc_genexp,
                      'vc__iter': vc_iter, 'vc__while': vc_while, 'vc__unmoved': vc_unmoved, 'vc__issym': vc_issym, 'vc__noreturn': vc_noreturn,
                      'vc__Loop': lambda s, n, l: Loop(s, n, l, self)}

    def _print(self, *a, **k):
        if k.get('file') not in (None, sys.stdout, sys.stderr):
            self.effects.add('write', k['file'])
        self.printed.append(a)
        self.effects.add('print', *a)

    def _open(self, f, mode='r', *a, **k):
        if isinstance(f, (str, os.PathLike)) and mode in ('w', 'wt', 'tw', 'wb', 'bw', 'w+', 'wb+') and not a and set(k) <= {'encoding'}:
            return VFile(self, f, mode)
        if any(c in mode for c in 'wax+'):
            self.effects.add('open', f, mode)
        raise Unsupported('open()')

    # -------------------------------------------------------- imports
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or 'occuprob'
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            name = base + ('.' + name if name else '')
        if name == 'occuprob' or name.startswith('occuprob.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._path(name + '.' + f):
                        self.load(name + '.' + f)
                return m
            return self.load('occuprob')
        if name in self.overrides:
            m = self.overrides[name]
            if fromlist or '.' not in name:
                return m
            return self.overrides.get(name.split('.')[0], m)
        root = name.split('.')[0]
        if name in self.shims:
            return self.shims['os'] if name == 'os.path' and not fromlist else self.shims[name]
        if root == 'numpy':
            if name == 'numpy.linalg':
                return self.np.linalg if fromlist else self.np
            return _ShimModule(name, None) if fromlist else self.np
        if root in ('ase', 'pymatgen', 'matplotlib', 'scipy', 'pandas'):
            return _ShimModule(name, None)
        if root in SAFE:
            return importlib.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported('import of ' + name)

    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            q = os.path.join(p, '__init__.py')
            return q if os.path.exists(q) else None
        return p + '.py' if os.path.exists(p + '.py') else None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == 'occuprob._version':
            m = types.ModuleType(name)
            m.get_versions = lambda: {'version': '0+vc', 'full-revisionid': '0', 'dirty': False, 'error': None, 'date': None}
            self.modules[name] = m
            setattr(self.load('occuprob'), '_version', m)
            return m
        path = self._path(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        code = compiled(path)
        m = types.ModuleType(name)
        m.__file__ = path
        is_pkg = path.endswith('__init__.py')
        m.__package__ = name if is_pkg else name.rpartition('.')[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__.update(self.hooks)
        self.modules[name] = m
        if '.' in name:
            p, _, c = name.rpartition('.')
            setattr(self.modules[p], c, m)
        exec(code, m.__dict__)
        return m

    def __getattr__(self, n):
        if n in ('utils', 'partitionfunctions', 'superpositions', 'io', 'cli'):
            return self.load('occuprob.' + n)
        raise AttributeError(n)


SAFE = {'abc', 'argparse', 'collections', 'typing', 'dataclasses', 're', 'copy', 'operator',
        'warnings', 'string', 'enum', 'numbers', 'contextlib', '__future__', 'types', 'logging',
        'json', 'textwrap', 'inspect', 'builtins', 'decimal', 'fractions', 'weakref', 'hashlib', 'threading'}

_code = {}


def compiled(path):
    src = open(path, encoding='utf-8').read()
    key = (path, src)
    if key not in _code:
        tree = ast.parse(src, path)
        tree = Transformer().visit(tree)
        ast.fix_missing_locations(tree)
        _code[key] = compile(tree, path, 'exec')
    return _code[key]
