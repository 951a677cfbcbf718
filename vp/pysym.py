"""Symbolic execution of the repository's own Python functions, for all values.

The functions are not translated: CPython runs their own code (loops and comprehensions are
rewritten on load so that iteration over a symbolic number of elements becomes a call into this
module, see `Rewriter`), on proxy values whose operations build z3 terms.  A condition over a
symbolic value forks the path; every feasible path is run, and a contract's postconditions are
obligations on each of them.  Nothing is bounded: sizes, shapes and elements stay symbolic.

Sound only under the contracts on numpy / numexpr / ctypes / multiprocessing given by the shims
here (listed in the evidence as trusted); floating point is treated as exact real arithmetic.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import math as _math
import os
import sys
import time
import types
import weakref

from .obl import z3, Obl, Unsupported, model_str, solver

import numpy as _np

ENG = None     # the engine of the run in progress


class Infeasible(Exception):
    pass


class StopPath(Exception):
    pass


def _is_sym(x):
    return isinstance(x, (SymInt, SymReal, SymBool)) or type(x) in (SymArr, SymList, SymRange)


# ----------------------------------------------------------------------------------------------
# engine
# ----------------------------------------------------------------------------------------------
class Engine:
    def __init__(self, ledger, unit, timeout_ms=15000, max_paths=600):
        self.ledger, self.unit = ledger, unit
        self.timeout_ms, self.max_paths = timeout_ms, max_paths
        self.paths = 0
        self.path_prefix = []

    # -- path control
    def _reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.pc = []
        self.counter = 0
        self.calls = []          # calls into external code, recorded by shims
        self.s = solver(4000)
        self.generic_depth = 0
        self.redkeys = {}
        self.cumsums = []
        self.bufs = weakref.WeakSet()
        self.loops = []          # loops whose generic iteration is running
        self.done = []           # finished loops
        self.loop_inv = {}       # contract: variable -> value at the start of iteration k
        self.loop_own = {}       # contract: buffer name -> region that belongs to iteration k
        self.reduced = None      # contract: facts about a reduction over a whole array
        self.owner = None        # contract: buffer -> (index -> iteration it belongs to)
        self.guards = []
        self.reading = 0
        self.passing = 0

    def explore(self, body):
        """Run body() on every feasible path; returns the number of paths."""
        global ENG
        old = ENG
        ENG = self
        pending = [[]]
        n = 0
        try:
            while pending:
                prefix = pending.pop()
                self._reset(prefix)
                try:
                    body()
                except (Infeasible, StopPath):
                    pass
                n += 1
                pending.extend(self.alts)
                if n > self.max_paths:
                    raise Unsupported('more than %d paths' % self.max_paths)
        finally:
            ENG = old
        self.paths += n
        return n

    def fresh(self, name, sort='int'):
        self.counter += 1
        nm = '%s!%d' % (name, self.counter)
        if self.loops:
            # one value per iteration
            sort = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}[sort]
            return z3.Function(nm, *([z3.IntSort()] * len(self.loops) + [sort]))(*[l.k for l in self.loops])
        return {'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool}[sort](nm)

    def assume(self, *conds):
        for c in conds:
            c = tob(c)
            self.pc.append(c)
            if not z3.is_quantifier(c):
                self.s.add(c)        # path feasibility is decided without the quantified facts

    def feasible(self, c):
        r = self.s.check(c)
        return r != z3.unsat

    def entails(self, c):
        c = z3.simplify(tob(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.s.check(z3.Not(c)) == z3.unsat

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.taken)
        fork = False
        if i < len(self.prefix):
            choice, fork = self.prefix[i]
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if t and f:
                choice = fork = True
                self.alts.append(self.taken + [(False, True)])
            elif t:
                choice = True
            elif f:
                choice = False
            else:
                raise Infeasible()
        self.taken.append((choice, fork))
        if fork:
            for l in self.loops:
                if l.mentions(c):
                    l.forked = True
        self.assume(c if choice else z3.Not(c))
        return choice

    # -- obligations
    def prove(self, name, cond, where=''):
        cond = tob(cond)
        if not self.ledger.wanted(name):
            return not z3.is_false(z3.simplify(cond))
        t0 = time.time()
        s = solver(self.timeout_ms)
        s.add(*self.pc)
        s.add(z3.Not(cond))
        r = s.check()
        model = None
        if r == z3.unsat:
            st = 'proved'
        elif r == z3.sat:
            st, model = 'refuted', s.model()
        else:
            st = 'unknown'
        reason = '' if st == 'proved' else ('counterexample' if r == z3.sat else s.reason_unknown())
        self.last_model = model
        o = Obl(self.unit, name, st, 'z3', time.time() - t0, model_str(model), where, reason)
        return self.ledger.add(o)

    def fail(self, name, reason, where=''):
        """An obligation that is false on this (feasible) path, e.g. an exception was raised."""
        m = None
        if self.s.check() == z3.sat:
            m = self.s.model()
        elif self.s.check() == z3.unsat:
            return True
        self.last_model = m
        if not self.ledger.wanted(name):
            return False
        self.ledger.add(Obl(self.unit, name, 'refuted', 'z3', 0.0, model_str(m), where, reason))
        return False


# ----------------------------------------------------------------------------------------------
# scalars
# ----------------------------------------------------------------------------------------------
def toz(x):
    """z3 term for a scalar."""
    if isinstance(x, (SymInt, SymReal)):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, _np.floating)):
        f = float(x)
        if f != f or f in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        from fractions import Fraction
        return z3.RealVal(str(Fraction(f)))
    if z3.is_expr(x):
        return x
    if type(x) is SymArr and x.ndim == 0:
        return x.elem(())
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return toz(x.item())
    raise Unsupported('not a scalar: %r' % type(x))


def tob(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        if z3.is_bool(x):
            return x
        return x != 0
    if isinstance(x, (SymInt, SymReal)):
        return x.t != 0
    raise Unsupported('not a condition: %r' % type(x))


def wrap(t):
    if z3.is_bool(t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t) if z3.is_int(t) else SymReal(t)


def real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def floordiv_t(a, b):
    """Python //, b != 0 already established."""
    if z3.is_int(a) and z3.is_int(b):
        if ENG is not None and ENG.entails(b > 0):
            return a / b
        return z3.If(b > 0, a / b, (-a) / (-b))
    return real(z3.ToInt(real(a) / real(b)))


class _Sym:
    __array_ufunc__ = None
    __hash__ = None

    def _bin(self, o, f):
        if type(o) in (SymArr, Selection) or isinstance(o, (_np.ndarray, str, list, tuple, dict, type(None))):
            return NotImplemented
        return wrap(f(toz(self), toz(o)))

    def _rbin(self, o, f):
        if type(o) in (SymArr, Selection) or isinstance(o, (_np.ndarray, str, list, tuple, dict, type(None))):
            return NotImplemented
        return wrap(f(toz(o), toz(self)))

    def _cmp(self, o, f):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return NotImplemented
        if type(o) is SymArr:
            return NotImplemented
        return wrap(f(toz(self), toz(o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)
    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return list_mul(o, self)
        return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return list_mul(o, self)
        return self._rbin(o, lambda a, b: a * b)
    def __neg__(self): return wrap(-toz(self))
    def __pos__(self): return self
    def __abs__(self):
        t = toz(self)
        return wrap(z3.If(t < 0, -t, t))

    def _div(self, a, b):
        if ENG.branch(b == 0):
            raise ZeroDivisionError('division by zero')
        return real(a) / real(b)

    def __truediv__(self, o): return self._bin(o, self._div)
    def __rtruediv__(self, o): return self._rbin(o, self._div)

    def _fdiv(self, a, b):
        if ENG.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return floordiv_t(a, b)

    def _mod(self, a, b):
        return a - b * self._fdiv(a, b)

    def __floordiv__(self, o): return self._bin(o, self._fdiv)
    def __rfloordiv__(self, o): return self._rbin(o, self._fdiv)
    def __mod__(self, o): return self._bin(o, self._mod)
    def __rmod__(self, o): return self._rbin(o, self._mod)

    def __divmod__(self, o): return (self // o, self % o)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = wrap(z3.RealVal(1) if isinstance(self, SymReal) else z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        return wrap(uf('pow', real(toz(self)), real(toz(o))))

    def __rpow__(self, o):
        if isinstance(o, int) and o == 2 and isinstance(self, SymInt):
            if not ENG.branch(self.t >= 0):
                return wrap(uf('pow', real(toz(o)), real(toz(self))))
            return wrap(pow2(toz(self)))
        return wrap(uf('pow', real(toz(o)), real(toz(self))))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and type(o) is not SymArr else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and type(o) is not SymArr else r

    def __bool__(self):
        return ENG.branch(toz(self) != 0)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.t)

    def __format__(self, spec):
        return repr(self)

    def __index__(self):
        t = z3.simplify(toz(self))
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported('a symbolic value is needed as a concrete integer')

    def __float__(self):
        raise Unsupported('a symbolic value is needed as a concrete float')

    def __int__(self):
        raise Unsupported('int() of a symbolic value outside the rewritten modules')

    # numpy-scalar API used by repository code
    dtype = property(lambda self: _np.dtype('float64') if isinstance(self, SymReal) else _np.dtype('int64'))
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def astype(self, dt, copy=True):
        return cast_scalar(self, as_dtype(dt))


class SymInt(_Sym):
    def __init__(self, t): self.t = t
    def __ceil__(self): return self
    def __floor__(self): return self
    def __trunc__(self): return self
    def __round__(self, nd=None): return self

    def __and__(self, o):
        if o == 1:
            return self % 2
        raise Unsupported('bitwise and')

    def __rshift__(self, o):
        return self // wrap(pow2(toz(o)))

    def __lshift__(self, o):
        return self * wrap(pow2(toz(o)))

    def __rlshift__(self, o):
        return o * wrap(pow2(toz(self)))


class SymReal(_Sym):
    def __init__(self, t): self.t = t
    def __ceil__(self): return wrap(-z3.ToInt(-self.t))
    def __floor__(self): return wrap(z3.ToInt(self.t))
    def __trunc__(self): return wrap(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __round__(self, nd=None):
        if nd:
            raise Unsupported('round(x, n)')
        return wrap(round_half_even(self.t))

    def is_integer(self):
        return wrap(z3.IsInt(self.t))


class SymBool(_Sym):
    def __init__(self, t): self.t = t
    def __bool__(self): return ENG.branch(self.t)
    def __and__(self, o): return wrap(z3.And(self.t, tob(o)))
    __rand__ = __and__
    def __or__(self, o): return wrap(z3.Or(self.t, tob(o)))
    __ror__ = __or__
    def __invert__(self): return wrap(z3.Not(self.t))


def round_half_even(t):
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def cast_scalar(x, dt):
    t = toz(x)
    if dt.kind in 'iu':
        if not z3.is_int(t):
            t = z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
        return wrap(t)
    if dt.kind == 'f':
        r = SymReal(real(t))
        return r
    if dt.kind == 'b':
        return wrap(t != 0)
    raise Unsupported('cast to %s' % dt)


_UF = {}


def uf(name, *args):
    sorts = tuple(a.sort().name() for a in args)
    key = (name, sorts)
    if key not in _UF:
        _UF[key] = z3.Function(name, *([a.sort() for a in args] + [z3.RealSort()]))
    return _UF[key](*args)


_POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())


def pow2(t):
    t = z3.simplify(t)
    if z3.is_int_value(t) and 0 <= t.as_long() < 64:
        return z3.IntVal(2 ** t.as_long())
    p = _POW2(t)
    if ENG is not None:
        ENG.assume(z3.Implies(t >= 0, p >= 1), z3.Implies(t >= 1, p >= 2))
    return p


# ----------------------------------------------------------------------------------------------
# symbolic sequences
# ----------------------------------------------------------------------------------------------
class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        a, b, c = toz(start), toz(stop), toz(step)
        if ENG.branch(c == 0):
            raise ValueError('range() arg 3 must not be zero')
        if not ENG.branch(c > 0):
            raise Unsupported('symbolic range with a negative step')
        n = ENG.fresh('rlen')
        # definition of len(range(a, b, c)) for c > 0
        ENG.assume(n >= 0, z3.Implies(b <= a, n == 0),
                   z3.Implies(b > a, z3.And(n >= 1, a + (n - 1) * c < b, b <= a + n * c)))
        self.n = n

    def length(self):
        return wrap(self.n)

    def at(self, k):
        return wrap(toz(self.start) + toz(k) * toz(self.step))

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range outside the rewritten modules')


class SymList:
    """A list of symbolic length n; element k is fn(k)."""

    def __init__(self, n, fn, tail=()):
        self.n, self.fn = n, fn
        self.reads = 0

    def length(self):
        return wrap(toz(self.n))

    def at(self, k):
        return self.fn(k)

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, hi, st, ln = slice_bounds(k, toz(self.n))
            if not (isinstance(st, int) and st == 1):
                raise Unsupported('list slice with a step')
            return SymList(ln, lambda j: self.fn(wrap(lo + toz(j))))
        t = toz(k)
        if ENG.branch(z3.Or(t >= toz(self.n), t < -toz(self.n))):
            raise IndexError('list index out of range')
        if not ENG.entails(t >= 0):
            if ENG.branch(t < 0):
                t = t + toz(self.n)
        return self.fn(wrap(t))

    def __iter__(self):
        raise Unsupported('iteration over a symbolic list outside the rewritten modules')

    def __bool__(self):
        return ENG.branch(toz(self.n) > 0)

    def __len__(self):
        raise Unsupported('len() of a symbolic list outside the rewritten modules')


def list_mul(lst, n):
    if isinstance(lst, list) and len(lst) == 1:
        e = lst[0]
        t = toz(n)
        return SymList(wrap(z3.If(t > 0, t, z3.IntVal(0))), lambda k: e)
    raise Unsupported('sequence repetition')


def slice_bounds(s, n):
    """Python slice semantics on a length term n (step 1, or a concrete/provably positive step)."""
    step = 1 if s.step is None else s.step
    if isinstance(step, int) and step == -1 and s.start is None and s.stop is None:
        return n - 1, None, -1, n
    if not (isinstance(step, int) and step == 1):
        if not ENG.entails(toz(step) > 0):
            raise Unsupported('slice step')

    def norm(x, dflt):
        if x is None:
            return dflt
        t = toz(x)
        if not z3.is_int(t):
            raise TypeError('slice indices must be integers or None or have an __index__ method')
        if ENG.entails(t >= 0):
            if ENG.entails(t <= n):
                return t
            return z3.simplify(z3.If(t > n, n, t))
        return z3.simplify(z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t)))
    lo, hi = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
    if ENG.entails(lo <= hi):
        span = hi - lo
    else:
        span = z3.If(lo <= hi, hi - lo, z3.IntVal(0))
    if isinstance(step, int) and step == 1:
        return lo, hi, 1, z3.simplify(span)
    st = toz(step)
    ln = ENG.fresh('slen')
    ENG.assume(ln >= 0, z3.Implies(span == 0, ln == 0),
               z3.Implies(span > 0, z3.And(ln >= 1, (ln - 1) * st < span, span <= ln * st)))
    return lo, hi, step, ln


# ----------------------------------------------------------------------------------------------
# symbolic arrays
# ----------------------------------------------------------------------------------------------
class Buf:
    _n = 0

    def __init__(self, shape, dtype, fn, name='tmp', is_input=False):
        Buf._n += 1
        self.id = Buf._n
        self.shape = [toz(s) for s in shape]
        self.dtype = _np.dtype(dtype)
        self.fn = fn
        self.name = name
        self.is_input = is_input
        self.writes = 0
        self.fn0 = fn
        self.uninit = False
        if ENG is not None:
            ENG.bufs.add(self)


class _Flags:
    def __init__(self, a): self._a = a

    @property
    def c_contiguous(self): return self._a.is_contig()
    contiguous = c_contiguous

    @property
    def f_contiguous(self):
        return wrap(ENG.fresh('fcontig', 'bool'))

    writeable = True
    aligned = True
    owndata = True

    def __getitem__(self, k):
        if k in ('C_CONTIGUOUS', 'C', 'CONTIGUOUS'):
            return self.c_contiguous
        return getattr(self, k.lower())


class SymPtr:
    """What ctypes.data_as gives: the address of the first element of a view."""
    def __init__(self, arr, ctype): self.arr, self.ctype = arr, ctype


class _Ctypes:
    def __init__(self, a): self._a = a
    def data_as(self, t): return SymPtr(self._a, t)

    @property
    def data(self): return SymPtr(self._a, None)


def read_fn(fn, b):
    ENG.reading += 1
    try:
        return fn(b)
    finally:
        ENG.reading -= 1


class SymArr:
    __array_priority__ = 1000
    __hash__ = object.__hash__

    # axes: per buffer axis ('i', term) or ('s', start, step, viewaxis)
    def __init__(self, buf, shape, axes, contig=None):
        self.buf = buf
        self._shape = [z3.simplify(toz(s)) for s in shape]
        self.axes = axes
        self._contig = contig

    __class__ = property(lambda self: _np.ndarray)

    # -- construction
    @staticmethod
    def new(shape, dtype, fn, name='tmp', is_input=False, contig=True):
        shape = list(shape)
        b = Buf(shape, dtype, fn, name, is_input)
        return SymArr(b, shape, [('s', z3.IntVal(0), 1, i) for i in range(len(shape))], contig)

    @staticmethod
    def input(name, shape, dtype, contig=None, lo=None, hi=None):
        dt = _np.dtype(dtype)
        sort = z3.IntSort() if dt.kind in 'iub' else z3.RealSort()
        f = z3.Function(name, *([z3.IntSort()] * len(shape) + [sort])) if len(shape) else None

        def fn(idx):
            return f(*idx) if f is not None else z3.Const(name, sort)
        if contig is None:
            contig = SymBool(z3.Bool(name + '.contiguous'))
        return SymArr.new(shape, dt, fn, name, True, contig)

    # -- attributes
    @property
    def shape(self): return tuple(wrap(s) for s in self._shape)

    @shape.setter
    def shape(self, sh):
        r = reshape(self, sh)
        self.buf, self._shape, self.axes, self._contig = r.buf, r._shape, r.axes, r._contig

    ndim = property(lambda self: len(self._shape))
    dtype = property(lambda self: self.buf.dtype)
    flags = property(lambda self: _Flags(self))
    ctypes = property(lambda self: _Ctypes(self))
    itemsize = property(lambda self: self.buf.dtype.itemsize)
    base = None

    @property
    def size(self):
        r = z3.IntVal(1)
        for s in self._shape:
            r = r * s
        return wrap(r)

    @property
    def nbytes(self): return self.size * self.itemsize

    @property
    def T(self): return self.transpose()

    def is_contig(self):
        if self._contig is not None:
            return self._contig
        # a view: C-contiguous when the axes are in order and only a leading run is cut
        order = [a[3] for a in self.axes if a[0] == 's']
        if order != sorted(order):
            if all(ENG.entails(s <= 1) for s in self._shape):
                return True
            ax_ = [(ax, a) for ax, a in enumerate(self.axes) if a[0] == 's']
            if len(ax_) < len(self.axes) or not all(isinstance(a[2], int) and a[2] == 1 for ax, a in ax_):
                return wrap(z3.And(self.base_contig(), ENG.fresh('perm_contig', 'bool')))
            c = [self.base_contig()]
            for j, (ax, a) in enumerate(ax_):
                full = z3.And(toz(a[1]) == 0, self._shape[a[3]] == self.buf.shape[ax])
                for ax2, b in ax_[:j]:
                    # an axis that comes first in memory, but not in the view, or whose neighbour is cut, may not be longer than one
                    p = self._shape[b[3]] <= 1
                    c.append(z3.Or(p, z3.And(full, self._shape[a[3]] <= 1) if b[3] > a[3] else full))
            return wrap(z3.And(*c))
        seen_wide = False
        ok = True
        for ax, a in enumerate(self.axes):
            if a[0] == 'i':
                if seen_wide:
                    ok = False
                continue
            ln = self._shape[a[3]]
            full = ENG.entails(z3.And(toz(a[1]) == 0, ln == self.buf.shape[ax])) and isinstance(a[2], int) and a[2] == 1
            if full:
                seen_wide = seen_wide or not ENG.entails(ln <= 1)
                continue
            if not (isinstance(a[2], int) and a[2] == 1) and not ENG.entails(ln <= 1):
                ok = False
            if seen_wide:
                ok = False
            seen_wide = seen_wide or not ENG.entails(ln <= 1)
        if not ok:
            return False
        return wrap(self.base_contig())

    def base_contig(self):
        return tob(self.buf_contig) if hasattr(self, 'buf_contig') else z3.BoolVal(True)

    # -- element access
    def bidx(self, v):
        out = []
        for a in self.axes:
            if a[0] == 'i':
                out.append(toz(a[1]))
            else:
                out.append(toz(a[1]) + toz(a[2]) * v[a[3]])
        return out

    def elem(self, v):
        return read_fn(self.buf.fn, self.bidx([toz(x) for x in v]))

    def snapshot(self):
        fn, me = self.buf.fn, self
        return lambda v: read_fn(fn, me.bidx(v))

    def write(self, valfn, guard=None):
        """self[v] = valfn(v) for every index v of this view (with guard(v))."""
        old = self.buf.fn
        axes, shape = self.axes, self._shape

        def new(b):
            conds, v = [], [z3.IntVal(0)] * len(shape)
            for ax, a in enumerate(axes):
                if a[0] == 'i':
                    conds.append(b[ax] == toz(a[1]))
                else:
                    d = b[ax] - toz(a[1])
                    st = a[2]
                    if isinstance(st, int) and st == 1:
                        q = d
                    elif isinstance(st, int) and st == -1:
                        q = -d
                    else:
                        stt = toz(st)
                        q = d / stt
                        conds.append(d % stt == 0)
                    v[a[3]] = q
                    conds.append(q >= 0)
                    conds.append(q < shape[a[3]])
            if guard is not None:
                conds.append(guard(v))
            c = z3.And(*conds) if conds else z3.BoolVal(True)
            ENG.guards.append(c)
            try:
                val = valfn(v)
            finally:
                ENG.guards.pop()
            ENG.guards.append(z3.Not(c))
            try:
                o = old(b)
            finally:
                ENG.guards.pop()
            val, o = coerce2(val, o, self.buf.dtype)
            return z3.If(c, val, o)
        self.buf.fn = new
        self.buf.writes += 1
        for l in ENG.loops:
            if self.buf in l.pre_fn:
                l.written.setdefault(self.buf, []).append((list(axes), list(shape)))

    # -- indexing
    def _view(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (self.ndim - nspec) + key[i + 1:]
        else:
            key = key + (slice(None),) * (self.ndim - nspec)
        if sum(1 for k in key if k is not None) > self.ndim:
            raise IndexError('too many indices for array')
        vmap = {}     # old view axis -> ('i', t) | ('s', lo, step, newaxis)
        shape = []
        va = 0
        for k in key:
            if k is None:
                shape.append(z3.IntVal(1))
                continue
            n = self._shape[va]
            if isinstance(k, slice):
                lo, hi, st, ln = slice_bounds(k, n)
                vmap[va] = ('s', lo, st, len(shape))
                shape.append(ln)
            elif isinstance(k, (int, SymInt, _np.integer)):
                t = toz(k)
                if ENG.branch(z3.Or(t >= n, t < -n)):
                    raise IndexError('index out of bounds')
                if not ENG.entails(t >= 0):
                    t = z3.If(t < 0, t + n, t)
                vmap[va] = ('i', t)
            else:
                raise Unsupported('array index %r' % type(k))
            va += 1
        axes = []
        for a in self.axes:
            if a[0] == 'i':
                axes.append(a)
                continue
            m = vmap[a[3]]
            if m[0] == 'i':
                axes.append(('i', toz(a[1]) + toz(a[2]) * m[1]))
            else:
                step = a[2] * m[2] if isinstance(a[2], int) and isinstance(m[2], int) else wrap(toz(a[2]) * toz(m[2]))
                axes.append(('s', z3.simplify(toz(a[1]) + toz(a[2]) * m[1]), step, m[3]))
        r = SymArr(self.buf, shape, axes)
        r.buf_contig = self.is_full_contig()
        return r

    def is_full_contig(self):
        # contiguity of the underlying buffer
        if hasattr(self, 'buf_contig'):
            return self.buf_contig
        return self._contig if self._contig is not None else True

    def __getitem__(self, key):
        if type(key) is SymArr and key.dtype.kind == 'b' and key.ndim == self.ndim and self.ndim > 1:
            return Selection(self.snapshot(), self.dtype, key, self._shape)
        if type(key) is SymArr or isinstance(key, (list, _np.ndarray)):
            return fancy_get(self, key)
        if isinstance(key, tuple) and any(type(k) is SymArr or isinstance(k, (list, _np.ndarray)) for k in key):
            raise Unsupported('mixed fancy indexing')
        v = self._view(key)
        if v.ndim == 0:
            return wrap_elem(v.elem(()), self.dtype)
        return v

    def __setitem__(self, key, val):
        if type(key) is SymArr and key.dtype.kind == 'b':
            m = key.snapshot()
            if key.ndim != self.ndim:
                raise Unsupported('mask of another rank')
            if type(val) is Selection:
                # the elements of the same mask of arrays of the same shape correspond
                v = [z3.Int('canon!%d' % i) for i in range(self.ndim)]
                rng_ = z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(v, self._shape)])
                if not ENG.entails(z3.And(*[a == b for a, b in zip(self._shape, val.shape)])) or not ENG.entails(z3.Implies(rng_, m(v) == val.mask(v))):
                    raise Unsupported('masked assignment from another mask')
                src = val.fn
            else:
                src = as_elem(val, self._shape) if type(val) is not SymArr or val.ndim == 0 else None
            if src is None:
                raise Unsupported('masked assignment of an array')
            self.write(src, guard=lambda v: m(v) != 0)
            return
        if type(key) is SymArr or isinstance(key, (list, _np.ndarray)):
            raise Unsupported('fancy assignment')
        v = self._view(key)
        v.write(as_elem(val, v._shape))

    # -- arithmetic
    def _b(self, o, f, dt=None, rev=False):
        return ewise([o, self] if rev else [self, o], f, dt)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, rev=True)
    def __truediv__(self, o): return self._b(o, tdiv, 'f')
    def __rtruediv__(self, o): return self._b(o, tdiv, 'f', rev=True)
    def __floordiv__(self, o): return self._b(o, floordiv_t)
    def __mod__(self, o): return self._b(o, lambda a, b: a - b * floordiv_t(a, b))
    def __neg__(self): return ewise([self], lambda a: -a)
    def __pow__(self, o):
        if isinstance(o, int) and o == 2:
            return self._b(self, lambda a, b: a * b)
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 4:
            def f(a, n=o):
                r = z3.IntVal(1) if z3.is_int(a) else z3.RealVal(1)
                for i in range(n):
                    r = a if i == 0 else r * a
                return r
            return ewise([self], f)
        return self._b(o, lambda a, b: uf('pow', real(a), real(b)), 'f')
    def __abs__(self): return ewise([self], lambda a: z3.If(a < 0, -a, a))
    def __lt__(self, o): return self._b(o, lambda a, b: a < b, 'b')
    def __le__(self, o): return self._b(o, lambda a, b: a <= b, 'b')
    def __gt__(self, o): return self._b(o, lambda a, b: a > b, 'b')
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b, 'b')
    def __eq__(self, o): return self._b(o, lambda a, b: a == b, 'b')
    def __ne__(self, o): return self._b(o, lambda a, b: a != b, 'b')
    def __and__(self, o): return self._b(o, lambda a, b: z3.And(tob(a), tob(b)), 'b')
    def __or__(self, o): return self._b(o, lambda a, b: z3.Or(tob(a), tob(b)), 'b')
    def __invert__(self): return ewise([self], lambda a: z3.Not(tob(a)), 'b')

    def _inplace(self, o, f):
        src = as_elem(o, self._shape)
        cur = self.snapshot()
        self.write(lambda v: f(cur(v), src(v)))
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, tdiv)

    def __bool__(self):
        if self.ndim == 0:
            return ENG.branch(tob(self.elem(())))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __len__(self):
        raise Unsupported('len() of a symbolic array outside the rewritten modules')

    def __iter__(self):
        n = z3.simplify(self._shape[0])
        if z3.is_int_value(n) and n.as_long() <= 16:
            return iter([self[i] for i in range(n.as_long())])
        raise Unsupported('iteration over a symbolic array outside the rewritten modules')

    def length(self):
        return wrap(self._shape[0])

    def at(self, k):
        return self[k]

    def __repr__(self):
        return '<SymArr %s %s %s>' % (self.buf.name, self.dtype, self._shape)

    # -- methods
    def astype(self, dt, copy=True, order='K', **kw):
        dt = as_dtype(dt)
        if not copy and dt == self.dtype:
            return self
        return copy_of(self, dt, contig=(True if order == 'C' else None))

    def copy(self, order='C'):
        return copy_of(self, self.dtype, contig=True if order == 'C' else None)

    def transpose(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = tuple(perm[0])
        if not perm:
            perm = tuple(reversed(range(self.ndim)))
        return permute(self, perm)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return permute(self, p)

    def reshape(self, *sh, **kw):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        return reshape(self, sh)

    def resize(self, *shape, refcheck=True):
        sh = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        if len(sh) != self.ndim or not ENG.entails(z3.And(*[toz(a) == b for a, b in zip(sh, self._shape)])):
            raise Unsupported('ndarray.resize')

    def flatten(self):
        return copy_of(reshape(self, (-1,)), self.dtype)

    ravel = flatten

    def squeeze(self, axis=None):
        keep = []
        for i, s in enumerate(self._shape):
            if axis is None:
                if ENG.branch(s == 1):
                    continue
            elif i == axis:
                continue
            keep.append(i)
        key = tuple(slice(None) if i in keep else 0 for i in range(self.ndim))
        return self[key]

    def mean(self, axis=None, dtype=None, **kw): return reduce_('mean', self, axis, 'f', dtype)
    def sum(self, axis=None, dtype=None, **kw): return reduce_('sum', self, axis)
    def min(self, axis=None, **kw): return reduce_('min', self, axis)
    def max(self, axis=None, **kw): return reduce_('max', self, axis)
    def std(self, axis=None, **kw): return reduce_('std', self, axis, 'f')
    def any(self, axis=None): return reduce_('any', self, axis)
    def all(self, axis=None): return reduce_('all', self, axis)
    def item(self): return wrap(self.elem(()))

    def fill(self, v):
        self[...] = v

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        h = getattr(NP, name, None)
        if h is None or h is func:
            raise Unsupported('numpy.%s on a symbolic array' % name)
        return h(*args, **kwargs)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != '__call__':
            raise Unsupported('ufunc method %s' % method)
        out = kwargs.pop('out', None)
        if isinstance(out, tuple):
            out = out[0]
        return ufunc_call(ufunc.__name__, inputs, out)

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic array to a concrete one')


def tdiv(a, b):
    return real(a) / real(b)


def coerce2(a, b, dt=None):
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.sort() != b.sort():
        if dt is not None and dt.kind in 'iub' and z3.is_int(b):
            a = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        else:
            a, b = real(a), real(b)
    return a, b


def wrap_elem(t, dt):
    return wrap(t)


def as_dtype(dt):
    if isinstance(dt, ScalarType):
        return _np.dtype(dt.real)
    if dt is sym_int:
        return _np.dtype(int)
    if dt is sym_float:
        return _np.dtype(float)
    return _np.dtype(dt)


class Selection:
    """a[mask]: the elements where the mask is set, in order."""

    def __init__(self, fn, dtype, key, shape, mask=None):
        self.fn, self.dtype, self.shape = fn, dtype, list(shape)
        self.mask = key.snapshot() if mask is None else mask

    def _b(self, o, f, rev=False):
        if type(o) is Selection:
            v = [z3.Int('canon!%d' % i) for i in range(len(self.shape))]
            if not ENG.entails(self.mask(v) == o.mask(v)):
                raise Unsupported('elements of two masks')
            g = o.fn
        elif isinstance(o, (int, float, _Sym, _np.generic)):
            g = lambda v, t=toz(o): t
        else:
            raise Unsupported('masked elements and an array')

        def fn(v):
            a, b = self.fn(v), g(v)
            if a.sort() != b.sort():
                a, b = real(a), real(b)
            return f(b, a) if rev else f(a, b)
        return Selection(fn, self.dtype, None, self.shape, self.mask)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._b(o, tdiv)
    def __rtruediv__(self, o): return self._b(o, tdiv, True)

    def __getattr__(self, n):
        raise Unsupported('masked elements: ' + n)


def as_elem(val, shape):
    """Element function of val broadcast to shape (checks the broadcast)."""
    if type(val) is SymList:
        L = val
        return lambda v: toz(L.at(wrap(v[-1])))
    if isinstance(val, (list, tuple)):
        val = _np.asarray(val)
    if isinstance(val, _np.ndarray) and type(val) is not SymArr:
        if val.ndim == 0:
            val = val.item()
        else:
            val = from_concrete(val)
    if type(val) is SymArr:
        snap = val.snapshot()
        off = len(shape) - val.ndim
        if off < 0:
            for s in val._shape[:-off]:
                if not ENG.entails(s == 1):
                    raise ValueError('could not broadcast input array')
        sel = []
        for i, s in enumerate(val._shape):
            j = i + off
            if j < 0:
                sel.append('one')
                continue
            if ENG.entails(s == shape[j]):
                sel.append(j)
            elif ENG.branch(s == shape[j]):
                sel.append(j)
            elif ENG.branch(s == 1):
                sel.append('one')
            else:
                raise ValueError('could not broadcast input array from shape %s into shape %s' % (val._shape, shape))
        return lambda v: snap([z3.IntVal(0) if j == 'one' else v[j] for j in sel])
    t = toz(val)
    return lambda v: t


def from_concrete(a):
    a = _np.asarray(a)
    flat = [toz(x) for x in a.ravel()]
    if len(flat) > 4096:
        raise Unsupported('large concrete array')
    shp = a.shape

    def fn(idx):
        r = flat[0]
        lin = z3.IntVal(0)
        for s, i in zip(shp, idx):
            lin = lin * s + i
        for k in range(1, len(flat)):
            r = z3.If(lin == k, flat[k], r)
        return r
    return SymArr.new(a.shape, a.dtype, fn, 'const')


def bshape(args):
    """Broadcast shape of the arguments."""
    nd = max([len(s) for s in args] or [0])
    out = []
    for j in range(nd):
        cur = None
        for s in args:
            k = j - (nd - len(s))
            if k < 0:
                continue
            d = s[k]
            if cur is None:
                cur = d
            elif ENG.entails(cur == d):
                pass
            elif ENG.branch(cur == d):
                pass
            elif ENG.branch(cur == 1):
                cur = d
            elif ENG.branch(d == 1):
                pass
            else:
                raise ValueError('operands could not be broadcast together')
        out.append(cur)
    return out


def shape_of(x):
    if type(x) is SymArr:
        return x._shape
    if isinstance(x, _np.ndarray):
        return [z3.IntVal(int(s)) for s in x.shape]
    return []


def dt_of(x):
    if type(x) is SymArr:
        return x.dtype
    if isinstance(x, (_np.ndarray, _np.generic)):
        return x.dtype
    if isinstance(x, (SymReal, float)):
        return 'pyfloat'
    if isinstance(x, (SymBool, bool)):
        return _np.dtype('bool')
    return 'pyint'


def promote(args, force=None):
    if force == 'b':
        return _np.dtype('bool')
    dts = [dt_of(a) for a in args]
    strong = [d for d in dts if not isinstance(d, str)]
    r = _np.result_type(*strong) if strong else _np.dtype('float64' if 'pyfloat' in dts else 'int64')
    if 'pyfloat' in dts and r.kind in 'iub':
        r = _np.dtype('float64')
    if force == 'f' and r.kind in 'iub':
        r = _np.dtype('float64')
    return r


def ewise(args, f, force=None, out=None):
    args = [_np.asarray(a) if isinstance(a, (list, tuple)) else a for a in args]
    if out is None and all(len(shape_of(a)) == 0 and type(a) is not SymArr for a in args):
        return wrap(f(*[toz(a) for a in args]))
    shape = bshape([shape_of(a) for a in args])
    fns = [as_elem(a, shape) for a in args]
    dt = promote(args, force)

    def fn(v):
        vals = [g(v) for g in fns]
        if any(z3.is_bool(x) for x in vals):
            vals = [z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x for x in vals]
        if len(vals) == 2 and vals[0].sort() != vals[1].sort():
            vals = [real(x) for x in vals]
        r = f(*vals)
        if z3.is_bool(r):
            r = z3.If(r, z3.IntVal(1), z3.IntVal(0))
        if dt.kind == 'f':
            r = real(r)
        return r
    if out is not None:
        src = fn
        oshape = out._shape
        if len(oshape) != len(shape) or not all(ENG.entails(a == b) for a, b in zip(oshape, shape)):
            for a, b in zip(oshape, shape):
                if not ENG.branch(a == b):
                    raise ValueError('non-broadcastable output operand')
        out.write(src)
        return out
    return SymArr.new(shape, dt, fn)


def copy_of(a, dt=None, contig=True, name='copy'):
    dt = a.dtype if dt is None else dt
    snap = a.snapshot()
    src = a.dtype

    def fn(v):
        x = snap(v)
        if dt.kind == 'f':
            return real(x)
        if dt.kind in 'iu' and not z3.is_int(x):
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        return x
    c = contig
    if c is None:
        # order='K': the copy keeps the layout of its source
        c = SymBool(z3.BoolVal(True)) if a.is_contig() is True else a.is_contig()
    return SymArr.new(list(a._shape), dt, fn, a.buf.name + '.' + name, contig=c)


def permute(a, perm):
    perm = list(perm)
    perm = [p % a.ndim if isinstance(p, int) else p for p in perm]
    inv = {p: i for i, p in enumerate(perm)}
    axes = [x if x[0] == 'i' else ('s', x[1], x[2], inv[x[3]]) for x in a.axes]
    r = SymArr(a.buf, [a._shape[p] for p in perm], axes)
    r.buf_contig = a.is_full_contig()
    return r


_FLAT = {}


def reshape(a, sh):
    if not isinstance(sh, (tuple, list)):
        sh = (sh,)
    sh = list(sh)
    total = toz(a.size)
    if any(isinstance(s, int) and s == -1 for s in sh):
        k = [isinstance(s, int) and s == -1 for s in sh].index(True)
        others = z3.IntVal(1)
        for i, s in enumerate(sh):
            if i != k:
                others = others * toz(s)
        if len(sh) == 1:
            sh[0] = wrap(total)
        else:
            q = ENG.fresh('dim')
            ENG.assume(q * others == total, q >= 0)
            sh[k] = wrap(q)
    new = z3.IntVal(1)
    for s in sh:
        new = new * toz(s)
    if not ENG.entails(new == total):
        if not ENG.branch(new == total):
            raise ValueError('cannot reshape array')
    sht = [toz(s) for s in sh]
    if a.ndim == 2 and len(sht) == 2:
        one = lambda t: z3.is_int_value(z3.simplify(t)) and z3.simplify(t).as_long() == 1
        if one(sht[1]) and not one(a._shape[1]):
            # one column: row(f) and col(f) are f / width and f % width, kept as functions of the shape
            key = ','.join(z3.simplify(x).sexpr() for x in a._shape)
            R, C = z3.Function('row[%s]' % key, z3.IntSort(), z3.IntSort()), z3.Function('col[%s]' % key, z3.IntSort(), z3.IntSort())
            _FLAT[z3.simplify(sht[0]).sexpr()] = key
            r = SymArr.new(sh, a.dtype, lambda v, snap=a.snapshot(): snap([R(v[0]), C(v[0])]), a.buf.name + '.reshape', contig=True)
            r.reshape_of = a
            return r
        key = ','.join(z3.simplify(x).sexpr() for x in sht)
        alt = ','.join('(ite (<= %s 0) 0 %s)' % (z3.simplify(x).sexpr(), z3.simplify(x).sexpr()) for x in sht)
        if one(a._shape[1]) and _FLAT.get(z3.simplify(a._shape[0]).sexpr()) in (key, alt):
            key = _FLAT[z3.simplify(a._shape[0]).sexpr()]
            R, C = z3.Function('row[%s]' % key, z3.IntSort(), z3.IntSort()), z3.Function('col[%s]' % key, z3.IntSort(), z3.IntSort())
            Fl = z3.Function('flat[%s]' % key, z3.IntSort(), z3.IntSort(), z3.IntSort())

            def back(v, snap=a.snapshot()):
                f = Fl(v[0], v[1])
                ENG.assume(z3.Implies(z3.And(v[0] >= 0, v[0] < sht[0], v[1] >= 0, v[1] < sht[1]), z3.And(R(f) == v[0], C(f) == v[1])))
                return snap([f, z3.IntVal(0)])
            return SymArr.new(sh, a.dtype, back, a.buf.name + '.reshape', contig=True)
    if len(sht) == a.ndim and all(z3.eq(z3.simplify(x), z3.simplify(y)) for x, y in zip(sht, a._shape)):
        return a
    if a.ndim == 1:
        def fn0(v, snap=a.snapshot()):
            lin = z3.IntVal(0)
            for s, i in zip(sht, v):
                lin = lin * s + i
            return snap([lin])
        r = SymArr.new(sh, a.dtype, fn0, a.buf.name + '.reshape', contig=True)
        r.reshape_of = a
        return r
    if len(sht) == 1:
        def fn1(v, snap=a.snapshot()):
            rem = v[0]
            idx = []
            for s in reversed(a._shape[1:]):
                idx.append(rem % s)
                rem = rem / s
            idx.append(rem)
            return snap(list(reversed(idx)))
        r = SymArr.new(sh, a.dtype, fn1, a.buf.name + '.reshape', contig=True)
        r.reshape_of = a
        return r
    if a.ndim + 1 == len(sht) or a.ndim == len(sht) + 1:
        # adding/removing unit axes
        keep_new = [i for i, s in enumerate(sht) if not ENG.entails(s == 1)]
        keep_old = [i for i, s in enumerate(a._shape) if not ENG.entails(s == 1)]
        if len(keep_new) == len(keep_old) and all(ENG.entails(sht[i] == a._shape[j]) for i, j in zip(keep_new, keep_old)):
            def fn2(v, snap=a.snapshot()):
                idx = [z3.IntVal(0)] * a.ndim
                for i, j in zip(keep_new, keep_old):
                    idx[j] = v[i]
                return snap(idx)
            r = SymArr.new(sh, a.dtype, fn2, a.buf.name + '.reshape', contig=True)
            r.reshape_of = a
            return r
    raise Unsupported('reshape %s -> %s' % (a._shape, sht))


def fancy_get(a, key):
    if type(key) is SymArr and key.dtype.kind == 'b':
        raise Unsupported('boolean selection')
    if isinstance(key, (list, tuple)):
        key = _np.asarray(key)
        if key.dtype.kind not in 'iu':
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
        key = from_concrete(key)
    ks, ka = key.snapshot(), key
    snap = a.snapshot()
    n = a._shape[0]
    kd = ka.ndim
    return SymArr.new(list(ka._shape) + list(a._shape[1:]), a.dtype,
                      lambda v: snap([ks(v[:kd])] + list(v[kd:])), a.buf.name + '.take')


class at_index:
    """Terms are built as in iteration m of a loop."""

    def __init__(self, m):
        self.k = m

    def __enter__(self):
        ENG.loops.append(self)

    def __exit__(self, *a):
        ENG.loops.pop()


def reduce_(kind, a, axis=None, force=None, dtype=None):
    """A reduction is an uninterpreted function of the reduced elements (same elements -> same
    value), which is all the contracts need."""
    if type(a) is not SymArr:
        return getattr(_np, kind)(a, axis=axis)
    axes = tuple(range(a.ndim)) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
    axes = tuple(x % a.ndim for x in axes)
    keep = [i for i in range(a.ndim) if i not in axes]
    snap = a.snapshot()
    n0 = z3.simplify(a._shape[axes[0]]) if len(axes) == 1 and a.ndim > 1 else None
    if kind == 'sum' and n0 is not None and z3.is_int_value(n0) and 1 <= n0.as_long() <= 8:
        ax0 = axes[0]
        dt0 = promote([a], force) if dtype is None else as_dtype(dtype)
        return SymArr.new([a._shape[i] for i in keep], dt0, lambda v: z3.simplify(z3.Sum(*[snap(v[:ax0] + [z3.IntVal(i)] + v[ax0:]) for i in range(n0.as_long())])), 'sum')
    red = [z3.Int('red!%d' % i) for i in range(len(axes))]
    kv = [z3.Int('keep!%d' % i) for i in range(len(keep))]

    def at(keepv):
        v = [None] * a.ndim
        for i, x in zip(keep, keepv):
            v[i] = x
        for i, x in zip(axes, red):
            v[i] = x
        return z3.simplify(snap(v))
    ks = [l.k for l in ENG.loops] if ENG is not None else []
    ren = [(k, z3.Int('loop!%d' % i)) for i, k in enumerate(ks)]
    txt = lambda t: z3.simplify(z3.substitute(t, *ren)).sexpr() if ren else z3.simplify(t).sexpr()
    key = (kind, txt(at(kv)), tuple(txt(a._shape[x]) for x in axes))
    name = '%s#%d' % (kind, _REDKEYS.setdefault(key, len(_REDKEYS)))
    isint = a.dtype.kind in 'iub' and force != 'f' and kind in ('sum', 'min', 'max')
    rs = z3.IntSort() if isint else z3.RealSort()
    if kind in ('any', 'all'):
        rs = z3.BoolSort()
    # fold any free variables (sizes, scalars) into the name: they are constants of the run
    ks = [k for k in ks if contains(at(kv), k) or any(contains(a._shape[x], k) for x in axes)]
    f = z3.Function(name, *([z3.IntSort()] * (len(keep) + len(ks)) + [rs])) if keep or ks else None
    dt = promote([a], force) if dtype is None else as_dtype(dtype)
    if kind in ('any', 'all'):
        dt = _np.dtype('bool')
    if not keep:
        r = f(*ks) if ks else z3.Const(name, rs)
        if ENG.reduced is not None:
            ENG.reduced(kind, a, r)
        return wrap(r)
    return SymArr.new([a._shape[i] for i in keep], dt, lambda v: f(*v, *ks), kind)


_REDKEYS = {}

_UFUNC2 = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'minimum': lambda a, b: z3.If(a < b, a, b), 'maximum': lambda a, b: z3.If(a > b, a, b),
    'less': lambda a, b: a < b, 'greater': lambda a, b: a > b, 'less_equal': lambda a, b: a <= b,
    'greater_equal': lambda a, b: a >= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'fmin': lambda a, b: z3.If(a < b, a, b), 'fmax': lambda a, b: z3.If(a > b, a, b),
    'logical_and': lambda a, b: z3.And(tob(a), tob(b)), 'logical_or': lambda a, b: z3.Or(tob(a), tob(b)),
}


def ufunc_call(name, inputs, out=None):
    if name in ('divide', 'true_divide'):
        return ewise(list(inputs), tdiv, 'f', out)
    if name == 'floor_divide':
        return ewise(list(inputs), floordiv_t, None, out)
    if name in ('remainder', 'mod'):
        return ewise(list(inputs), lambda a, b: a - b * floordiv_t(a, b), None, out)
    if name in _UFUNC2:
        b = name in ('less', 'greater', 'less_equal', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or')
        return ewise(list(inputs), _UFUNC2[name], 'b' if b else None, out)
    if name == 'negative':
        return ewise(list(inputs), lambda a: -a, None, out)
    if name in ('absolute', 'fabs'):
        return ewise(list(inputs), lambda a: z3.If(a < 0, -a, a), None, out)
    if name == 'square':
        return ewise(list(inputs), lambda a: a * a, None, out)
    if name in ('rint',):
        return ewise(list(inputs), lambda a: real(round_half_even(real(a))), 'f', out)
    if name in ('floor', 'ceil', 'trunc'):
        f = {'floor': lambda a: real(z3.ToInt(real(a))), 'ceil': lambda a: -real(z3.ToInt(-real(a))),
             'trunc': lambda a: real(z3.If(a >= 0, z3.ToInt(real(a)), -z3.ToInt(-real(a))))}[name]
        return ewise(list(inputs), f, 'f', out)
    if name in ('sin', 'cos', 'exp', 'log', 'sqrt', 'tan', 'log2', 'log10', 'arctan', 'arccos', 'arcsin', 'expm1', 'log1p', 'sinh', 'cosh', 'tanh'):
        return ewise(list(inputs), lambda a: uf(name, real(a)), 'f', out)
    if name in ('isnan', 'isinf'):
        return ewise(list(inputs), lambda a: z3.BoolVal(False), 'b', out)
    if name == 'isfinite':
        return ewise(list(inputs), lambda a: z3.BoolVal(True), 'b', out)
    if name in ('arctan2', 'hypot'):
        return ewise(list(inputs), lambda a, b: uf(name, real(a), real(b)), 'f', out)
    if name == 'power':
        if out is None and len(inputs) == 2 and isinstance(inputs[0], int) and inputs[0] == 2 and isinstance(inputs[1], SymInt):
            return wrap(pow2(inputs[1].t))
        return ewise(list(inputs), lambda a, b: uf('pow', real(a), real(b)), 'f', out)
    raise Unsupported('numpy.%s' % name)


# ----------------------------------------------------------------------------------------------
# numpy shim
# ----------------------------------------------------------------------------------------------
class ScalarType:
    """np.float32 & co: usable as a dtype, a constructor and in isinstance()."""
    def __init__(self, real_): self.real = real_
    dtype = property(lambda self: _np.dtype(self.real))
    __name__ = property(lambda self: self.real.__name__)

    def __call__(self, x=0):
        if isinstance(x, _Sym):
            return cast_scalar(x, _np.dtype(self.real))
        if type(x) is SymArr:
            return copy_of(x, _np.dtype(self.real))
        return self.real(x)

    def __instancecheck__(self, x): return builtins.isinstance(x, self.real)
    def __eq__(self, o):
        if isinstance(o, ScalarType):
            return self.real is o.real
        if isinstance(o, _np.dtype):
            return _np.dtype(self.real) == o
        return o is self.real
    def __hash__(self): return hash(self.real)
    def __repr__(self): return repr(self.real)


def anysym(*xs):
    for x in xs:
        if _is_sym(x):
            return True
        if isinstance(x, (tuple, list)) and type(x) is not SymArr and any(anysym(y) for y in x):
            return True
    return False


def undt(kw):
    for k in ('dtype',):
        if k in kw and isinstance(kw[k], ScalarType):
            kw[k] = kw[k].real
    return kw


class NumpyShim:
    def __getattr__(self, name):
        r = getattr(_np, name)
        if isinstance(r, type) and issubclass(r, _np.generic):
            st = ScalarType(r)
            setattr(self, name, st)
            return st
        return r

    # creation
    def _mk(self, shape, dtype, fn, name):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        for s in shape:
            t = toz(s)
            if not z3.is_int(t):
                raise TypeError("'float' object cannot be interpreted as an integer")
            if ENG.branch(t < 0):
                raise ValueError('negative dimensions are not allowed')
        return SymArr.new(list(shape), as_dtype(dtype or float), fn, name)

    def _const(self, val, name):
        def make(shape, dtype=None, order='C', **kw):
            if not anysym(shape):
                return getattr(_np, name)(shape, **undt(dict(dtype=dtype, order=order)))
            dt = as_dtype(dtype or float)
            v = z3.IntVal(val) if dt.kind in 'iub' else z3.RealVal(val)
            return self._mk(shape, dtype, lambda idx: v, name)
        return make

    @property
    def ones(self): return self._const(1, 'ones')

    @property
    def zeros(self): return self._const(0, 'zeros')

    def empty(self, shape, dtype=float, order='C', **kw):
        if not anysym(shape):
            return _np.empty(shape, **undt(dict(dtype=dtype)))
        dt = as_dtype(dtype)
        ENG.counter += 1
        nd = len(shape) if isinstance(shape, (tuple, list)) else 1
        f = z3.Function('uninit!%d' % ENG.counter, *([z3.IntSort()] * nd + [z3.IntSort() if dt.kind in 'iub' else z3.RealSort()]))
        r = self._mk(shape, dt, lambda idx: f(*idx), 'empty')
        r.buf.uninit = True
        return r

    def full(self, shape, val, dtype=None, **kw):
        if not anysym(shape, val):
            return _np.full(shape, val, **undt(dict(dtype=dtype)))
        dt = as_dtype(dtype) if dtype is not None else promote([val])
        v = toz(val)
        v = real(v) if dt.kind == 'f' else v
        return self._mk(shape, dt, lambda idx: v, 'full')

    def _like(self, a, dtype, order, maker):
        dt = as_dtype(dtype) if dtype is not None else a.dtype
        r = maker(a.shape, dtype=dt)
        if order in ('K', 'A') and a.is_contig() is not True:
            r._contig = a.is_contig()       # order='K': the layout of the prototype is kept
        return r

    def empty_like(self, a, dtype=None, order='K', **kw):
        if type(a) is not SymArr:
            return _np.empty_like(a, **undt(dict(dtype=dtype, order=order)))
        return self._like(a, dtype, order, self.empty)

    def zeros_like(self, a, dtype=None, order='K', **kw):
        if type(a) is not SymArr:
            return _np.zeros_like(a, **undt(dict(dtype=dtype, order=order)))
        return self._like(a, dtype, order, self.zeros)

    def ones_like(self, a, dtype=None, order='K', **kw):
        if type(a) is not SymArr:
            return _np.ones_like(a, **undt(dict(dtype=dtype, order=order)))
        return self._like(a, dtype, order, self.ones)

    def arange(self, *a, dtype=None, **kw):
        if not anysym(*a):
            return _np.arange(*a, **undt(dict(dtype=dtype)))
        if len(a) == 1:
            a = (0, a[0])
        step = a[2] if len(a) > 2 else 1
        if isinstance(step, int) and step == 1 and all(z3.is_int(toz(x)) for x in a):
            n = toz(a[1]) - toz(a[0])
            n = z3.If(n > 0, n, z3.IntVal(0))
            dt = as_dtype(dtype) if dtype is not None else _np.dtype('int64')
            lo = toz(a[0])
            mk = (lambda i: real(lo + i)) if dt.kind == 'f' else (lambda i: lo + i)
            return SymArr.new([n], dt, lambda v: mk(v[0]), 'arange')
        r = SymRange(a[0], a[1], step)
        dt = as_dtype(dtype) if dtype is not None else _np.dtype('int64')
        if dt.kind == 'f':
            return SymArr.new([r.n], dt, lambda v: real(toz(r.at(wrap(v[0])))), 'arange')
        return SymArr.new([r.n], dt, lambda v: toz(r.at(wrap(v[0]))), 'arange')

    def asarray(self, a, dtype=None, order=None, **kw):
        if type(a) is SymArr:
            r = a
            if dtype is not None and as_dtype(dtype) != a.dtype:
                r = copy_of(a, as_dtype(dtype), contig=None if order in (None, 'K', 'A') else True)
            if order == 'C':
                return self.ascontiguousarray(r)
            return r
        if isinstance(a, _Sym):
            x = a if dtype is None else cast_scalar(a, as_dtype(dtype))
            dt = as_dtype(dtype) if dtype is not None else a.dtype
            return SymArr.new([], dt, lambda v, t=toz(x): t, 'scalar')
        if type(a) is SymList:
            t0 = a.at(wrap(z3.Int('probe')))
            dt = as_dtype(dtype) if dtype is not None else _np.dtype('int64' if isinstance(t0, (int, SymInt)) else 'float64')
            return SymArr.new([toz(a.n)], dt, lambda v: toz(a.at(wrap(v[0]))), 'list')
        if anysym(a) and isinstance(a, (list, tuple)) and any(type(x) is SymArr and x.ndim or isinstance(x, (list, tuple)) for x in a):
            rows = [self.asarray(x) for x in a]
            rows = [from_concrete(x) if type(x) is not SymArr else x for x in rows]
            for r in rows[1:]:
                if r.ndim != rows[0].ndim or not ENG.entails(z3.And(*[p == q for p, q in zip(r._shape, rows[0]._shape)])):
                    raise Unsupported('array of arrays of different shapes')
            dt = as_dtype(dtype) if dtype is not None else promote(rows)
            snaps = [r.snapshot() for r in rows]

            def stack(v):
                r = snaps[-1](v[1:])
                for k in range(len(snaps) - 2, -1, -1):
                    x, r = coerce2(snaps[k](v[1:]), r)
                    r = z3.If(v[0] == k, x, r)
                return real(r) if dt.kind == 'f' else r
            return SymArr.new([len(rows)] + list(rows[0]._shape), dt, stack, 'stack')
        if anysym(a):
            items = [toz(x) for x in a]
            isr = any(z3.is_real(t) for t in items)
            dt = as_dtype(dtype) if dtype is not None else _np.dtype('float64' if isr else 'int64')
            items = [real(t) if dt.kind == 'f' else t for t in items]

            def fn(v):
                r = items[-1]
                for k in range(len(items) - 2, -1, -1):
                    r = z3.If(v[0] == k, items[k], r)
                return r
            return SymArr.new([len(items)], dt, fn, 'list')
        return _np.asarray(a, **undt(dict(dtype=dtype)))

    def array(self, a, dtype=None, copy=True, order='K', **kw):
        r = self.asarray(a, dtype=dtype)
        if r is a and copy:
            return copy_of(a, contig=None if order == 'K' else True)
        return r

    def ascontiguousarray(self, a, dtype=None):
        if type(a) is not SymArr:
            if anysym(a):
                return self.asarray(a, dtype)
            return _np.ascontiguousarray(a, **undt(dict(dtype=dtype)))
        if dtype is not None and as_dtype(dtype) != a.dtype:
            return copy_of(a, as_dtype(dtype))
        if a.is_contig() is True or ENG.branch(tob(a.is_contig())):
            return a
        return copy_of(a, contig=True)

    def require(self, a, dtype=None, requirements=None, **kw):
        if type(a) is not SymArr:
            return _np.require(a, **undt(dict(dtype=dtype, requirements=requirements)))
        r = self.asarray(a, dtype)
        req = ''.join(requirements or '').upper()
        if 'C' in req:
            if not (r.is_contig() is True or ENG.branch(tob(r.is_contig()))):
                r = copy_of(r, contig=True)
        if 'O' in req and r is a:
            r = copy_of(r, contig=True)
        return r

    def copy(self, a, order='K', **kw):
        if type(a) is not SymArr:
            return _np.copy(a, order=order)
        return copy_of(a, contig=None if order == 'K' else True)

    def frombuffer(self, obj, dtype=float, **kw):
        raise Unsupported('np.frombuffer')

    # structure
    def swapaxes(self, a, i, j):
        return a.swapaxes(i, j) if type(a) is SymArr else _np.swapaxes(a, i, j)

    def transpose(self, a, axes=None):
        if type(a) is not SymArr:
            return _np.transpose(a, axes)
        return a.transpose(*(axes or ()))

    def moveaxis(self, a, s, d):
        if type(a) is not SymArr:
            return _np.moveaxis(a, s, d)
        p = [i for i in range(a.ndim) if i != s % a.ndim]
        p.insert(d % a.ndim, s % a.ndim)
        return permute(a, p)

    def reshape(self, a, sh, **kw):
        return reshape(a, sh) if type(a) is SymArr else _np.reshape(a, sh, **kw)

    def squeeze(self, a, axis=None):
        return a.squeeze(axis) if type(a) is SymArr else _np.squeeze(a, axis)

    def expand_dims(self, a, axis):
        if type(a) is not SymArr:
            return _np.expand_dims(a, axis)
        key = [slice(None)] * a.ndim
        key.insert(axis % (a.ndim + 1), None)
        return a[tuple(key)]

    def flip(self, a, axis=None):
        if type(a) is not SymArr:
            return _np.flip(a, axis)
        ax = range(a.ndim) if axis is None else ([axis] if not isinstance(axis, (tuple, list)) else axis)
        ax = [x % a.ndim for x in ax]
        return a[tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim))]

    def fliplr(self, a): return self.flip(a, 1)
    def flipud(self, a): return self.flip(a, 0)

    def concatenate(self, arrs, axis=0, **kw):
        arrs = list(arrs)
        if not anysym(*arrs):
            return _np.concatenate(arrs, axis, **kw)
        arrs = [a if type(a) is SymArr else from_concrete(_np.asarray(a)) for a in arrs]
        axis = axis % arrs[0].ndim
        snaps = [a.snapshot() for a in arrs]
        offs = [z3.IntVal(0)]
        for a in arrs:
            offs.append(z3.simplify(offs[-1] + a._shape[axis]))
        for a in arrs[1:]:
            for j in range(a.ndim):
                if j != axis and not ENG.entails(a._shape[j] == arrs[0]._shape[j]):
                    if not ENG.branch(a._shape[j] == arrs[0]._shape[j]):
                        raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        dt = promote(arrs)

        def fn(v):
            r = None
            for k in range(len(arrs) - 1, -1, -1):
                w = list(v)
                w[axis] = v[axis] - offs[k]
                x = snaps[k](w)
                x = real(x) if dt.kind == 'f' else x
                r = x if r is None else z3.If(v[axis] < offs[k + 1], x, r)
            return r
        shape = list(arrs[0]._shape)
        shape[axis] = offs[-1]
        return SymArr.new(shape, dt, fn, 'concat')

    def vstack(self, arrs): return self.concatenate([a if a.ndim > 1 else a[None, :] for a in arrs], 0)
    def hstack(self, arrs): return self.concatenate(arrs, 1 if arrs[0].ndim > 1 else 0)

    def linspace(self, a, b, num=50, endpoint=True, dtype=None, **kw):
        if not anysym(a, b, num):
            return _np.linspace(a, b, num, endpoint=endpoint, **undt(dict(dtype=dtype)), **kw)
        if kw:
            raise Unsupported('numpy.linspace options')
        n = toz(num)
        if not ENG.branch(n >= 0):
            raise ValueError('Number of samples, must be non-negative.')
        lo, hi, div = real(toz(a)), real(toz(b)), (n - 1 if endpoint else n)
        one = ENG.branch(div == 0)
        dt = as_dtype(dtype) if dtype is not None else _np.dtype('float64')
        return SymArr.new([n], dt, lambda v: lo if one else lo + real(v[0]) * (hi - lo) / real(div), 'linspace')

    class _OGrid:
        def __getitem__(self, key):
            key = key if isinstance(key, tuple) else (key,)
            if not any(anysym(*[q for q in (k.start, k.stop, k.step) if q is not None]) for k in key):
                return _np.ogrid[key if len(key) > 1 else key[0]]
            out = []
            for i, k in enumerate(key):
                if k.step is not None:
                    raise Unsupported('numpy.ogrid with a step')
                lo, d = toz(0 if k.start is None else k.start), toz(k.stop) - toz(0 if k.start is None else k.start)
                n = d if z3.is_int(d) else -z3.ToInt(-d)
                n = z3.simplify(n)
                m = ENG.fresh('ogrid')
                ENG.assume(m == z3.If(n > 0, n, z3.IntVal(0)))
                shp = [z3.IntVal(1)] * len(key)
                shp[i] = m
                isr = any(z3.is_real(toz(q)) for q in (k.start, k.stop) if q is not None)
                fn = (lambda v, i=i, lo=lo: real(lo) + real(v[i])) if isr else (lambda v, i=i, lo=lo: lo + v[i])
                out.append(SymArr.new(shp, _np.dtype('float64' if isr else 'int64'), fn, 'ogrid'))
            return out if len(out) > 1 else out[0]
    ogrid = _OGrid()

    class _MGrid:
        def __getitem__(self, key):
            key = key if isinstance(key, tuple) else (key,)
            if not any(anysym(*[q for q in (k.start, k.stop, k.step) if q is not None]) for k in key):
                return _np.mgrid[key if len(key) > 1 else key[0]]
            o = NP.ogrid[key]
            o = o if isinstance(o, list) else [o]
            shp = [x._shape[i] for i, x in enumerate(o)]
            out = []
            for i, x in enumerate(o):
                snap = x.snapshot()
                out.append(SymArr.new(list(shp), x.dtype, lambda v, i=i, snap=snap: snap([v[j] if j == i else z3.IntVal(0) for j in range(len(shp))]), 'mgrid'))
            return out
    mgrid = _MGrid()

    def meshgrid(self, *xs, indexing='xy', **kw):
        if not anysym(*xs):
            return _np.meshgrid(*xs, indexing=indexing, **kw)
        if kw:
            raise Unsupported('numpy.meshgrid options')
        xs = [from_concrete(_np.asarray(x)) if type(x) is not SymArr else x for x in xs]
        pos = list(range(len(xs)))
        if indexing == 'xy' and len(xs) > 1:
            pos[0], pos[1] = 1, 0
        shp = [None] * len(xs)
        for x, p in zip(xs, pos):
            shp[p] = x._shape[0]
        return [SymArr.new(list(shp), x.dtype, lambda v, p=p, s=x.snapshot(): s([v[p]]), 'meshgrid') for x, p in zip(xs, pos)]

    def gradient(self, f, *d, axis=None, edge_order=1):
        if type(f) is not SymArr:
            return _np.gradient(f, *d, axis=axis, edge_order=edge_order)
        if edge_order != 1 or len(d) > 1 or len(d) == 1 and type(d[0]) is SymArr:
            raise Unsupported('numpy.gradient options')
        h = real(toz(d[0])) if d else z3.RealVal(1)
        axes = list(range(f.ndim)) if axis is None else [a % f.ndim for a in (axis if isinstance(axis, (tuple, list)) else [axis])]
        out, snap = [], f.snapshot()
        for ax in axes:
            n = f._shape[ax]
            if not ENG.branch(n >= 2):
                raise ValueError('Shape of array too small to calculate a numerical gradient')

            def fn(v, ax=ax, n=n):
                at = lambda i: real(snap([i if j == ax else v[j] for j in range(f.ndim)]))
                i = v[ax]
                return z3.If(i == 0, (at(z3.IntVal(1)) - at(z3.IntVal(0))) / h,
                             z3.If(i == n - 1, (at(n - 1) - at(n - 2)) / h, (at(i + 1) - at(i - 1)) / (2 * h)))
            out.append(SymArr.new(list(f._shape), f.dtype if f.dtype.kind == 'f' else _np.dtype('float64'), fn, 'gradient'))
        return out if len(out) > 1 or axis is None and f.ndim > 1 else out[0]

    def radians(self, x, **kw):
        if not anysym(x):
            return _np.radians(x, **kw)
        return x * (_np.pi / 180) if type(x) is SymArr else x * _np.pi / 180

    def square(self, a, out=None, **kw):
        if not anysym(a):
            return _np.square(a, out=out, **kw)
        return ewise([a, a], lambda x, y: x * y, None, out)

    def tensordot(self, a, b, axes=2):
        if not anysym(a, b):
            return _np.tensordot(a, b, axes=axes)
        a, b = NP.asarray(a), NP.asarray(b)
        a, b = [from_concrete(x) if type(x) is not SymArr else x for x in (a, b)]
        n = z3.simplify(a._shape[-1])
        if axes != 1 or not z3.is_int_value(n) or n.as_long() > 8:
            raise Unsupported('numpy.tensordot')
        if not ENG.entails(n == b._shape[0]):
            raise ValueError('shape-mismatch for sum')
        sa, sb, k = a.snapshot(), b.snapshot(), a.ndim - 1
        return SymArr.new(list(a._shape[:-1]) + list(b._shape[1:]), promote([a, b]), lambda v: z3.Sum(*[real(sa(v[:k] + [z3.IntVal(i)])) * real(sb([z3.IntVal(i)] + v[k:])) for i in range(n.as_long())]), 'tensordot')

    def tile(self, a, reps):
        if type(a) is not SymArr and not anysym(reps):
            return _np.tile(a, reps)
        a = self.asarray(a)
        a = from_concrete(a) if type(a) is not SymArr else a
        reps = [reps] if not isinstance(reps, (list, tuple)) else list(reps)
        reps = [1] * (a.ndim - len(reps)) + reps
        shp = [z3.IntVal(1)] * (len(reps) - a.ndim) + list(a._shape)
        for r in reps:
            if not ENG.branch(toz(r) >= 0):
                raise ValueError('negative dimensions are not allowed')
        snap = a.snapshot()
        out = [z3.simplify(toz(r) * n) for r, n in zip(reps, shp)]
        return SymArr.new(out, a.dtype, lambda v: snap([x % n if z3.simplify(n).sexpr() != '1' else z3.IntVal(0) for x, n in list(zip(v, shp))[len(reps) - a.ndim:]]), 'tile')

    def pad(self, a, pw, mode='constant', **kw):
        raise Unsupported('np.pad')

    # reductions and maths
    def mean(self, a, axis=None, dtype=None, **kw): return reduce_('mean', a, axis, 'f', dtype) if type(a) is SymArr else _np.mean(a, axis, **undt(dict(dtype=dtype)))

    def median(self, a, axis=None, **kw):
        if kw:
            raise TypeError("median() got an unexpected keyword argument %r" % list(kw)[0])
        return reduce_('median', a, axis, 'f') if type(a) is SymArr else _np.median(a, axis)

    def sum(self, a, axis=None, **kw): return reduce_('sum', a, axis) if type(a) is SymArr else _np.sum(a, axis)
    def min(self, a, axis=None, **kw): return reduce_('min', a, axis) if type(a) is SymArr else _np.min(a, axis)
    def max(self, a, axis=None, **kw): return reduce_('max', a, axis) if type(a) is SymArr else _np.max(a, axis)
    amin, amax = min, max
    def std(self, a, axis=None, **kw): return reduce_('std', a, axis, 'f') if type(a) is SymArr else _np.std(a, axis)

    def cumsum(self, a, axis=None, dtype=None, **kw):
        if type(a) is not SymArr:
            return _np.cumsum(a, axis)
        if a.ndim != 1:
            raise Unsupported('cumsum of a multi-dimensional array')
        return cumsum1(a)

    def where(self, c, *ab):
        if not anysym(c, *ab):
            return _np.where(c, *ab)
        if len(ab) != 2:
            raise Unsupported('np.where with one argument')
        def f3(c, a, b):
            a, b = coerce2(a, b)
            return z3.If(tob(c), a, b)
        args = [c, ab[0], ab[1]]
        shape = bshape([shape_of(x) for x in args])
        fns = [as_elem(x, shape) for x in args]
        dt = promote(list(ab))
        if not shape:
            return wrap(f3(*[g([]) for g in fns]))
        return SymArr.new(shape, dt, lambda v: (real if dt.kind == 'f' else (lambda t: t))(f3(*[g(v) for g in fns])), 'where')

    def clip(self, a, lo, hi, out=None, **kw):
        if not anysym(a, lo, hi):
            return _np.clip(a, lo, hi)
        def f(x, l, h):
            x, l = coerce2(x, l)
            x, h = coerce2(x, h)
            x, l = coerce2(x, l)
            return z3.If(x < l, l, z3.If(x > h, h, x))
        return ewise([a, lo, hi], f, None, out)

    def may_share_memory(self, a, b, **kw):
        if type(a) is SymArr and type(b) is SymArr:
            return a.buf is b.buf
        return False
    shares_memory = may_share_memory

    def isscalar(self, x):
        return isinstance(x, _Sym) or _np.isscalar(x)

    def size(self, a, axis=None):
        return a.size if axis is None else a.shape[axis]

    def ndim(self, a): return a.ndim if hasattr(a, 'ndim') else _np.ndim(a)
    def shape(self, a): return a.shape if hasattr(a, 'shape') else _np.shape(a)

    def round(self, x, nd=0, **kw):
        if isinstance(x, _Sym):
            return SymReal(real(round_half_even(real(toz(x)))))
        return _np.round(x, nd)
    around = round
    round_ = round

    def ceil(self, x, **kw):
        if isinstance(x, _Sym):
            return SymReal(-real(z3.ToInt(-real(toz(x)))))
        return ufunc_call('ceil', [x]) if type(x) is SymArr else _np.ceil(x, **kw)

    def floor(self, x, **kw):
        if isinstance(x, _Sym):
            return SymReal(real(z3.ToInt(real(toz(x)))))
        return ufunc_call('floor', [x]) if type(x) is SymArr else _np.floor(x, **kw)

    def abs(self, x, **kw): return builtins.abs(x) if anysym(x) else _np.abs(x)
    absolute = abs

    def isnan(self, x):
        return ufunc_call('isnan', [x]) if type(x) is SymArr else (False if isinstance(x, _Sym) else _np.isnan(x))

    def prod(self, a, axis=None, **kw):
        if anysym(a) and isinstance(a, (tuple, list)):
            r = 1
            for x in a:
                r = r * x
            return r
        return _np.prod(a, axis, **kw)


def _u1(name):
    def f(self, x, *a, **kw):
        out = kw.get('out') or (a[0] if a else None)
        if isinstance(x, _Sym):
            return SymReal(uf(name, real(toz(x))))
        if type(x) is SymArr:
            return ufunc_call(name, [x], out)
        return getattr(_np, name)(x, *a, **kw)
    return f


class _U2:
    def __init__(self, name): self.name = name

    def __call__(self, a, b, *rest, **kw):
        out = kw.get('out')
        if rest:
            out = rest[0]
        if anysym(a, b, out):
            return ufunc_call(self.name, [a, b], out)
        return getattr(_np, self.name)(a, b, *rest, **kw)

    def outer(self, a, b, **kw):
        if not anysym(a, b):
            return getattr(_np, self.name).outer(a, b, **kw)
        a, b = NP.asarray(a), NP.asarray(b)
        return self(a[tuple([slice(None)] * a.ndim + [None] * b.ndim)], b)

    def __getattr__(self, n):
        return getattr(getattr(_np, self.name), n)


def _u2(name):
    return _U2(name)


class FFTShim:
    def _shift(self, a, axes, sign, name):
        if type(a) is not SymArr:
            return getattr(_np.fft, name)(a, axes)
        axes = list(range(a.ndim)) if axes is None else [x % a.ndim for x in (axes if isinstance(axes, (tuple, list)) else [axes])]
        snap, sh = a.snapshot(), list(a._shape)

        def fn(v):
            v = list(v)
            for x in axes:
                h = sh[x] / 2
                d = v[x] - h if sign > 0 else v[x] + h
                v[x] = z3.If(d < 0, d + sh[x], z3.If(d >= sh[x], d - sh[x], d))
            return snap(v)
        return SymArr.new(sh, a.dtype, fn, name)

    def fftshift(self, a, axes=None): return self._shift(a, axes, 1, 'fftshift')
    def ifftshift(self, a, axes=None): return self._shift(a, axes, -1, 'ifftshift')

    def __getattr__(self, n):
        f = getattr(_np.fft, n)

        def g(*a, **k):
            if anysym(*a):
                raise Unsupported('numpy.fft.%s' % n)
            return f(*a, **k)
        return g


NumpyShim.fft = FFTShim()
NumpyShim.real = lambda self, a: a if anysym(a) else _np.real(a)


for _n in ('sqrt', 'sin', 'cos', 'exp', 'log', 'log2', 'tan'):
    setattr(NumpyShim, _n, _u1(_n))
for _n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'minimum', 'maximum', 'power', 'mod',
           'floor_divide', 'logical_and', 'logical_or', 'equal', 'less', 'greater', 'arctan2', 'hypot'):
    setattr(NumpyShim, _n, _u2(_n))


def cumsum1(a):
    """Prefix sums.  When the summand is piecewise constant in its index the closed form is
    guessed and then *proved* by induction (two obligations); otherwise only the recurrence."""
    snap = a.snapshot()
    n = a._shape[0]
    ENG.counter += 1
    P = z3.Function('prefix!%d' % ENG.counter, z3.IntSort(), z3.IntSort() if a.dtype.kind in 'iub' else z3.RealSort())
    k = z3.Int('k!ps')
    ENG.assume(P(0) == snap([z3.IntVal(0)]))
    ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < n), P(k) == P(k - 1) + snap([k])), patterns=[P(k)]))
    t = z3.simplify(snap([k]))
    pieces = piecewise(t, k)
    if pieces is not None:
        cond, x, y, l = pieces
        kp = k + 1
        closed = z3.If(kp <= l, kp * x, l * x + (kp - l) * y) if l is not None else kp * x
        hyp = list(ENG.pc)
        from .obl import valid
        base = valid(hyp, z3.substitute(closed, (k, z3.IntVal(0))) == z3.substitute(t, (k, z3.IntVal(0))))
        step = valid(hyp, z3.Implies(z3.And(k >= 1, k < n),
                                     closed == z3.substitute(closed, (k, k - 1)) + t))
        if base[0] == 'proved' and step[0] == 'proved':
            ENG.ledger.add(Obl(ENG.unit, 'lemma: closed form of the prefix sum (base)', 'proved', 'z3', base[1]))
            ENG.ledger.add(Obl(ENG.unit, 'lemma: closed form of the prefix sum (induction step)', 'proved', 'z3', step[1]))
            ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), P(k) == closed), patterns=[P(k)]))
    return SymArr.new([n], a.dtype, lambda v: P(v[0]), 'cumsum')


def piecewise(t, k):
    """t as  If(k < l, x, y)  with l, x, y free of k -> (cond, x, y, l); or a constant."""
    def free(e):
        return not contains(e, k)
    if free(t):
        return (None, t, t, None)
    atoms = []
    collect_ites(t, k, atoms)
    for c in atoms:
        l = None
        if z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c) or z3.is_not(c):
            l = bound_of(c, k)
        if l is None:
            continue
        probe_lo = z3.simplify(z3.substitute(t, (c, z3.BoolVal(True))))
        probe_hi = z3.simplify(z3.substitute(t, (c, z3.BoolVal(False))))
        for a, b in ((probe_lo, probe_hi), (probe_hi, probe_lo)):
            if free(a) and free(b):
                l0 = z3.If(l < 0, z3.IntVal(0), l)
                eq = z3.If(k < l0, a, b)
                if ENG.s.check(z3.And(k >= 0, t != eq)) == z3.unsat:
                    return (c, a, b, l0)
        # remaining conditions that are implied for k >= 0 (bounds of the view)
    # try with trivially true lower bounds removed
    return piecewise_search(t, k, atoms)


def piecewise_search(t, k, atoms):
    cands = []
    for c in atoms:
        l = bound_of(c, k)
        if l is not None:
            cands.append(l)
    for l in cands:
        l0 = z3.If(l < 0, z3.IntVal(0), l)
        x = z3.simplify(z3.substitute(t, (k, z3.IntVal(0))))
        big = ENG.fresh('big')
        y = None
        for sub in atoms_const(t, k, atoms):
            y = sub
            for xx in (x,) + tuple(atoms_const(t, k, atoms)):
                eq = z3.If(k < l0, xx, y)
                if ENG.s.check(z3.And(k >= 0, t != eq)) == z3.unsat:
                    return (None, xx, y, l0)
    return None


def atoms_const(t, k, atoms):
    outs = []
    import itertools
    for vals in itertools.product([True, False], repeat=min(len(atoms), 4)):
        e = t
        for c, v in zip(atoms, vals):
            e = z3.substitute(e, (c, z3.BoolVal(v)))
        e = z3.simplify(e)
        if not contains(e, k) and not any(z3.eq(e, o) for o in outs):
            outs.append(e)
    return outs


def collect_ites(t, k, out):
    seen = set()

    def rec(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_bool(e) and (z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e)) and contains(e, k):
            if not any(z3.eq(e, o) for o in out):
                out.append(e)
        for c in e.children():
            rec(c)
    rec(t)


def contains(e, k):
    seen, todo, want = set(), [e], k.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i == want:
            return True
        if i not in seen:
            seen.add(i)
            todo.extend(x.children())
    return False


def bound_of(c, k):
    """l such that c is equivalent to k < l or to k >= l (linear in k with coefficient +-1)."""
    if z3.is_not(c):
        return bound_of(c.arg(0), k)
    a, b = c.arg(0), c.arg(1)
    d = z3.simplify(a - b)
    d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
    d1 = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))))
    co = z3.simplify(d1 - d0)
    if not z3.is_int_value(co) or abs(co.as_long()) != 1:
        return None
    co = co.as_long()
    # a-b = co*k + d0
    if z3.is_le(c):      # co*k + d0 <= 0
        return z3.simplify(-d0 + 1) if co == 1 else z3.simplify(d0)
    if z3.is_lt(c):
        return z3.simplify(-d0) if co == 1 else z3.simplify(d0 + 1)
    if z3.is_ge(c):      # co*k + d0 >= 0
        return z3.simplify(-d0) if co == 1 else z3.simplify(d0 + 1)
    if z3.is_gt(c):
        return z3.simplify(-d0 + 1) if co == 1 else z3.simplify(d0)
    return None


NP = NumpyShim()


# ----------------------------------------------------------------------------------------------
# builtins / stdlib shims
# ----------------------------------------------------------------------------------------------
class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, _Sym):
            return cast_scalar(x, _np.dtype('int64'))
        if type(x) is SymArr:
            if x.ndim == 0:
                return cast_scalar(wrap(x.elem(())), _np.dtype('int64'))
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return builtins.int(x, *a)

    def __instancecheck__(cls, x): return builtins.isinstance(x, builtins.int) or builtins.isinstance(x, SymInt)


class sym_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, _Sym):
            return cast_scalar(x, _np.dtype('float64'))
        if type(x) is SymArr and x.ndim == 0:
            return cast_scalar(wrap(x.elem(())), _np.dtype('float64'))
        return builtins.float(x)

    def __instancecheck__(cls, x): return builtins.isinstance(x, builtins.float) or builtins.isinstance(x, SymReal)


class sym_float(metaclass=_FloatMeta):
    pass


def sym_isinstance(x, t):
    ts = t if builtins.isinstance(t, tuple) else (t,)
    for q in ts:
        if q is _np.ndarray and type(x) is SymArr:
            return True
        if q in (builtins.int, sym_int) and builtins.isinstance(x, SymInt):
            return True
        if q in (builtins.float, sym_float) and builtins.isinstance(x, SymReal):
            return True
        if q is builtins.bool and builtins.isinstance(x, SymBool):
            return True
        if q is builtins.list and type(x) is SymList:
            return True
        if builtins.isinstance(x, q):
            return True
    return False


def sym_len(x):
    if type(x) in (SymList, SymRange, SymArr):
        return x.length()
    return builtins.len(x)


def sym_range(*a):
    if anysym(*a):
        if len(a) == 1:
            a = (0, a[0])
        if len(a) == 2:
            a = (a[0], a[1], 1)
        return SymRange(*a)
    return builtins.range(*a)


def _seq(x):
    return type(x) in (SymList, SymRange, SymArr)


def sym_enumerate(x, start=0):
    if _seq(x):
        return SymList(x.length(), lambda k: (start + k, x.at(k)))
    return builtins.enumerate(x, start)


def sym_zip(*xs):
    if any(_seq(x) for x in xs):
        n = None
        for x in xs:
            m = toz(sym_len(x))
            n = m if n is None else (n if z3.eq(n, m) else z3.If(m < n, m, n))
        return SymList(wrap(n), lambda k: tuple(x.at(k) if _seq(x) else x[k] for x in xs))
    return builtins.zip(*xs)


def sym_list(x=()):
    if type(x) in (SymList,):
        return x
    if type(x) is SymRange:
        return SymList(x.length(), x.at)
    if type(x) is SymArr:
        return SymList(x.length(), x.at)
    return builtins.list(x)


def sym_map(f, *xs):
    if any(_seq(x) for x in xs):
        z = sym_zip(*xs)
        return SymList(z.n, lambda k: f(*z.at(k)))
    return builtins.map(f, *xs)


def _extreme(pick, less):
    def f(*a, **k):
        if len(a) == 1 and type(a[0]) in (SymList, SymArr):
            raise Unsupported('min or max of a symbolic sequence')
        xs = list(a[0]) if len(a) == 1 else list(a)
        # inside of a loop the smaller one is a term, not a case
        if k or not xs or ENG is None or not ENG.loops or not all(isinstance(x, (int, float, SymInt, SymReal)) for x in xs) or not anysym(*xs):
            return pick(*([xs] if len(a) == 1 else a), **k)
        r = toz(xs[0])
        for x in xs[1:]:
            x = toz(x)
            if z3.is_int(r) != z3.is_int(x):
                r, x = real(r), real(x)
            r = z3.If(less(x, r), x, r)
        return wrap(r)
    return f


sym_min, sym_max = _extreme(builtins.min, lambda x, r: x < r), _extreme(builtins.max, lambda x, r: x > r)


class Delegate:
    """A module seen through replacements for a few of its names."""
    def __init__(self, real_, **over):
        self.__dict__['_real'] = real_
        self.__dict__.update(over)

    def __getattr__(self, n): return getattr(self._real, n)
    def __setattr__(self, n, v): self.__dict__[n] = v


def _m1(name):
    f = getattr(_math, name)

    def g(x, *a):
        if isinstance(x, _Sym):
            if name == 'ceil':
                return x.__ceil__()
            if name == 'floor':
                return x.__floor__()
            return SymReal(uf(name, real(toz(x))))
        return f(x, *a)
    return g


MATH = Delegate(_math, **{n: _m1(n) for n in ('ceil', 'floor', 'sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'log2')})


# numexpr.evaluate: the expression string is parsed and evaluated element by element
class NumexprShim:
    def set_num_threads(self, n):
        ENG.calls.append(('ne.set_num_threads', n))
        return 1

    def evaluate(self, expr, local_dict=None, global_dict=None, out=None, **kw):
        fr = sys._getframe(1)
        env = dict(fr.f_globals)
        env.update(fr.f_locals)
        if global_dict:
            env.update(global_dict)
        if local_dict is not None:
            env = dict(local_dict)
        tree = ast.parse(expr.strip(), mode='eval').body
        names = sorted({n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} - {'where', 'log', 'exp', 'sqrt', 'sin', 'cos', 'abs', 'tan'})
        args = [env[n] for n in names]
        pos = {n: i for i, n in enumerate(names)}
        funcs = {'where': lambda c, a, b: (lambda p: z3.If(tob(c), p[0], p[1]))(coerce2(a, b)),
                 'log': lambda a: uf('log', real(a)), 'exp': lambda a: uf('exp', real(a)),
                 'sqrt': lambda a: uf('sqrt', real(a)), 'sin': lambda a: uf('sin', real(a)),
                 'cos': lambda a: uf('cos', real(a)), 'abs': lambda a: z3.If(a < 0, -a, a)}

        def ev(e, vals):
            if isinstance(e, ast.Name):
                return vals[pos[e.id]]
            if isinstance(e, ast.Constant):
                return toz(e.value)
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
                return -ev(e.operand, vals)
            if isinstance(e, ast.BinOp):
                a, b = ev(e.left, vals), ev(e.right, vals)
                if isinstance(e.op, ast.Pow):
                    if isinstance(e.right, ast.Constant) and e.right.value == 2:
                        return a * a
                    return uf('pow', real(a), real(b))
                if isinstance(e.op, (ast.BitAnd, ast.BitOr)):
                    return (z3.And if isinstance(e.op, ast.BitAnd) else z3.Or)(tob(a), tob(b))
                a, b = coerce2(a, b)
                if isinstance(e.op, ast.Add):
                    return a + b
                if isinstance(e.op, ast.Sub):
                    return a - b
                if isinstance(e.op, ast.Mult):
                    return a * b
                if isinstance(e.op, ast.Div):
                    return tdiv(a, b)
            if isinstance(e, ast.Compare) and len(e.ops) == 1:
                a, b = coerce2(ev(e.left, vals), ev(e.comparators[0], vals))
                op = type(e.ops[0])
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[op]
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in funcs:
                return funcs[e.func.id](*[ev(x, vals) for x in e.args])
            raise Unsupported('numexpr expression %r' % expr)
        shape = bshape([shape_of(a) for a in args] + ([shape_of(out)] if out is not None else []))
        fns = [as_elem(a, shape) for a in args]
        dt = promote(args, 'f' if '/' in expr or 'log' in expr else None)

        def fn(v):
            r = ev(tree, [g(v) for g in fns])
            if z3.is_bool(r):
                r = z3.If(r, z3.IntVal(1), z3.IntVal(0))
            return real(r) if dt.kind == 'f' else r
        if out is not None:
            if len(out._shape) != len(shape):
                raise ValueError('output shape')
            for a, b in zip(out._shape, shape):
                if not ENG.entails(a == b) and not ENG.branch(a == b):
                    raise ValueError('output shape')
            out.write(fn)
            return out
        return SymArr.new(shape, dt, fn, 'ne')


NE = NumexprShim()


class CVal:
    """A by-value ctypes argument."""
    def __init__(self, kind, value): self.kind, self.value = kind, value


class _CtypesMod:
    def __init__(self):
        import ctypes
        self._real = ctypes

    def __getattr__(self, n): return getattr(self._real, n)

    def _mk(kind):
        def f(self, x=0):
            if type(x) is SymArr and x.ndim == 0:
                x = wrap(x.elem(()))
            if isinstance(x, _np.ndarray) and x.ndim == 0:
                x = x.item()
            if kind in ('int', 'long', 'size_t') and not isinstance(x, (int, SymInt, _np.integer, SymBool)):
                raise TypeError("an integer is required (got %s)" % type(x).__name__)
            return CVal(kind, x)
        return f
    c_int, c_long, c_size_t, c_float = _mk('int'), _mk('long'), _mk('size_t'), _mk('float')
    c_double, c_uint, c_char_p = _mk('double'), _mk('uint'), _mk('char_p')

    def POINTER(self, t):
        name = getattr(t, '__name__', None)
        if name is None or name == 'f':
            name = getattr(getattr(t, '__func__', None), '__name__', 'x')
        return PtrType(CT.ctype_name(t))

    def ctype_name(self, t):
        for n in ('c_int', 'c_long', 'c_size_t', 'c_float', 'c_double', 'c_uint', 'c_char_p'):
            if t == getattr(self, n):
                return n
        return getattr(t, '__name__', str(t))


class PtrType:
    def __init__(self, name): self.name = name
    def __call__(self): return None


CT = _CtypesMod()


class LibShim:
    """A loaded C library: every call is recorded and handled by the contract of the C function."""
    handlers = {}

    def __init__(self, name): self.__dict__['_libname'] = name

    def __getattr__(self, fname):
        f = FnShim(self._libname, fname)
        self.__dict__[fname] = f
        return f


class FnShim:
    def __init__(self, lib, name):
        self.lib, self.name = lib, name
        self.restype = None
        self.argtypes = None

    def __call__(self, *args):
        ENG.calls.append(('C', self.name, args, self.restype))
        h = LibShim.handlers.get(self.name) or LibShim.handlers.get('*')
        if h is not None:
            return h(self.name, args)
        return None


# ----------------------------------------------------------------------------------------------
# loops
# ----------------------------------------------------------------------------------------------
class _Appender(list):
    """Stands for a list while one generic iteration runs; records what is appended."""
    def __init__(self, orig):
        super().__init__()
        self.orig = orig
        self.app = []

    def append(self, x): self.app.append(x)
    def extend(self, x): self.app.extend(x)

    def __getitem__(self, k): raise Unsupported('a loop reads the list it builds')
    def __iter__(self): raise Unsupported('a loop reads the list it builds')


class Missing:
    pass


MISSING = Missing()


class VC:
    """Entry points used by rewritten code (global name __vc__)."""
    loop_hook = None        # contract hook: called with (loop object) when a symbolic loop ends

    @staticmethod
    def is_sym(it):
        return type(it) in (SymList, SymRange, SymArr)

    @staticmethod
    def listcomp(it, f, cond=None):
        if type(it) in (SymList, SymRange, SymArr):
            if cond is not None:
                k = ENG.fresh('kc')
                ENG2 = ENG
                if not ENG.entails(z3.Implies(z3.And(k >= 0, k < toz(sym_len(it))), tob(cond(it.at(wrap(k)))))):
                    raise Unsupported('filtered comprehension over a symbolic sequence')
            return SymList(sym_len(it), lambda k: f(it.at(k)))
        if cond is None:
            return [f(x) for x in it]
        return [f(x) for x in it if cond(x)]

    @staticmethod
    def call1(f, x):
        if isinstance(f, type) and issubclass(f, _np.generic) and isinstance(x, _Sym):
            return cast_scalar(x, _np.dtype(f))
        return f(x)

    @staticmethod
    def loop(it, names, values):
        return Loop(it, names, values)


def _passing(fn):
    def f(b):
        r, ENG.reading = ENG.reading, 0
        ENG.passing += 1
        try:
            return fn(b)
        finally:
            ENG.reading = r
            ENG.passing -= 1
    return f


def _region(buf):
    o = ENG.loop_own
    return o(buf) if callable(o) else o.get(buf.name)


class Loop:
    """for x in <symbolic sequence>: one generic iteration k, 0 <= k < n, from an arbitrary state of
    the variables the body assigns.  Afterwards a variable must have changed by a k-independent
    amount (counter), follow the invariant the contract gives (ENG.loop_inv), have been appended to
    (list), or be dead.  An array that existed before must be written only in a part that belongs to
    iteration k (a row, or the region the contract gives in ENG.loop_own) and its earlier contents
    read only there; then its contents after the loop are those of iteration k with k the index of
    the row.  An array that is written elsewhere has unknown contents afterwards."""

    def __init__(self, it, names, values):
        self.it = it
        self.n = toz(sym_len(it))
        self.names = names
        self.pre = dict(zip(names, values))
        if not ENG.branch(self.n > 0):
            self.zero = True
            return
        self.zero = False
        ENG.counter += 1
        self.k = z3.Int('k!%d' % ENG.counter)
        self.forked = self.closed = False
        self.pre_fn, self.written, self.reads = {}, {}, []
        self.summary = {}
        ENG.assume(self.k >= 0, self.k < self.n)

    def mentions(self, c):
        return contains(c, self.k) or any(contains(c, q.t) for q in self.start.values() if isinstance(q, SymInt))

    def _logger(self, buf, fn):
        def f(b):
            if ENG.reading:
                if not self.closed:
                    self.reads.append((buf, list(b), list(ENG.guards)))
                elif buf in self.written and not ENG.passing:
                    raise Unsupported('a value of an earlier loop over %s is used after it' % buf.name)
            return fn(b)
        return f

    def enter(self):
        out = []
        self.start = {}
        for nm in self.names:
            v = self.pre[nm]
            if nm in ENG.loop_inv:
                f = ENG.loop_inv[nm]
                if v is not MISSING:
                    ENG.prove('loop invariant of %s holds at the start' % nm, toz(v) == f(z3.IntVal(0)))
                h = wrap(f(self.k))
            elif isinstance(v, (int, SymInt)) and not isinstance(v, bool):
                ENG.counter += 1
                h = SymInt(z3.Int('h_%s!%d' % (nm, ENG.counter)))
                self.start[nm] = h
            elif isinstance(v, list):
                h = _Appender(v)
                self.start[nm] = h
            else:
                h = MISSING
            out.append(h)
        for b in list(ENG.bufs):
            self.pre_fn[b] = b.fn
            b.fn = self._logger(b, b.fn)
        ENG.loops.append(self)
        return out

    def elem(self):
        return self.it.at(wrap(self.k))

    def exit(self, values):
        out = []
        n, k = self.n, self.k
        self._arrays()
        assert ENG.loops.pop() is self
        self.closed = True
        for nm, v in zip(self.names, values):
            p = self.pre[nm]
            s = self.start.get(nm)
            if v is MISSING:
                out.append(p)
                continue
            if nm in ENG.loop_inv:
                f = ENG.loop_inv[nm]
                ENG.prove('loop invariant of %s is kept' % nm, toz(v) == f(k + 1))
                out.append(wrap(f(n)))
                continue
            if self.forked:
                out.append(v.orig if isinstance(v, _Appender) and v is s and not v.app else Poison(nm))
                continue
            if isinstance(s, SymInt) and isinstance(v, (int, SymInt)):
                d = z3.simplify(toz(v) - s.t)
                if self.mentions(d):
                    out.append(Poison(nm))
                    continue
                out.append(wrap(toz(p) + n * d))
                continue
            if isinstance(s, _Appender):
                if v is not s:
                    out.append(Poison(nm))
                    continue
                if len(s.app) == 0:
                    out.append(s.orig)
                elif len(s.app) == 1 and len(s.orig) == 0:
                    e = s.app[0]
                    out.append(SymList(wrap(n), lambda j, e=e: subst(e, k, toz(j))))
                else:
                    out.append(Poison(nm))
                continue
            out.append(Poison(nm))
        ENG.done.append(self)
        if VC.loop_hook is not None:
            VC.loop_hook(self)
        return out

    def _entails(self, guards, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        s = solver(ENG.timeout_ms)
        s.add(*ENG.pc)
        s.add(*guards)
        s.add(z3.Not(c))
        return s.check() == z3.unsat

    def _pinned(self, buf):
        """The axis and offset d such that iteration k writes only where index - d == k."""
        for ax in range(len(buf.shape)):
            d = None
            for axes, shape in self.written[buf]:
                a = axes[ax]
                if a[0] != 'i' and not (isinstance(a[2], int) and a[2] == 1 and ENG.entails(shape[a[3]] <= 1)):
                    break
                x = z3.simplify(toz(a[1]) - self.k)
                if self.mentions(x) or (d is not None and not ENG.entails(d == x)):
                    break
                d = x
            else:
                return ax, d
        return None

    def _arrays(self):
        n, k = self.n, self.k
        news = {}
        for buf, pre in self.pre_fn.items():
            if buf not in self.written:
                if buf.fn.__qualname__.endswith('_logger.<locals>.f'):
                    buf.fn = pre
                continue
            b = [ENG.fresh('b') for _ in buf.shape]
            inside = [z3.And(x >= 0, x < s) for x, s in zip(b, buf.shape)]
            ENG.guards.extend(inside)
            buf.fn(b)                       # brings up every read that its contents depend on
            del ENG.guards[len(ENG.guards) - len(inside):]
            news[buf] = _passing(buf.fn)
        for buf, new in news.items():
            pre = self.pre_fn[buf]
            pin = self._pinned(buf)
            own = owner = None
            if ENG.owner is not None and pin is None:
                owner = ENG.owner(buf)
            if owner is not None:
                own = lambda b, kk, f=owner: f(b) == kk
            elif _region(buf) is not None:
                own = lambda b, kk, f=_region(buf): f(b, kk)
            elif pin is not None:
                own = lambda b, kk: b[pin[0]] - pin[1] == kk
            for rb, idx, guards in self.reads:
                if rb is buf and not self._entails(guards, own(idx, k) if own else z3.BoolVal(False)):
                    raise Unsupported('iteration reads what other iterations may have written to %s' % buf.name)
            self.summary[buf] = (pre, new, own)
            ENG.counter += 1
            tag = 'loop%d.%s' % (ENG.counter, buf.name)
            outer = [l.k for l in ENG.loops[:-1]]
            sort = z3.IntSort() if buf.dtype.kind in 'iub' else z3.RealSort()
            H = z3.Function(tag, *([z3.IntSort()] * (len(buf.shape) + len(outer)) + [sort])) if buf.shape or outer else None
            havoc = lambda b, H=H, outer=outer: H(*b, *outer) if H is not None else z3.Const(tag, sort)
            if owner is not None:
                b = [ENG.fresh('b') for _ in buf.shape]
                ins = [z3.And(x >= 0, x < s) for x, s in zip(b, buf.shape)]
                ENG.prove('iteration k writes to its own part of %s' % buf.name, z3.Implies(z3.And(*ins, z3.Not(own(b, k))), new(b) == pre(b)))

                def gen(b, pre=pre, new=new, owner=owner):
                    t = owner(b)
                    return z3.If(z3.And(t >= 0, t < n), z3.substitute(new(b), (k, t)), pre(b))
                buf.fn = havoc if self.forked else gen
            elif _region(buf) is not None:
                b = [ENG.fresh('b') for _ in buf.shape]
                ins = [z3.And(x >= 0, x < s) for x, s in zip(b, buf.shape)]
                k2 = ENG.fresh('k2')
                ENG.prove('what iteration k writes to %s is its own' % buf.name, z3.Implies(z3.And(*ins, z3.Not(own(b, k))), new(b) == pre(b)))
                ENG.prove('the parts of %s that the iterations own do not overlap' % buf.name,
                          z3.Implies(z3.And(*ins, own(b, k), own(b, k2), k2 >= 0, k2 < n), k == k2))
                buf.fn = lambda b, new=new, own=own, havoc=havoc: z3.If(own(b, k), new(b), havoc(b))
            elif pin is None:
                buf.fn = havoc
            elif self.forked:
                buf.fn = lambda b, pre=pre, new=new, pin=pin, havoc=havoc: z3.If(
                    b[pin[0]] - pin[1] == k, new(b), z3.If(z3.And(b[pin[0]] - pin[1] >= 0, b[pin[0]] - pin[1] < n), havoc(b), pre(b)))
            else:
                def gen(b, pre=pre, new=new, pin=pin):
                    t = b[pin[0]] - pin[1]
                    return z3.If(z3.And(t >= 0, t < n), z3.substitute(new(b), (k, t)), pre(b))
                buf.fn = gen


class Poison:
    """The value of a loop variable after a loop whose effect on it was not summarised."""
    def __init__(self, nm): self.__dict__['nm'] = nm

    def _u(self, *a, **k):
        raise Unsupported('value of %r after a loop over a symbolic sequence' % self.nm)
    __getattr__ = __call__ = __add__ = __radd__ = __bool__ = __lt__ = __gt__ = __eq__ = __getitem__ = __iter__ = __len__ = _u
    __hash__ = object.__hash__


def subst(e, k, t):
    """Replace the generic index k by t inside a value."""
    if isinstance(e, (SymInt, SymReal, SymBool)):
        return wrap(z3.substitute(e.t, (k, t)))
    if isinstance(e, slice):
        return slice(subst(e.start, k, t), subst(e.stop, k, t), subst(e.step, k, t))
    if isinstance(e, tuple):
        return tuple(subst(x, k, t) for x in e)
    if type(e) is list:
        return [subst(x, k, t) for x in e]
    if isinstance(e, dict):
        return {a: subst(b, k, t) for a, b in e.items()}
    if type(e) is SymArr:
        a = SymArr(e.buf, [z3.substitute(s, (k, t)) for s in e._shape],
                   [(x[0], z3.substitute(toz(x[1]), (k, t))) + tuple(x[2:]) for x in e.axes], e._contig)
        if hasattr(e, 'buf_contig'):
            a.buf_contig = e.buf_contig
        return a
    return e


class Rewriter(ast.NodeTransformer):
    """for/comprehension over a possibly symbolic sequence -> calls into VC.  On concrete
    sequences the rewritten code does exactly what the original does."""

    def __init__(self):
        self.n = 0

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if len(g.ifs) > 1 or any(isinstance(x, ast.NamedExpr) for x in ast.walk(node)):
            return node
        f = self._lam(g.target, node.elt)
        args = [g.iter, f]
        if g.ifs:
            args.append(self._lam(g.target, g.ifs[0]))
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()), attr='listcomp', ctx=ast.Load()),
            args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        # T(x) with a numpy scalar type T that is not named as numpy.T
        if len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred) \
                and (isinstance(node.func, ast.Name) and node.func.id not in dir(builtins) or isinstance(node.func, ast.Attribute) and node.func.attr == 'type'):
            return ast.copy_location(ast.Call(
                func=ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()), attr='call1', ctx=ast.Load()),
                args=[node.func, node.args[0]], keywords=[]), node)
        return node

    def _lam(self, target, body):
        if isinstance(target, ast.Name):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=target.id)], kwonlyargs=[],
                                                 kw_defaults=[], defaults=[]), body=body)
        # tuple target: lambda __t: (lambda a, b: body)(*__t)
        names = [n.id for n in ast.walk(target) if isinstance(n, ast.Name)]
        if not all(isinstance(e, ast.Name) for e in target.elts):
            # nested targets: a named helper would be needed; keep as generator
            pass
        inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[],
                                              kw_defaults=[], defaults=[]), body=body)
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__t')], kwonlyargs=[],
                                             kw_defaults=[], defaults=[]),
                          body=ast.Call(func=inner, args=[ast.Starred(value=ast.Name(id='__t', ctx=ast.Load()), ctx=ast.Load())],
                                        keywords=[]))

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        # break / continue / return belonging to this loop keep it out of the symbolic route
        bad = any(isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)) for b in node.body for x in _walk_same(b))
        cont = any(isinstance(x, ast.Continue) for b in node.body for x in _walk_same(b))
        names = []
        for b in node.body:
            for x in ast.walk(b):
                nm = None
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    nm = x.id
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend') \
                        and isinstance(x.func.value, ast.Name):
                    nm = x.func.value.id
                if nm and nm not in names and not nm.startswith('__vc'):
                    names.append(nm)
        tn = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        names = [n for n in names if n not in tn]
        self.n += 1
        it, h = '__vc_it%d' % self.n, '__vc_h%d' % self.n
        src_it = ast.unparse(node.iter)
        tgt = ast.unparse(node.target)
        nl = repr(names)
        import copy
        loop_body = copy.deepcopy(node.body)
        stmts = ast.parse(f'''
{it} = None
if __vc__.is_sym({it}):
    {h} = __vc__.loop({it}, {nl}, [locals().get(n, __vc_missing__) for n in {nl}])
    if not {h}.zero:
        pass
else:
    pass
''').body
        stmts[0].value = node.iter
        if bad or cont:
            sym = ast.parse("raise __vc_unsupported__('break/continue/return in a loop over a symbolic sequence')").body
            stmts[1].body = sym
        else:
            inner = stmts[1].body[1]
            pre = []
            if names:
                pre += ast.parse('[%s] = %s.enter()' % (', '.join(names), h)).body
            else:
                pre += ast.parse('%s.enter()' % h).body
            pre += ast.parse('%s = %s.elem()' % (tgt, h)).body
            post = []
            if names:
                post += ast.parse('[%s] = %s.exit([%s])' % (', '.join(names), h, ', '.join(names))).body
            else:
                post += ast.parse('%s.exit([])' % h).body
            inner.body = pre + loop_body + post
        orig = ast.For(target=node.target, iter=ast.Name(id=it, ctx=ast.Load()), body=node.body, orelse=[])
        stmts[1].orelse = [orig]
        for s in stmts:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return stmts


def _walk_same(b):
    """Nodes of b, not descending into nested loops (for break/continue) or functions."""
    stack = [b]
    while stack:
        x = stack.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                # a break inside belongs to the inner loop, a return does not
                for y in ast.walk(c):
                    if isinstance(y, ast.Return):
                        yield y
                continue
            stack.append(c)


SRC = '/repo/source'


class _Loader(importlib.abc.Loader):
    def __init__(self, path): self.path = path
    def create_module(self, spec): return None

    def exec_module(self, module):
        with open(self.path) as f:
            text = f.read()
        tree = ast.parse(text, self.path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        g = module.__dict__
        g['__vc__'] = VC
        g['__vc_missing__'] = MISSING
        g['__vc_unsupported__'] = Unsupported
        exec(compile(tree, self.path, 'exec'), g)
        shim_module(g)


def shim_module(g):
    import ctypes
    import multiprocessing
    over = {'int': sym_int, 'float': sym_float, 'len': sym_len, 'range': sym_range, 'enumerate': sym_enumerate,
            'zip': sym_zip, 'list': sym_list, 'isinstance': sym_isinstance, 'map': sym_map, 'min': sym_min, 'max': sym_max}
    for k, v in over.items():
        g.setdefault(k, v)
    try:
        import numexpr
    except ImportError:
        numexpr = None
    for k, v in list(g.items()):
        if v is _np:
            g[k] = NP
        elif v is _math:
            g[k] = MATH
        elif numexpr is not None and v is numexpr:
            g[k] = NE
        elif v is ctypes:
            g[k] = CT
        elif v is multiprocessing:
            g[k] = MP
        elif v is _math.ceil:
            g[k] = MATH.ceil
        elif v is _math.floor:
            g[k] = MATH.floor
        elif v is _math.sqrt:
            g[k] = MATH.sqrt


def _cpu_count():
    t = z3.Int('cpu_count')
    ENG.assume(t >= 1)
    return SymInt(t)


import multiprocessing as _mp  # noqa: E402
MP = Delegate(_mp, cpu_count=_cpu_count)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'tomopy' and not name.startswith('tomopy.'):
            return None
        rel = name.split('.')
        p = os.path.join(SRC, *rel)
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(f), submodule_search_locations=[p])
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(f))
        return None


_installed = False


def install():
    """Make `import tomopy` load /repo's sources through the rewriter, with the C libraries shimmed."""
    global _installed
    if _installed:
        return
    import ctypes
    import ctypes.util
    import warnings
    warnings.simplefilter('ignore')
    sys.meta_path.insert(0, _Finder())
    fl, ll = ctypes.util.find_library, ctypes.cdll.LoadLibrary
    ctypes.util.find_library = lambda n: ('shim:' + n) if n.startswith('tomo') else fl(n)
    ctypes.cdll.LoadLibrary = lambda n: LibShim(n[5:]) if str(n).startswith('shim:') else ll(n)
    import tomopy   # noqa: F401
    ctypes.util.find_library, ctypes.cdll.LoadLibrary = fl, ll
    _installed = True
