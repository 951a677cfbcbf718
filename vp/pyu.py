"""What the units on Python functions share: contracts that stand for the functions a unit does not
enter (thread pools, scipy filters, distribute_jobs, get_ncore_slices, the compiled functions)."""
import re
import types

from .obl import z3, Unsupported
from . import pysym as P

TRUST = {
    'pool': 'concurrent.futures: submit runs the call, result() returns its value or raises its exception',
    'nd': 'scipy.ndimage filters: the result at a pixel is a function of the filtered axes of the input alone, written to every element of output',
    'np': 'numpy, numexpr and ctypes do what their documentation says (closed forms in vp/pysym.py)',
    'dist': 'distribute_jobs applies the function to consecutive parts of the array (decided under C01)',
    'slices': 'get_ncore_slices covers the axis exactly once (proved under C01)',
}


def begin(L, unit, under=(), trust=(), timeout_ms=15000):
    P.install()
    L.under_contract(*under)
    L.trust(*[TRUST.get(t, t) for t in ('np',) + tuple(trust)])
    E = P.Engine(L, unit, timeout_ms=timeout_ms)
    return E


class Patched:
    """Module attributes replaced for the time of one unit."""

    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.old = [(m, n, getattr(m, n)) for m, n, v in self.items]
        for m, n, v in self.items:
            setattr(m, n, v)

    def __exit__(self, *a):
        for m, n, v in self.old:
            setattr(m, n, v)


def dims(E, *names, lo=1):
    out = []
    for n in names:
        t = z3.Int(n)
        E.assume(t >= lo)
        out.append(t)
    return out


def index(E, shape, pre='v'):
    v = [z3.Int('%s%d' % (pre, i)) for i in range(len(shape))]
    for x, s in zip(v, shape):
        E.assume(x >= 0, x < P.toz(s))
    return v


def same_shape(E, what, arr, shape):
    if arr.ndim != len(shape):
        E.fail(what, 'rank %d instead of %d' % (arr.ndim, len(shape)))
        raise P.StopPath()
    E.prove(what, z3.And(*[a == P.toz(b) for a, b in zip(arr._shape, shape)]) if shape else z3.BoolVal(True))


def only(unit, *keep):
    """The obligations of a unit whose names contain one of `keep`."""
    def run(L):
        L.keep = keep
        try:
            unit(L)
        finally:
            L.keep = None
    return run


def untouched(E, out, *inputs):
    """No input was written to, and the result shares no memory with them."""
    E.prove('the inputs are not changed', z3.BoolVal(all(a.buf.writes == 0 for a in inputs)))
    outs = out if isinstance(out, (tuple, list)) else [out]
    E.prove('the result shares no memory with the inputs', z3.BoolVal(all(o.buf is not a.buf for o in outs for a in inputs)))


# ---------------------------------------------------------------- thread pools
class Future:
    def __init__(self, fn, a, k):
        self.value = self.exc = None
        try:
            self.value = fn(*a, **k)
        except (P.Infeasible, P.StopPath, Unsupported):
            raise
        except Exception as e:
            self.exc = e
        ENG_futures().append(self)
        self.seen = False

    def result(self, timeout=None):
        self.seen = True
        if self.exc is not None:
            raise self.exc
        return self.value

    def exception(self, timeout=None):
        self.seen = True
        return self.exc


def ENG_futures():
    E = P.ENG
    if getattr(E, '_fut_pc', None) is not E.pc:
        E._fut_pc, E.futures = E.pc, []
    return E.futures


class Pool:
    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and P.ENG.branch(P.toz(max_workers) <= 0):
            raise ValueError('max_workers must be greater than 0')
        self.n = max_workers

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def submit(self, fn, *a, **k): return Future(fn, a, k)
    def shutdown(self, *a, **k): pass

    def map(self, fn, *its, **kw):
        return P.sym_list(P.sym_map(fn, *its)) if len(its) == 1 else [fn(*x) for x in zip(*its)]


CF = types.SimpleNamespace(ThreadPoolExecutor=Pool, ProcessPoolExecutor=Pool,
                           as_completed=lambda fs: fs, wait=lambda fs, **k: (fs, set()), ALL_COMPLETED='ALL_COMPLETED', FIRST_EXCEPTION='FIRST_EXCEPTION')


# ---------------------------------------------------------------- scipy.ndimage
def _canon(buf):
    b = [z3.Int('canon!%d' % i) for i in range(len(buf.shape))]
    x = P.read_fn(buf.fn, b)
    return z3.simplify(P.real(x) if z3.is_int(x) else x)


_KEYS = {}


def _num(x):
    if isinstance(x, P._Sym):
        return 'sym:' + z3.simplify(x.t).sexpr()
    if isinstance(x, (list, tuple)):
        return [_num(y) for y in x]
    return repr(x)


def filter_value(name, arr, axes, params):
    """v -> the value of the filter over the buffer axes `axes` of arr, at buffer index v: one
    uninterpreted function for the same contents, axes and parameters."""
    ks = [l.k for l in P.ENG.loops]
    for k in ks:
        if any(P.contains(s, k) for s in arr.buf.shape):
            raise Unsupported('filter over an array of changing shape')
    x = _canon(arr.buf)
    key = (name, x.sexpr(), tuple(s.sexpr() for s in arr.buf.shape), tuple(axes), repr(params))
    whole = name == 'median_filter' and z3.is_to_real(x)        # the median of integers is one of them
    f = z3.Function('%s#%d' % (name, _KEYS.setdefault(key, len(_KEYS))), *([z3.IntSort()] * len(arr.buf.shape) + [z3.IntSort() if whole else z3.RealSort()]))
    if whole:
        return lambda b: z3.ToReal(f(*b))
    return lambda b: f(*b)


def _filter(name):
    def run(input, *args, **kw):
        input = P.NP.asarray(input)
        out = kw.pop('output', None)
        sig = {'median_filter': ['size'], 'gaussian_filter': ['sigma'], 'sobel': ['axis'], 'uniform_filter': ['size']}[name]
        for n, a in zip(sig, args):
            kw[n] = a
        if len(args) > len(sig):
            raise Unsupported('%s positional arguments' % name)
        size = kw.get('size')
        per = list(size) if isinstance(size, (list, tuple)) else None
        if per is not None and len(per) != input.ndim:
            raise RuntimeError('size must have one entry per axis')
        axes, desc = [], []
        for ax, a in enumerate(input.axes):
            if a[0] == 'i':
                continue
            s = per[a[3]] if per is not None else None
            if per is not None and isinstance(s, int) and s == 1:
                continue
            full = isinstance(a[2], int) and a[2] == 1 and P.ENG.entails(z3.And(P.toz(a[1]) == 0, input._shape[a[3]] == input.buf.shape[ax]))
            if not full:
                raise Unsupported('filter along a cut axis')
            axes.append(ax)
            desc.append(_num(s if per is not None else size))
        par = (desc, sorted((k, _num(v)) for k, v in kw.items() if k != 'size'))
        g = filter_value(name, input, axes, par)
        snap = lambda v, me=input: g(me.bidx(v))
        P.ENG.calls.append(('filter', name, input, axes, par, out))
        if out is None:
            return P.SymArr.new(list(input._shape), input.dtype, snap, name)
        if isinstance(out, P.SymArr.__mro__[0]) is False and type(out) is not P.SymArr:
            return P.SymArr.new(list(input._shape), P.as_dtype(out), snap, name)
        same = z3.And(*[a == b for a, b in zip(out._shape, input._shape)]) if len(out._shape) == len(input._shape) else z3.BoolVal(False)
        if not P.ENG.entails(same) and not P.ENG.branch(same):
            raise RuntimeError('output shape not correct')
        out.write(snap)
        return out
    return run


class _NS(types.SimpleNamespace):
    def __getattr__(self, n):
        raise Unsupported('%s.%s' % (self.__dict__.get('_nm', 'module'), n))


NDIMAGE = _NS(_nm='scipy.ndimage', median_filter=_filter('median_filter'), gaussian_filter=_filter('gaussian_filter'), sobel=_filter('sobel'))
SCIPY = _NS(_nm='scipy', ndimage=NDIMAGE)


# ---------------------------------------------------------------- get_ncore_slices
class Split:
    """The contract of get_ncore_slices: worker count c and slices [O(i), O(i+1)) that cover [0, n)."""

    def __init__(self):
        self.seen = []

    def __call__(self, axis_size, ncore=None, nchunk=None):
        E = P.ENG
        n = P.toz(axis_size)
        if not E.branch(n >= 1):
            raise ValueError('nothing to split')
        E.counter += 1
        i = E.counter
        one = isinstance(nchunk, int) and nchunk == 0 or nchunk is not None and P.anysym(nchunk) and E.branch(P.toz(nchunk) == 0)
        if nchunk is not None:
            # any number of workers, and n single indices or some parts
            w = z3.Int('threads!%d' % i)
            E.assume(w >= 1, w <= n)
            if one:
                self.seen.append((n, n, lambda k: k, lambda b: b))
                return P.wrap(w), P.SymList(P.wrap(n), lambda j: P.wrap(P.toz(j)))
        c, O, W = z3.Int('workers!%d' % i), z3.Function('start!%d' % i, z3.IntSort(), z3.IntSort()), z3.Function('owner!%d' % i, z3.IntSort(), z3.IntSort())
        b, k = z3.Ints('b k')
        E.assume(c >= 1, c <= n, O(0) == 0, O(c) == n)
        E.assume(z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < n), z3.And(W(b) >= 0, W(b) < c, O(W(b)) <= b, b < O(W(b) + 1))), patterns=[W(b)]))
        E.assume(z3.ForAll([b, k], z3.Implies(z3.And(k >= 0, k < c, O(k) <= b, b < O(k + 1)), W(b) == k), patterns=[z3.MultiPattern(W(b), O(k))]))
        E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c), z3.And(O(k) >= 0, O(k) < O(k + 1), O(k + 1) <= n)), patterns=[O(k)]))
        self.seen.append((n, c, O, W))

        def part(j):
            j = P.toz(j)
            E.assume(z3.Implies(z3.And(j >= 0, j < c), z3.And(O(j) >= 0, O(j) < O(j + 1), O(j + 1) <= n)))
            return slice(P.wrap(O(j)), P.wrap(O(j + 1)))
        return P.wrap(c if nchunk is None else w), P.SymList(P.wrap(c), part)


# ---------------------------------------------------------------- distribute_jobs
class Distribute:
    """The contract of distribute_jobs, for one arbitrary part [a, b) of the axis (or index, for
    nchunk=0): the function is applied to that part of a copy.  What a unit proves about the
    result it must prove for indices of the part, `self.part(E, v)`."""

    def __init__(self):
        self.calls = []

    def __call__(self, arr, func, axis, args=None, kwargs=None, ncore=None, nchunk=None, out=None):
        E = P.ENG
        arrs = [arr] if type(arr) is P.SymArr else list(arr)
        n = arrs[0]._shape[axis]
        if not E.branch(n >= 1):
            raise Unsupported('nothing to distribute')
        E.counter += 1
        a, b = z3.Int('part_lo!%d' % E.counter), z3.Int('part_hi!%d' % E.counter)
        one = isinstance(nchunk, int) and nchunk == 0
        if not one and nchunk is not None and P.anysym(nchunk):
            one = E.branch(P.toz(nchunk) == 0)
        E.assume(a >= 0, a < b, b <= n, *([b == a + 1] if one else []))
        work = [P.copy_of(x, name='shared') for x in arrs]
        res = P.copy_of(work[-1], name='out') if False else work[-1]
        if out is not None:
            for x, w in zip(arrs, work):
                if x.buf is out.buf:
                    res = w
                    break
            else:
                res = P.copy_of(out, name='shared_out')
        key = P.wrap(a) if one else slice(P.wrap(a), P.wrap(b))
        cut = lambda x: x[tuple(slice(None) if i != axis % x.ndim else key for i in range(x.ndim))]
        self.calls.append((func, axis, args, kwargs, nchunk, a, b))
        r = func(*[cut(w) for w in work], *(args or ()), **(kwargs or {}))
        if type(r) is P.SymArr:
            cut(res)[...] = r
        self.a, self.b, self.axis, self.n = a, b, axis, n
        if out is not None:
            out.write(lambda v, s=res.snapshot(): s(v))
            return out
        return res

    def part(self, E, v):
        E.assume(v[self.axis] >= self.a, v[self.axis] < self.b)


# ---------------------------------------------------------------- compiled functions
CT = {'float': 'float32', '_Bool': 'bool', 'bool': 'bool', 'unsigned short': 'uint16', 'uint16_t': 'uint16', 'int': 'int32', 'unsigned char': 'uint8', 'char': 'char', 'double': 'float64'}


class _Arr:
    def __init__(self, sym, name):
        self.sym, self.name = sym, name

    def at(self, i):
        s = self.sym
        if s.ndim == 1 and s.axes[0][0] == 's':
            x = s.elem([P.toz(i)])
        else:
            x = z3.Function('contents!%d' % s.buf.id, z3.IntSort(), z3.RealSort())(P.toz(i))
        return x
    __call__ = at


class Bridge:
    """Checks a call of a compiled function against its C contract: the number and the types of the
    arguments as ctypes passes them against the prototype in the source, the element type, the
    contiguity and the size of every array, and the precondition.  After the call the arrays the
    contract lets it write hold unknown values."""

    def __init__(self, E, cons, tus, value=None):
        self.E, self.cons, self.tus = E, cons, tus
        self.calls = []
        self.value = value or {}

    def params(self, name):
        for tu in self.tus:
            f = tu['functions'].get(name)
            if f is not None:
                return [(p['name'], p['type']['qualType']) for p in f['inner'] if p['kind'] == 'ParmVarDecl']
        return None

    def __call__(self, name, args):
        E = self.E
        ps = self.params(name)
        con = self.cons.get(name)
        if ps is None or con is None:
            raise Unsupported('no contract on the compiled function %s' % name)
        if len(ps) != len(args):
            E.fail('%s gets as many arguments as it takes' % name, '%d instead of %d' % (len(args), len(ps)))
            raise P.StopPath()
        c = types.SimpleNamespace(ret=None)
        arrs = {}
        for (pn, qt), a in zip(ps, args):
            t = qt.replace('const', '').strip()
            if t.endswith('*'):
                el = CT.get(t[:-1].strip(), t[:-1].strip())
                if not isinstance(a, P.SymPtr):
                    if isinstance(a, P.CVal) and a.kind == 'char_p' and el == 'char':
                        setattr(c, pn, a)
                        continue
                    E.fail('%s: %s is a pointer' % (name, pn), 'got %r' % type(a).__name__)
                    raise P.StopPath()
                arr = a.arr
                arrs[pn] = arr
                if type(arr) is not P.SymArr:
                    arr = arrs[pn] = P.from_concrete(arr)
                E.prove('%s: %s has elements of type %s' % (name, pn, el), z3.BoolVal(str(arr.dtype) == el), where='got ' + str(arr.dtype))
                E.prove('%s: %s is contiguous' % (name, pn), P.tob(arr.is_contig()))
                setattr(c, pn, _Arr(arr, pn))
            else:
                if not isinstance(a, P.CVal):
                    E.fail('%s: %s is passed by value' % (name, pn), 'got %r' % type(a).__name__)
                    raise P.StopPath()
                want = {'int': 'int', 'float': 'float', 'long': 'long', 'double': 'double', 'unsigned int': 'uint', 'size_t': 'size_t'}.get(t, t)
                E.prove('%s: %s is passed as %s' % (name, pn, want), z3.BoolVal(a.kind == want), where='passed as ' + a.kind)
                setattr(c, pn, P.toz(a.value))
        for i, (f, _) in enumerate(ps):
            if i < len(con.params) and con.params[i] != f:
                # the contract names its parameters by position
                setattr(c, con.params[i], getattr(c, f))
        real_ = dict(zip(con.params, [p for p, _ in ps]))
        for p, sz in con.sizes.items():
            if real_.get(p, p) in arrs:
                arr = arrs[real_.get(p, p)]
                E.prove('%s: %s is as large as it needs' % (name, p), P.toz(arr.size) >= P.toz(sz(c)))
        for nm, f in con.requires(c):
            E.prove('%s: %s' % (name, nm), f)
        self.calls.append((name, c, arrs))
        for p in con.writes:
            arr = arrs.get(real_.get(p, p))
            if arr is None:
                continue
            if name in self.value:
                v = self.value[name](p, c, arrs)
                if v is not None:
                    arr.write(v)
                    continue
            E.counter += 1
            ks = [l.k for l in E.loops]
            srt = z3.IntSort() if arr.dtype.kind in 'iub' else z3.RealSort()
            F = z3.Function('%s.%s!%d' % (name, p, E.counter), *([z3.IntSort()] * (arr.ndim + len(ks)) + [srt]))
            arr.write(lambda v, F=F, ks=ks: F(*v, *ks))
        return 0

    def install(self):
        from .pysym import LibShim
        LibShim.handlers['*'] = self
        return self


def c_function(name, arrs, scal):
    """An uninterpreted value of a compiled function: the same for the same contents and arguments."""
    key = (name, tuple((n, _canon_view(a)) for n, a in arrs), tuple(_num(P.wrap(s)) if z3.is_expr(s) else repr(s) for s in scal))
    return _KEYS.setdefault(key, len(_KEYS))


def _canon_view(a):
    v = [z3.Int('canon!%d' % i) for i in range(a.ndim)]
    return z3.simplify(a.elem(v)).sexpr(), tuple(z3.simplify(s).sexpr() for s in a._shape)
