"""C10: median, outlier, gaussian, sobel and masking filters."""
from ..obl import z3
from .. import pyu as U, pysym as P, misc_c as M

ORACLE_S = 40
ORACLE_WHAT = ('every filter on the real code against a direct evaluation of its definition, with random shapes (down to length one), axes, window sizes, thresholds, '
               'element types, memory layouts and worker counts')
CORR = 'tomopy.misc.corr.'


def _patch(m, split=None):
    import tomopy.util.mproc as mp
    items = [(m, 'cf', U.CF), (m, 'scipy', U.SCIPY)]
    if split is not None:
        items.append((mp, 'get_ncore_slices', split))
    return U.Patched(*items)


def _slicewise(fname, filt, par, dtypes=('float32', 'float64', 'int32'), axes=(0, 1, 2, -1)):
    def run(L):
        import_ = U.begin(L, fname, [CORR + fname], ['pool', 'nd'])
        E = import_
        import tomopy.misc.corr as m
        for dt in dtypes:
            for axis in axes:
                def body():
                    s = U.dims(E, 'n0', 'n1', 'n2')
                    arr = P.SymArr.input('arr', s, dt)
                    nc = P.SymInt(z3.Int('ncore'))
                    E.assume(nc.t >= 1)
                    kw, want = par(E)
                    out = getattr(m, fname)(arr, axis=axis, ncore=nc, **kw)
                    U.same_shape(E, 'the result has the shape of the input', out, s)
                    E.prove('the result is float32', z3.BoolVal(out.dtype == 'float32'))
                    v = U.index(E, s)
                    ref = P.NP.asarray(arr, dtype='float32') if dt != 'float32' else arr
                    fax = [i for i in range(3) if i != axis % 3]
                    g = U.filter_value(filt, ref, fax, want(len(fax)))
                    E.prove('every slice along the axis is filtered by itself', out.elem(v) == g(v))
                    E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
                with _patch(m):
                    E.explore(body)
    return run


def _size(E):
    s = P.SymInt(z3.Int('size'))
    E.assume(s.t >= 1)
    return {'size': s}, lambda n: ([U._num(s)] * n, [])


def _gauss(E):
    s = P.SymReal(z3.Real('sigma'))
    o = P.SymInt(z3.Int('order'))
    return {'sigma': s, 'order': o}, lambda n: ([U._num(None)] * n, sorted([('sigma', U._num(s)), ('order', U._num(o))]))


def _none(E):
    return {}, lambda n: ([U._num(None)] * n, [])


def _outlier(one_d):
    fname = 'remove_outlier1d' if one_d else 'remove_outlier'

    def run(L):
        E = U.begin(L, fname, [CORR + fname], ['pool', 'nd', 'slices'])
        import tomopy.misc.corr as m
        for dt, axis, given in [('float32', a, g) for a in (0, 1, 2, -1) for g in (False, True)] + [(d, a, False) for d in ('float64', 'uint16') for a in (0, 1, 2)]:
            if True:
                def body():
                    s = U.dims(E, 'n0', 'n1', 'n2')
                    arr = P.SymArr.input('arr', s, dt)
                    size, dif = P.SymInt(z3.Int('size')), P.SymReal(z3.Real('dif'))
                    nc = P.SymInt(z3.Int('ncore'))
                    E.assume(size.t >= 2, nc.t >= 1)
                    o = P.SymArr.input('out', s, 'float32') if given else None
                    split = U.Split()
                    E.owner = lambda buf: (lambda b: _own(split, b)) if split.seen else None
                    cut = [None]

                    def _own(sp, b):
                        return sp.seen[-1][3](b[cut[0]])
                    if one_d:
                        # the axis that is cut is whichever of the others is longest
                        oth = [i for i in range(3) if i != axis % 3]
                        cut[0] = oth[0] if E.branch(s[oth[0]] >= s[oth[1]]) else oth[1]
                    else:
                        cut[0] = axis % 3
                    with _patch(m, split):
                        out = getattr(m, fname)(arr, dif, size=size, axis=axis, ncore=nc, out=o)
                    U.same_shape(E, 'the result has the shape of the input', out, s)
                    if given:
                        E.prove('the result is put into out', z3.BoolVal(out is o))
                    v = U.index(E, s)
                    fax = [axis % 3] if one_d else [i for i in range(3) if i != axis % 3]
                    p = ([U._num(size)] * len(fax), sorted([('mode', U._num('mirror'))]) if one_d else [])
                    f0 = P.SymArr.input('arr', s, dt)
                    f0 = P.NP.asarray(f0, dtype='float32') if dt != 'float32' else f0
                    med = U.filter_value('median_filter', f0, fax, p)(v)
                    x = f0.elem(v)
                    E.prove('a pixel that exceeds its median by dif or more becomes the median, any other stays', out.elem(v) == z3.If(x - med >= dif.t, med, x))
                    E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
                E.explore(body)
    return run


def _median3d(fname):
    def run(L):
        from .. import cast
        E = U.begin(L, fname, [CORR + fname, 'tomopy.util.extern.misc.c_median_filt3d_float32', 'tomopy.util.extern.misc.c_median_filt3d_uint16'])
        import tomopy.misc.corr as m
        tu = cast.parse(M.M + 'median_filt3d.c')
        for dt in ('float32', 'uint16', 'float64', 'int16'):
            def body():
                s = U.dims(E, 'n0', 'n1', 'n2')
                arr = P.SymArr.input('arr', s, dt)
                size, nc = P.SymInt(z3.Int('size')), P.SymInt(z3.Int('ncore'))
                E.assume(size.t >= 1, nc.t >= 1)
                F = {}

                def value(p, c, arrs):
                    a = arrs['Input']
                    F['in'], F['out'], F['c'] = a, arrs['Output'], c
                    F['init'] = arrs['Output'].snapshot()
                    f = F['f'] = z3.Function('median3d', *([z3.IntSort()] * 3 + [z3.RealSort() if a.dtype.kind == 'f' else z3.IntSort()]))
                    return lambda v: f(*v)
                br = U.Bridge(E, M.MEDMAIN, [tu], {n: value for n in M.MEDMAIN}).install()
                kw = {}
                if fname == 'remove_outlier3d':
                    d = P.SymReal(z3.Real('dif'))
                    E.assume(d.t > 0)
                    out = m.remove_outlier3d(arr, d, size=size, ncore=nc)
                else:
                    out = m.median_filter3d(arr, size=size, ncore=nc)
                if not E.prove('the compiled filter is called once', z3.BoolVal(len(br.calls) == 1)):
                    raise P.StopPath()
                nm, c, arrs = br.calls[0]
                E.prove('integer data of 16 bit is filtered as such, anything else as float32', z3.BoolVal(nm == 'medianfilter_main_' + ('uint16' if dt == 'uint16' else 'float')))
                U.same_shape(E, 'the result has the shape of the input', out, s)
                v = U.index(E, s)
                x = P.SymArr.input('arr', s, dt).elem(v)
                E.prove('the filter gets the input', P.real(F['in'].elem(v)) == P.real(x))
                E.prove('the result is what the filter puts out', out.elem(v) == F['f'](*v))
                E.prove('the sizes are given fastest first', z3.And(c.dimX == s[2], c.dimY == s[1], c.dimZ == s[0]))
                E.prove('the radius is that of the next odd window of three or more', c.radius == (z3.If(size.t > 3, size.t, z3.IntVal(3)) - 1) / 2)
                E.prove('the threshold is the one given', P.real(c.mu_threshold) == (z3.Real('dif') if fname == 'remove_outlier3d' else z3.RealVal(0)))
                E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
            E.explore(body)
    return run


def _neg(L):
    E = U.begin(L, 'remove_neg', [CORR + 'remove_neg'])
    import tomopy.misc.corr as m
    for dt in ('float32', 'float64', 'int32'):
        def body():
            s = U.dims(E, 'n0', 'n1', 'n2', lo=0)
            arr, val = P.SymArr.input('arr', s, dt), P.SymReal(z3.Real('val'))
            out = m.remove_neg(arr, val=val)
            U.same_shape(E, 'the result has the shape of the input', out, s)
            v = U.index(E, s)
            x = P.real(P.SymArr.input('arr', s, dt).elem(v))
            E.prove('negative values are replaced and nothing else', out.elem(v) == z3.If(x < 0, val.t, x))
        E.explore(body)


def _range(L):
    E = U.begin(L, "adjust_range", [CORR + "adjust_range"], ["a minimum or maximum is one of the elements and bounds them all"])
    import tomopy.misc.corr as m
    for lo in (False, True):
        for hi in (False, True):
            def body():
                s = U.dims(E, 'n0', 'n1', 'n2')
                arr = P.SymArr.input('arr', s, 'float32')
                a, b = (P.SymReal(z3.Real('dmin')) if lo else None), (P.SymReal(z3.Real('dmax')) if hi else None)
                if lo and hi:
                    E.assume(a.t <= b.t)
                elif hi:
                    E.assume(b.t >= P.reduce_('min', arr).t)
                elif lo:
                    E.assume(a.t <= P.reduce_('max', arr).t)
                v = U.index(E, s)
                x = P.SymArr.input('arr', s, 'float32').elem(v)
                at = [v]        # the indices at which 'all elements lie between the minimum and the maximum' is used
                red = []

                def reduced(kind, arr_, r):
                    snap, w = arr_.snapshot(), [E.fresh('w') for _ in s]
                    E.assume(*[z3.And(i >= 0, i < n) for i, n in zip(w, s)])
                    E.assume(r == snap(w))
                    at.append(w)
                    red.append((kind, snap, r))
                    for k_, f, q in red:
                        for i in at:
                            E.assume(f(i) <= q if k_ == 'max' else f(i) >= q)
                E.reduced = reduced
                out = m.adjust_range(arr, a, b)
                U.same_shape(E, 'the result has the shape of the input', out, s)
                w = x
                if hi:
                    w = z3.If(w > b.t, b.t, w)
                if lo:
                    w = z3.If(w < a.t, a.t, w)
                E.prove('values are clipped to the range and otherwise kept', out.elem(v) == w)
            E.explore(body)


UNITS = {
    'median_filter': _slicewise('median_filter', 'median_filter', _size),
    'gaussian_filter': _slicewise('gaussian_filter', 'gaussian_filter', _gauss),
    'sobel_filter': _slicewise('sobel_filter', 'sobel', _none),
    'remove_outlier': _outlier(False),
    'remove_outlier1d': _outlier(True),
    'median_filter3d': _median3d('median_filter3d'),
    'remove_outlier3d': _median3d('remove_outlier3d'),
    'remove_neg': _neg,
    'adjust_range': _range,
}
for _n in list(M.MEDIAN) + list(M.MEDMAIN):
    UNITS['c_' + _n] = M.unit(_n, ['mem', 'init', 'race'])
