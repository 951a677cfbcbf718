"""C08: flat- and dark-field normalization and minus log."""
from ..obl import z3
from .. import pyu as U, pysym as P

ORACLE_S = 40
ORACLE_WHAT = ('normalize, normalize_nf, normalize_roi and minus_log on the real code against double precision, with random shapes, field counts, averaging, cutoffs, '
               'out arrays, element types and memory layouts')
N = 'tomopy.prep.normalize.'
DT = ('float32', 'float64', 'uint16', 'int32')


def _log(L):
    E = U.begin(L, 'minus_log', [N + 'minus_log', 'tomopy.util.dtype.as_float32'], ['ne'])
    import tomopy.prep.normalize as m
    for dt in DT:
        for given in (False, 'new', 'same'):
            if given == 'same' and dt != 'float32':
                continue

            def body():
                s = U.dims(E, 'n0', 'n1', 'n2')
                arr = P.SymArr.input('arr', s, dt)
                nc = P.SymInt(z3.Int('ncore'))
                E.assume(nc.t >= 1)
                o = {False: None, 'new': P.SymArr.input('out', s, 'float32'), 'same': arr}[given]
                out = m.minus_log(arr, ncore=nc, out=o)
                U.same_shape(E, 'the result has the shape of the input', out, s)
                E.prove('the result is float32', z3.BoolVal(out.dtype == 'float32'))
                if given:
                    E.prove('the result is put into out', z3.BoolVal(out is o))
                else:
                    E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
                v = U.index(E, s)
                x = P.real(P.SymArr.input('arr', s, dt).elem(v))
                E.prove('every element is minus the logarithm of the input', out.elem(v) == -P.uf('log', x))
            E.explore(body)


def _field(E, name, s, dt, three, how, conv=False):
    """The field array and v -> its average at a pixel."""
    n = U.dims(E, 'n_' + name)[0] if three else None
    shape = ([n] if three else []) + list(s[1:])
    f = P.SymArr.input(name, shape, dt)
    g = P.SymArr.input(name, shape, dt)
    if not three:
        g = g[P.NP.newaxis, :, :]
    if conv:
        g = P.NP.asarray(g, dtype='float32')
    avg = P.reduce_(how, g, 0, 'f')
    return f, lambda v: avg.elem(v[1:])


def _normalize(L):
    E = U.begin(L, 'normalize', [N + 'normalize'], ['ne', 'the mean and the median over the first axis are functions of the values that are averaged'])
    import tomopy.prep.normalize as m
    n = 0
    for dt in ('float32', 'uint16'):
        for fdt in ('float32', 'uint16'):
            for how in (None, 'mean', 'median'):
                for cut in (False, True):
                    for given in (False, 'new', 'same'):
                        if given == 'same' and dt != 'float32':
                            continue
                        n += 1
                        f3, d3 = n % 2 == 0, (n // 2) % 2 == 0

                        def body():
                            s = U.dims(E, 'n0', 'n1', 'n2')
                            arr = P.SymArr.input('arr', s, dt)
                            flat, fm = _field(E, 'flat', s, fdt, f3, how or 'mean')
                            dark, dm = _field(E, 'dark', s, fdt, d3, how or 'mean')
                            nc = P.SymInt(z3.Int('ncore'))
                            E.assume(nc.t >= 1)
                            o = {False: None, 'new': P.SymArr.input('out', s, 'float32'), 'same': arr}[given]
                            kw = {} if how is None else {'averaging': how}
                            c = P.SymReal(z3.Real('cutoff')) if cut else None
                            out = m.normalize(arr, flat, dark, cutoff=c, ncore=nc, out=o, **kw)
                            _result(E, s, dt, arr, o, out, fm, dm, c, (flat, dark))
                        E.explore(body)

    def bad():
        s = U.dims(E, 'n0', 'n1', 'n2')
        a = [P.SymArr.input(x, s, 'float32') for x in ('arr', 'flat', 'dark')]
        try:
            m.normalize(*a, averaging='mode')
        except ValueError:
            return
        E.fail('an unknown kind of averaging is refused', 'no exception')
    E.explore(bad)


def _ratio(E, x, f, d, c):
    eps = z3.RealVal(float(P._np.float32(1e-6)).as_integer_ratio()[0]) / z3.RealVal(float(P._np.float32(1e-6)).as_integer_ratio()[1])
    den = z3.If(f - d < eps, eps, f - d)
    r = (x - d) / den
    return z3.If(r > c.t, c.t, r) if c is not None else r


def _result(E, s, dt, arr, o, out, fm, dm, c, fields):
    U.same_shape(E, 'the result has the shape of the projections', out, s)
    E.prove('the result is float32', z3.BoolVal(out.dtype == 'float32'))
    if o is not None:
        E.prove('the result is put into out', z3.BoolVal(out is o))
    if o is not arr:
        E.prove('the projections are not changed', z3.BoolVal(arr.buf.writes == 0))
    E.prove('the fields are not changed', z3.BoolVal(all(f.buf.writes == 0 for f in fields)))
    v = U.index(E, s)
    x = P.real(P.SymArr.input('arr', s, dt).elem(v))
    E.prove('every pixel is (projection - dark) / max(flat - dark, 1e-6), at most the cutoff', out.elem(v) == _ratio(E, x, fm(v), dm(v), c))


def _nf(L):
    E = U.begin(L, 'normalize_nf', [N + 'normalize_nf'], ['ne', 'the mean and the median over the first axis are functions of the values that are averaged'])
    import tomopy.prep.normalize as m
    for dt, fdt, how, cut, given in (('float32', 'float32', None, False, False), ('uint16', 'uint16', 'mean', True, 'new'), ('float64', 'float32', 'median', True, False)):
        if True:
            if True:
                if True:
                    d3 = how != 'mean'

                    def body():
                        s = U.dims(E, 'n0', 'n1', 'n2')
                        nf, n = z3.Int('sets'), z3.Int('n_flats')
                        loc = z3.Function('loc', z3.IntSort(), z3.IntSort())
                        E.assume(nf >= 1, n >= nf)
                        arr = P.SymArr.input('arr', s, dt)
                        flats = P.SymArr.input('flats', [n] + s[1:], fdt)
                        dark, dm = _field(E, 'dark', s, fdt, d3, how or 'mean', True)
                        o = P.SymArr.input('out', s, 'float32') if given else None
                        kw = {} if how is None else {'averaging': how}
                        c = P.SymReal(z3.Real('cutoff')) if cut else None
                        per = P.wrap(n) // P.wrap(nf)

                        T = z3.Function('end', z3.IntSort(), z3.IntSort())
                        seen = {}

                        def at(k):          # the locations are in order and inside of the scan
                            return z3.Implies(z3.And(k >= 0, k < nf), z3.And(loc(k) >= 0, loc(k) <= s[0])), z3.Implies(z3.And(k >= 0, k + 1 < nf), loc(k) <= loc(k + 1))

                        def define(k):
                            d = P.real(loc(k) - loc(k - 1)) / 2
                            return T(k) == z3.If(k == 0, 0, z3.If(k >= nf, s[0], P.round_half_even(d) + loc(k - 1)))
                        q = z3.Int('any set')
                        E.prove('the ranges of the sets are in order', z3.Implies(z3.And(q >= 0, q < nf, *at(q - 1), *at(q), *at(q + 1), define(q), define(q + 1)), z3.And(T(q) <= T(q + 1), T(q) >= 0, T(q) <= s[0])))

                        def end(k):
                            k = z3.simplify(k)
                            if k.sexpr() not in seen:
                                # the definition, and the order above, which carries over to any two sets by induction
                                E.assume(define(k), *at(k), *at(k - 1))
                                for o_ in list(seen.values()):
                                    ok = z3.And(k >= 0, k <= nf, o_ >= 0, o_ <= nf)
                                    E.assume(z3.Implies(z3.And(ok, k <= o_), T(k) <= T(o_)), z3.Implies(z3.And(ok, o_ <= k), T(o_) <= T(k)))
                                E.assume(z3.Implies(z3.And(k >= 0, k <= nf), z3.And(T(k) >= 0, T(k) <= s[0])))
                                seen[k.sexpr()] = k
                            return T(k)
                        # the projections before the middle between the flats k-1 and k
                        E.loop_inv = {'tend': lambda k: end(k)}
                        own = lambda b, k: z3.And(b[0] >= end(k), b[0] < end(k + 1))
                        E.loop_own = lambda buf: own if len(buf.shape) == 3 else None
                        pr = P.toz(per)
                        inside = lambda q: z3.Implies(z3.And(q >= 0, q < nf), z3.And(pr >= 1, q * pr >= 0, (q + 1) * pr == q * pr + pr, (q + 1) * pr <= n))
                        E.prove('the flats of a set are there', z3.Implies(z3.And(pr >= 1, nf * pr <= n, (nf - q - 1) * pr >= 0), inside(q)))
                        E.prove('the flats of a set are there: the quotient', z3.And(pr >= 1, nf * pr <= n))
                        E.prove('the flats of a set are there: the product', z3.Implies(z3.And(pr >= 1, q < nf), (nf - q - 1) * pr >= 0))

                        def loc_at(q):
                            E.assume(*at(P.toz(q)), inside(P.toz(q)))
                            return P.wrap(loc(P.toz(q)))
                        out = m.normalize_nf(arr, flats, dark, P.SymList(P.wrap(nf), lambda q: loc_at(q)), cutoff=c, out=o, **kw)
                        E.loop_own = {}
                        mm = E.done[-1].k        # any one iteration
                        v = U.index(E, s)
                        E.assume(own(v, mm))
                        with P.at_index(mm):
                            g = P.SymArr.input('flats', [n] + s[1:], fdt)
                            g = P.reduce_('median', P.NP.asarray(g, dtype='float32')[P.wrap(mm) * per:(P.wrap(mm) + 1) * per], 0, 'f')
                            fm = g.elem(v[1:])
                        U.same_shape(E, 'the result has the shape of the projections', out, s)
                        E.prove('the result is float32', z3.BoolVal(out.dtype == 'float32'))
                        if given:
                            E.prove('the result is put into out', z3.BoolVal(out is o))
                        E.prove('the inputs are not changed', z3.BoolVal(all(f.buf.writes == 0 for f in (arr, flats, dark))))
                        x = P.real(P.SymArr.input('arr', s, dt).elem(v))
                        E.prove('every pixel is (projection - dark) / max(flat - dark, 1e-6) with the flat of its set, at most the cutoff', out.elem(v) == _ratio(E, x, fm, dm(v), c))
                    E.explore(body)


def _roi(L):
    E = U.begin(L, 'normalize_roi', [N + 'normalize_roi', N + '_normalize_roi'], ['jobs', 'the mean of a window is a function of the values in it'])
    import tomopy.prep.normalize as m
    import tomopy.util.mproc as mp
    for dt in DT:
        for default in (False, True):
            def body():
                s = U.dims(E, 'n0', 'n1', 'n2')
                arr = P.SymArr.input('arr', s, dt)
                dist = U.Distribute()
                if default:
                    r, kw = [0, 0, 10, 10], {}
                else:
                    q = [z3.Int('roi%d' % i) for i in range(4)]
                    E.assume(q[0] >= 0, q[1] >= 0, q[0] < q[2], q[1] < q[3], q[2] <= s[1], q[3] <= s[2])
                    r = [P.wrap(x) for x in q]
                    kw = {'roi': r}
                with U.Patched((mp, 'distribute_jobs', dist)):
                    out = m.normalize_roi(arr, **kw)
                U.same_shape(E, 'the result has the shape of the input', out, s)
                E.prove('the result is float32', z3.BoolVal(out.dtype == 'float32'))
                v = U.index(E, s)
                dist.part(E, v)
                ref = P.SymArr.input('arr', s, dt)
                ref = P.NP.asarray(ref, dtype='float32') if dt != 'float32' else ref
                w = ref[P.wrap(dist.a)][r[0]:r[2], r[1]:r[3]]
                bg = P.reduce_('mean', w, None, 'f').t
                x = ref.elem(v)
                E.prove('every projection is divided by the mean of its window unless that is zero', out.elem(v) == z3.If(bg != 0, x / bg, x))
                E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
            E.explore(body)


UNITS = {'minus_log': _log, 'normalize': _normalize, 'normalize_nf': _nf, 'normalize_roi': _roi}
