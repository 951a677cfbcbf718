"""C12: stripe removal and stripe detection."""
from ..obl import z3
from .. import pyu as U, pysym as P, misc_c as M

ORACLE_S = 45
ORACLE_WHAT = ('every stripe filter and the stripe detection on the real code against a direct evaluation of its definition or its invariants (each sinogram by itself, stripe-free '
               'data kept, weights in range, mask consistent with the thresholds), with random shapes, parameters, types, layouts and worker counts')
S = 'tomopy.prep.stripe.'


def _sf(L):
    from .. import cast
    E = U.begin(L, 'remove_stripe_sf', [S + 'remove_stripe_sf', 'tomopy.util.extern.prep.c_remove_stripe_sf'], ['dist'])
    import tomopy.prep.stripe as m
    import tomopy.util.mproc as mp
    tu = cast.parse(M.PR + 'stripe.c')
    for dt in ('float32', 'float64', 'uint16'):
        def body():
            s = U.dims(E, 'n0', 'n1', 'n2')
            arr = P.SymArr.input('tomo', s, dt)
            size, nc, ch = P.SymInt(z3.Int('size')), P.SymInt(z3.Int('ncore')), P.SymInt(z3.Int('nchunk'))
            E.assume(size.t >= 1, nc.t >= 1, ch.t >= 1)
            F = {}

            def value(p, c, arrs):
                F['in'] = arrs['data'].snapshot()
                f = F['f'] = z3.Function('smoothed', *([z3.IntSort()] * 3 + [z3.RealSort()]))
                return lambda v: f(*v)
            br = U.Bridge(E, {'remove_stripe_sf': M.remove_stripe_sf}, [tu], {'remove_stripe_sf': value}).install()
            dist = U.Distribute()
            with U.Patched((mp, 'distribute_jobs', dist)):
                out = m.remove_stripe_sf(arr, size=size, ncore=nc, nchunk=ch)
            if not E.prove('the compiled code runs once on every part', z3.BoolVal(len(br.calls) == 1)):
                raise P.StopPath()
            c = br.calls[0][1]
            U.same_shape(E, 'the result has the shape of the input', out, s)
            v = U.index(E, s)
            E.prove('the work is split over the sinograms', z3.BoolVal(dist.axis == 1))
            dist.part(E, v)
            w = [v[0], v[1] - dist.a, v[2]]
            E.prove('the compiled code gets the sinograms', F['in'](w) == P.real(P.SymArr.input('tomo', s, dt).elem(v)))
            E.prove('sizes, window and range are passed on', z3.And(c.dx == s[0], c.dy == dist.b - dist.a, c.dz == s[2], c.size == size.t, c.istart == 0, c.iend == c.dy))
            E.prove('the result is what the compiled code puts out', out.elem(v) == F['f'](*w))
            E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
        E.explore(body)


def _detect(L):
    from .. import cast
    E = U.begin(L, 'stripes_detect3d', [S + 'stripes_detect3d', 'tomopy.util.extern.prep.c_stripes_detect3d'])
    import tomopy.prep.stripe as m
    tu = cast.parse(M.PR + 'stripes_detect3d.c')
    for dt, contig in (('float32', True), ('float32', False), ('float64', True)):
        def body():
            s = U.dims(E, 'n0', 'n1', 'n2', lo=0)
            arr = P.SymArr.input('tomo', s, dt, contig)
            size, radius, nc = P.SymInt(z3.Int('size')), P.SymInt(z3.Int('radius')), P.SymInt(z3.Int('ncore'))
            E.assume(radius.t >= 1, nc.t >= 1)
            bad = z3.Or(s[0] == 0, s[1] == 0, s[2] == 0, size.t <= 0, size.t > s[0] / 2)
            br = U.Bridge(E, {'stripesdetect3d_main_float': M.stripesdetect3d_main_float}, [tu]).install()
            try:
                out = m.stripes_detect3d(arr, size, radius, ncore=nc)
            except ValueError:
                E.prove('only empty data and windows that do not fit are refused', bad)
                return
            E.prove('empty data and windows that do not fit are refused', z3.Not(bad))
            _one(E, br, arr, out, s, dt, contig, 'float32')
            c = br.calls[0][1]
            E.prove('window and radius are passed on', z3.And(c.window_halflength_vertical == size.t, c.ratio_radius == radius.t, c.ncores == nc.t))
        E.explore(body)


def _one(E, br, arr, out, s, dt, contig, odt):
    if not E.prove('the compiled code is called once', z3.BoolVal(len(br.calls) == 1)):
        raise P.StopPath()
    _, c, arrs = br.calls[0]
    U.same_shape(E, 'the result has the shape of the input', out, s)
    E.prove('the result has the right type', z3.BoolVal(out.dtype == odt))
    v = U.index(E, s)
    E.prove('the compiled code gets the data', arrs['Input'].elem(v) == P.real(P.SymArr.input('tomo', s, dt, contig).elem(v)))
    E.prove('the sizes are given fastest first', z3.And(c.dimX == s[2], c.dimY == s[1], c.dimZ == s[0]))
    E.prove('the result is what the compiled code puts out', z3.BoolVal(arrs['Output'].buf is out.buf))
    E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))


def _mask(L):
    from .. import cast
    E = U.begin(L, 'stripes_mask3d', [S + 'stripes_mask3d', 'tomopy.util.extern.prep.c_stripesmask3d'])
    import tomopy.prep.stripe as m
    tu = cast.parse(M.PR + 'stripes_detect3d.c')
    for dt, contig in (('float32', True), ('float32', False), ('float64', True)):
        def body():
            s = U.dims(E, 'n0', 'n1', 'n2')
            arr = P.SymArr.input('tomo', s, dt, contig)
            ln, dp, wd, nc = (P.SymInt(z3.Int(n)) for n in ('length', 'depth', 'width', 'ncore'))
            th, se = P.SymReal(z3.Real('threshold')), P.SymReal(z3.Real('sensitivity'))
            E.assume(nc.t >= 1)
            bad = z3.Or(ln.t <= 0, ln.t >= s[0], dp.t < 0, dp.t >= s[1], wd.t <= 0, wd.t >= s[2], se.t <= 0, se.t > 100)
            br = U.Bridge(E, {'stripesmask3d_main_float': M.stripesmask3d_main_float}, [tu]).install()
            try:
                out = m.stripes_mask3d(arr, threshold=th, min_stripe_length=ln, min_stripe_depth=dp, min_stripe_width=wd, sensitivity_perc=se, ncore=nc)
            except ValueError:
                E.prove('only stripes that do not fit the data are refused', bad)
                return
            E.prove('stripes that do not fit the data are refused', z3.Not(bad))
            _one(E, br, arr, out, s, dt, contig, 'bool')
            c = br.calls[0][1]
            E.prove('thresholds are passed on', z3.And(c.threshold_val == th.t, c.stripe_length_min == ln.t, c.stripe_depth_min == dp.t, c.stripe_width_min == wd.t, c.sensitivity == se.t, c.ncores == nc.t))
        E.explore(body)


def _each(fname, inner, given, chain, opaque=()):
    """fname applies the chain of 2D filters to each sinogram by itself."""
    def run(L):
        E = U.begin(L, fname, [S + fname, S + inner], ['dist', 'the 2D filters %s do not change their arguments and keep the shape (bounded: the oracle compares them with their definitions)' % ', '.join(c for c, _ in chain)])
        import tomopy.prep.stripe as m
        import tomopy.util.mproc as mp
        for dt in ('float32', 'float64'):
            def body():
                s = U.dims(E, 'n0', 'n1', 'n2')
                arr = P.SymArr.input('tomo', s, dt)
                nc, ch = P.SymInt(z3.Int('ncore')), P.SymInt(z3.Int('nchunk'))
                E.assume(nc.t >= 1, ch.t >= 1)
                kw = {k: v(E) for k, v in given.items()}
                seen = []

                def stub(name):
                    def call(sino, *a, **k):
                        ks = [l.k for l in E.loops]
                        f = z3.Function(name + '!value', *([z3.IntSort()] * (2 + len(ks)) + [z3.RealSort()]))
                        seen.append((name, sino.elem([z3.Int('v0'), z3.Int('v2')]), list(sino._shape), f, list(ks), a, k))
                        return P.SymArr.new(list(sino._shape), sino.dtype, lambda v: f(*v, *ks), name)
                    return call
                dist = U.Distribute()
                with U.Patched((mp, 'distribute_jobs', dist), *[(m, c, stub(c)) for c, _ in chain], *[(m, o, lambda *a, o=o: (o, a)) for o in opaque]):
                    out = getattr(m, fname)(arr, ncore=nc, nchunk=ch, **kw)
                if not E.prove('every sinogram goes through the filters once, in order', z3.BoolVal([x[0] for x in seen] == [c for c, _ in chain] and all(len(x[4]) == 1 for x in seen))):
                    raise P.StopPath()
                U.same_shape(E, 'the result has the shape of the input', out, s)
                E.prove('the work is split over the sinograms', z3.BoolVal(dist.axis == 1))
                v = U.index(E, s)
                dist.part(E, v)
                k = seen[0][4][0]
                cur = lambda i, j: P.SymArr.input('tomo', s, dt).elem([i, dist.a + k, j])
                for (name, snap, shp, f, ks, a, kk), (_, pars) in zip(seen, chain):
                    E.prove('%s gets the sinogram' % name, z3.And(len(shp) == 2, shp[0] == s[0], shp[1] == s[2], snap == cur(v[0], v[2])))
                    bound = _bind(m, name, a, kk)
                    for p, arg in pars.items():
                        E.prove('%s is passed on to %s' % (arg, name), P.toz(bound[p]) == P.toz(kw[arg]) if not isinstance(kw[arg], (bool, str)) else z3.BoolVal(bound[p] == kw[arg]))
                    cur = lambda i, j, f=f: f(i, j, k)
                E.prove('the result is put back where the sinogram was', out.elem(v) == seen[-1][3](v[0], v[2], v[1] - dist.a))
                E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
            E.explore(body)
    return run


_SIG = {}


def _bind(m, name, a, k):
    """The arguments after the sinogram, by name."""
    import inspect
    f = getattr(m, name)
    b = inspect.signature(f).bind(None, *a, **k)
    b.apply_defaults()
    return b.arguments


_i = lambda n, lo=1: (lambda E: (E.assume(z3.Int(n) >= lo), P.SymInt(z3.Int(n)))[1])
_r = lambda n: (lambda E: (E.assume(z3.Real(n) > 0), P.SymReal(z3.Real(n)))[1])
_c = lambda v: (lambda E: v)

UNITS = {
    'remove_stripe_sf': _sf, 'stripes_detect3d': _detect, 'stripes_mask3d': _mask,
    'based_sorting': _each('remove_stripe_based_sorting', '_remove_stripe_based_sorting', dict(size=_i('size'), dim=_i('dim')), [('_rs_sort', {'size': 'size', 'dim': 'dim'})]),
    'large_stripe': _each('remove_large_stripe', '_remove_large_stripe', dict(snr=_r('snr'), size=_i('size'), drop_ratio=_r('drop_ratio'), norm=_c(True)),
                          [('_rs_large', {'snr': 'snr', 'size': 'size', 'drop_ratio': 'drop_ratio', 'norm': 'norm'})]),
    'dead_stripe': _each('remove_dead_stripe', '_remove_dead_stripe', dict(snr=_r('snr'), size=_i('size'), norm=_c(False)),
                         [('_rs_dead', {'snr': 'snr', 'size': 'size', 'norm': 'norm'})]),
    'all_stripe': _each('remove_all_stripe', '_remove_all_stripe', dict(snr=_r('snr'), la_size=_i('la_size'), sm_size=_i('sm_size'), dim=_i('dim')),
                        [('_rs_dead', {'snr': 'snr', 'size': 'la_size'}), ('_rs_sort', {'size': 'sm_size', 'dim': 'dim'})]),
    'based_interpolation': _each('remove_stripe_based_interpolation', '_remove_stripe_based_interpolation', dict(snr=_r('snr'), size=_i('size'), drop_ratio=_r('drop_ratio'), norm=_c(True)),
                                 [('_rs_interpolation', {'snr': 'snr', 'size': 'size', 'drop_ratio': 'drop_ratio', 'norm': 'norm'})]),
    'based_filtering': _each('remove_stripe_based_filtering', '_remove_stripe_based_filtering', dict(sigma=_r('sigma'), size=_i('size'), dim=_i('dim')),
                             [('_rs_filter', {'size': 'size', 'dim': 'dim'})], ('_create_1d_window', '_create_listsign')),
    'based_fitting': _each('remove_stripe_based_fitting', '_remove_stripe_based_fitting', dict(order=_i('order'), sigma=_c((5, 20))),
                           [('_rs_fit', {'order': 'order'})], ('_create_2d_window', '_create_matsign')),
}
for _n in ['remove_stripe_sf', 'stripesdetect3d_main_float', 'stripesmask3d_main_float'] + list(M.STRIPES):
    UNITS['c_' + _n] = M.unit(_n, ['mem', 'init', 'race', 'flow'] if _n == 'remove_stripe_sf' else ['mem', 'init', 'race'])
