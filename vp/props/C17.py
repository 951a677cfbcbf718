"""C17: phase retrieval."""
from ..obl import z3
from .. import pyu as U, pysym as P

ORACLE_S = 30
ORACLE_WHAT = 'retrieve_phase on the real code against a double precision evaluation of the Paganin filter, with random even sizes, energies, distances, pixel sizes, alpha, padding, element types, layouts and worker counts'
N = 'tomopy.prep.phase.'


def _phase(pad):
    def run(L):
        E = U.begin(L, 'retrieve_phase', [N + f for f in ('retrieve_phase', '_retrieve_phase', '_calc_pad', '_calc_pad_val', '_paganin_filter_factor', '_wavelength')],
                    ['dist', 'fft2 and ifft2 are functions of the image (the transform and its inverse: bounded, the oracle evaluates them)', 'the maximum of the filter is a function of its values'])
        import tomopy.prep.phase as m
        import tomopy.util.mproc as mp
        for dt in ('float32', 'float64'):
            def body():
                s = U.dims(E, 'n0', 'n1', 'n2')
                E.assume(s[1] >= 2, s[2] >= 2, s[1] % 2 == 0, s[2] % 2 == 0)
                arr = P.SymArr.input('tomo', s, dt)
                ps, d, en, al = (P.SymReal(z3.Real(x)) for x in ('pixel', 'dist', 'energy', 'alpha'))
                E.assume(ps.t > 0, d.t > 0, en.t > 0, al.t > 0)
                nc, ch = P.SymInt(z3.Int('ncore')), P.SymInt(z3.Int('nchunk'))
                E.assume(nc.t >= 1, ch.t >= 1)
                W = z3.Function('width', z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.IntSort())

                def width(dim, pixel_size, wavelength, dist):
                    w = W(P.toz(dim), P.real(P.toz(pixel_size)), P.real(P.toz(wavelength)), P.real(P.toz(dist)))
                    E.assume(w >= 0)
                    return P.wrap(w)
                seen, grids = {}, []
                W2 = z3.Function('frequency', z3.IntSort(), z3.IntSort(), z3.RealSort())

                def grid(pixel_size, nx, ny):
                    grids.append((P.real(P.toz(pixel_size)), P.toz(nx), P.toz(ny)))
                    return P.SymArr.new([P.toz(nx), P.toz(ny)], 'float32', lambda v: W2(*v), 'w2')

                def fwd(x, s=None, axes=(-2, -1), overwrite_input=False, extra_info=None):
                    seen['img'], seen['shape'], seen['ks'] = x.snapshot(), list(x._shape), [l.k for l in E.loops]
                    seen['pix'] = x.elem(q)
                    f = seen['F'] = z3.Function('spectrum', *([z3.IntSort()] * (2 + len(E.loops)) + [z3.RealSort()]))
                    ks = seen['ks']
                    return P.SymArr.new(list(x._shape), 'float64', lambda v: f(*v, *ks), 'fft2')

                def inv(x, s=None, axes=(-2, -1), overwrite_input=False, extra_info=None):
                    seen['spec'], seen['spec_shape'] = x.elem(q), list(x._shape)
                    f = seen['G'] = z3.Function('image', *([z3.IntSort()] * (2 + len(E.loops)) + [z3.RealSort()]))
                    ks = [l.k for l in E.loops]
                    return P.SymArr.new(list(x._shape), 'float64', lambda v: f(*v, *ks), 'ifft2')
                q = [z3.Int('q0'), z3.Int('q1')]
                lam = 2 * m.PI * m.PLANCK_CONSTANT * m.SPEED_OF_LIGHT / en
                w0 = width(s[1], ps, lam, d).t if pad else z3.IntVal(0)
                w1 = width(s[2], ps, lam, d).t if pad else z3.IntVal(0)
                ny, nx = s[1] + 2 * w0, s[2] + 2 * w1
                E.assume(q[0] >= 0, q[0] < ny, q[1] >= 0, q[1] < nx)
                dist = U.Distribute()
                with U.Patched((mp, 'distribute_jobs', dist), (m, 'fft2', fwd), (m, 'ifft2', inv), (m, '_calc_pad_width', width), (m, '_reciprocal_grid', grid)):
                    out = m.retrieve_phase(arr, pixel_size=ps, dist=d, energy=en, alpha=al, pad=pad, ncore=nc, nchunk=ch)
                U.same_shape(E, 'the result has the shape of the input', out, s)
                if not E.prove('every projection is transformed and transformed back', z3.BoolVal('F' in seen and 'G' in seen and len(seen['ks']) == 1)):
                    raise P.StopPath()
                E.prove('the work is split over the projections', z3.BoolVal(dist.axis == 0))
                E.prove('the image is padded by the pad width', z3.And(seen['shape'][0] == ny, seen['shape'][1] == nx))
                k = seen['ks'][0]
                clip = lambda i, w, n: z3.If(i < w, z3.IntVal(0), z3.If(i - w >= n, n - 1, i - w))
                src = P.SymArr.input('tomo', s, dt)
                E.prove('the padding repeats the edges of the projection', seen['pix'] == src.elem([dist.a + k, clip(q[0], w0, s[1]), clip(q[1], w1, s[2])]))

                rot = lambda i, n: z3.If(i - n / 2 < 0, i - n / 2 + n, i - n / 2)
                v = U.index(E, s)
                dist.part(E, v)
                E.prove('the result is the inner part of the filtered image', out.elem(v) == seen['G'](w0 + v[1], w1 + v[2], v[0] - dist.a))
                E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
                if not E.prove('the grid of frequencies is made once', z3.BoolVal(len(grids) == 1)):
                    raise P.StopPath()
                E.prove('the grid of frequencies is that of the padded image', z3.And(grids[0][1] == ny, grids[0][2] == nx, grids[0][0] == ps.t))
                sub = [t for t in _maxes(seen['spec'])]
                if not E.prove('the filter is normalised by its maximum', z3.BoolVal(len(sub) == 1)):
                    raise P.StopPath()
                E.assume(sub[0] > 0)
                # the coefficient q of the spectrum has the frequency that is half the size further on the grid
                g = W2(rot(q[0], ny), rot(q[1], nx))
                E.assume(g >= 0)
                den = P.real(P.toz(lam)) * d.t * g / P.real(P.toz(4 * m.PI)) + al.t
                E.prove('the spectrum is multiplied by the filter', seen['spec'] == seen['F'](q[0], q[1], k) * (1 / den / sub[0]))
            E.explore(body)
    return run


def _maxes(t):
    out = []

    def rec(e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('max#'):
            if not any(o.eq(e) for o in out):
                out.append(e)
            return
        for c in e.children():
            rec(c)
    rec(t)
    return out


def _grid(L):
    E = U.begin(L, '_reciprocal_grid', [N + '_reciprocal_grid', N + '_reciprocal_coord'])
    import tomopy.prep.phase as m

    def body():
        a, b = U.dims(E, 'nx', 'ny', lo=2)
        ps = P.SymReal(z3.Real('pixel'))
        E.assume(ps.t > 0)
        C = z3.Function('coordinate', z3.IntSort(), z3.IntSort(), z3.RealSort())

        def coord(pixel_size, n):
            E.prove('the pixel size is passed on', P.toz(pixel_size) == ps.t)
            n = P.toz(n)
            return P.SymArr.new([n], 'float32', lambda v: C(v[0], n), 'rc')
        with U.Patched((m, '_reciprocal_coord', coord)):
            out = m._reciprocal_grid(ps, P.wrap(a), P.wrap(b))
        U.same_shape(E, 'the grid has the size of the image', out, [a, b])
        v = U.index(E, [a, b])
        E.prove('the grid holds the squared distance from zero frequency', out.elem(v) == C(v[0], a) * C(v[0], a) + C(v[1], b) * C(v[1], b))
    E.explore(body)

    def body1():
        n, = U.dims(E, 'n', lo=2)
        ps = P.SymReal(z3.Real('pixel'))
        E.assume(ps.t > 0)
        r = m._reciprocal_coord(ps, P.wrap(n))
        U.same_shape(E, 'one coordinate for every pixel', r, [n])
        v = U.index(E, [n])
        x, w = r.elem(v), P.real(n - 1) * ps.t
        E.assume(w > 0)
        E.prove('the coordinates are centred and spaced by one over the width', x * w == P.real(v[0]) - P.real(n - 1) / 2)
    E.explore(body1)


def _width(L):
    E = U.begin(L, '_calc_pad_width', [N + '_calc_pad_width'], ['2 to the power of the next integer above the logarithm of x is x or more and less than 2 x'])
    import tomopy.prep.phase as m

    def body():
        n, = U.dims(E, 'n')
        ps, lam, d = (P.SymReal(z3.Real(x)) for x in ('pixel', 'wavelength', 'dist'))
        E.assume(ps.t > 0, d.t > 0, lam.t > 0)
        r = m._calc_pad_width(P.wrap(n), ps, lam, d)
        pix = z3.Int('pix')
        x = P.real(P.toz(m.PI)) * lam.t * d.t
        # pix: the width of the diffraction cone in pixels, rounded up
        E.assume(pix == -z3.ToInt(-(x / (ps.t * ps.t))))
        p2 = [t for t in _apps(P.toz(r), 'pow')]
        if not E.prove('the size is a power of two', z3.BoolVal(len(p2) == 1)):
            raise P.StopPath()
        lg = _apps(P.toz(r), 'log2')
        E.prove('the power of two is the next one above the size and the width of the cone', z3.And(len(lg) == 1, lg[0].arg(0) == P.real(n + pix)))
        E.assume(p2[0] >= P.real(n + pix))
        E.prove('the padded image is as wide as the power of two', z3.And(2 * P.toz(r) + n <= p2[0], 2 * P.toz(r) + n > p2[0] - 2))
    E.explore(body)


def _apps(t, name):
    out = []

    def rec(e):
        if z3.is_app(e) and e.decl().name() == name and not any(o.eq(e) for o in out):
            out.append(e)
        for c in e.children():
            rec(c)
    rec(t)
    return out


UNITS = {'grid': _grid, 'pad_width': _width, 'retrieve_phase_padded': _phase(True), 'retrieve_phase': _phase(False)}
