"""C18: geometric corrections of the projections."""
from ..obl import z3
from .. import pyu as U, pysym as P

ORACLE_S = 40
ORACLE_WHAT = ('the geometric corrections on the real code against independent models: distortion (projections and sinograms), blurred edges, scaling, the slit corners of rectangular openings, the slit box, the affine fit, '
               'coefficient files, whole-pixel shifts, detector drift')
A = 'tomopy.prep.alignment.'


def extremes(E, at):
    """The least and the greatest element: bounds of the elements `at(arr)` and one of the elements."""
    def reduced(kind, arr, r):
        if kind not in ('min', 'max'):
            return
        snap = arr.snapshot()
        w = [E.fresh('w') for _ in arr._shape]
        E.assume(r == snap(w), *[z3.And(x >= 0, x < n) for x, n in zip(w, arr._shape)])
        for v in at(arr):
            E.assume(r <= snap(v) if kind == 'min' else r >= snap(v))
    E.reduced = reduced


def _box(L):
    E = U.begin(L, 'remove_slits_aps_1id', [A + 'calc_slit_box_aps_1id', A + 'remove_slits_aps_1id'])
    import tomopy.prep.alignment as m

    def body():
        n, h, w = U.dims(E, 'n', 'h', 'w')
        x = P.SymArr.input('img', [n, h, w], 'float32')
        c = P.SymArr.input('corners', [z3.IntVal(4), z3.IntVal(2)], 'float64')
        clip = tuple(P.SymInt(z3.Int('clip%d' % i)) for i in range(4))
        extremes(E, lambda a: [[z3.IntVal(i)] for i in range(4)] if a.ndim == 1 else [])
        xl, xu, yl, yu = (P.toz(q) for q in m.calc_slit_box_aps_1id(c, inclip=clip))
        cc = lambda i, j: c.elem([z3.IntVal(i), z3.IntVal(j)])
        lo = lambda j: [z3.ToInt(cc(i, j)) for i in range(4)]
        hi = lambda j: [-z3.ToInt(-cc(i, j)) for i in range(4)]
        least = lambda r, xs: z3.And(z3.Or(*[r == q for q in xs]), *[r <= q for q in xs])
        most = lambda r, xs: z3.And(z3.Or(*[r == q for q in xs]), *[r >= q for q in xs])
        E.prove('the box starts at the leftmost corner', least(xl - clip[0].t, lo(0)))
        E.prove('the box ends at the rightmost corner', most(xu + clip[1].t, hi(0)))
        E.prove('the box starts at the top corner', least(yl - clip[2].t, lo(1)))
        E.prove('the box ends at the bottom corner', most(yu + clip[3].t, hi(1)))
        E.assume(xl >= 0, yl >= 0, xu >= xl, yu >= yl, xu <= w, yu <= h)
        out = m.remove_slits_aps_1id(x, c, inclip=clip)
        U.same_shape(E, 'the images are cut to the box', out, [n, yu - yl, xu - xl])
        v = U.index(E, [n, yu - yl, xu - xl])
        E.prove('the pixels of the box are kept', out.elem(v) == x.elem([v[0], v[1] + yl, v[2] + xl]))
        E.prove('the images are not changed', z3.BoolVal(x.buf.writes == 0))
    E.explore(body)


def _scale(L):
    E = U.begin(L, 'scale', [A + 'scale'])
    import tomopy.prep.alignment as m

    def body():
        s = U.dims(E, 'n', 'h', 'w')
        x = P.SymArr.input('prj', s, 'float64')
        v = U.index(E, s)
        extremes(E, lambda a: [v])
        x0 = x.elem(v)
        out, f = m.scale(x)
        f = P.real(P.toz(f))
        E.assume(f != 0)
        U.same_shape(E, 'the images keep their shape', out, s)
        E.prove('the factor is positive', f > 0)
        E.prove('the images are divided by the factor', out.elem(v) * f == x0)
        E.prove('the values lie between -1 and 1', z3.And(out.elem(v) <= 1, out.elem(v) >= -1))
    E.explore(body)


def _blur(L):
    E = U.begin(L, 'blur_edges', [A + 'blur_edges'])
    import tomopy.prep.alignment as m
    for dt in ('float32', 'float64'):
        def body():
            s = U.dims(E, 'n', 'h', 'w')
            x = P.SymArr.input('prj', s, dt)
            v = U.index(E, s)
            tops = []

            def reduced(kind, arr, r):
                if kind == 'max':
                    tops.append(r)
            E.reduced = reduced
            lo, hi = P.SymReal(z3.Real('low')), P.SymReal(z3.Real('high'))
            E.assume(lo.t >= 0, lo.t < hi.t)
            out = m.blur_edges(x, low=lo, high=hi)
            U.same_shape(E, 'the images keep their shape', out, s)
            E.prove('the type is kept', z3.BoolVal(str(out.dtype) == dt))
            U.untouched(E, out, x)
            if not E.prove('the radius is that of the corners', z3.BoolVal(len(tops) >= 1)):
                raise P.StopPath()
            top = P.real(tops[0])
            E.assume(top > 0)
            a, b = P.real(v[1]) - P.real(s[1]) / 2, P.real(v[2]) - P.real(s[2]) / 2
            r = P.uf('sqrt', a * a + b * b)
            f = z3.If(r < lo.t * top, z3.RealVal(1), z3.If(r > hi.t * top, z3.RealVal(0), (hi.t * top - r) / (hi.t * top - lo.t * top)))
            E.prove('the pixels are weighted by a ramp between the two radii', out.elem(v) == x.elem(v) * f)
        E.explore(body)


def model(E, xc, yc, fact, i, j, h, w):
    """The position (row, column) in the distorted image of the pixel (i, j)."""
    xu, yu = P.real(j) - xc, P.real(i) - yc
    r = P.uf('sqrt', xu * xu + yu * yu)
    f = None
    for k, c in enumerate(fact):
        t = c * (z3.RealVal(1) if k == 0 else r if k == 1 else r * r)
        f = t if f is None else f + t
    clip = lambda q, n: z3.If(q < 0, z3.RealVal(0), z3.If(q > P.real(n - 1), P.real(n - 1), q))
    return clip(yc + f * yu, h), clip(xc + f * xu, w)


def _unwarp(nf):
    def run(L):
        E = U.begin(L, '_unwarp_image_backward', [A + '_unwarp_image_backward'], ['map_coordinates interpolates linearly at the given positions'])
        import tomopy.prep.alignment as m

        def body():
            h, w = U.dims(E, 'h', 'w')
            x = P.SymArr.input('mat', [h, w], 'float32')
            xc, yc = P.SymReal(z3.Real('xcenter')), P.SymReal(z3.Real('ycenter'))
            fact = [P.SymReal(z3.Real('fact%d' % k)) for k in range(nf)]
            F = z3.Function('interpolated', z3.RealSort(), z3.RealSort(), z3.RealSort())
            seen = []

            def mc(mat, pos, output=None, order=3, mode='constant', cval=0., prefilter=True):
                seen.append((mat, order, mode, [p.snapshot() for p in pos]))
                return P.SymArr.new(list(pos[0]._shape), 'float32', lambda v, p=seen[-1][3]: F(p[0](v), p[1](v)), 'map')
            with U.Patched((m, 'map_coordinates', mc)):
                out = m._unwarp_image_backward(x, xc, yc, fact)
            U.same_shape(E, 'the image keeps its shape', out, [h, w])
            if not E.prove('the image is interpolated once', z3.BoolVal(len(seen) == 1)):
                raise P.StopPath()
            E.prove('the image is interpolated linearly', z3.BoolVal(seen[0][0] is x and seen[0][1] == 1))
            v = U.index(E, [h, w])
            y, xx = model(E, xc.t, yc.t, [f.t for f in fact], v[0], v[1], h, w)
            E.prove('every pixel is taken from its position in the distorted image', out.elem(v) == F(y, xx))
        E.explore(body)
    return run


def _proj(L):
    E = U.begin(L, 'distortion_correction_proj', [A + 'distortion_correction_proj', A + '_distortion_correction_proj'], ['dist'])
    import tomopy.prep.alignment as m
    import tomopy.util.mproc as mp
    for dt in ('float32', 'float64'):
        def body():
            s = U.dims(E, 'n', 'h', 'w')
            x = P.SymArr.input('tomo', s, dt)
            xc, yc = P.SymReal(z3.Real('xcenter')), P.SymReal(z3.Real('ycenter'))
            fact = [P.SymReal(z3.Real('fact%d' % k)) for k in range(3)]
            nc, ch = P.SymInt(z3.Int('ncore')), P.SymInt(z3.Int('nchunk'))
            E.assume(nc.t >= 1, ch.t >= 1)
            F = z3.Function('unwarped', *([z3.IntSort()] * 3 + [z3.RealSort()]))
            q = [z3.Int('q0'), z3.Int('q1')]
            E.assume(q[0] >= 0, q[0] < s[1], q[1] >= 0, q[1] < s[2])
            seen = []

            def unwarp(mat, a, b, c):
                k = E.loops[-1].k
                seen.append((list(mat._shape), mat.elem(q), k, P.toz(a), P.toz(b), c))
                return P.SymArr.new(list(mat._shape), mat.dtype, lambda v: F(v[0], v[1], k), 'unwarp')
            dist = U.Distribute()
            with U.Patched((mp, 'distribute_jobs', dist), (m, '_unwarp_image_backward', unwarp)):
                out = m.distortion_correction_proj(x, xc, yc, fact, ncore=nc, nchunk=ch)
            U.same_shape(E, 'the images keep their shape', out, s)
            if not E.prove('every projection is corrected', z3.BoolVal(len(seen) == 1 and dist.axis == 0)):
                raise P.StopPath()
            shp, val, k, a, b, c = seen[0]
            E.prove('a whole projection is corrected', z3.And(len(shp) == 2, shp[0] == s[1], shp[1] == s[2]) if len(shp) == 2 else z3.BoolVal(False))
            E.prove('the projection is that of its place', val == x.elem([dist.a + k, q[0], q[1]]))
            E.prove('the model is passed on', z3.And(a == xc.t, b == yc.t, z3.BoolVal(c is fact)))
            v = U.index(E, s)
            dist.part(E, v)
            E.prove('the result holds the corrected projections', out.elem(v) == F(v[1], v[2], v[0] - dist.a))
            E.prove('the input is not changed', z3.BoolVal(x.buf.writes == 0))
        E.explore(body)


def _sino(nf):
    def run(L):
        E = U.begin(L, 'distortion_correction_sino', [A + 'distortion_correction_sino'], ['map_coordinates interpolates linearly at the given positions'])
        import tomopy.prep.alignment as m

        def body():
            s = U.dims(E, 'n', 'h', 'w')
            E.assume(s[1] < 32768)
            x = P.SymArr.input('tomo', s, 'float32')
            xc, yc = P.SymReal(z3.Real('xcenter')), P.SymReal(z3.Real('ycenter'))
            fact = [P.SymReal(z3.Real('fact%d' % k)) for k in range(nf)]
            ind = z3.Int('ind')
            E.assume(ind >= 0, ind < s[1])
            v = U.index(E, [s[0], s[2]])
            extremes(E, lambda a: [[v[1]]] if a.ndim == 1 else [])
            seen = []

            def mc(mat, pos, output=None, order=3, mode='constant', cval=0., prefilter=True):
                k = E.loops[-1].k
                p = [q.snapshot() for q in pos]
                b0 = mat.bidx([z3.IntVal(0), z3.IntVal(0)])
                F = z3.Function('interpolated', *([z3.IntSort()] + [z3.RealSort()] * 3))
                seen.append((order, list(mat._shape), b0, p[0]([v[1]]), k))
                return P.SymArr.new(list(pos[0]._shape), 'float32', lambda u: F(k, P.real(b0[1]) + p[0](u), P.real(b0[2]) + p[1](u)), 'map')
            with U.Patched((m, 'map_coordinates', mc)):
                out = m.distortion_correction_sino(x, P.wrap(ind), xc, yc, fact)
            U.same_shape(E, 'the result is a sinogram', out, [s[0], s[2]])
            if not E.prove('every row is interpolated', z3.BoolVal(len(seen) == 1)):
                raise P.StopPath()
            order, shp, b0, row, k = seen[0]
            E.prove('the rows are interpolated linearly', z3.BoolVal(order == 1))
            E.prove('the projection is that of the row', b0[0] == k)
            E.prove('all columns are there', z3.And(shp[1] == s[2], b0[2] == 0))
            E.prove('the rows around the position are there', z3.And(row >= 0, row <= P.real(shp[0] - 1)))
            y, xx = model(E, xc.t, yc.t, [f.t for f in fact], ind, v[1], s[1], s[2])
            F = z3.Function('interpolated', *([z3.IntSort()] + [z3.RealSort()] * 3))
            got = out.elem(v)
            E.prove('every pixel is taken from its position in the distorted image', got == F(v[0], y, xx))
            E.prove('the input is not changed', z3.BoolVal(x.buf.writes == 0))
        E.explore(body)
    return run


UNITS = {'remove_slits': _box, 'scale': _scale, 'blur_edges': _blur, 'distortion_proj': _proj}
for _n in (1, 2, 3):
    UNITS['unwarp_%d' % _n] = _unwarp(_n)
    UNITS['distortion_sino_%d' % _n] = _sino(_n)
