"""Contracts on the reconstruction and projection C functions (source/libtomo/recon)."""
from .obl import z3
from .cvc import Contract, I, R, FA

GX, GY = z3.Int('ghost_ngridx'), z3.Int('ghost_ngridy')   # logical names of the grid of the running call
HALF = z3.RealVal('1/2')
EPS = z3.RealVal('1/200')
U = 'source/libtomo/recon/utils.c'


def _x(c, a, n=1):
    return lambda: None


def full(n):
    return lambda c: (I(0), n(c))


xhi, yhi = R(GX) * HALF, R(GY) * HALF


def pts_ok(c, coorx, coory, n):
    """The merged crossing points: inside the grid, and no two neighbours on the same outer grid line."""
    return [
        ('every crossing point lies on the grid',
         c.forall(I(0), n, lambda k: z3.And(coorx(k) >= -xhi, coorx(k) <= xhi, coory(k) >= -yhi, coory(k) <= yhi),
                  lambda k: (coorx(k), coory(k)))),
        ('neighbouring points are not both on the far grid line',
         c.forall(I(0), n - 1, lambda k: z3.And(coorx(k) + coorx(k + 1) < R(GX), coory(k) + coory(k + 1) < R(GY)),
                  lambda k: (coorx(k), coory(k)))),
    ]


def _grid_pre(c):
    return [('grid size', z3.And(c.ry == GX, c.rz == GY, c.ry >= 1, c.rz >= 1))]


preprocessing = Contract(
    'preprocessing', ['ry', 'rz', 'num_pixels', 'center', 'mov', 'gridx', 'gridy'],
    sizes={'mov': lambda c: I(1), 'gridx': lambda c: c.ry + 1, 'gridy': lambda c: c.rz + 1},
    requires=lambda c: [('grid size', z3.And(c.ry >= 1, c.rz >= 1))],
    writes={'mov': lambda c: (I(0), I(1)), 'gridx': lambda c: (I(0), c.ry + 1), 'gridy': lambda c: (I(0), c.rz + 1)},
    inits={'mov': lambda c: (I(0), I(1)), 'gridx': lambda c: (I(0), c.ry + 1), 'gridy': lambda c: (I(0), c.rz + 1)},
    ensures=lambda c: [
        ('gridx holds the pixel edges', c.forall(I(0), c.ry + 1, lambda k: c.gridx.post(k) == R(k) - R(c.ry) * HALF, lambda k: c.gridx.post(k))),
        ('gridy holds the pixel edges', c.forall(I(0), c.rz + 1, lambda k: c.gridy.post(k) == R(k) - R(c.rz) * HALF, lambda k: c.gridy.post(k))),
        ('the axis offset is the detector middle minus the centre, nudged off the pixel edges',
         z3.And(c.mov.post(0) >= (R(c.num_pixels) - 1) * HALF - c.center + HALF,
                c.mov.post(0) <= (R(c.num_pixels) - 1) * HALF - c.center + HALF + z3.RealVal('11/1000'))),
    ],
    cands=lambda lc: _prefix_eq(lc, [('gridx', 'ry'), ('gridy', 'rz')]))


def _prefix_eq(lc, pairs):
    out = []
    for arr, n in pairs:
        b = lc.param_block(arr)
        nn = getattr(lc.fn, n)
        for d in lc.ints():
            def f(s, l, b=b, d=d, nn=nn):
                k = z3.Int('k!c')
                return FA(k, z3.Implies(z3.And(k >= 0, k < s.vars[d], k <= nn), z3.Select(s.mem[b], k) == R(k) - R(nn) * HALF), z3.Select(s.mem[b], k))
            out.append(('%s filled below %s' % (arr, lc.name(d)), f))

            def g(s, l, b=b, nn=nn):
                k = z3.Int('k!c')
                return FA(k, z3.Implies(z3.And(k >= 0, k <= nn), z3.Select(s.mem[b], k) == R(k) - R(nn) * HALF), z3.Select(s.mem[b], k))
            out.append(('%s filled' % arr, g))
    return out


calc_quadrant = Contract('calc_quadrant', ['theta_p'], result='int')

sx = lambda c: c.xi * c.cos_p - c.yi * c.sin_p
sy = lambda c: c.xi * c.sin_p + c.yi * c.cos_p
dX = lambda c: -c.xi * c.cos_p - c.yi * c.sin_p
dY = lambda c: -c.xi * c.sin_p + c.yi * c.cos_p

calc_coords = Contract(
    'calc_coords', ['ry', 'rz', 'xi', 'yi', 'sin_p', 'cos_p', 'gridx', 'gridy', 'coordx', 'coordy'],
    sizes={'gridx': lambda c: c.ry + 1, 'gridy': lambda c: c.rz + 1, 'coordx': lambda c: c.rz + 1, 'coordy': lambda c: c.ry + 1},
    requires=lambda c: [('grid size', z3.And(c.ry >= 1, c.rz >= 1))],
    reads={'gridx': lambda c: (I(0), c.ry + 1), 'gridy': lambda c: (I(0), c.rz + 1)},
    writes={'coordx': lambda c: (I(0), c.rz + 1), 'coordy': lambda c: (I(0), c.ry + 1)},
    inits={'coordx': lambda c: (I(0), c.rz + 1), 'coordy': lambda c: (I(0), c.ry + 1)})


def trim_ens(c):
    na, nb = c.asize.post(0), c.bsize.post(0)
    A = lambda k: c.ax.post(k)
    B = lambda k: c.by.post(k)
    return [
        ('counts', z3.And(na >= 0, na <= c.rz + 1, nb >= 0, nb <= c.ry + 1)),
        ('a-points lie strictly between the outer vertical lines and on the grid',
         c.forall(I(0), na, lambda k: z3.And(c.ax.post(k) >= -xhi + EPS, c.ax.post(k) <= xhi - EPS, c.ay.post(k) >= -yhi, c.ay.post(k) <= yhi),
                  lambda k: (c.ax.post(k), c.ay.post(k)))),
        ('b-points lie strictly between the outer horizontal lines and on the grid',
         c.forall(I(0), nb, lambda k: z3.And(c.by.post(k) >= -yhi + EPS, c.by.post(k) <= yhi - EPS, c.bx.post(k) >= -xhi, c.bx.post(k) <= xhi),
                  lambda k: (c.bx.post(k), c.by.post(k)))),
        ('a-points have increasing y', c.forall(I(0), na - 1, lambda k: c.ay.post(k) + 1 <= yhi, lambda k: c.ay.post(k))),
        ('b-points have increasing x', c.forall(I(0), nb - 1, lambda k: c.bx.post(k) + 1 <= xhi, lambda k: c.bx.post(k))),
    ]


def trim_cands(lc):
    out = []
    for (cnt, px, py, hx, hy, nn) in (('asize', 'ax', 'ay', xhi, yhi, 'rz'), ('bsize', 'by', 'bx', yhi, xhi, 'ry')):
        bc, b1, b2 = lc.param_block(cnt), lc.param_block(px), lc.param_block(py)

        def cntv(s, bc=bc):
            return z3.Select(s.mem[bc], I(0))
        out.append(('%s is not negative' % cnt, lambda s, l, cntv=cntv: cntv(s) >= 0))
        nmax = getattr(lc.fn, nn)
        out.append(('%s is at most the number of lines' % cnt, lambda s, l, cntv=cntv, nmax=nmax: cntv(s) <= nmax + 1))

        def f(s, l, cntv=cntv, b1=b1, b2=b2, hx=hx, hy=hy):
            k = z3.Int('k!t')
            return FA(k, z3.Implies(z3.And(k >= 0, k < cntv(s)),
                                             z3.And(z3.Select(s.mem[b1], k) >= -hx + EPS, z3.Select(s.mem[b1], k) <= hx - EPS,
                                                    z3.Select(s.mem[b2], k) >= -hy, z3.Select(s.mem[b2], k) <= hy)), z3.Select(s.mem[b1], k), z3.Select(s.mem[b2], k))
        out.append(('%s points are on the grid' % cnt, f))

        def f1(s, l, cntv=cntv, b2=b2, hy=hy):
            k = z3.Int('k!t')
            return FA(k, z3.Implies(z3.And(k >= 0, k < cntv(s) - 1), z3.Select(s.mem[b2], k) + 1 <= hy), z3.Select(s.mem[b2], k))
        out.append(('%s points increase' % cnt, f1))
        for d in lc.ints():
            out.append(('%s <= %s' % (cnt, lc.name(d)), lambda s, l, cntv=cntv, d=d: cntv(s) <= s.vars[d]))

            def f2(s, l, cntv=cntv, b2=b2, hy=hy, d=d):
                k = z3.Int('k!t')
                return FA(k, z3.Implies(z3.And(k >= 0, k < cntv(s)), z3.Select(s.mem[b2], k) <= R(s.vars[d]) - 1 - hy), z3.Select(s.mem[b2], k))
            out.append(('%s points lie before %s' % (cnt, lc.name(d)), f2))
    return out


def _grid_vals(c):
    return [('gridx holds the pixel edges', c.forall(I(0), c.ry + 1, lambda k: c.gridx.at(k) == R(k) - xhi, lambda k: c.gridx.at(k))),
            ('gridy holds the pixel edges', c.forall(I(0), c.rz + 1, lambda k: c.gridy.at(k) == R(k) - yhi, lambda k: c.gridy.at(k)))]


trim_coords = Contract(
    'trim_coords', ['ry', 'rz', 'coordx', 'coordy', 'gridx', 'gridy', 'asize', 'ax', 'ay', 'bsize', 'bx', 'by'],
    sizes={'coordx': lambda c: c.rz + 1, 'coordy': lambda c: c.ry + 1, 'gridx': lambda c: c.ry + 1, 'gridy': lambda c: c.rz + 1,
           'asize': lambda c: I(1), 'bsize': lambda c: I(1),
           'ax': lambda c: c.rz + 1, 'ay': lambda c: c.rz + 1, 'bx': lambda c: c.ry + 1, 'by': lambda c: c.ry + 1},
    requires=lambda c: _grid_pre(c) + _grid_vals(c),
    reads={'coordx': lambda c: (I(0), c.rz + 1), 'coordy': lambda c: (I(0), c.ry + 1), 'gridx': lambda c: (I(0), c.ry + 1), 'gridy': lambda c: (I(0), c.rz + 1)},
    writes={'asize': lambda c: (I(0), I(1)), 'bsize': lambda c: (I(0), I(1)), 'ax': lambda c: (I(0), c.rz + 1), 'ay': lambda c: (I(0), c.rz + 1),
            'bx': lambda c: (I(0), c.ry + 1), 'by': lambda c: (I(0), c.ry + 1)},
    inits={'asize': lambda c: (I(0), I(1)), 'bsize': lambda c: (I(0), I(1)),
           'ax': lambda c: (I(0), c.asize.post(0)), 'ay': lambda c: (I(0), c.asize.post(0)),
           'bx': lambda c: (I(0), c.bsize.post(0)), 'by': lambda c: (I(0), c.bsize.post(0))},
    ensures=trim_ens,
    assumed_ensures=lambda c: [('a straight ray crosses at most ry+rz grid lines', c.asize.post(0) + c.bsize.post(0) <= c.ry + c.rz)],
    cands=trim_cands)


def sort_req(c):
    return [
        ('counts', z3.And(c.asize >= 0, c.bsize >= 0, GX >= 1, GY >= 1)),
        ('a-points', c.forall(I(0), c.asize, lambda k: z3.And(c.ax.at(k) >= -xhi, c.ax.at(k) <= xhi - EPS, c.ay.at(k) >= -yhi, c.ay.at(k) <= yhi), lambda k: (c.ax.at(k), c.ay.at(k)))),
        ('b-points', c.forall(I(0), c.bsize, lambda k: z3.And(c.by.at(k) >= -yhi, c.by.at(k) <= yhi - EPS, c.bx.at(k) >= -xhi, c.bx.at(k) <= xhi), lambda k: (c.bx.at(k), c.by.at(k)))),
        ('a-points increase', c.forall(I(0), c.asize - 1, lambda k: c.ay.at(k) + 1 <= yhi, lambda k: c.ay.at(k))),
        ('b-points increase', c.forall(I(0), c.bsize - 1, lambda k: c.bx.at(k) + 1 <= xhi, lambda k: c.bx.at(k))),
    ]


def sort_cands(lc):
    out = []
    bx_, by_ = lc.param_block('coorx'), lc.param_block('coory')
    asize, bsize = lc.fn.asize, lc.fn.bsize
    ints = lc.local_ints()
    for d in ints:
        out.append(('%s >= 0' % lc.name(d), lambda s, l, d=d: s.vars[d] >= 0))
        out.append(('%s <= asize' % lc.name(d), lambda s, l, d=d: s.vars[d] <= asize))
        out.append(('%s <= bsize' % lc.name(d), lambda s, l, d=d: s.vars[d] <= bsize))
    for d in ints:
        for e in ints:
            if d >= e:
                continue
            for f in ints:
                if f in (d, e):
                    continue
                out.append(('%s = %s + %s' % (lc.name(f), lc.name(d), lc.name(e)), lambda s, l, d=d, e=e, f=f: s.vars[f] == s.vars[d] + s.vars[e]))
    X = lambda s, k: z3.Select(s.mem[bx_], k)
    Y = lambda s, k: z3.Select(s.mem[by_], k)
    k = z3.Int('k!s')
    for K in ints:
        def f0(s, l, K=K):
            return FA(k, z3.Implies(z3.And(k >= 0, k < s.vars[K]),
                                             z3.And(X(s, k) >= -xhi, X(s, k) <= xhi, Y(s, k) >= -yhi, Y(s, k) <= yhi)), X(s, k), Y(s, k))
        out.append(('points below %s are on the grid' % lc.name(K), f0))

        def f1(s, l, K=K):
            return FA(k, z3.Implies(z3.And(k >= 0, k < s.vars[K] - 1), z3.And(X(s, k) + X(s, k + 1) < R(GX), Y(s, k) + Y(s, k + 1) < R(GY))), X(s, k), Y(s, k))
        out.append(('neighbours below %s' % lc.name(K), f1))
        for i in ints:
            # b-points not yet used up: nothing so far touches the right edge;  reversed / forward a-points likewise
            def f2(s, l, K=K, i=i):
                return z3.Implies(s.vars[i] < bsize, FA(k, z3.Implies(z3.And(k >= 0, k < s.vars[K]), X(s, k) < xhi), X(s, k), Y(s, k)))
            out.append(('x below the edge while %s < bsize' % lc.name(i), f2))

            def f3(s, l, K=K, i=i):
                return z3.Implies(s.vars[i] < asize, FA(k, z3.Implies(z3.And(k >= 0, k < s.vars[K]), Y(s, k) < yhi), X(s, k), Y(s, k)))
            out.append(('y below the edge while %s < asize' % lc.name(i), f3))

            def f4(s, l, K=K, i=i):
                return z3.Implies(s.vars[i] <= 0, FA(k, z3.Implies(z3.And(k >= 0, k < s.vars[K]), Y(s, k) < yhi), X(s, k), Y(s, k)))
            out.append(('y below the edge while %s == 0' % lc.name(i), f4))
    return out


sort_intersections = Contract(
    'sort_intersections', ['ind_condition', 'asize', 'ax', 'ay', 'bsize', 'bx', 'by', 'csize', 'coorx', 'coory'],
    sizes={'ax': lambda c: c.asize, 'ay': lambda c: c.asize, 'bx': lambda c: c.bsize, 'by': lambda c: c.bsize, 'csize': lambda c: I(1),
           'coorx': lambda c: c.asize + c.bsize, 'coory': lambda c: c.asize + c.bsize},
    requires=sort_req,
    reads={'ax': lambda c: (I(0), c.asize), 'ay': lambda c: (I(0), c.asize), 'bx': lambda c: (I(0), c.bsize), 'by': lambda c: (I(0), c.bsize)},
    writes={'csize': lambda c: (I(0), I(1)), 'coorx': lambda c: (I(0), c.asize + c.bsize), 'coory': lambda c: (I(0), c.asize + c.bsize)},
    inits={'csize': lambda c: (I(0), I(1)), 'coorx': lambda c: (I(0), c.asize + c.bsize), 'coory': lambda c: (I(0), c.asize + c.bsize)},
    ensures=lambda c: [('csize counts both', c.csize.post(0) == c.asize + c.bsize)] +
    pts_ok(c, lambda k: c.coorx.post(k), lambda k: c.coory.post(k), c.asize + c.bsize),
    cands=sort_cands)


def dist_req(c):
    return _grid_pre(c) + pts_ok(c, lambda k: c.coorx.at(k), lambda k: c.coory.at(k), c.csize)


n1 = lambda c: c.csize - 1
calc_dist = Contract(
    'calc_dist', ['ry', 'rz', 'csize', 'coorx', 'coory', 'indi', 'dist'],
    sizes={'coorx': lambda c: c.csize, 'coory': lambda c: c.csize, 'indi': lambda c: z3.If(c.csize >= 1, c.csize - 1, 0), 'dist': lambda c: z3.If(c.csize >= 1, c.csize - 1, 0)},
    requires=dist_req,
    reads={'coorx': lambda c: (I(0), c.csize), 'coory': lambda c: (I(0), c.csize)},
    writes={'indi': lambda c: (I(0), z3.If(c.csize >= 1, c.csize - 1, 0)), 'dist': lambda c: (I(0), z3.If(c.csize >= 1, c.csize - 1, 0))},
    inits={'indi': lambda c: (I(0), c.csize - 1), 'dist': lambda c: (I(0), c.csize - 1)},
    ensures=lambda c: [
        ('every index names a pixel', c.forall(I(0), c.csize - 1, lambda k: z3.And(c.indi.post(k) >= 0, c.indi.post(k) < c.ry * c.rz), lambda k: c.indi.post(k))),
        ('every length is non-negative', c.forall(I(0), c.csize - 1, lambda k: c.dist.post(k) >= 0, lambda k: c.dist.post(k))),
    ],
    cands=lambda lc: _dist_cands(lc))


def _dist_cands(lc):
    out = []
    k = z3.Int('k!d')
    ry, rz = lc.fn.ry, lc.fn.rz
    blocks = lc.mblocks
    ints = lc.ints()
    lims = [('rz', rz), ('ry', ry), ('ry*rz', ry * rz)]
    for b in blocks:
        kind = lc.vc.blocks[b].kind
        for d in ints:
            if kind == 'int':
                for nm, lim in lims:
                    out.append(('0 <= %s[..%s] < %s' % (lc.vc.blocks[b].name, lc.name(d), nm),
                                lambda s, l, b=b, d=d, lim=lim: FA(k, z3.Implies(z3.And(k >= 0, k < s.vars[d]),
                                                                                     z3.And(z3.Select(s.mem[b], k) >= 0, z3.Select(s.mem[b], k) < lim)), z3.Select(s.mem[b], k))))
            else:
                out.append(('%s[..%s] >= 0' % (lc.vc.blocks[b].name, lc.name(d)),
                            lambda s, l, b=b, d=d: FA(k, z3.Implies(z3.And(k >= 0, k < s.vars[d]), z3.Select(s.mem[b], k) >= 0), z3.Select(s.mem[b], k))))
    return out


calc_dist2 = Contract(
    'calc_dist2', ['ry', 'rz', 'csize', 'coorx', 'coory', 'indx', 'indy', 'dist'],
    sizes={'coorx': lambda c: c.csize, 'coory': lambda c: c.csize, 'indx': lambda c: z3.If(c.csize >= 1, c.csize - 1, 0),
           'indy': lambda c: z3.If(c.csize >= 1, c.csize - 1, 0), 'dist': lambda c: z3.If(c.csize >= 1, c.csize - 1, 0)},
    requires=dist_req,
    reads={'coorx': lambda c: (I(0), c.csize), 'coory': lambda c: (I(0), c.csize)},
    writes={nm: (lambda c: (I(0), z3.If(c.csize >= 1, c.csize - 1, 0))) for nm in ('indx', 'indy', 'dist')},
    inits={nm: (lambda c: (I(0), c.csize - 1)) for nm in ('indx', 'indy', 'dist')},
    ensures=lambda c: [
        ('every column index names a pixel', c.forall(I(0), c.csize - 1, lambda k: z3.And(c.indx.post(k) >= 0, c.indx.post(k) < c.ry), lambda k: c.indx.post(k))),
        ('every row index names a pixel', c.forall(I(0), c.csize - 1, lambda k: z3.And(c.indy.post(k) >= 0, c.indy.post(k) < c.rz), lambda k: c.indy.post(k))),
        ('every length is non-negative', c.forall(I(0), c.csize - 1, lambda k: c.dist.post(k) >= 0, lambda k: c.dist.post(k))),
    ],
    cands=lambda lc: _dist_cands(lc))

pos = lambda c: c.d + c.p * c.dx + c.s * c.dt * c.dx


def simdata_req(c):
    return [('position', z3.And(c.s >= 0, c.p >= 0, c.p < c.dt, c.d >= 0, c.d < c.dx, c.ry >= 1, c.rz >= 1)),
            ('pixel indices', c.forall(I(0), c.csize - 1, lambda k: z3.And(c.indi.at(k) >= 0, c.indi.at(k) < c.ry * c.rz), lambda k: c.indi.at(k)))]


nn1 = lambda c: z3.If(c.csize >= 1, c.csize - 1, 0)
calc_simdata = Contract(
    'calc_simdata', ['s', 'p', 'd', 'ry', 'rz', 'dt', 'dx', 'csize', 'indi', 'dist', 'model', 'simdata'],
    sizes={'indi': nn1, 'dist': nn1, 'model': lambda c: (c.s + 1) * c.ry * c.rz, 'simdata': lambda c: pos(c) + 1},
    requires=simdata_req,
    reads={'indi': lambda c: (I(0), n1(c)), 'dist': lambda c: (I(0), n1(c)), 'model': lambda c: (c.s * c.ry * c.rz, (c.s + 1) * c.ry * c.rz),
           'simdata': lambda c: (pos(c), pos(c) + 1)},
    writes={'simdata': lambda c: (pos(c), pos(c) + 1)})


def nonneg_simdata(c):
    return []


def simdata23_req(c):
    return [('position', z3.And(c.s >= 0, c.p >= 0, c.p < c.dt, c.d >= 0, c.d < c.dx, c.ry >= 1, c.rz >= 1)),
            ('column indices', c.forall(I(0), c.csize - 1, lambda k: z3.And(c.indx.at(k) >= 0, c.indx.at(k) < c.ry), lambda k: c.indx.at(k))),
            ('row indices', c.forall(I(0), c.csize - 1, lambda k: z3.And(c.indy.at(k) >= 0, c.indy.at(k) < c.rz), lambda k: c.indy.at(k)))]


slab = lambda c: (c.s * c.ry * c.rz, (c.s + 1) * c.ry * c.rz)
calc_simdata2 = Contract(
    'calc_simdata2', ['s', 'p', 'd', 'ry', 'rz', 'dt', 'dx', 'csize', 'indx', 'indy', 'dist', 'vx', 'vy', 'modelx', 'modely', 'simdata'],
    sizes={'indx': nn1, 'indy': nn1, 'dist': nn1, 'modelx': lambda c: (c.s + 1) * c.ry * c.rz, 'modely': lambda c: (c.s + 1) * c.ry * c.rz, 'simdata': lambda c: pos(c) + 1},
    requires=simdata23_req,
    reads={'indx': lambda c: (I(0), n1(c)), 'indy': lambda c: (I(0), n1(c)), 'dist': lambda c: (I(0), n1(c)), 'modelx': slab, 'modely': slab,
           'simdata': lambda c: (pos(c), pos(c) + 1)},
    writes={'simdata': lambda c: (pos(c), pos(c) + 1)})

cube = lambda c: (I(0), c.ry * c.ry * c.rz)


def simdata3_req(c):
    return simdata23_req(c) + [('other axes need a cube', z3.Implies(c.axis != 0, z3.And(c.ry == c.rz, c.s < c.ry)))]


m3 = lambda c: z3.If(c.axis == 0, (c.s + 1) * c.ry * c.rz, c.rz * c.ry * c.rz)
m3r = lambda c: (z3.If(c.axis == 0, c.s * c.ry * c.rz, 0), m3(c))
calc_simdata3 = Contract(
    'calc_simdata3', ['s', 'p', 'd', 'ry', 'rz', 'dt', 'dx', 'csize', 'indx', 'indy', 'dist', 'vx', 'vy', 'modelx', 'modely', 'modelz', 'axis', 'simdata'],
    sizes={'indx': nn1, 'indy': nn1, 'dist': nn1, 'modelx': m3, 'modely': m3, 'modelz': m3, 'simdata': lambda c: pos(c) + 1},
    requires=simdata3_req,
    reads={'indx': lambda c: (I(0), n1(c)), 'indy': lambda c: (I(0), n1(c)), 'dist': lambda c: (I(0), n1(c)), 'modelx': m3r, 'modely': m3r, 'modelz': m3r,
           'simdata': lambda c: (pos(c), pos(c) + 1)},
    writes={'simdata': lambda c: (pos(c), pos(c) + 1)})

UTILS = {c.name: c for c in (calc_simdata3, preprocessing, calc_quadrant, calc_coords, trim_coords, sort_intersections, calc_dist, calc_dist2, calc_simdata, calc_simdata2)}

D = 'source/libtomo/recon/'


def _dims(c):
    return [('sizes', z3.And(c.dy >= 0, c.dt >= 0, c.dx >= 0, c.ngridx >= 1, c.ngridy >= 1, c.ngridx == GX, c.ngridy == GY))]


base_sizes = {
    'data': lambda c: c.dy * c.dt * c.dx, 'center': lambda c: c.dy, 'theta': lambda c: c.dt, 'recon': lambda c: c.dy * c.ngridx * c.ngridy,
    'ind_block': lambda c: c.dt, 'reg_pars': lambda c: I(10), 'reg_data': lambda c: c.dy * c.ngridx * c.ngridy, 'filter_par': lambda c: I(2), 'fname': lambda c: I(16)}
base_sliced = {'count': lambda c: c.dy, 'data': lambda c: c.dt * c.dx, 'center': lambda c: I(1), 'recon': lambda c: c.ngridx * c.ngridy,
               'reg_data': lambda c: c.ngridx * c.ngridy}


def os_cands(lc):
    """Ordered subsets: where subset os starts."""
    out = []
    dt, nb = lc.fn.dt, lc.fn.num_block
    bs, rm = dt / nb, dt - nb * (dt / nb)
    ints = lc.ints()
    for d in ints:
        for e in ints:
            if d == e:
                continue
            out.append(('%s is the end of the first %s subsets' % (lc.name(d), lc.name(e)),
                        lambda s, l, d=d, e=e: s.vars[d] == s.vars[e] * bs + z3.If(s.vars[e] < rm, s.vars[e], rm)))
    return out


def recon_contract(name, extra, pml=False):
    params = ['data', 'dy', 'dt', 'dx', 'center', 'theta', 'recon', 'ngridx', 'ngridy'] + extra

    def req(c):
        r = _dims(c)
        if 'num_block' in extra:
            r.append(('number of subsets', z3.And(c.num_block >= 1, c.num_block <= z3.If(c.dt >= 1, c.dt, 1))))
            r.append(('subset order', c.forall(I(0), c.dt, lambda k: z3.And(c.ind_block.at(k) >= 0, c.ind_block.at(k) < c.dt), lambda k: c.ind_block.at(k))))
        if name == 'art':
            r.append(('the slices of one call share their centre', c.forall(I(0), c.dy, lambda k: c.center.at(k) == c.center.at(I(0)), lambda k: c.center.at(k))))
        if pml:
            r.append(('the penalty needs two pixels per axis', z3.And(c.ngridx >= 2, c.ngridy >= 2)))
        return r
    sizes = {k: v for k, v in base_sizes.items() if k in params}
    sliced = {k: v for k, v in base_sliced.items() if (k in params or k == 'count') and not (name == 'art' and k == 'center')}
    return Contract(name, params, sizes=sizes, requires=req, writes={'recon': lambda c: (I(0), c.dy * c.ngridx * c.ngridy)},
                    sliced=sliced, cands=os_cands if 'num_block' in extra else None)


RECON = {
    'art': (D + 'art.c', recon_contract('art', ['num_iter'])),
    'bart': (D + 'bart.c', recon_contract('bart', ['num_iter', 'num_block', 'ind_block'])),
    'fbp': (D + 'fbp.c', recon_contract('fbp', ['fname', 'filter_par'])),
    'grad': (D + 'grad.c', recon_contract('grad', ['num_iter', 'reg_pars'])),
    'osem': (D + 'osem.c', recon_contract('osem', ['num_iter', 'num_block', 'ind_block'])),
    'ospml_hybrid': (D + 'ospml_hybrid.c', recon_contract('ospml_hybrid', ['num_iter', 'reg_pars', 'num_block', 'ind_block'], True)),
    'ospml_quad': (D + 'ospml_quad.c', recon_contract('ospml_quad', ['num_iter', 'reg_pars', 'num_block', 'ind_block'], True)),
    'tikh': (D + 'tikh.c', recon_contract('tikh', ['num_iter', 'reg_data', 'reg_pars'])),
    'tv': (D + 'tv.c', recon_contract('tv', ['num_iter', 'reg_pars'])),
}


def _proj(name, objs, axis=False):
    params = objs + ['oy', 'ox', 'oz', 'data', 'dy', 'dt', 'dx', 'center', 'theta'] + (['axis'] if axis else [])

    def req(c):
        r = [('sizes', z3.And(c.dy >= 0, c.dt >= 0, c.dx >= 0, c.ox >= 1, c.oz >= 1, c.ox == GX, c.oz == GY, c.oy == c.dy)),
             ('the slices of one call share their centre', c.forall(I(0), c.dy, lambda k: c.center.at(k) == c.center.at(I(0)), lambda k: c.center.at(k)))]
        if axis:
            r.append(('other axes need a cube', z3.Implies(c.axis != 0, z3.And(c.ox == c.oz, c.dy == c.ox))))
        return r
    sizes = {o: (lambda c: c.dy * c.ox * c.oz) for o in objs}
    sizes.update(data=lambda c: c.dy * c.dt * c.dx, center=lambda c: c.dy, theta=lambda c: c.dt)
    sliced = {'count': lambda c: c.dy, 'data': lambda c: c.dt * c.dx}
    if not axis:
        sliced.update({o: (lambda c: c.ox * c.oz) for o in objs})
    return Contract(name, params, sizes=sizes, requires=req, writes={'data': lambda c: (I(0), c.dy * c.dt * c.dx)}, sliced=sliced)


PROJECT = {
    'project': (D + 'project.c', _proj('project', ['obj'])),
    'project2': (D + 'project.c', _proj('project2', ['objx', 'objy'])),
    'project3': (D + 'project.c', _proj('project3', ['objx', 'objy', 'objz'], True)),
}


def _vec(name, n):
    if n == 1:
        params = ['data', 'dy', 'dt', 'dx', 'center', 'theta', 'recon1', 'recon2', 'ngridx', 'ngridy', 'num_iter']
        recs, ctr, dat, th = ['recon1', 'recon2'], ['center'], ['data'], ['theta']
    else:
        ks = [str(i + 1) for i in range(n)]
        dat, ctr, th = ['data' + k for k in ks], ['center' + k for k in ks], ['theta' + k for k in ks]
        recs = ['recon1', 'recon2', 'recon3']
        params = dat + ['dy', 'dt', 'dx'] + ctr + th + recs + ['ngridx', 'ngridy', 'num_iter'] + ['axis' + k for k in ks]

    def req(c):
        r = _dims(c)
        if n > 1:
            r.append(('a cube', z3.And(c.ngridx == c.ngridy, c.dy == c.ngridx)))
        return r
    sizes = {}
    for x in dat:
        sizes[x] = lambda c: c.dy * c.dt * c.dx
    for x in ctr:
        sizes[x] = lambda c: c.dy
    for x in th:
        sizes[x] = lambda c: c.dt
    for x in recs:
        sizes[x] = lambda c: c.dy * c.ngridx * c.ngridy
    sliced = None
    if n == 1:
        sliced = {'count': lambda c: c.dy, 'data': lambda c: c.dt * c.dx, 'center': lambda c: I(1),
                  'recon1': lambda c: c.ngridx * c.ngridy, 'recon2': lambda c: c.ngridx * c.ngridy}
    return Contract(name, params, sizes=sizes, requires=req, sliced=sliced,
                    writes={x: (lambda c: (I(0), c.dy * c.ngridx * c.ngridy)) for x in recs})


VECTOR = {nm: (D + 'vector.c', _vec(nm, n)) for nm, n in (('vector', 1), ('vector2', 2), ('vector3', 3))}
ALL = dict(RECON, **PROJECT, **VECTOR)


def unit(name, facets, change=None):
    """A proof unit: the named C function against its contract, the callees against theirs."""
    def run(L):
        from . import cast, cvc
        utu = cast.parse(U)
        if name in UTILS:
            tu, c = utu, UTILS[name]
        else:
            path, c = ALL[name]
            tu = cast.parse(path)
        con = {k: v for k, v in UTILS.items() if k != name}
        if change is not None:
            c, con = change(c, con)
        if name not in tu['functions']:
            from .obl import Unsupported
            raise Unsupported('%s is not defined in %s' % (name, tu['path']))
        L.under_contract('%s (%s)' % (name, tu['path']))
        L.assume('C integers do not overflow and floats are exact reals', 'malloc and calloc succeed', 'pointer arguments of one call do not overlap')
        if name in ALL:
            L.assume('a straight ray crosses at most ngridx+ngridy grid lines (assumed of trim_coords)')
        g = cvc.VCGen(L, tu['functions'][name], tu, c, contracts=con, facets=facets, funcs=dict(utu['functions'], **tu['functions']))
        g.run()
    return run


# ---------------------------------------------------------------- non-negativity (C05)
def _nn_all(c, v, n, post=False):
    f = v.post if post else v.at
    return c.forall(I(0), n, lambda k: f(k) >= 0, lambda k: f(k))


def nonneg_simdata_contract():
    import copy
    c = copy.copy(calc_simdata)
    c.requires = lambda x: simdata_req(x) + [
        ('lengths are not negative', x.forall(I(0), x.csize - 1, lambda k: x.dist.at(k) >= 0, lambda k: x.dist.at(k))),
        ('the slice is not negative', x.forall(x.s * x.ry * x.rz, (x.s + 1) * x.ry * x.rz, lambda k: x.model.at(k) >= 0, lambda k: x.model.at(k)))]
    c.ensures = lambda x: [('the ray sum does not decrease', x.simdata.post(pos(x)) >= x.simdata.at(pos(x)))]
    c.cands = lambda lc: [('the ray sum does not decrease',
                           lambda s, l: z3.Select(s.mem[lc.param_block('simdata')], pos(lc.fn)) >= z3.Select(lc.entry.mem[lc.param_block('simdata')], pos(lc.fn)))]
    return c


def nonneg_change(reg=False):
    def change(c, con):
        import copy
        c = copy.copy(c)
        base, n = c.requires, (lambda x: x.dy * x.ngridx * x.ngridy)
        c.requires = lambda x: base(x) + [('measured data are not negative', _nn_all(x, x.data, x.dy * x.dt * x.dx)),
                                          ('the initial image is not negative', _nn_all(x, x.recon, n(x)))] + \
            ([('the penalty weight is positive', x.reg_pars.at(0) > 0), ('the threshold is positive', x.reg_pars.at(1) > 0)] if reg else [])
        c.ensures = lambda x: [('the image is not negative', _nn_all(x, x.recon, n(x), True))]
        con = dict(con, calc_simdata=nonneg_simdata_contract())
        return c, con
    return change
