"""C19: phantoms and simulated data."""
from ..obl import z3
from .. import pyu as U, pysym as P

ORACLE_S = 40
ORACLE_WHAT = ('phantoms and simulated data on the real code against independent models: random ellipsoids, the Shepp-Logan head, the test images, angles, centers, the transport of intensity, Gaussian probes, '
               'scanned intensities, drift, rings, zingers and noise')
J = 'tomopy.sim.project.'
R = 'tomopy.sim.propagate.'
H = 'tomopy.misc.phantom.'


class Random:
    """numpy.random: any numbers of the distribution."""

    def __init__(self):
        self.calls = []

    def _arr(self, shape, name, *facts):
        F = z3.Function('random!%d' % len(self.calls), *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
        self.calls.append((name, F, list(shape)))

        def fn(v):
            x = F(*v)
            for f in facts:
                P.ENG.assume(f(x))
            return x
        return P.SymArr.new(list(shape), 'float64', fn, 'random')

    def rand(self, *s): return self._arr(s, 'rand', lambda x: x >= 0, lambda x: x < 1)
    def randn(self, *s): return self._arr(s, 'randn')

    def uniform(self, low=0., high=1., size=None):
        return self._arr(size, 'uniform', lambda x: x >= P.real(P.toz(low)), lambda x: x <= P.real(P.toz(high)))

    def normal(self, loc=0., scale=1., size=None):
        a = self._arr(size, 'normal')
        self.calls[-1] += (loc, scale)
        return a * scale + loc

    def __getattr__(self, n):
        raise P.Unsupported('numpy.random.' + n)


def _noise(L):
    E = U.begin(L, 'noise', [J + f for f in ('add_drift', 'add_rings', 'add_zingers', 'add_gaussian', 'add_salt_pepper')], ['numpy.random returns arrays of the requested size, within the requested range'])
    import tomopy.sim.project as m

    def setup(dt='float64'):
        s = U.dims(E, 'n', 'h', 'w')
        return s, P.SymArr.input('tomo', s, dt), U.index(E, s)

    def drift():
        s, x, v = setup()
        amp, per, mean = (P.SymReal(z3.Real(q)) for q in ('amp', 'period', 'mean'))
        E.assume(per.t != 0)
        out = m.add_drift(x, amp=amp, period=per, mean=mean)
        U.same_shape(E, 'the data keep their shape', out, s)
        U.untouched(E, out, x)
        pi2 = P.real(P.toz(2 * m.np.pi))
        sin = P.uf('sin', pi2 / per.t * P.real(v[0]))
        ramp = z3.If(s[0] == 1, z3.RealVal(0), P.real(v[0]) / P.real(s[0] - 1))
        E.prove('every projection is multiplied by its drift', out.elem(v) == x.elem(v) * (amp.t * sin + mean.t + ramp))
    E.explore(drift)

    def rings():
        s, x, v = setup()
        std = P.SymReal(z3.Real('std'))
        rnd = Random()
        with U.Patched((P.NP, 'random', rnd)):
            out = m.add_rings(x, std=std)
        U.same_shape(E, 'the data keep their shape', out, s)
        U.untouched(E, out, x)
        if not E.prove('one sensitivity for every pixel', z3.And(z3.BoolVal(len(rnd.calls) == 1), *[a == P.toz(b) for a, b in zip((1, s[1], s[2]), rnd.calls[0][2])])):
            raise P.StopPath()
        F = rnd.calls[0][1]
        E.prove('the sensitivity of a pixel is the same in every projection', out.elem(v) == x.elem(v) * (1 + std.t * F(0, v[1], v[2])))
    E.explore(rings)

    def zingers():
        s, x, v = setup()
        f, sat = P.SymReal(z3.Real('f')), P.SymReal(z3.Real('sat'))
        with U.Patched((P.NP, 'random', Random())):
            out = m.add_zingers(x, f=f, sat=sat)
        U.same_shape(E, 'the data keep their shape', out, s)
        U.untouched(E, out, x)
        o = out.elem(v)
        E.prove('every value is kept or saturated', z3.Or(o == x.elem(v), o == sat.t))
        E.prove('a fraction of one saturates everything', z3.Implies(f.t >= 1, o == sat.t))
        E.prove('a negative fraction saturates nothing', z3.Implies(f.t < 0, o == x.elem(v)))
    E.explore(zingers)

    def gauss():
        s, x, v = setup()
        x0 = x.elem(v)
        mean, std = P.SymReal(z3.Real('mean')), P.SymReal(z3.Real('std'))
        rnd = Random()
        with U.Patched((P.NP, 'random', rnd)):
            out = m.add_gaussian(x, mean=mean, std=std)
        U.same_shape(E, 'the data keep their shape', out, s)
        if not E.prove('one random number for every value', z3.BoolVal(len(rnd.calls) == 1)):
            raise P.StopPath()
        E.prove('noise of the given mean and deviation is added', out.elem(v) == x0 + std.t * rnd.calls[0][1](*v) + mean.t)
    E.explore(gauss)

    def salt():
        s, x, v = setup()
        x0 = x.elem(v)
        p, val = P.SymReal(z3.Real('prob')), P.SymReal(z3.Real('val'))
        with U.Patched((P.NP, 'random', Random())):
            out = m.add_salt_pepper(x, prob=p, val=val)
        U.same_shape(E, 'the data keep their shape', out, s)
        o = out.elem(v)
        E.prove('every value is kept or replaced', z3.Or(o == x0, o == val.t))
        E.prove('a probability of one replaces everything', z3.Implies(p.t >= 1, o == val.t))
        E.prove('a probability of zero replaces nothing', z3.Implies(p.t <= 0, o == x0))
    E.explore(salt)


def _geometry(L):
    E = U.begin(L, 'geometry', [J + 'angles', J + 'get_center'])
    import tomopy.sim.project as m

    def angles():
        n, = U.dims(E, 'n')
        a, b = P.SymReal(z3.Real('ang1')), P.SymReal(z3.Real('ang2'))
        out = m.angles(P.wrap(n), a, b)
        U.same_shape(E, 'one angle for every projection', out, [n])
        v = U.index(E, [n])
        rad = P.real(P.toz(m.np.pi)) / 180
        x, y = a.t * rad, b.t * rad
        o = out.elem(v)
        E.prove('the first angle is the given one', z3.Implies(v[0] == 0, o == x))
        E.prove('the last angle is the given one', z3.Implies(z3.And(v[0] == n - 1, n > 1), o == y))
        E.prove('the angles are evenly spaced', z3.Implies(n > 1, o * P.real(n - 1) == x * P.real(n - 1) + P.real(v[0]) * (y - x)))
    E.explore(angles)
    for kind in ('none', 'scalar', 'one', 'array'):
        def center():
            s = U.dims(E, 'dy', 'dt', 'dx')
            shape = tuple(P.wrap(q) for q in s)
            v = U.index(E, s[:1])
            c = z3.Real('c')
            if kind == 'none':
                out, want = m.get_center(shape, None), P.real(s[2]) / 2
            elif kind == 'scalar':
                out, want = m.get_center(shape, P.SymReal(c)), c
            elif kind == 'one':
                a = P.SymArr.input('center', [z3.IntVal(1)], 'float64')
                out, want = m.get_center(shape, a), a.elem([z3.IntVal(0)])
            else:
                E.assume(s[0] > 1)
                a = P.SymArr.input('center', [s[0]], 'float64')
                out, want = m.get_center(shape, a), a.elem(v)
            U.same_shape(E, 'one center for every slice', out, s[:1])
            E.prove('the centers are float32 and contiguous', z3.And(z3.BoolVal(str(out.dtype) == 'float32'), P.tob(out.is_contig())))
            E.prove('the center of every slice is the given one, or the middle of the detector', out.elem(v) == want)
        E.explore(center)


def _wave(L):
    E = U.begin(L, 'propagation', [R + 'propagate_tie', R + 'probe_gauss', R + 'calc_intensity'])
    import tomopy.sim.propagate as m

    def tie():
        s = U.dims(E, 'n', 'h', 'w')
        E.assume(s[1] >= 2, s[2] >= 2)
        mu, de = P.SymArr.input('mu', s, 'float64'), P.SymArr.input('delta', s, 'float64')
        h, d = P.SymReal(z3.Real('pixel_size')), P.SymReal(z3.Real('dist'))
        E.assume(h.t > 0)
        out = m.propagate_tie(mu, de, h, d)
        U.same_shape(E, 'the data keep their shape', out, s)
        U.untouched(E, out, mu, de)
        v = U.index(E, s)

        def grad(f, ax):
            def g(i):
                at = lambda q: f([q if k == ax else x for k, x in enumerate(i)])
                n, j = s[ax], i[ax]
                return z3.If(j == 0, (at(z3.IntVal(1)) - at(z3.IntVal(0))) / h.t, z3.If(j == n - 1, (at(n - 1) - at(n - 2)) / h.t, (at(j + 1) - at(j - 1)) / (2 * h.t)))
            return g
        i1 = lambda i: P.uf('exp', -mu.elem(i))
        f = lambda ax: grad(lambda i: i1(i) * grad(de.elem, ax)(i), ax)(v)
        E.prove('the intensity follows the transport of intensity', out.elem(v) == i1(v) + d.t * (f(1) + f(2)))
    E.explore(tie)
    for given in (False, True):
        def probe():
            nx, ny = U.dims(E, 'nx', 'ny')
            E.assume(z3.Or(nx >= 2, ny >= 2))
            kw = {}
            f, x0, y0, top = z3.Reals('fwhm x0 y0 max_int')
            if given:
                kw = dict(fwhm=P.SymReal(f), center=(P.SymReal(x0), P.SymReal(y0)), max_int=P.SymReal(top))
                E.assume(f != 0)
            else:
                big = z3.If(nx > ny, nx, ny)
                f, x0, y0, top = P.real(big / 2), P.real(nx / 2), P.real(ny / 2), z3.RealVal(1)
            out = m.probe_gauss(P.wrap(nx), P.wrap(ny), **kw)
            U.same_shape(E, 'the probe has the given size', out, [nx, ny])
            v = U.index(E, [nx, ny])
            a, b = P.real(v[0]) - x0 + P.real(P.toz(.5)), P.real(v[1]) - y0 + P.real(P.toz(.5))
            c = -4 * P.real(P.toz(m.np.log(2)))
            want = c * (a * a + b * b) / (f * f)
            args = [t for t in _apps(out.elem(v), 'exp')]
            if not E.prove('the probe is an exponential', z3.BoolVal(len(args) == 1)):
                raise P.StopPath()
            E.prove('the exponent is that of the Gaussian of the given width and place', args[0].arg(0) == want)
            E.prove('the maximum is the given one', out.elem(v) == top * args[0])
        E.explore(probe)

    def near():
        n, a, b = U.dims(E, 'n', 'a', 'b')
        psi = P.SymArr.input('psi', [n, a, b], 'float64')
        seen = []

        def scan(*args):
            seen.append(args)
            return psi
        with U.Patched((m, '_rect_scan_probe', scan)):
            out = m.calc_intensity(1, 2, 3, 4, mode='near')
        E.prove('the probe is scanned over the projection', z3.BoolVal(seen == [(1, 2, 3, 4)]))
        v = U.index(E, [n, a, b])
        E.prove('the intensity is the squared wave', out.elem(v) == psi.elem(v) * psi.elem(v))
    E.explore(near)


def _apps(t, name):
    out = []

    def rec(e):
        if z3.is_app(e) and e.decl().name() == name and not any(o.eq(e) for o in out):
            out.append(e)
        for c in e.children():
            rec(c)
    rec(t)
    return out


KS = ('A', 'a', 'b', 'c', 'x0', 'y0', 'z0', 'phi', 'theta', 'psi')


def _phantom(nell):
    def run(L):
        E = U.begin(L, 'phantom', [H + f for f in ('phantom', '_ellipsoid', '_rotation_matrix', '_transform')], ['the coordinates are a grid (_define_coords: bounded, the oracle evaluates them)'])
        import tomopy.misc.phantom as m

        def body():
            s = U.dims(E, 'n0', 'n1', 'n2')
            size = tuple(P.wrap(q) for q in s)
            X = [z3.Function('x%d' % i, *([z3.IntSort()] * 3 + [z3.RealSort()])) for i in range(3)]
            ps = []
            for e in range(nell):
                d = {k: P.SymReal(z3.Real('%s_%d' % (k, e))) for k in KS}
                E.assume(*[d[k].t > 0 for k in 'abc'])
                ps.append(d)
            keep = [dict(d) for d in ps]
            coords = tuple(P.SymArr.new(list(s), 'float64', lambda v, f=f: f(*v), 'coords') for f in X)
            with U.Patched((m, '_define_coords', lambda shape: coords)):
                out = m.phantom(size, ps, 'float32')
            U.same_shape(E, 'the object has the given size', out, s)
            E.prove('the parameters are not changed', z3.BoolVal(all(a.keys() == b.keys() and all(a[k] is b[k] for k in a) for a, b in zip(ps, keep))))
            v = U.index(E, s)
            x = [f(*v) for f in X]
            want = z3.RealVal(0)
            rad = P.real(P.toz(m.np.pi)) / 180
            for d in keep:
                c, n = (lambda k: P.uf('cos', d[k].t * rad)), (lambda k: P.uf('sin', d[k].t * rad))
                zm = lambda k, y: [c(k) * y[0] + n(k) * y[1], -n(k) * y[0] + c(k) * y[1], y[2]]
                xm = lambda k, y: [y[0], c(k) * y[1] + n(k) * y[2], -n(k) * y[1] + c(k) * y[2]]
                y = zm('psi', xm('theta', zm('phi', x)))
                q = [(y[i] - d[k].t) / d[r].t for i, (k, r) in enumerate((('x0', 'a'), ('y0', 'b'), ('z0', 'c')))]
                want = want + z3.If(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] <= 1, d['A'].t, z3.RealVal(0))
            E.prove('every voxel holds the sum of the ellipsoids around it', out.elem(v) == want)
        E.explore(body)
    return run


UNITS = {'noise': _noise, 'geometry': _geometry, 'propagation': _wave}
for _n in (0, 1, 2):
    UNITS['phantom_%d' % _n] = _phantom(_n)
