"""Phantoms and simulated data."""
import random
import warnings

import numpy as np

from .util import LAYOUTS, layout, same, values, first

KINDS = ['phantom', 'phantom', 'angles', 'tie', 'probe', 'intensity', 'intensity', 'drift', 'noise', 'images', 'shepp', 'center']


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(900 if tier == 'quick' else 9000):
        yield KINDS[i % len(KINDS)], dict(seed=r.randint(0, 10**6), shape=[r.randint(1, 5), r.randint(2, 12), r.randint(2, 12)], dtype=r.choice(['float32', 'float64']), layout=r.choice(LAYOUTS))


def run_case(kind, a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return globals()['_' + kind](a, np.random.RandomState(a['seed']))


def _ell(size, ps):
    g = [np.linspace(-1, 1, n) for n in size]
    x = np.stack(np.meshgrid(*g, indexing='ij'))
    out = np.zeros(size)
    near = np.zeros(size, bool)
    for p in ps:
        f, t, s = (np.radians(p[k]) for k in ('phi', 'theta', 'psi'))
        cf, sf, ct, st, cs, ss = np.cos(f), np.sin(f), np.cos(t), np.sin(t), np.cos(s), np.sin(s)
        zf = np.array([[cf, sf, 0], [-sf, cf, 0], [0, 0, 1]])
        xt = np.array([[1, 0, 0], [0, ct, st], [0, -st, ct]])
        zs = np.array([[cs, ss, 0], [-ss, cs, 0], [0, 0, 1]])
        y = np.tensordot(zs @ xt @ zf, x, 1)
        d = sum(((y[i] - p[k]) / p[q]) ** 2 for i, (k, q) in enumerate((('x0', 'a'), ('y0', 'b'), ('z0', 'c'))))
        near |= np.abs(d - 1) < 1e-6
        out += np.where(d <= 1, p['A'], 0)
    return out, near


def _phantom(a, rng):
    import tomopy
    size = tuple(int(q) for q in rng.randint(2, 14, 3))
    ps = []
    for _ in range(rng.randint(0, 5)):
        p = dict(A=rng.uniform(-1, 2))
        for k in 'abc':
            p[k] = rng.uniform(.2, 1.2)
        for k in ('x0', 'y0', 'z0'):
            p[k] = rng.uniform(-.8, .8)
        for k in ('phi', 'theta', 'psi'):
            p[k] = rng.uniform(-180, 180)
        ps.append(p)
    keep = [dict(p) for p in ps]
    got = tomopy.misc.phantom.phantom(size, ps, a['dtype'])
    if ps != keep:
        return 'phantom modified its parameters'
    want, near = _ell(size, ps)
    got = np.where(near, want, got).astype(got.dtype)
    return same(got, want, 'phantom', 1e-5, 1e-5, a['dtype'])


def _shepp(a, rng):
    import tomopy
    size = tuple(int(q) for q in rng.randint(4, 20, 3))
    if rng.rand() < .3:
        size = int(size[0])
    got = tomopy.shepp3d(size=size, dtype=a['dtype'])
    s = size if isinstance(size, tuple) else (size,) * 3
    if got.shape != s or got.dtype != np.dtype(a['dtype']):
        return 'shepp3d: %s %s' % (got.shape, got.dtype)
    if (got < 0).any() or not np.isfinite(got).all():
        return 'shepp3d: negative values'
    # the modified 3D Shepp-Logan head
    A = [[1., .6900, .920, .810, 0., 0., 0., 90., 90., 90.], [-.8, .6624, .874, .780, 0., -.0184, 0., 90., 90., 90.], [-.2, .1100, .310, .220, .22, 0., 0., -108., 90., 100.], [-.2, .1600, .410, .280, -.22, 0., 0., 108., 90., 100.],
         [.1, .2100, .250, .410, 0., .35, -.15, 90., 90., 90.], [.1, .0460, .046, .050, 0., .1, .25, 90., 90., 90.], [.1, .0460, .046, .050, 0., -.1, .25, 90., 90., 90.], [.1, .0460, .023, .050, -.08, -.605, 0., 90., 90., 90.],
         [.1, .0230, .023, .020, 0., -.606, 0., 90., 90., 90.], [.1, .0230, .046, .020, .06, -.605, 0., 90., 90., 90.]]
    ks = ['A', 'a', 'b', 'c', 'x0', 'y0', 'z0', 'phi', 'theta', 'psi']
    want, near = _ell(s, [dict(zip(ks, r)) for r in A])
    want = want.clip(0)
    got = np.where(near, want, got)
    return same(got, want, 'shepp3d', 1e-4, 1e-5)


def _images(a, rng):
    import tomopy
    if rng.rand() < .8:
        return None
    for nm in ('baboon', 'barbara', 'cameraman', 'checkerboard', 'lena', 'peppers', 'shepp2d'):
        size = (int(rng.randint(8, 40)), int(rng.randint(8, 40)))
        if rng.rand() < .3:
            size = size[0]
        got = getattr(tomopy, nm)(size=size, dtype=a['dtype'])
        s = size if isinstance(size, tuple) else (size, size)
        if got.shape != (1,) + s or got.dtype != np.dtype(a['dtype']):
            return '%s: %s %s' % (nm, got.shape, got.dtype)
        if not np.isfinite(got).all() or got.max() <= got.min():
            return '%s: no image' % nm
    return None


def _angles(a, rng):
    import tomopy
    n = int(rng.randint(1, 30))
    if rng.rand() < .3:
        return same(tomopy.angles(n), np.linspace(0, np.pi, n), 'angles', 1e-6, 1e-6)
    lo, hi = rng.uniform(-200, 200, 2)
    got = tomopy.angles(n, lo, hi)
    want = [np.radians(lo + (hi - lo) * k / (n - 1)) if n > 1 else np.radians(lo) for k in range(n)]
    return same(got, np.array(want), 'angles', 1e-6, 1e-6)


def _tie(a, rng):
    import tomopy
    mu, de = values(rng, a['shape'], a['dtype'], 0, 2), values(rng, a['shape'], a['dtype'], 0, 2)
    ps, d = rng.uniform(.5, 2), rng.uniform(.01, 2)
    got = tomopy.propagate_tie(layout(mu, a['layout']), layout(de, a['layout']), ps, d)
    m, e = mu.astype('d'), de.astype('d')

    def grad(f, ax):
        f = np.moveaxis(f, ax, 0)
        g = np.empty_like(f)
        g[1:-1] = (f[2:] - f[:-2]) / (2 * ps)
        g[0], g[-1] = (f[1] - f[0]) / ps, (f[-1] - f[-2]) / ps
        return np.moveaxis(g, 0, ax)
    i = np.exp(-m)
    want = i + d * (grad(i * grad(e, 1), 1) + grad(i * grad(e, 2), 2))
    return same(got, want, 'propagate_tie', 1e-4, 1e-4)


def _probe(a, rng):
    import tomopy
    nx, ny = int(rng.randint(1, 15)), int(rng.randint(2, 15))
    kw = {}
    if rng.rand() < .6:
        kw['fwhm'] = rng.uniform(1, 9)
    if rng.rand() < .6:
        kw['center'] = tuple(rng.uniform(0, 8, 2))
    if rng.rand() < .6:
        kw['max_int'] = rng.uniform(1, 9)
    got = tomopy.probe_gauss(nx, ny, **kw)
    f = kw.get('fwhm', max(nx, ny) // 2)
    x0, y0 = kw.get('center', (nx // 2, ny // 2))
    i, j = np.arange(nx)[:, None] + .5, np.arange(ny)[None] + .5
    want = kw.get('max_int', 1) * .5 ** (((i - x0) ** 2 + (j - y0) ** 2) / (f / 2.) ** 2)
    return same(got, want, 'probe_gauss', 1e-6, 1e-12)


def _intensity(a, rng):
    import tomopy
    sx, sy = int(rng.randint(2, 6)), int(rng.randint(2, 6))
    px, py = int(rng.randint(1, 16)), int(rng.randint(1, 16))
    probe, proj = rng.rand(sx, sy) + .1, rng.rand(px, py) + .1
    if rng.rand() < .5:
        probe, proj = probe + 1j * rng.rand(sx, sy), proj + 1j * rng.rand(px, py)
    hx, hy = sx // 2, sy // 2
    kw = {}
    if rng.rand() < .5:
        hx, hy = int(rng.randint(1, 5)), int(rng.randint(1, 5))
        kw = dict(shift_x=hx, shift_y=hy)
    mode = ['near', 'far'][rng.randint(2)]
    if rng.rand() < .8 or mode == 'far':
        kw['mode'] = mode
    else:
        mode = 'near'
    want = []
    for i in range(0, px - sx + 1, hx):
        for j in range(0, py - sy + 1, hy):
            w = probe * proj[i:i + sx, j:j + sy]
            want.append(np.abs(w) ** 2 if mode == 'near' else np.abs(np.fft.fftshift(np.fft.fft2(w))) ** 2)
    if not want:
        if mode == 'far':
            return None
        got = tomopy.calc_intensity(probe, proj, **kw)
        return None if got.size == 0 else 'calc_intensity: %s for a probe larger than the projection' % (got.shape,)
    got = tomopy.calc_intensity(probe, proj, **kw)
    return same(got, np.array(want), 'calc_intensity(%s)' % mode, 1e-6, 1e-9)


def _drift(a, rng):
    import tomopy
    x = values(rng, a['shape'], a['dtype'], 0, 5)
    n = a['shape'][0]
    amp, per, mean = rng.uniform(0, 1), rng.uniform(2, 60), rng.uniform(.5, 2)
    got = tomopy.add_drift(layout(x, a['layout']), amp=amp, period=per, mean=mean)
    d = amp * np.sin(2 * np.pi * np.arange(n) / per) + mean + np.linspace(0, 1, n)
    return same(got, x.astype('d') * d[:, None, None], 'add_drift', 1e-5, 1e-5)


def _noise(a, rng):
    import tomopy
    x = layout(values(rng, a['shape'], 'float64', 0, 5), a['layout'])
    x0 = x.copy()
    np.random.seed(a['seed'] % 2**31)
    f, sat = rng.uniform(0, 1), 77.
    if rng.rand() < .3:
        f = float(rng.randint(2))
    y = tomopy.add_zingers(x, f=f, sat=sat)
    hit = y == sat
    why = None
    if not ((y == x0) | hit).all():
        why = 'add_zingers changes other elements'
    if f == 0 and hit.any() or f == 1 and not hit.all():
        why = 'add_zingers(f=%s): %d of %d' % (f, hit.sum(), hit.size)
    y = tomopy.add_rings(x, std=.05)
    q = y / x0
    if not np.allclose(q, q[:1], rtol=1e-6):
        why = why or 'add_rings: the sensitivity depends on the projection'
    y = tomopy.add_rings(x, std=0.)
    why = why or same(y, x0, 'add_rings(std=0)', 1e-9, 1e-9)
    y = tomopy.add_gaussian(x.copy(), mean=1.5, std=0.)
    why = why or same(y, x0 + 1.5, 'add_gaussian(std=0)', 1e-9, 1e-9)
    y = tomopy.add_salt_pepper(x.copy(), prob=f, val=99.)
    if not ((y == x0) | (y == 99)).all() or f == 0 and (y == 99).any() or f == 1 and (y != 99).any():
        why = why or 'add_salt_pepper(prob=%s)' % f
    if tomopy.add_poisson(np.zeros(a['shape'])).any():
        why = why or 'add_poisson of nothing'
    return why or first(same(x, x0, 'the input', 0, 0))


def _center(a, rng):
    from tomopy.sim.project import get_center
    s = a['shape']
    k = rng.randint(3)
    if k == 0:
        return same(get_center(s, None), np.full(s[0], s[2] / 2.), 'get_center(None)', 1e-6, 1e-6, np.float32)
    if k == 1:
        c = rng.uniform(0, 9)
        c = [c, np.array(c), np.array([c]), [c]][rng.randint(4)]
        return same(get_center(s, c), np.full(s[0], float(np.ravel(c)[0])), 'get_center(%r)' % (c,), 1e-6, 1e-6, np.float32)
    c = rng.uniform(0, 9, s[0])
    return same(get_center(s, c), c if c.size > 1 else np.full(s[0], c[0]), 'get_center(array)', 1e-6, 1e-6, np.float32)
