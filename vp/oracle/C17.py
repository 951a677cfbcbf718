import random
import warnings

import numpy as np

from .util import LAYOUTS, layout, same, values


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(500 if tier == 'quick' else 4000):
        yield 'phase', dict(seed=r.randint(0, 10**6), shape=[r.randint(1, 6), r.choice([2, 4, 6, 8, 10, 12, 16]), r.choice([2, 4, 6, 8, 10, 14, 18])], pad=r.random() < .7,
                            energy=r.choice([10., 20., 35.]), dist=r.choice([1., 20., 50.]), pixel=r.choice([1e-4, 5e-4, 2e-4]), alpha=r.choice([1e-3, 1e-2, 1.]),
                            dtype=r.choice(['float32', 'float32', 'float64']), layout=r.choice(LAYOUTS), ncore=r.choice([None, 1, 2, 3, 8]), nchunk=r.choice([None, None, 1, 2, 3]),
                            defaults=r.random() < .1, const=r.random() < .15)


def run_case(kind, a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return _phase(a, np.random.RandomState(a['seed']))


def _phase(a, rng):
    import tomopy
    n, py, px = a['shape']
    x = values(rng, a['shape'], a['dtype'], .2, 1.5)
    if a['const']:
        x[:] = x[:, :1, :1]
    x = layout(x, a['layout'])
    x0 = x.astype(np.float64)
    kw = dict(pixel_size=a['pixel'], dist=a['dist'], energy=a['energy'], alpha=a['alpha'], pad=a['pad'])
    if a['defaults']:
        kw = {}
    pix, dist, energy, alpha, pad = (kw.get(k, d) for k, d in (('pixel_size', 1e-4), ('dist', 50), ('energy', 20), ('alpha', 1e-3), ('pad', True)))
    if pad and (a['dist'] / pix ** 2 > 1e9 or not kw):
        if rng.rand() < .7:
            return None
    lam = 2 * 3.14159265359 * 6.58211928e-19 * 299792458e2 / energy
    wy = wx = 0
    if pad:
        extra = np.ceil(3.14159265359 * lam * dist / pix ** 2)
        wy = int((2 ** np.ceil(np.log2(py + extra)) - py) / 2)
        wx = int((2 ** np.ceil(np.log2(px + extra)) - px) / 2)
    if (py + 2 * wy) * (px + 2 * wx) * n > 4e6:
        return None
    got = tomopy.retrieve_phase(x, ncore=a['ncore'], nchunk=a['nchunk'], **kw)
    ny, nx = py + 2 * wy, px + 2 * wx

    def coord(m):
        k = np.fft.ifftshift(np.arange(m) - (m - 1) / 2)
        return k / ((m - 1) * pix)
    w2 = coord(ny)[:, None] ** 2 + coord(nx)[None] ** 2
    f = 1 / (lam * dist * w2 / (4 * 3.14159265359) + alpha)
    f = f / f.max()
    want = np.zeros_like(x0)
    for m in range(n):
        p = np.pad(x0[m], ((wy, wy), (wx, wx)), mode='edge')
        want[m] = np.real(np.fft.ifft2(np.fft.fft2(p) * f))[wy:wy + py, wx:wx + px]
    why = same(got, want, 'retrieve_phase', 2e-4, 2e-4, a['dtype'])
    if why:
        return why
    return None
