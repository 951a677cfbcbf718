import random
import warnings

import numpy as np

from .util import LAYOUTS, layout, same, values

KINDS = ['pad', 'pad', 'pad', 'sino', 'sino', 'trim', 'circ', 'padbad']
DT = ['float32', 'float32', 'float64', 'int32', 'uint16', 'uint8', 'bool', 'int64', 'complex128', 'int16']


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(3000 if tier == 'quick' else 20000):
        yield KINDS[i % len(KINDS)], dict(seed=r.randint(0, 10**6), shape=[r.randint(1, 9) for _ in range(3)], axis=r.randint(0, 2), dtype=r.choice(DT), layout=r.choice(LAYOUTS),
                                          ncore=r.choice([None, 1, 2, 4]), defaults=r.random() < .1)


def run_case(kind, a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return globals()['_' + kind](a, np.random.RandomState(a['seed']))


def _vals(rng, s, dt):
    if dt == 'complex128':
        return rng.rand(*s) + 1j * rng.rand(*s)
    return values(rng, s, dt, -20, 90)


def _pad(a, rng):
    import tomopy
    s, ax = list(a['shape']), a['axis']
    nd = rng.choice([1, 2, 3, 3, 3])
    s, ax = s[:nd], ax % nd
    x = layout(_vals(rng, s, a['dtype']), a['layout'])
    x0 = x.copy()
    npad = [None, 0, 1, 2, 5, int(rng.randint(0, 9))][rng.randint(6)]
    mode = str(rng.choice(['constant', 'edge']))
    kw = dict(mode=mode)
    cval = 0
    if mode == 'constant' and rng.rand() < .7:
        cval = int(rng.randint(0, 2 if a['dtype'] == 'bool' else 90))
        if np.dtype(a['dtype']).kind == 'f' and rng.rand() < .5:
            cval += .25
        kw['constant_values'] = cval
    if a['defaults']:
        kw, mode, cval = {}, 'constant', 0
    if npad is not None or rng.rand() < .5:
        kw['npad'] = npad
    n = int(np.ceil((s[ax] * np.sqrt(2) - s[ax]) / 2)) if npad is None else npad
    got = tomopy.pad(x, ax, ncore=a['ncore'], **kw)
    shape = list(s)
    shape[ax] += 2 * n
    w = np.empty(shape, x0.dtype)
    d = np.moveaxis(w, ax, 0)
    q = np.moveaxis(x0, ax, 0)
    d[n:n + s[ax]] = q
    d[:n] = cval if mode == 'constant' else q[0]
    d[n + s[ax]:] = cval if mode == 'constant' else q[-1]
    if not np.array_equal(x, x0):
        return 'pad modified its input'
    if got.dtype != x0.dtype:
        return 'pad: dtype %s for an input of %s' % (got.dtype, x0.dtype)
    if got.shape != w.shape:
        return 'pad: shape %s, expected %s' % (got.shape, w.shape)
    if not np.array_equal(got, w):
        k = tuple(int(z[0]) for z in np.nonzero(got != w))
        return 'pad: element %s is %s, expected %s' % (k, got[k], w[k])
    return None


def _padbad(a, rng):
    import tomopy
    x = rng.rand(*a['shape']).astype(np.float32)
    for kw in (dict(mode='reflect'), dict(mode=3), dict(mode='edge', constant_values=1), dict(mode='constant', other=2)):
        try:
            tomopy.pad(x, a['axis'], npad=2, **kw)
        except ValueError:
            continue
        return 'pad accepted %s' % kw
    # valid again afterwards, with the documented default
    y = tomopy.pad(x, 0, npad=1)
    if y[0].any() or y[-1].any():
        return 'pad: constant mode does not pad with zeros by default'
    return None


def _sino(a, rng):
    import tomopy
    s = list(a['shape'])
    s[0] = rng.randint(2, 12)
    dt = a['dtype'] if a['dtype'] not in ('bool', 'complex128') else 'float32'
    x = layout(_vals(rng, s, dt), a['layout'])
    x0 = x.copy()
    n, nz = s[0] // 2, s[2]
    ov = int(rng.randint(0, nz + 1))
    arg = ov + float(rng.choice([0, .3, -.3])) if rng.rand() < .3 and 0 < ov < nz else ov
    side = str(rng.choice(['left', 'right']))
    kw = dict(overlap=arg, rotation=side)
    if a['defaults']:
        kw, ov, side = {}, 0, 'left'
    got = (tomopy.sino_360_to_180 if rng.rand() < .8 else tomopy.sino_360_t0_180)(x, **kw)
    d = x0.astype(np.float64)
    first, second = d[:n], d[n:2 * n][:, :, ::-1]
    w = np.zeros((n, s[1], 2 * nz - ov))
    t = np.linspace(0, 1, ov) if ov != 1 else np.array([.5])
    if side == 'left':      # the axis is on the left: the second half, mirrored, continues the first half to the left
        w[:, :, nz - ov:] += first * np.concatenate([t, np.ones(nz - ov)])
        w[:, :, :nz] += second * np.concatenate([np.ones(nz - ov), t[::-1]])
    else:
        w[:, :, :nz] += first * np.concatenate([np.ones(nz - ov), t[::-1]])
        w[:, :, nz - ov:] += second * np.concatenate([t, np.ones(nz - ov)])
    if not np.array_equal(x, x0):
        return 'sino_360_to_180 modified its input'
    tol = 1e-4 if np.dtype(dt).kind == 'f' else 1.0001
    if got.dtype != x0.dtype:
        return 'sino_360_to_180: dtype %s for an input of %s' % (got.dtype, x0.dtype)
    return same(got, w, 'sino_360_to_180', 1e-5, tol)


def _trim(a, rng):
    import tomopy
    s = [rng.randint(1, 12), rng.randint(1, 4), rng.randint(3, 24)]
    x = layout(_vals(rng, s, a['dtype'] if a['dtype'] != 'complex128' else 'float64'), a['layout'])
    x0 = x.copy()
    center = rng.uniform(0, s[2])
    X, Y = int(rng.randint(-8, 9)), int(rng.randint(-8, 9))
    dia = [float(rng.uniform(1, s[2])), int(rng.randint(1, s[2] + 1))][rng.randint(2)]
    got = tomopy.trim_sinogram(x, center, X, Y, dia)
    if not np.array_equal(x, x0):
        return 'trim_sinogram modified its input'
    d = x0.astype(np.float64)
    w = np.ones((s[0], s[1], int(dia)))
    for m in range(s[0]):
        p = m * np.pi / s[0]
        # the center of the region moves on the detector as (y cos + x sin) of the rotation angle
        c = center + Y * np.cos(p) + X * np.sin(p)
        lo, hi = c - dia / 2, c + dia / 2
        if min(abs(lo - round(lo)), abs(hi - round(hi))) < 1e-9:
            return None
        i1, i2 = min(max(int(np.ceil(lo)), 0), s[2]), min(max(int(np.floor(hi)), 0), s[2])
        if i2 > i1:
            w[m, :, :i2 - i1] = d[m, :, i1:i2]
    return same(got, w, 'trim_sinogram', 1e-6, 1e-6, np.float32)


def _circ(a, rng):
    import tomopy
    dt = a['dtype'] if a['dtype'] != 'complex128' else 'float64'
    x = layout(_vals(rng, a['shape'], dt), a['layout'])
    x0 = x.astype(np.float32)
    ax = a['axis']
    ratio, val = float(rng.choice([1, .9, .5, .75, 1.2])), float(rng.choice([0, 1.5, -2]))
    kw = dict(ratio=ratio, val=val)
    if a['defaults']:
        kw, ratio, val = {}, 1, 0
    got = tomopy.circ_mask(x, ax, ncore=a['ncore'], **kw)
    # the mask spans the two other axes
    o = [k for k in range(3) if k != ax]
    n1, n2 = (a['shape'][k] for k in o)
    r = (np.arange(n1)[:, None] + .5 - n1 / 2) ** 2 + (np.arange(n2)[None] + .5 - n2 / 2) ** 2
    lim = (ratio * min(n1, n2) / 2) ** 2
    near = np.abs(r - lim) < 1e-9
    inside = r < lim
    w = np.where(np.expand_dims(inside, ax), x0, np.float32(val))
    if near.any() and ratio != 1:
        return None
    return same(got, w, 'circ_mask', 0, 0, np.float32)
