"""Geometric corrections of projection images."""
import os
import random
import tempfile
import warnings

import numpy as np

from .util import LAYOUTS, layout, same, values, first

KINDS = ['distort', 'distort', 'blur', 'scale', 'slits', 'slits', 'box', 'affine', 'coefs', 'shift', 'drift']


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(1100 if tier == 'quick' else 10000):
        yield KINDS[i % len(KINDS)], dict(seed=r.randint(0, 10**6), shape=[r.randint(1, 5), r.randint(1, 12), r.randint(1, 12)], layout=r.choice(LAYOUTS), ncore=r.choice([None, 1, 2, 3]), nchunk=r.choice([None, 1, 2, 3]),
                                          dtype=r.choice(['float32', 'float32', 'float64']), big=[r.randint(60, 120), r.randint(60, 120)])


def run_case(kind, a):
    if kind == 'drift' and a['seed'] % 8:
        return None
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return globals()['_' + kind](a, np.random.RandomState(a['seed']))


def _distort(a, rng):
    """value at the clipped position of the polynomial model, by bilinear interpolation"""
    import tomopy
    x = values(rng, a['shape'], a['dtype'], -3, 5)
    n, h, w = a['shape']
    xc, yc = rng.uniform(-1, w), rng.uniform(-1, h)
    fact = [rng.uniform(.7, 1.3), rng.uniform(-.02, .02), rng.uniform(-3e-3, 3e-3)][:rng.randint(1, 4)]
    want = np.zeros(a['shape'])
    xu, yu = np.meshgrid(np.arange(w) - xc, np.arange(h) - yc)
    r = np.hypot(xu, yu)
    f = sum(c * r ** i for i, c in enumerate(fact))
    xd, yd = np.clip(xc + f * xu, 0, w - 1), np.clip(yc + f * yu, 0, h - 1)
    i0, j0 = np.minimum(np.floor(yd).astype(int), max(h - 2, 0)), np.minimum(np.floor(xd).astype(int), max(w - 2, 0))
    i1, j1 = np.minimum(i0 + 1, h - 1), np.minimum(j0 + 1, w - 1)
    u, v = yd - i0, xd - j0
    x64 = x.astype(np.float64)
    for m in range(n):
        p = x64[m]
        want[m] = (1 - u) * ((1 - v) * p[i0, j0] + v * p[i0, j1]) + u * ((1 - v) * p[i1, j0] + v * p[i1, j1])
    xl = layout(x, a['layout'])
    got = tomopy.distortion_correction_proj(xl, xc, yc, fact, ncore=a['ncore'], nchunk=a['nchunk'])
    why = same(got, want, 'distortion_correction_proj', 1e-4, 1e-3, a['dtype'])
    if why:
        return why
    k = rng.randint(h)
    got = tomopy.distortion_correction_sino(xl, k, xc, yc, fact)
    return same(got, want[:, k], 'distortion_correction_sino', 1e-4, 1e-3)


def _blur(a, rng):
    import tomopy
    x = values(rng, a['shape'], a['dtype'], -3, 5)
    n, h, w = a['shape']
    lo = rng.uniform(0, .6)
    hi = rng.uniform(lo + .05, 1.1)
    if rng.rand() < .2:
        lo, hi = 0, .8
        got = tomopy.blur_edges(layout(x, a['layout']))
    else:
        got = tomopy.blur_edges(layout(x, a['layout']), low=lo, high=hi)
    i, j = np.mgrid[:h, :w]
    r = np.hypot(i - h / 2, j - w / 2)
    lo, hi = lo * r.max(), hi * r.max()
    if np.any(np.abs(r - lo) < 1e-9) or np.any(np.abs(r - hi) < 1e-9):
        return None
    m = np.clip((hi - r) / (hi - lo), 0, 1)
    return same(got, x.astype('d') * m, 'blur_edges', 1e-4, 1e-5, a['dtype'])


def _scale(a, rng):
    import tomopy
    x = values(rng, a['shape'], a['dtype'], -3, 5)
    x0 = x.astype('d')
    got, s = tomopy.prep.alignment.scale(layout(x, a['layout']))
    if not np.isclose(s, np.abs(x0).max(), rtol=1e-5):
        return 'scale: factor %r instead of %r' % (s, np.abs(x0).max())
    if np.abs(got).max() > 1 + 1e-5:
        return 'scale: values beyond -1..1'
    return same(got * s, x0, 'scale', 1e-4, 1e-4)


def _img(rng, h, w, t, b, l, r):
    im = rng.uniform(.9, 1.1, (h, w)) * 20
    im[t:b, l:r] += 1000 * rng.uniform(.8, 1.2, (b - t, r - l))
    return im


def _slits(a, rng):
    import tomopy
    A = tomopy.prep.alignment
    h, w = a['big']
    t, b = rng.randint(12, h // 2 - 10), rng.randint(h // 2 + 10, h - 12)
    l, r = rng.randint(12, w // 2 - 10), rng.randint(w // 2 + 10, w - 12)
    im = _img(rng, h, w, t, b, l, r)
    how = ['simple', 'quadrant', 'quadrant+'][rng.randint(3)]
    try:
        c = A.find_slits_corners_aps_1id(im, method=how, medfilt2_kernel_size=3, medfilt_kernel_size=3)
    except RuntimeError:
        return None
    want = np.array([[l, t], [l, b], [r, b], [r, t]], float)
    tol = 3 if how != 'quadrant+' else 5
    if np.shape(c) != (4, 2) or np.abs(np.asarray(c) - want).max() > tol:
        if how == 'quadrant+':
            return None if np.shape(c) == (4, 2) else 'find_slits_corners_aps_1id: shape %s' % (np.shape(c),)
        return 'find_slits_corners_aps_1id(%s) of %s: corners %s, the box is %s' % (how, (h, w), np.asarray(c).tolist(), want.tolist())
    try:
        A.find_slits_corners_aps_1id(im, method='nonsense')
    except NotImplementedError:
        return None
    return 'find_slits_corners_aps_1id accepts an unknown method'


def _box(a, rng):
    import tomopy
    A = tomopy.prep.alignment
    n, h, w = 2, 40, 50
    x = values(rng, (n, h, w), a['dtype'])
    l, r, t, b = rng.uniform(1, 20), rng.uniform(30, 48), rng.uniform(1, 15), rng.uniform(25, 38)
    e = rng.uniform(-.9, .9, 8)
    c = np.array([[l + e[0], t + e[1]], [l + e[2], b + e[3]], [r + e[4], b + e[5]], [r + e[6], t + e[7]]])
    clip = tuple(int(q) for q in rng.randint(0, 5, 4))
    want = (int(np.floor(c[:, 0].min())) + clip[0], int(np.ceil(c[:, 0].max())) - clip[1], int(np.floor(c[:, 1].min())) + clip[2], int(np.ceil(c[:, 1].max())) - clip[3])
    got = A.calc_slit_box_aps_1id(c, inclip=clip)
    if tuple(int(q) for q in got) != want:
        return 'calc_slit_box_aps_1id: %s instead of %s' % (got, want)
    y = A.remove_slits_aps_1id(x, c, inclip=clip)
    return same(y, x[:, want[2]:want[3], want[0]:want[1]], 'remove_slits_aps_1id', 0, 0, a['dtype'])


def _affine(a, rng):
    from tomopy.misc.npmath import calc_affine_transform, discrete_cdf, gauss1d
    m = np.eye(3)
    m[:2] += rng.uniform(-.5, .5, (2, 3))
    p = rng.uniform(-5, 5, (rng.randint(3, 7), 2))
    if abs(np.linalg.det(np.c_[p[:3], np.ones(3)])) < .5 or abs(np.linalg.det(m)) < .1:
        return None
    q = (m @ np.c_[p, np.ones(len(p))].T).T[:, :2]
    why = same(calc_affine_transform(p, q), m, 'calc_affine_transform', 1e-6, 1e-6)
    d = rng.rand(rng.randint(1, 9))
    X, Y = discrete_cdf(d.copy())
    k = rng.randint(len(d))
    x = rng.rand(5)
    A, mu, sg = rng.uniform(.5, 2, 3)
    if not why and len(X) and (np.any(np.diff(X) < 0) or np.any(np.diff(Y) < 0)):
        why = 'discrete_cdf is not monotone'
    return why or same(gauss1d(x, A, mu, sg), A * np.exp(-(x - mu) ** 2 / (2 * sg ** 2)), 'gauss1d', 1e-9, 1e-12)


def _coefs(a, rng):
    import tomopy
    v = rng.uniform(-5, 5, rng.randint(3, 8))
    d = tempfile.mkdtemp(prefix='vp_c18_')
    p = os.path.join(d, 'c.txt')
    try:
        with open(p, 'w') as f:
            for i, q in enumerate(v):
                f.write('%sname%d = %.17g\n' % ('' if rng.rand() < .5 else ' ', i, q))
        x, y, l = tomopy.load_distortion_coefs(p) if hasattr(tomopy, 'load_distortion_coefs') else tomopy.prep.alignment.load_distortion_coefs(p)
    finally:
        os.remove(p)
        os.rmdir(d)
    if [x, y] + list(l) != v.tolist():
        return 'load_distortion_coefs: %s instead of %s' % ([x, y] + list(l), v.tolist())
    return None


def _shift(a, rng):
    """whole pixel shifts move the image"""
    import tomopy
    n, h, w = a['shape'][0], 11, 13
    x = np.zeros((n, h, w))
    x[:, 4:8, 4:9] = rng.uniform(.5, 2, (n, 4, 5))
    sx, sy = rng.randint(-2, 3, n), rng.randint(-2, 3, n)
    x0 = x.copy()
    got = tomopy.shift_images(x.copy(), sx, sy)
    # the warp samples the image at (row + sx, column + sy)
    want = np.stack([np.roll(x0[m], (-sx[m], -sy[m]), (0, 1)) for m in range(n)])
    why = same(got, want, 'shift_images', 1e-6, 1e-6)
    if why:
        return why
    np.random.seed(a['seed'])
    got, jx, jy = tomopy.add_jitter(x0.copy(), low=0, high=0)
    return first(same(got, x0, 'add_jitter without jitter', 1e-9, 1e-9), None if (jx == 0).all() and (jy == 0).all() else 'add_jitter: jitter')


def _drift(a, rng):
    import tomopy
    A = tomopy.prep.alignment
    h, w = 90, 100
    t, b, l, r = 25, 65, 28, 72
    n = 3
    d = rng.randint(-3, 4, (n, 2))
    x = np.stack([_img(rng, h, w, t + p, b + p, l + q, r + q) for p, q in d])
    ref = np.array([[l, t], [l, b], [r, b], [r, t]], float)
    y, c, f = A.detector_drift_adjust_aps_1id(x, ref, ncore=2)
    if y.shape != x.shape or c.shape != (n, 4, 2) or f.shape != (n, 3, 3):
        return 'detector_drift_adjust_aps_1id: shapes %s %s %s' % (y.shape, c.shape, f.shape)
    for m in range(n):
        q = (f[m] @ np.c_[c[m], np.ones(4)].T).T[:, :2]
        if np.abs(q - ref).max() > 2:
            return 'detector_drift_adjust_aps_1id: corners %s are mapped to %s, the reference is %s' % (c[m].tolist(), q.tolist(), ref.tolist())
    return None
