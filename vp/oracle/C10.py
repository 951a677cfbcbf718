import random
import warnings

import numpy as np
import scipy.ndimage as nd

from .util import LAYOUTS, layout, same, values

KINDS = ['median_filter', 'median_filter', 'gaussian_filter', 'sobel_filter', 'remove_outlier', 'remove_outlier', 'remove_outlier1d', 'remove_outlier1d', 'median_filter3d', 'remove_outlier3d', 'remove_outlier3d',
         'nonfinite', 'remove_nan', 'remove_neg', 'adjust_range', 'cuda']


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(2400 if tier == 'quick' else 20000):
        yield KINDS[i % len(KINDS)], dict(seed=r.randint(0, 10**6), shape=[r.randint(1, 8) for _ in range(3)], axis=r.randint(0, 2), size=r.choice([1, 2, 3, 3, 4, 5, 7]),
                                          dtype=r.choice(['float32', 'float32', 'float64', 'uint16', 'int32']), layout=r.choice(LAYOUTS), ncore=r.choice([None, 1, 2, 3, 8]),
                                          out=r.choice(['none', 'none', 'new', 'same']), ties=r.random() < .3, dif=r.choice([0, .5, 1, 3, 6]), defaults=r.random() < .1)


def run_case(kind, a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return globals()['_' + kind](a, np.random.RandomState(a['seed']))


def _x(a, rng, lo=0, hi=10):
    x = values(rng, a['shape'], a['dtype'], lo, hi)
    if a['ties']:
        x = np.round(x).astype(x.dtype)
    return layout(x, a['layout'])


def ref_slices(x, axis, f):
    """f applied to every slice along axis"""
    return np.stack([f(np.take(x, i, axis)) for i in range(x.shape[axis])], axis)


def ref_median(x, sizes, mode):
    """Element of rank n // 2 of the window centered (to the right for even sizes) at each element."""
    pads = [(s // 2, s - s // 2 - 1) for s in sizes]
    p = np.pad(x, pads, mode='symmetric') if mode == 'reflect' else mirror_pad(x, pads)
    w = np.lib.stride_tricks.sliding_window_view(p, sizes)
    w = np.sort(w.reshape(x.shape + (-1,)), -1)
    return w[..., w.shape[-1] // 2]


def mirror_pad(x, pads):
    for ax, (l, r) in enumerate(pads):
        n = x.shape[ax]
        k = np.arange(-l, n + r)
        if n == 1:
            k = k * 0
        else:
            k = np.abs(k) % (2 * n - 2)
            k = np.where(k >= n, 2 * n - 2 - k, k)
        x = np.take(x, k, ax)
    return x


def _median_filter(a, rng):
    import tomopy
    x = _x(a, rng)
    x0 = x.astype(np.float32)
    kw = {} if a['defaults'] else dict(size=a['size'], axis=a['axis'])
    s, ax = kw.get('size', 3), kw.get('axis', 0)
    got = tomopy.median_filter(x, ncore=a['ncore'], **kw)
    return same(got, ref_slices(x0, ax, lambda q: ref_median(q, (s, s), 'reflect')), 'median_filter', 0, 0, np.float32)


def _cuda(a, rng):
    # without a GPU the CPU filter stands in
    import tomopy
    x = _x(a, rng)
    x0 = x.astype(np.float32)
    s, ax = a['size'], a['axis']
    if rng.rand() < .5:
        got = tomopy.median_filter_cuda(x, size=s, axis=ax)
        return same(got, ref_slices(x0, ax, lambda q: ref_median(q, (s, s), 'reflect')), 'median_filter_cuda', 0, 0, np.float32)
    got = tomopy.remove_outlier_cuda(x, a['dif'], size=s, axis=ax)
    med = ref_slices(x0, ax, lambda q: ref_median(q, (s, s), 'reflect'))
    return same(got, np.where(x0 - med >= np.float32(a['dif']), med, x0), 'remove_outlier_cuda', 0, 0, np.float32)


def _gaussian_filter(a, rng):
    import tomopy
    x = _x(a, rng)
    x0 = x.astype(np.float32)
    sig, order, ax = rng.choice([.5, 1, 3]), int(rng.randint(0, 3)), a['axis']
    kw = dict(sigma=sig, order=order, axis=ax)
    if a['defaults']:
        sig, order, ax, kw = 3, 0, 0, {}
    elif rng.rand() < .3:
        sig = (sig, 1.5)
        kw['sigma'] = sig
    got = tomopy.gaussian_filter(x, ncore=a['ncore'], **kw)
    return same(got, ref_slices(x0, ax, lambda q: nd.gaussian_filter(q.copy(), sig, order=order)), 'gaussian_filter', 1e-5, 1e-5, np.float32)


def _sobel_filter(a, rng):
    import tomopy
    x = _x(a, rng)
    x0 = x.astype(np.float32)
    ax = 0 if a['defaults'] else a['axis']
    got = tomopy.sobel_filter(x, ncore=a['ncore'], **({} if a['defaults'] else dict(axis=ax)))
    return same(got, ref_slices(x0, ax, lambda q: nd.sobel(q.copy())), 'sobel_filter', 1e-5, 1e-4, np.float32)


def _outargs(a, x):
    if a['out'] == 'new':
        return np.full(x.shape, np.nan, np.float32), x
    if a['out'] == 'same':
        x = np.ascontiguousarray(x, np.float32)
        return x, x
    return None, x


def _remove_outlier(a, rng):
    import tomopy
    x = _x(a, rng)
    out, x = _outargs(a, x)
    x0 = x.copy()
    kw = {} if a['defaults'] else dict(size=a['size'], axis=a['axis'])
    s, ax = kw.get('size', 3), kw.get('axis', 0)
    got = tomopy.remove_outlier(x, a['dif'], ncore=a['ncore'], out=out, **kw)
    med = ref_slices(x0, ax, lambda q: ref_median(q, (s, s), 'reflect')).astype(np.float32)
    x0 = x0.astype(np.float32)
    if out is not None and got is not out:
        return 'remove_outlier: the result is not the given out array'
    return same(got, np.where(x0 - med >= np.float32(a['dif']), med, x0), 'remove_outlier', 0, 0, np.float32)


def _remove_outlier1d(a, rng):
    import tomopy
    x = _x(a, rng)
    out, x = _outargs(a, x)
    x0 = x.astype(np.float32)
    kw = {} if a['defaults'] else dict(size=a['size'], axis=a['axis'])
    s, ax = kw.get('size', 3), kw.get('axis', 0)
    got = tomopy.remove_outlier1d(x, a['dif'], ncore=a['ncore'], out=out, **kw)
    sizes = [1, 1, 1]
    sizes[ax] = s
    med = ref_median(x0, tuple(sizes), 'mirror')
    if out is not None and got is not out:
        return 'remove_outlier1d: the result is not the given out array'
    return same(got, np.where(x0 - med >= np.float32(a['dif']), med, x0), 'remove_outlier1d', 0, 0, np.float32)


def ref_median3d(x, h):
    """Median of the (2h+1)^3 window; along each axis a coordinate outside of the array is replaced by that of the center."""
    idx = []
    for n in x.shape:
        k = np.arange(n)[:, None] + np.arange(-h, h + 1)[None]
        idx.append(np.where((k < 0) | (k >= n), np.arange(n)[:, None], k))
    w = x[idx[0][:, None, None, :, None, None], idx[1][None, :, None, None, :, None], idx[2][None, None, :, None, None, :]]
    w = np.sort(w.reshape(x.shape + (-1,)), -1)
    return w[..., w.shape[-1] // 2]


def _median_filter3d(a, rng):
    import tomopy
    x = _x(a, rng)
    keep = a['dtype'] in ('float32', 'uint16')
    x0 = x.copy() if keep else x.astype(np.float32)
    s = 3 if a['defaults'] else a['size']
    got = tomopy.median_filter3d(x, ncore=a['ncore'], **({} if a['defaults'] else dict(size=s)))
    return same(got, ref_median3d(x0, (max(s, 3) - 1) // 2), 'median_filter3d', 0, 0, x0.dtype)


def _remove_outlier3d(a, rng):
    import tomopy
    x = _x(a, rng)
    keep = a['dtype'] in ('float32', 'uint16')
    x0 = x.copy() if keep else x.astype(np.float32)
    s, dif = 3 if a['defaults'] else a['size'], a['dif']
    got = tomopy.remove_outlier3d(x, dif, ncore=a['ncore'], **({} if a['defaults'] else dict(size=s)))
    med = ref_median3d(x0, (max(s, 3) - 1) // 2)
    d = np.abs((x0 - med) if keep and x0.dtype == np.float32 else x0.astype(np.float64) - med)
    return same(got, np.where(d >= np.float32(dif), med, x0), 'remove_outlier3d', 0, 0, x0.dtype)


def _nonfinite(a, rng):
    import tomopy
    x = values(rng, a['shape'], rng.choice(['float32', 'float64']))
    p = rng.choice([.05, .3])
    bad = rng.rand(*x.shape) < p
    x[bad] = rng.choice([np.nan, np.inf, -np.inf], int(bad.sum()))
    x0 = x.copy()
    s = 3 if a['defaults'] else max(a['size'], 1)
    h = s // 2
    want = x0.copy()
    hopeless = False
    for z, r, c in zip(*np.nonzero(bad)):
        w = x0[z, max(0, r - h):r + h + 1, max(0, c - h):c + h + 1]
        w = w[np.isfinite(w)]
        if w.size == 0:
            hopeless = True
        else:
            want[z, r, c] = np.median(w)
    seen = []
    try:
        got = tomopy.median_filter_nonfinite(layout(x, a['layout']), size=s, callback=lambda *q: seen.append(q) if a['ties'] else None)
    except ValueError:
        return None if hopeless else 'median_filter_nonfinite: refused although every window holds a finite value'
    if hopeless:
        return 'median_filter_nonfinite: no error although a window holds no finite value'
    if a['ties'] and len(seen) != x0.shape[0]:
        return 'median_filter_nonfinite: the callback ran %d times for %d projections' % (len(seen), x0.shape[0])
    return same(got, want, 'median_filter_nonfinite', 1e-6, 0, x0.dtype)


def _remove_nan(a, rng):
    import tomopy
    x = values(rng, a['shape'], 'float32', -5, 5)
    x[rng.rand(*x.shape) < .3] = np.nan
    x[rng.rand(*x.shape) < .1] = np.inf
    val = 0.0 if a['defaults'] else float(rng.uniform(-3, 3))
    x0 = x.copy()
    got = tomopy.remove_nan(layout(x, a['layout']), ncore=a['ncore'], **({} if a['defaults'] else dict(val=val)))
    return same(got, np.where(np.isnan(x0), np.float32(val), x0), 'remove_nan', 0, 0, np.float32)


def _remove_neg(a, rng):
    import tomopy
    x = values(rng, a['shape'], 'float32' if a['dtype'] == 'uint16' else a['dtype'], -5, 5)
    val = 0.0 if a['defaults'] else float(rng.uniform(-3, 3))
    x0 = x.astype(np.float32)
    got = tomopy.remove_neg(layout(x, a['layout']), ncore=a['ncore'], **({} if a['defaults'] else dict(val=val)))
    return same(got, np.where(x0 < 0, np.float32(val), x0), 'remove_neg', 0, 0, np.float32)


def _adjust_range(a, rng):
    import tomopy
    x = values(rng, a['shape'], rng.choice(['float32', 'float64']), -5, 5)
    lo, hi = sorted(rng.uniform(-7, 7, 2))
    x0 = x.copy()
    kw = {}
    if rng.rand() < .7:
        kw['dmin'] = lo
    if rng.rand() < .7:
        kw['dmax'] = hi
    got = tomopy.misc.corr.adjust_range(layout(x, a['layout']), **kw)
    want = x0.copy()
    if 'dmax' in kw:
        want = np.minimum(want, hi)
    if 'dmin' in kw:
        want = np.maximum(want, lo)
    return same(got, want, 'adjust_range', 1e-6, 0, x0.dtype)
