import random
import warnings

import numpy as np
import scipy.ndimage as nd

from .util import LAYOUTS, layout, same, values

KINDS = ['sf', 'sf', 'ti', 'fw', 'sorting', 'filtering', 'fitting', 'large', 'dead', 'all', 'interpolation', 'detect', 'mask', 'mask', 'bad', 'const']


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(640 if tier == 'quick' else 6000):
        yield KINDS[i % len(KINDS)], dict(seed=r.randint(0, 10**6), ny=r.choice([1, 2, 3, 5]), np=r.randint(12, 30), nx=r.randint(16, 32), ncore=r.choice([None, 1, 2, 3, 8]),
                                          nchunk=r.choice([None, None, 1, 2, 3]), defaults=r.random() < .15, dtype=r.choice(['float32', 'float32', 'float32', 'float64']), layout=r.choice(LAYOUTS))


def run_case(kind, a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return globals()['_' + kind](a, np.random.RandomState(a['seed']))


def sino(a, rng, ny=None):
    """smooth columns + noise + stripes of every kind"""
    n, ny, m = a['np'], ny or a['ny'], a['nx']
    base = 4 + np.sin(np.linspace(0, 3, n))[:, None, None] + np.cos(np.linspace(0, 4, m))[None, None] + rng.rand(1, ny, 1)
    x = base + .1 * rng.rand(n, ny, m)
    for s in range(ny):
        for _ in range(rng.randint(0, 4)):
            c = rng.randint(m)
            k = rng.randint(4)
            if k == 0:
                x[:, s, c] *= rng.uniform(.7, 1.6)
            elif k == 1:
                x[:n // 2, s, c] += rng.uniform(-1, 1)
            elif k == 2:
                x[:, s, c] = 3 + 3 * rng.rand(n)
            else:
                x[:, s, c] = 5 + 1e-3 * np.arange(n)
    return x.astype(a['dtype'])


def _compare(a, rng, name, f, tol=1e-4, skip=None, **kw):
    import tomopy
    x = sino(a, rng)
    x0 = x.astype(np.float64)
    got = getattr(tomopy, name)(layout(x, a['layout']), ncore=a['ncore'], nchunk=a['nchunk'], **kw)
    if got.shape != x0.shape or got.dtype != (np.float32 if name == 'remove_stripe_sf' else x.dtype):
        return '%s: result is %s %s' % (name, got.shape, got.dtype)
    for s in range(x0.shape[1]):
        if not np.isfinite(got[:, s]).all():
            return '%s: sinogram %d has non-finite values' % (name, s)
        if skip is not None and skip(x0[:, s]):
            continue
        want = f(x0[:, s])
        why = same(got[:, s], want, '%s, sinogram %d' % (name, s), tol, tol)
        if why:
            return why
    return None


# -------------------------------------------------- smoothing filter
def _sf(a, rng):
    size = 5 if a['defaults'] else int(rng.randint(1, 12))
    kw = {} if a['defaults'] else dict(size=size)

    def f(x):
        m = x.mean(0)
        k = np.clip(np.arange(len(m))[:, None] + np.arange(size)[None] - size // 2, 0, len(m) - 1)
        return x - (m - m[k].mean(1))[None]
    return _compare(a, rng, 'remove_stripe_sf', f, 2e-5, **kw)


# -------------------------------------------------- Titarenko
def _ti(a, rng):
    nblock = int(rng.choice([0, 0, 1, 2, 3]))
    alpha = float(rng.choice([1.5, 0.5, 3]))
    kw = {} if a['defaults'] else dict(nblock=nblock, alpha=alpha)
    if a['defaults']:
        nblock, alpha = 0, 1.5
    if nblock and a['np'] % nblock:
        a = dict(a, np=a['np'] // nblock * nblock)

    def part(x, d):
        # the offsets solve (D'D + alpha) q = -D'D mean for the difference operator D of order d
        n = x.shape[1]
        D = np.zeros((n - d, n))
        for i in range(n - d):
            # convolution with the reversed kernel, symmetric up to the sign
            D[i, i:i + d + 1] = {1: [1, -1], 2: [-1, 2, -1]}[d]
        A = D.T @ D
        t = x.sum(1)
        reg = 1 / (2 * (t.max() - t.min()))
        q = np.linalg.solve(A + reg * np.eye(n), -A @ x.mean(0))
        return x + q[None]

    def whole(x, d):
        if nblock == 0:
            return part(x, d)
        k = x.shape[0] // nblock
        return np.concatenate([part(x[b * k:(b + 1) * k], d) for b in range(nblock)])

    def f(x):
        p = whole(x, 1) * whole(x, 2)
        return np.sqrt(p + alpha * abs(p.min()))
    return _compare(a, rng, 'remove_stripe_ti', f, 2e-3, **kw)


# -------------------------------------------------- Fourier-wavelet
def _fw(a, rng):
    import pywt
    level = int(rng.randint(1, 4))
    wname, sigma, pad = str(rng.choice(['db5', 'haar', 'sym5'])), float(rng.choice([1, 2, 4])), bool(rng.rand() < .5)
    kw = dict(level=level, wname=wname, sigma=sigma, pad=pad)
    if a['defaults']:
        kw = {}
        level, wname, sigma, pad = int(np.ceil(np.log2(max(a['np'], a['ny'], a['nx'])))), 'db5', 2, True

    def f(x):
        n, m = x.shape
        sh = (n // 8) // 2 if pad else 0
        y = np.zeros((n + n // 8 if pad else n, m))
        y[sh:sh + n] = x
        st = []
        for _ in range(level):
            y, d = pywt.dwt2(y, wname)
            st.append(d)
        for cH, cV, cD in reversed(st):
            k = cV.shape[0]
            freq = np.fft.fftshift(np.arange(k) * 0 + np.array([(-k + 2 * i + 1) / 2 for i in range(k)]))
            freq = np.fft.ifftshift(np.array([(-k + 2 * i + 1) / 2 for i in range(k)]))
            damp = 1 - np.exp(-freq ** 2 / (2 * sigma ** 2))
            cV = np.real(np.fft.ifft(np.fft.fft(cV, axis=0) * damp[:, None], axis=0))
            y = pywt.idwt2((y[:cH.shape[0], :cH.shape[1]], (cH, cV, cD)), wname)
        return y[sh:sh + n, :m]
    return _compare(a, rng, 'remove_stripe_fw', f, 5e-4, **kw)


# -------------------------------------------------- Vo's algorithms
def _size(x, size):
    return size if size is not None else 21 if x.shape[1] > 2000 else max(5, int(.01 * x.shape[1]))


def sort_filter(x, size, dim, by=None):
    """each column sorted, the sorted image median filtered across the columns, the values put back at the ranks"""
    s = nd.median_filter(np.sort(x, 0), (1, size) if dim == 1 else (size, size))
    rank = np.argsort(np.argsort(x, 0), 0)
    return np.take_along_axis(s, rank, 0)


def _sorting(a, rng):
    size, dim = int(rng.choice([3, 5, 8, 11])), int(rng.choice([1, 2]))
    kw = dict(size=size, dim=dim)
    if a['defaults']:
        kw, size, dim = {}, None, 1
    return _compare(a, rng, 'remove_stripe_based_sorting', lambda x: sort_filter(x, _size(x, size), dim), 1e-5, **kw)


def _filtering(a, rng):
    size, dim, sigma = int(rng.choice([3, 5, 8])), int(rng.choice([1, 2])), float(rng.choice([3, 5, 10]))
    kw = dict(size=size, dim=dim, sigma=sigma)
    if a['defaults']:
        kw, size, dim, sigma = {}, None, 1, 3

    def f(x):
        n = x.shape[0]
        pad = min(150, n // 10)
        p = np.pad(x, ((pad, pad), (0, 0)), mode='reflect')
        k = np.arange(n + 2 * pad)
        w = np.exp(-.5 * ((k - (len(k) - 1) / 2) / sigma) ** 2)
        sg = (-1.) ** k
        sm = np.real(np.fft.ifft(np.fft.fft(p * sg[:, None], axis=0) * w[:, None], axis=0) * sg[:, None])[pad:pad + n]
        return sort_filter(sm, _size(x, size), dim) + x - sm

    def ties(x):
        n = x.shape[0]
        return False
    return _compare(a, rng, 'remove_stripe_based_filtering', f, 3e-3, **kw)


def _fitting(a, rng):
    from scipy.signal import savgol_filter
    order, sigma = int(rng.choice([1, 2, 3])), (float(rng.choice([5, 3])), float(rng.choice([20, 10])))
    kw = dict(order=order, sigma=sigma)
    if a['defaults']:
        kw, order, sigma = {}, 3, (5, 20)

    def f(x):
        n, m = x.shape
        pad = min(150, n // 10)
        fit = savgol_filter(x, n - (n % 2 == 0), order, axis=0, mode='mirror')
        p = np.pad(np.pad(fit, ((0, 0), (pad, pad)), mode='edge'), ((pad, pad), (0, 0)), mode='mean')
        h, w = p.shape
        yy, xx = np.arange(h) - (h - 1) / 2, np.arange(w) - (w - 1) / 2
        win = np.exp(-(xx[None] ** 2 / (2 * sigma[0] ** 2) + yy[:, None] ** 2 / (2 * sigma[1] ** 2)))
        sg = (-1.) ** (np.arange(h)[:, None] + np.arange(w)[None])
        sm = np.real(np.fft.ifft2(np.fft.fft2(p * sg) * win) * sg)[pad:pad + n, pad:pad + m]
        return x / fit * (sm * fit.mean() / sm.mean())
    return _compare(a, rng, 'remove_stripe_based_fitting', f, 2e-3, **kw)


def detect(v, snr):
    """(mask, margin): algorithm 4; margin tells how close a decision was"""
    n = len(v)
    s = np.sort(v)[::-1]
    k = np.arange(n)
    d = int(.25 * n)
    slope, icpt = np.polyfit(k[d:-d - 1], s[d:-d - 1], 1)
    end = icpt + slope * k[-1]
    noise = max(abs(end - icpt), 1e-6)
    v1, v2 = abs(s[0] - icpt) / noise, abs(s[-1] - end) / noise
    mask = np.zeros(n, bool)
    margin = [abs(v1 - snr) / snr, abs(v2 - snr) / snr]
    hi, lo = icpt + noise * snr * .5, end - noise * snr * .5
    if v1 >= snr:
        mask |= v > hi
        margin.append(np.abs(v - hi).min() / noise)
    if v2 >= snr:
        mask |= v <= lo
        margin.append(np.abs(v - lo).min() / noise)
    return mask, min(margin)


def wide(mask):
    m = mask.copy()
    m[1:] |= mask[:-1]
    m[:-1] |= mask[1:]
    return m


class Close(Exception):
    pass


def factor(x, size, drop):
    drop = min(max(drop, 0), .8)
    n = x.shape[0]
    k = int(.5 * drop * n)
    s = np.sort(x, 0)
    sm = nd.median_filter(s, (1, size))
    a, b = s[k:n - k].mean(0), sm[k:n - k].mean(0)
    return np.where(b != 0, a / b, 1), sm


def large(x, snr, size, drop=.1, norm=True):
    fac, sm = factor(x, size, drop)
    mask, margin = detect(fac, snr)
    if margin < 1e-3:
        raise Close
    mask = wide(mask)
    y = x / fac[None] if norm else x.copy()
    cor = np.take_along_axis(sm, np.argsort(np.argsort(y, 0), 0), 0)
    return np.where(mask[None], cor, y)


def interp_columns(x, mask):
    good = np.nonzero(~mask)[0]
    y = x.copy()
    bad = np.nonzero(mask)[0]
    for r in range(x.shape[0]):
        y[r, bad] = np.interp(bad, good, x[r, good])
    return y


def inner(mask):
    m = wide(mask)
    m[:2] = False
    m[-2:] = False
    return m


def dead(x, snr, size, norm=True):
    sm = nd.uniform_filter1d(x, 10, axis=0)
    d = np.abs(x - sm).sum(0)
    b = nd.median_filter(d, size)
    mask, margin = detect(np.where(b != 0, d / b, 1), snr)
    if margin < 1e-3:
        raise Close
    y = interp_columns(x, inner(mask))
    return large(y, snr, size) if norm else y


def interpolation(x, snr, size, drop=.1, norm=True):
    fac, _ = factor(x, size, drop)
    mask, margin = detect(fac, snr)
    if margin < 1e-3:
        raise Close
    return interp_columns(x / fac[None] if norm else x, inner(mask))


def guarded(f):
    last = {}

    def skip(x):
        try:
            last['v'] = f(x)
            return False
        except Close:
            return True
    return dict(skip=skip, f=lambda x: last['v'])


def _large(a, rng):
    kw = dict(snr=float(rng.choice([1.5, 3, 5])), size=int(rng.choice([5, 11, 21])), drop_ratio=float(rng.choice([0, .1, .3, .95])), norm=bool(rng.rand() < .6))
    if a['defaults']:
        kw = {}
    f = lambda x: large(x, kw.get('snr', 3), kw.get('size', 51), kw.get('drop_ratio', .1), kw.get('norm', True))
    return _compare(a, rng, 'remove_large_stripe', tol=1e-4, **dict(guarded(f), **kw))


def _dead(a, rng):
    kw = dict(snr=float(rng.choice([1.5, 3, 5])), size=int(rng.choice([5, 11, 21])), norm=bool(rng.rand() < .4))
    if a['defaults']:
        kw = {}
    f = lambda x: dead(x, kw.get('snr', 3), kw.get('size', 51), kw.get('norm', True))
    return _compare(a, rng, 'remove_dead_stripe', tol=1e-4, **dict(guarded(f), **kw))


def _all(a, rng):
    kw = dict(snr=float(rng.choice([1.5, 3, 5])), la_size=int(rng.choice([5, 11, 21])), sm_size=int(rng.choice([3, 7])), dim=int(rng.choice([1, 2])))
    if a['defaults']:
        kw = {}
    f = lambda x: sort_filter(dead(x, kw.get('snr', 3), kw.get('la_size', 61)), kw.get('sm_size', 21), kw.get('dim', 1))
    return _compare(a, rng, 'remove_all_stripe', tol=1e-4, **dict(guarded(f), **kw))


def _interpolation(a, rng):
    kw = dict(snr=float(rng.choice([1.5, 3, 5])), size=int(rng.choice([5, 11, 21])), drop_ratio=float(rng.choice([0, .1, .3, .95])), norm=bool(rng.rand() < .6))
    if a['defaults']:
        kw = {}
    f = lambda x: interpolation(x, kw.get('snr', 3), kw.get('size', 31), kw.get('drop_ratio', .1), kw.get('norm', True))
    return _compare(a, rng, 'remove_stripe_based_interpolation', tol=1e-4, **dict(guarded(f), **kw))


def _const(a, rng):
    # a slice that is the same in every column holds no stripe
    import tomopy
    name = str(rng.choice(['remove_stripe_sf', 'remove_stripe_based_sorting', 'remove_stripe_based_filtering']))
    x = np.repeat(2 + rng.rand(a['np'], a['ny'], 1), a['nx'], 2).astype(np.float32)
    x0 = x.copy()
    got = getattr(tomopy, name)(layout(x, a['layout']), ncore=a['ncore'], nchunk=a['nchunk'])
    return same(got, x0, name + ' on a stack without stripes', 1e-4, 1e-4)


# -------------------------------------------------- detection and mask
def mirror(k, off, n):
    q = k + off
    if 0 <= q < n:
        return q
    q = k - off
    return q if 0 <= q < n else k


def _detect(a, rng):
    import tomopy
    s = (int(rng.randint(2, 12)), int(rng.randint(1, 7)), int(rng.randint(1, 12)))
    size, radius = int(rng.randint(1, s[0] // 2 + 1)), int(rng.randint(1, 4))
    x = values(rng, s, a['dtype'], -1, 1)
    if rng.rand() < .4:
        x[:, :, s[2] // 2:] = rng.choice([0, -2, 1])
    if rng.rand() < .3:
        x = np.round(x * 2).astype(x.dtype)
    x32 = x.astype(np.float32)
    kw = dict(size=size, radius=radius)
    if a['defaults'] and s[0] >= 20:
        kw, size, radius = {}, 10, 3
    got = tomopy.prep.stripe.stripes_detect3d(layout(x, a['layout']), ncore=a['ncore'], **kw)
    if got.shape != s or got.dtype != np.float32:
        return 'stripes_detect3d: result is %s %s' % (got.shape, got.dtype)
    if not ((got >= 0) & (got <= 1)).all():
        return 'stripes_detect3d: weight %r outside of [0, 1]' % got[~((got >= 0) & (got <= 1))][0].item()
    nz, ny, nx = s
    g = np.zeros(s)
    for i in range(nx):
        i1 = i + 2 if i + 2 < nx else i - 2 if i >= 2 else i
        g[:, :, i] = np.abs((x32[:, :, i1] - x32[:, :, i]).astype(np.float64))
    Z = [[mirror(k, o, nz) for o in range(-radius, radius + 1)] for k in range(nz)]
    Y = [[mirror(k, o, ny) for o in range(-radius, radius + 1)] for k in range(ny)]
    Y1 = [[mirror(k, o, ny) for o in (-1, 0, 1)] for k in range(ny)]
    R = [[mirror(k, o, nx) for o in range(1, radius + 1)] for k in range(nx)]
    Lf = [[mirror(k, o, nx) for o in range(-radius, 0)] for k in range(nx)]
    w = np.zeros(s)

    def ratio(p, q):
        return 0. if p == 0 and q == 0 else min(p, q) / max(p, q)
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                plate = g[:, :, i][np.ix_(Z[k], Y[j])].mean()
                w[k, j, i] = min(ratio(plate, g[k][np.ix_(Y1[j], R[i])].mean()), ratio(plate, g[k][np.ix_(Y1[j], Lf[i])].mean()))
    idx = np.array([[mirror(k, o, nz) for o in range(-size, size + 1)] for k in range(nz)])
    want = np.sort(w[idx], 1)[:, size - 1]
    return same(got, want, 'stripes_detect3d', 1e-4, 1e-4)


def _mask(a, rng):
    import tomopy
    s = (int(rng.randint(2, 24)), int(rng.randint(1, 12)), int(rng.randint(2, 14)))
    nz, ny, nx = s
    w = rng.rand(*s).astype(a['dtype'])
    for _ in range(rng.randint(0, 4)):
        w[rng.randint(nz):, rng.randint(ny):, rng.randint(nx)] = .1
    kw = dict(threshold=float(rng.choice([.3, .6, .8])), min_stripe_length=int(rng.randint(1, nz)), min_stripe_depth=int(rng.randint(0, ny)), min_stripe_width=int(rng.randint(1, nx)),
              sensitivity_perc=float(rng.choice([20., 50., 85., 100.])))
    w0 = w.copy()
    got = tomopy.prep.stripe.stripes_mask3d(layout(w, a['layout']), ncore=a['ncore'], **kw)
    if got.dtype != bool or got.shape != s:
        return 'stripes_mask3d: result is %s %s' % (got.shape, got.dtype)
    L, D, W = kw['min_stripe_length'], kw['min_stripe_depth'], kw['min_stripe_width']
    f = np.float32(.01) * np.float32(kw['sensitivity_perc'])
    tl, td = int(f * np.float32(L)), int(f * np.float32(D))
    m = w0.astype(np.float32) <= np.float32(kw['threshold'])

    def count(m, axis, h):
        n = m.shape[axis]
        idx = np.array([[mirror(k, o, n) for o in range(-h, h + 1)] for k in range(n)])
        return np.take(m, idx, axis).sum(axis + 1)

    def seen(m, axis, h, sign):
        n = m.shape[axis]
        idx = np.array([[mirror(k, sign * o, n) for o in range(0, h + 1)] for k in range(n)])
        return np.take(m, idx, axis).any(axis + 1)
    if D:
        m = m & ~(count(m, 1, D // 2) > td)
    m = m & ~(count(m, 0, L // 2) < tl)
    m = m & ~(count(m, 0, L // 2) < L // 2)
    for _ in range(W):
        m = m | (seen(m, 2, W // 2, -1) & seen(m, 2, W // 2, 1)) | (seen(m, 0, 2 * W, -1) & seen(m, 0, 2 * W, 1))
    return same(got, m, 'stripes_mask3d', 0, 0)


def _bad(a, rng):
    import tomopy
    x = rng.rand(8, 6, 9).astype(np.float32)
    D, M = tomopy.prep.stripe.stripes_detect3d, tomopy.prep.stripe.stripes_mask3d
    tests = [(D, dict(size=0)), (D, dict(size=-1)), (D, dict(size=5)), (M, dict(min_stripe_length=0)), (M, dict(min_stripe_length=8)), (M, dict(min_stripe_depth=-1)), (M, dict(min_stripe_depth=6)),
             (M, dict(min_stripe_width=0)), (M, dict(min_stripe_width=9)), (M, dict(sensitivity_perc=0.)), (M, dict(sensitivity_perc=100.5))]
    ok = dict(min_stripe_length=3, min_stripe_depth=2, min_stripe_width=2)
    f, kw = tests[rng.randint(len(tests))]
    if f is M:
        kw = dict(ok, **kw)
    for y in (x, x[0]):
        try:
            f(y, **(kw if y is x else (ok if f is M else dict(size=1))))
        except ValueError:
            continue
        return '%s(%s) was accepted for shape %s' % (f.__name__, kw, y.shape)
    return None
