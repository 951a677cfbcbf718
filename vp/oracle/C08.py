import random
import warnings

import numpy as np

from .util import LAYOUTS, layout, same, values


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(2500 if tier == 'quick' else 20000):
        yield r.choice(['normalize', 'normalize', 'nf', 'nf', 'log', 'roi']), dict(
            seed=r.randint(0, 10**6), shape=[r.randint(1, 9), r.randint(1, 6), r.randint(1, 6)], nf=r.randint(1, 6), nd=r.choice([0, 1, 2, 3, 5]), flat2d=r.random() < .2,
            dtype=r.choice(['float32', 'float32', 'float64', 'int32', 'uint16']), fdtype=r.choice(['float32', 'float64', 'uint16']), layout=r.choice(LAYOUTS),
            avg=r.choice([None, 'mean', 'median']), cutoff=r.choice([None, None, 1.0, .5, 2.5]), ncore=r.choice([None, 1, 2, 3, 8]), out=r.choice(['none', 'none', 'new', 'same']),
            equal=r.random() < .3, sets=r.randint(1, 4))


def run_case(kind, a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return globals()['_' + kind](a, np.random.RandomState(a['seed']))


def _out(a, x):
    """(out argument, input to pass)"""
    if a['out'] == 'new':
        return np.full(x.shape, np.nan, np.float32), x
    if a['out'] == 'same':
        x = np.ascontiguousarray(x, dtype=np.float32)
        return x, x
    return None, x


def _check(got, out, want, what, rtol=2e-5, atol=1e-5):
    why = same(got, want, what, rtol, atol, np.float32)
    if why is None and out is not None and got is not out:
        return what + ': the result is not the given out array'
    return why


def _fields(a, rng, n, shape, lo, hi, flat2d):
    f = values(rng, (n,) + shape if not flat2d else shape, a['fdtype'], lo, hi)
    return f


def _avg(f, how):
    f = f.astype(np.float64)
    if f.ndim == 2:
        return f
    return np.median(f, 0) if how == 'median' else f.mean(0)


def _normalize(a, rng):
    import tomopy
    s = tuple(a['shape'])
    x = layout(values(rng, s, a['dtype'], 0, 200), a['layout'])
    flat = _fields(a, rng, a['nf'], s[1:], 100, 200, a['flat2d'])
    dark = _fields(a, rng, max(a['nd'], 1), s[1:], 0, 20, a['nd'] == 0)
    if a['equal']:             # dead pixels: the flat field is not above the dark field
        k = (rng.randint(s[1]), rng.randint(s[2]))
        flat[(Ellipsis,) + k] = 3
        dark[(Ellipsis,) + k] = rng.choice([3, 7])
    out, x = _out(a, x)
    x0, f0, d0 = x.copy(), flat.copy(), dark.copy()
    kw = {} if a['avg'] is None else dict(averaging=a['avg'])
    got = tomopy.normalize(x, flat, dark, cutoff=a['cutoff'], ncore=a['ncore'], out=out, **kw)
    F, D = _avg(f0, a['avg']), _avg(d0, a['avg'])
    den = np.maximum(F - D, np.float64(np.float32(1e-6)))
    want = (x0.astype(np.float64) - D) / den
    if a['cutoff'] is not None:
        want = np.minimum(want, a['cutoff'])
    why = _check(got, out, want, 'normalize', 2e-4, 2e-5)
    if why is None and not (np.array_equal(flat, f0) and np.array_equal(dark, d0)):
        why = 'normalize modified the flat or dark fields'
    return why


def _nf(a, rng):
    import tomopy
    s = tuple(a['shape'])
    n, sets = s[0] + rng.randint(0, 8), a['sets']
    s = (n,) + s[1:]
    x = layout(values(rng, s, a['dtype'], 0, 200), a['layout'])
    loc = sorted(int(q) for q in rng.choice(n + 1, min(sets, n + 1), replace=False))
    if rng.rand() < .7:
        loc[0] = 0
    sets = len(loc)
    per = rng.randint(1, 4)
    flats = values(rng, (sets * per,) + s[1:], a['fdtype'], 100, 200)
    dark = _fields(a, rng, max(a['nd'], 1), s[1:], 0, 20, a['nd'] == 0)
    if a['equal']:
        k = (rng.randint(s[1]), rng.randint(s[2]))
        flats[(Ellipsis,) + k] = 3
        dark[(Ellipsis,) + k] = rng.choice([3, 7])
    out, x = _out(a, x)
    x0, f0, d0 = x.copy(), flats.copy(), dark.copy()
    kw = {} if a['avg'] is None else dict(averaging=a['avg'])
    got = tomopy.normalize_nf(x, flats, dark, loc if rng.rand() < .5 else np.array(loc), cutoff=a['cutoff'], ncore=a['ncore'], out=out, **kw)
    D = _avg(d0, a['avg'])
    per_set = [np.median(f0[k * per:(k + 1) * per].astype(np.float64), 0) for k in range(sets)]
    xs = x0.astype(np.float64)

    def one(p, k):
        w = (xs[p] - D) / np.maximum(per_set[k] - D, np.float64(np.float32(1e-6)))
        return w if a['cutoff'] is None else np.minimum(w, a['cutoff'])
    why = _check(got, out, xs * 0 if got.shape != s else got.astype(np.float64), 'normalize_nf', 1, 1)
    if why:
        return why
    for p in range(n):
        # a set is taken before the projection of its location; both neighbours will do at equal distance
        dist = [abs(p + .5 - q) for q in loc]
        best = [k for k in range(sets) if dist[k] == min(dist)]
        if not any(same(got[p], one(p, k), '', 2e-4, 2e-5) is None for k in best):
            return 'normalize_nf: projection %d (flats at %s): %s' % (p, loc, same(got[p], one(p, best[0]), 'value', 2e-4, 2e-5))
    if not (np.array_equal(flats, f0) and np.array_equal(dark, d0)):
        return 'normalize_nf modified the flat or dark fields'
    return None


def _log(a, rng):
    import tomopy
    x = layout(values(rng, a['shape'], a['dtype'], -1 if a['equal'] else 1e-3, 3), a['layout'])
    out, x = _out(a, x)
    x0 = x.copy()
    got = tomopy.minus_log(x, ncore=a['ncore'], out=out)
    return _check(got, out, -np.log(x0.astype(np.float32).astype(np.float64)), 'minus_log', 1e-5, 1e-6)


def _roi(a, rng):
    import tomopy
    s = (a['shape'][0], a['shape'][1] + 1, a['shape'][2] + 1)
    x = layout(values(rng, s, a['dtype'], 1, 9), a['layout'])
    r0, c0 = rng.randint(s[1]), rng.randint(s[2])
    r1, c1 = rng.randint(r0 + 1, s[1] + 1), rng.randint(c0 + 1, s[2] + 1)
    if a['equal']:
        x[rng.randint(s[0]), r0:r1, c0:c1] = 0
    x0 = x.copy()
    roi = [int(q) for q in (r0, c0, r1, c1)]
    got = tomopy.normalize_roi(x, roi=list(roi), ncore=a['ncore'])
    d = x0.astype(np.float64)
    m = d[:, r0:r1, c0:c1].mean((1, 2))
    m[m == 0] = 1
    return same(got, d / m[:, None, None], 'normalize_roi', 2e-5, 1e-6, np.float32)
