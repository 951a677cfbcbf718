"""Random arrays in every layout and dtype, and comparisons, shared by the oracles."""
import warnings

import numpy as np

LAYOUTS = ['C', 'C', 'C', 'F', 'step', 'neg', 'swap']


def layout(a, how):
    """The same values in another memory layout."""
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'step':
        b = np.zeros([2 * n + 1 for n in a.shape], a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'neg':
        b = a[..., ::-1].copy()
        return b[..., ::-1]
    if how == 'swap':
        return np.ascontiguousarray(a.swapaxes(0, -1)).swapaxes(0, -1)
    return np.array(a, order='C')


def values(rng, shape, dtype, lo=0.0, hi=10.0):
    if dtype == 'bool':
        return rng.rand(*shape) < .5
    if np.dtype(dtype).kind in 'iu':
        if np.dtype(dtype).kind == 'u':
            lo = max(lo, 0)
        return np.floor(rng.uniform(lo, hi, shape)).astype(dtype)
    return rng.uniform(lo, hi, shape).astype(dtype)


def same(got, want, what, rtol=1e-5, atol=1e-6, dtype=None):
    """None, or why got is not want (want: double precision reference)."""
    if not isinstance(got, np.ndarray):
        return '%s: not an array but %r' % (what, type(got))
    if got.shape != np.shape(want):
        return '%s: shape %s, expected %s' % (what, got.shape, np.shape(want))
    if dtype is not None and got.dtype != dtype:
        return '%s: dtype %s, expected %s' % (what, got.dtype, np.dtype(dtype))
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        g, w = got.astype(np.float64), np.asarray(want).astype(np.float64)
        ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= atol + rtol * np.abs(w))
    if not ok.all():
        k = tuple(int(q[0]) for q in np.nonzero(~ok))
        return '%s: element %s is %r, expected %r (%d of %d differ)' % (what, k, g[k].item(), w[k].item(), int((~ok).sum()), ok.size)
    return None


def first(*checks):
    for c in checks:
        if c:
            return c
    return None


def unchanged(a, before, what):
    if a.dtype != before.dtype or a.shape != before.shape or a.tobytes() != before.tobytes():
        return 'the input %s was modified' % what
    return None
