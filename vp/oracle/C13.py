"""Inputs are left as they are; out= is honoured."""
import random
import warnings

import numpy as np

from .api import table
from .util import LAYOUTS, layout, first


def cases(seed, tier):
    r = random.Random(seed)
    names = sorted(table())
    for i in range(len(names) * (12 if tier == 'quick' else 150)):
        yield 'call', dict(fn=names[i % len(names)], seed=r.randint(0, 10**6), shape=[r.randint(1, 7) for _ in range(3)], layout=r.choice(LAYOUTS), dtype=r.choice(['float32', 'float32', 'float64', 'uint16']),
                           out=r.choice(['none', 'new', 'same']), how=r.choice(['C', 'C', 'F', 'step', 'neg']), init=r.random() < .5)


def run_case(kind, a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return _call(a, np.random.RandomState(a['seed']))


def arrays_as(c, dt, how):
    out = {}
    for k, v in c.arrays.items():
        d = v.dtype
        if v.dtype.kind == 'f' and dt in c.kinds and k not in getattr(c, 'fixed', {}):
            d = np.dtype(dt)
        if k == 'ind_block':
            d = np.dtype(np.int32)
        out[k] = layout(v.astype(d), how)
    return out


def values_of(r):
    r = r if isinstance(r, (tuple, list)) else (r,)
    return [np.asarray(x).astype(np.float64) for x in r]


def differ(x, y, rtol, atol):
    x, y = values_of(x), values_of(y)
    if len(x) != len(y):
        return 'another number of results'
    for i, (p, q) in enumerate(zip(x, y)):
        if p.shape != q.shape:
            return 'result %d: shape %s against %s' % (i, p.shape, q.shape)
        ok = (p == q) | (np.isnan(p) & np.isnan(q)) | (np.abs(p - q) <= atol + rtol * np.maximum(np.abs(p), np.abs(q)))
        if not ok.all():
            k = tuple(int(w[0]) for w in np.nonzero(~ok)) if p.ndim else ()
            return 'result %d differs at %s: %r against %r (%d of %d)' % (i, k, p[k].item(), q[k].item(), int((~ok).sum()), ok.size)
    return None


def _call(a, rng):
    c = table()[a['fn']](rng, tuple(a['shape']))
    if c is None:
        return None
    dt = a['dtype'] if a['dtype'] in c.kinds else c.kinds[-1] if a['dtype'] == 'uint16' else 'float32'
    ar = arrays_as(c, dt, a['layout'])
    before = {k: v.copy() for k, v in ar.items()}
    meta = {k: (v.dtype, v.shape, v.strides) for k, v in ar.items()}
    kwb = repr(c.kw)
    base = c(ar)
    for k, v in ar.items():
        if meta[k] != (v.dtype, v.shape, v.strides):
            return '%s: dtype, shape or strides of the input %s changed' % (a['fn'], k)
        if not np.array_equal(v, before[k], equal_nan=True):
            return '%s(%s): the input %s was modified' % (a['fn'], kwb, k)
    if repr(c.kw) != kwb:
        return '%s: the keyword arguments were modified: %s, before %s' % (a['fn'], c.kw, kwb)
    for r in (base if isinstance(base, (tuple, list)) else (base,)):
        for k, v in ar.items():
            if isinstance(r, np.ndarray) and np.shares_memory(r, v):
                return '%s: the result shares memory with the input %s' % (a['fn'], k)
    base = [x.copy() for x in values_of(base)]
    if a['fn'].startswith('recon_') and a['init'] and a['fn'] not in ('recon_gridrec', 'recon_fbp'):
        # init_recon is the start image and receives the result
        start = np.zeros(base[0].shape, np.float32) + (1e-6 if a['fn'][6:] in ('mlem', 'osem', 'ospml_quad', 'ospml_hybrid', 'pml_quad', 'pml_hybrid') else 0)
        got = c({k: v.copy() for k, v in before.items()}, init_recon=start.copy())
        why = differ(got, base, 1e-3, 1e-3)
        if why and not _sens(base):
            return '%s: starting from the default image explicitly: %s' % (a['fn'], why)
    if c.out and a['out'] != 'none':
        src = ar[c.out]
        if a['out'] == 'same':
            ar2 = {k: layout(v, a['layout']) for k, v in before.items()}
            got = c(ar2, out=ar2[c.out]) if ar2[c.out].dtype == np.float32 else None
            if got is None:
                return None
            o = ar2[c.out]
            others = [k for k in ar2 if k != c.out]
        else:
            o = layout(np.full(src.shape, np.nan, np.float32), a['how'])
            ar2 = ar
            got = c(ar2, out=o)
            others = list(ar2)
        if got is not o and not (isinstance(got, np.ndarray) and np.shares_memory(got, o)):
            return '%s: with out= another array is returned' % a['fn']
        why = first(differ(got, base, c.rtol, c.atol), differ(o, base, c.rtol, c.atol))
        if why:
            return '%s(%s) with out= (%s): %s' % (a['fn'], kwb, a['out'], why)
        for k in others:
            if not np.array_equal(ar2[k], before[k], equal_nan=True):
                return '%s with out=: the input %s was modified' % (a['fn'], k)
    return None


def _sens(base):
    return not all(np.isfinite(b).all() for b in base)
