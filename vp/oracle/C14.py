"""The result depends on the values of the arrays, not on their layout or type."""
import random
import warnings

import numpy as np

from .api import table
from .C13 import differ
from .util import layout


def cases(seed, tier):
    r = random.Random(seed)
    names = sorted(table())
    for i in range(len(names) * (12 if tier == 'quick' else 150)):
        yield 'call', dict(fn=names[i % len(names)], seed=r.randint(0, 10**6), shape=[r.randint(1, 7) for _ in range(3)],
                           layouts=[r.choice(['C', 'F', 'step', 'neg', 'swap', 'ro', 'big', 'view']) for _ in range(6)], dtypes=[r.randint(0, 100) for _ in range(6)], mode=r.choice(['layout', 'layout', 'dtype', 'both']))


def run_case(kind, a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return _call(a, np.random.RandomState(a['seed']))


def lay(v, how):
    if how == 'ro':
        v = v.copy()
        v.setflags(write=False)
        return v
    if how == 'big':
        return v.astype(v.dtype.newbyteorder('>'))
    if how == 'view':
        b = np.full([n + 3 for n in v.shape], 7, v.dtype)
        w = b[tuple(slice(1, 1 + n) for n in v.shape)]
        w[...] = v
        return w
    return layout(v, how)


def _call(a, rng):
    c = table()[a['fn']](rng, tuple(a['shape']))
    if c is None:
        return None
    base = c({k: v.copy() for k, v in c.arrays.items()})
    var, desc = {}, []
    for i, (k, v) in enumerate(c.arrays.items()):
        v = v.copy()
        if a['mode'] != 'layout' and v.dtype.kind == 'f':
            kinds = getattr(c, 'fixed', {}).get(k, c.kinds)
            if k == 'reg_data' or k == 'tomo':
                kinds = c.kinds
            dt = np.dtype(kinds[a['dtypes'][i % 6] % len(kinds)])
            if dt.kind == 'f' or np.array_equal(v.astype(dt).astype(v.dtype), v):
                v = v.astype(dt)
        how = a['layouts'][i % 6] if a['mode'] != 'dtype' else 'C'
        if how == 'big' and v.dtype.itemsize == 1:
            how = 'C'
        v = lay(v, how)
        var[k] = v
        desc.append('%s: %s %s' % (k, v.dtype, how))
    got = c(var)
    if isinstance(base, np.ndarray) and isinstance(got, np.ndarray) and got.dtype != base.dtype and all(v.dtype == c.arrays[k].dtype for k, v in var.items()):
        return '%s: result of type %s instead of %s for %s' % (a['fn'], got.dtype, base.dtype, desc)
    why = differ(got, base, c.rtol, c.atol)
    if why:
        return '%s(%s) with %s: %s' % (a['fn'], str(c.kw)[:200], '; '.join(desc), why)
    return None
