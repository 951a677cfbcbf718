import random
import warnings

import numpy as np

from .util import LAYOUTS, layout, same, values


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(1600 if tier == 'quick' else 15000):
        yield 'inpaint', dict(seed=r.randint(0, 10**6), nd=r.choice([2, 3, 3]), shape=[r.randint(1, 9) for _ in range(3)], axis=r.choice([None, None, 0, 1, 2]),
                              size=r.randint(1, 4), it=r.choice([1, 2, 2, 3]), type=r.choice(['mean', 'median', 'random']), p=r.choice([0, .05, .3, .6, .9]), block=r.random() < .5,
                              dtype=r.choice(['float32', 'float32', 'float64', 'uint16']), layout=r.choice(LAYOUTS), ncore=r.choice([None, 1, 2, 3]), defaults=r.random() < .05)


def run_case(kind, a):
    import tomopy
    rng = np.random.RandomState(a['seed'])
    s = tuple(a['shape'][-a['nd']:])
    axis = a['axis'] if a['nd'] == 3 else None
    x = layout(values(rng, s, a['dtype'], 3, 9), a['layout'])
    mask = rng.rand(*s) < a['p']
    if a['block']:
        mask[:] = False
        mask[tuple(slice(q, q + rng.randint(1, n + 1)) for q, n in zip([rng.randint(n) for n in s], s))] = True
    # every region that is filled on its own holds known values
    whole = [mask] if axis is None else [np.take(mask, i, axis) for i in range(s[axis])]
    for w in whole:
        if w.all():
            w[tuple(rng.randint(n) for n in w.shape)] = False
    if axis is not None:
        mask = np.stack(whole, axis)
    mask = layout(mask, a['layout'])
    x0, m0 = x.astype(np.float32), mask.copy()
    junk = x.copy()
    kw = dict(size=a['size'], iterations=a['it'], inpainting_type=a['type'], axis=axis)
    if a['defaults']:
        kw = dict(axis=axis)
    got = tomopy.inpainter_morph(x, mask, ncore=a['ncore'], **kw)
    if got.shape != s or got.dtype != np.float32:
        return 'result is %s %s' % (got.shape, got.dtype)
    if not np.array_equal(got[~m0], x0[~m0]):
        return 'an element outside of the mask was changed'
    if not (np.array_equal(x, junk) and np.array_equal(mask, m0)):
        return 'the input or the mask was modified'
    pairs = [(got, m0, x0)] if axis is None else [(np.take(got, i, axis), np.take(m0, i, axis), np.take(x0, i, axis)) for i in range(s[axis])]
    for g, m, q in pairs:
        lo, hi = q[~m].min(), q[~m].max()
        if m.any() and not ((g[m] >= lo * (1 - 1e-4)) & (g[m] <= hi * (1 + 1e-4))).all():
            bad = g[m][~((g[m] >= lo * (1 - 1e-4)) & (g[m] <= hi * (1 + 1e-4)))][0]
            return 'a filled element is %g, outside of the range %g .. %g of the known values' % (bad, lo, hi)
    # what lies below the mask is not used
    junk[m0] = junk[m0] * 3 + 50
    det = kw.get('inpainting_type', 'random') != 'random'
    if det:
        got2 = tomopy.inpainter_morph(junk, mask, ncore=1, **kw)
        why = same(got2, got, 'other values below the mask, one core', 1e-5, 1e-5)
        if why:
            return why
    if axis is not None and det:
        for i in range(s[axis]):
            kw['axis'] = None
            g2 = tomopy.inpainter_morph(np.take(x, i, axis).copy(), np.take(mask, i, axis).copy(), ncore=2, **kw)
            why = same(np.take(got, i, axis), g2, 'slice %d against 2D' % i, 1e-5, 1e-5)
            if why:
                return why
    return None
