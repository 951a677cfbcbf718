import random

import numpy as np

from .util import LAYOUTS, layout, same, values


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(600 if tier == 'quick' else 4000):
        yield 'bg', dict(seed=r.randint(0, 10**6), shape=[r.randint(1, 6), r.randint(1, 6), r.randint(1, 9)], air=r.random(), dtype=r.choice(['float32', 'float32', 'float64', 'uint16']),
                         layout=r.choice(LAYOUTS), neg=r.choice([0, 0, 1, 2]), ncore=r.choice([None, 1, 2, 3]), nchunk=r.choice([None, None, 1, 2, 3]), default=r.random() < .1)
        if i % 20 == 0:
            yield 'bad', dict(seed=r.randint(0, 10**6), shape=[r.randint(1, 3), r.randint(1, 3), r.randint(1, 6)], off=r.choice([-2, -1, 0, 1, 2, 9]))


def run_case(kind, a):
    import tomopy
    rng = np.random.RandomState(a['seed'])
    n = a['shape'][2]
    if kind == 'bad':
        x = rng.rand(*a['shape']).astype(np.float32)
        air = a['off'] if a['off'] <= 0 else n + a['off']
        try:
            tomopy.normalize_bg(x, air=air)
        except ValueError:
            return None
        return 'air=%d was accepted for a width of %d' % (air, n)
    x = values(rng, a['shape'], a['dtype'], 1, 9)
    if a['neg'] and a['dtype'] != 'uint16':
        x[rng.rand(*x.shape[:2]) < .4, :max(1, n // 2)] *= -1 if a['neg'] == 1 else 0
        x[rng.rand(*x.shape[:2]) < .3, n // 2:] *= -1 if a['neg'] == 1 else 0
    x = layout(x, a['layout'])
    air = 1 if a['default'] else 1 + int(a['air'] * n) % n
    kw = {} if a['default'] else dict(air=air)
    d = x.astype(np.float32).astype(np.float64)
    got = tomopy.normalize_bg(x, ncore=a['ncore'], nchunk=a['nchunk'], **kw)
    left, right = d[..., :air].mean(-1), d[..., n - air:].mean(-1)
    if (np.abs(left) < 1e-3).any() and air > 1 and a['neg'] == 1 or (np.abs(right) < 1e-3).any() and air > 1 and a['neg'] == 1:
        return None
    left, right = np.where(left <= 0, 1, left), np.where(right <= 0, 1, right)
    t = np.arange(n) / max(n - 1, 1)
    line = left[..., None] * (1 - t) + right[..., None] * t
    if n == 1:
        line = left[..., None]
    return same(got, d / line, 'normalize_bg', 5e-5, 1e-5, np.float32)
