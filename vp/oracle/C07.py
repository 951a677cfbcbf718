import random

import numpy as np

from .util import LAYOUTS, layout, same, values


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(2500 if tier == 'quick' else 20000):
        yield r.choice(['down', 'up', 'both']), dict(seed=r.randint(0, 10**6), shape=[r.randint(1, 9) for _ in range(3)], level=r.choice([0, 1, 1, 2, 2, 3, 4]), axis=r.randint(0, 2),
                                                     dtype=r.choice(['float32', 'float32', 'float64', 'int32', 'uint16', 'int64']), layout=r.choice(LAYOUTS), default=r.random() < .1)


def run_case(kind, a):
    import tomopy
    rng = np.random.RandomState(a['seed'])
    b, ax = 2 ** a['level'], a['axis']
    x = layout(values(rng, a['shape'], a['dtype'], -50, 50), a['layout'])
    x0 = x.copy()
    kw = dict(level=a['level'], axis=ax)
    if a['default']:
        b, ax, kw = 2, 2, {}
    d = np.moveaxis(x0.astype(np.float64), ax, -1)
    n = d.shape[-1]
    up = np.moveaxis(np.repeat(d, b, -1), -1, ax)
    if kind == 'down':
        m = n // b
        got = tomopy.downsample(x, **kw)
        want = np.moveaxis(d[..., :m * b].reshape(d.shape[:-1] + (m, b)).mean(-1), -1, ax)
        why = same(got, want, 'downsample', 1e-5, 1e-4, np.float32)
    elif kind == 'up':
        got = tomopy.upsample(x, **kw)
        why = same(got, up, 'upsample', 1e-7, 0, np.float32)
    else:
        got = tomopy.downsample(tomopy.upsample(x, **kw), **kw)
        why = same(got, x0, 'downsample(upsample())', 1e-5, 1e-4, np.float32)
    if why:
        return why
    if not np.array_equal(x, x0):
        return 'the input was modified'
    return None
