import random
import warnings

import numpy as np

ALGS = ['mlem', 'osem', 'ospml_quad', 'ospml_hybrid', 'pml_quad', 'pml_hybrid']


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(400 if tier == 'quick' else 4000):
        yield 'nonneg', dict(alg=ALGS[i % len(ALGS)], seed=r.randint(0, 10**6), gx=r.randint(2, 14), gy=r.randint(2, 14), dx=r.randint(1, 18), dt=r.randint(1, 12),
                             dy=r.choice([1, 2, 3]), it=r.choice([1, 2, 3, 8]), nb=r.choice([1, 2, 3, 5]), square=r.random() < .4,
                             data=r.choice(['flat', 'sparse', 'zero', 'zeroslice', 'zeroangle', 'tiny', 'huge', 'object']),
                             init=r.choice(['default', 'ones', 'random', 'somezero']), center=r.choice(['none', 'off', 'far', 'per']),
                             reg=r.choice([1e-3, .05, 1., 30.]), theta=r.choice(['lin', 'rand', 'axis']), ncore=r.choice([1, 2]))


def run_case(kind, a):
    import tomopy
    rng = np.random.RandomState(a['seed'])
    gx, gy, dx, dt, dy, alg = a['gx'], a['gy'], a['dx'], a['dt'], a['dy'], a['alg']
    if a['square']:
        gx = gy = dx = max(2, dx)
    data = (rng.rand(dt, dy, dx) * 5).astype(np.float32)
    k = a['data']
    if k == 'sparse':
        data[rng.rand(*data.shape) < .7] = 0
    elif k == 'zero':
        data[:] = 0
    elif k == 'zeroslice':
        data[:, rng.randint(dy)] = 0
    elif k == 'zeroangle':
        data[rng.randint(dt)] = 0
    elif k == 'tiny':
        data *= 1e-6
    elif k == 'huge':
        data *= 1e5
    elif k == 'object':
        obj = rng.rand(dy, max(dx, 2), max(dx, 2)).astype(np.float32) * (rng.rand(dy, max(dx, 2), max(dx, 2)) < .4)
        data = None
    theta = {'lin': np.linspace(0, np.pi, dt), 'rand': rng.uniform(-7, 7, dt), 'axis': rng.choice([0, np.pi / 2, np.pi, np.pi / 4], dt)}[a['theta']]
    if data is None:
        data = np.ascontiguousarray(tomopy.project(obj.astype(np.float32), theta, pad=False)[:, :, :dx])
    center = {'none': None, 'off': dx / 2 + .3, 'far': dx / 2 + rng.uniform(-dx, dx), 'per': dx / 2 + rng.uniform(-1, 1, dy)}[a['center']]
    kw = dict(num_gridx=gx, num_gridy=gy, num_iter=a['it'])
    if alg in ('osem', 'ospml_quad', 'ospml_hybrid') and a['nb'] <= dt:
        kw.update(num_block=a['nb'], ind_block=rng.permutation(dt))
    if 'pml' in alg:
        kw['reg_par'] = [a['reg'], rng.choice([.05, 1, 10])]
    init = None
    if a['init'] == 'ones':
        init = np.ones((dy, gx, gy), np.float32)
    elif a['init'] != 'default':
        init = rng.rand(dy, gx, gy).astype(np.float32) + .01
        if a['init'] == 'somezero':
            init[rng.rand(dy, gx, gy) < .3] = 0
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = tomopy.recon(data, theta, center=center, algorithm=alg, init_recon=None if init is None else init.copy(), ncore=a['ncore'], **kw)
    if not np.isfinite(got).all():
        return '%s: %d pixels are not finite' % (alg, (~np.isfinite(got)).sum())
    tol = 1e-6 * float(np.abs(got).max())
    if got.min() < -tol:
        return '%s: pixel value %g' % (alg, got.min())
    return None
