import random
import warnings

import numpy as np

from . import ref

ALGS = ['art', 'bart', 'sirt', 'mlem', 'osem', 'ospml_quad', 'ospml_hybrid', 'pml_quad', 'pml_hybrid', 'fbp', 'grad', 'tikh', 'tv']


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(2600 if tier == 'quick' else 20000):
        yield 'recon', dict(alg=ALGS[i % len(ALGS)], seed=r.randint(0, 10**6), gx=r.randint(2, 7), gy=r.randint(2, 7), dx=r.randint(1, 8), dt=r.randint(1, 6),
                            dy=r.choice([1, 1, 2, 3]), it=r.choice([1, 1, 2, 3]), nb=r.choice([1, 2, 3, 4]),
                            square=r.random() < .3, auto=r.random() < .5, generic=r.random() < .7, ncore=r.choice([1, 2]))


def run_case(kind, a):
    try:
        return _recon(a)
    except ref.IllConditioned:
        return None


def _recon(a):
    import tomopy
    rng = np.random.RandomState(a['seed'])
    gx, gy, dx, dt, dy, alg = a['gx'], a['gy'], a['dx'], a['dt'], a['dy'], a['alg']
    if a['square']:
        dx = gy = gx
    g = [ref.good_geometry(rng, gx, gy, dx, dt, a['generic'])]
    if g[0] is None:
        return None
    theta = g[0][1]
    centers = [g[0][0]]
    rays = [g[0][2]]
    for s in range(1, dy):
        for _ in range(40):
            c = float(np.float32(dx / 2 + rng.uniform(-1.4, 1.4)))
            rr = ref.Rays(gx, gy, dx, c, theta)
            if not rr.ambiguous.any():
                break
        else:
            c, rr = centers[0], rays[0]
        centers.append(c)
        rays.append(rr)
    data = (rng.rand(dt, dy, dx) * 4 + 0.2).astype(np.float32)
    if rng.rand() < .3:
        data[rng.rand(*data.shape) < .2] = 0
    init = (rng.rand(dy, gx, gy) + 0.3).astype(np.float32)
    nb = min(a['nb'], dt)
    if rng.rand() < .15:
        nb = a['nb']
    order = rng.permutation(dt).astype(np.int32)
    kw = dict(num_gridx=gx, num_gridy=gy)
    it = a['it']
    if alg != 'fbp':
        kw['num_iter'] = it
    if alg in ('bart', 'osem', 'ospml_quad', 'ospml_hybrid'):
        if not (a['auto'] and nb == 1):
            kw.update(num_block=nb, ind_block=order)
        if a['auto']:
            kw.pop('ind_block', None)
            order = np.arange(dt)
    else:
        nb = 1
    reg = None
    if 'pml' in alg:
        reg = np.array([rng.uniform(.05, 2), rng.uniform(.1, 3)], np.float32)
        kw['reg_par'] = reg
    elif alg == 'tv':
        reg = np.array([rng.choice([0, .01, .2, 1., 5.])], np.float32)
        kw['reg_par'] = reg
    elif alg in ('grad', 'tikh'):
        step = rng.choice([-1, .05, .2])
        reg = np.array([step, rng.uniform(0.05, 2.)], np.float32)
        kw['reg_par'] = reg
    reg_data = None
    if alg == 'tikh':
        reg_data = rng.rand(dy, gx, gy).astype(np.float32)
        kw['reg_data'] = reg_data.copy()
        if a['auto']:
            reg_data = np.zeros_like(reg_data)
            kw.pop('reg_data')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = tomopy.recon(data.copy(), theta, center=np.array(centers), algorithm=alg, init_recon=init.copy(), ncore=a['ncore'],
                           nchunk=int(rng.choice([1, 2])), **kw)
    if got.shape != (dy, gx, gy):
        return 'shape %s' % (got.shape,)
    for s in range(dy):
        r, b, x = rays[s], data[:, s].astype(np.float64), init[s].ravel().astype(np.float64)
        skip = np.zeros(gx * gy, bool)
        o = order if nb > 1 else None
        if alg == 'art':
            n2 = (r.w ** 2).sum(-1)
            if ((n2 > 0) & (n2 < 1e-3)).any():
                continue
            want = ref.art(r, b, x, it)
        elif alg in ('bart', 'sirt'):
            want = ref.bart(r, b, x, it, nb, o)
        elif alg in ('mlem', 'osem'):
            want = ref.osem(r, b, x, it, nb, o)
        elif 'pml' in alg:
            want = ref.ospml(r, b, x, it, reg.astype(float), nb, o, 'hybrid' in alg)
        elif alg == 'fbp':
            want = ref.fbp(r, b) + x
        elif alg == 'grad':
            want = ref.grad(r, b, x, it, reg.astype(float))
        elif alg == 'tikh':
            # the scaled image is compared with reg_data
            want = ref.grad(r, b, x, it, reg.astype(float), tikh=reg_data[s].ravel().astype(float))
        else:
            want = ref.tv(r, b, x, it, float(reg[0]))
        if alg in ('bart', 'sirt', 'mlem', 'osem'):
            for blk in ref.subsets(dt, nb):
                sd = r.w[[o[q] if o is not None else q for q in blk]].sum((0, 1)) if blk else np.zeros(gx * gy)
                skip |= (sd > 0) & (sd < 0.05)
        if r.corner and alg in ('bart', 'sirt', 'osem', 'mlem'):
            continue
        n2 = (r.w ** 2).sum(-1)
        if ((n2 > 0) & (n2 < 1e-4)).any() and alg in ('bart', 'sirt'):
            continue
        tol = 4e-3 * (np.abs(want[~skip]).max() if (~skip).any() else 1) + 1e-5
        if alg in ('grad', 'tikh'):
            tol *= 5 if reg[0] < 0 and it > 1 else .25
        g1 = got[s].ravel()
        err = np.abs(g1 - want)
        err[skip] = 0
        if not np.isfinite(g1).all() or err.max() > tol:
            k = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
            return '%s: slice %d pixel (%d, %d) is %g, the update rule gives %g (tolerance %g)' % (alg, s, k // gy, k % gy, g1[k], want[k], tol)
    return None
