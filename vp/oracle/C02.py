import os
import random
import warnings

import numpy as np

ALGS = ['art', 'bart', 'sirt', 'mlem', 'osem', 'ospml_quad', 'ospml_hybrid', 'pml_quad', 'pml_hybrid', 'fbp', 'grad', 'tikh', 'tv', 'gridrec', 'gridrec', 'vector', 'project', 'project2']


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(480 if tier == 'quick' else 5000):
        yield 'slices', dict(alg=ALGS[i % len(ALGS)], seed=r.randint(0, 10**6), gx=r.randint(2, 9), gy=r.randint(2, 9), dx=r.randint(2, 12), dt=r.randint(1, 9),
                             dy=r.choice([1, 2, 3, 4, 5, 7, 9]), it=r.choice([1, 2]), grid=r.random() < .6, percenter=r.choice([0, 0, 1, 2]),
                             ncore=r.choice([1, 2, 3, 4, 8, None]), nchunk=r.choice([None, 0, 1, 2, 3, 4, 20]), init=r.random() < .4,
                             order=r.random() < .5, filt=r.choice(['none', 'shepp', 'cosine', 'hann', 'hamming', 'ramlak', 'parzen', 'butterworth', 'custom', 'custom2d']),
                             poison=r.random() < .3, threads=r.choice([None, None, '1', '2', '5']))


def run_case(kind, a):
    import tomopy
    rng = np.random.RandomState(a['seed'])
    alg, dy, dt, dx, gx, gy = a['alg'], a['dy'], a['dt'], a['dx'], a['gx'], a['gy']
    theta = np.sort(rng.uniform(0, np.pi, dt))
    center = None
    if a['percenter'] == 1:
        center = dx / 2 + rng.uniform(-1, 1, dy)
    elif a['percenter'] == 2:      # runs of equal centers
        center = dx / 2 + rng.choice([.3, -.4, .1], dy)
    one = lambda c, s: None if c is None else c[[s]]
    env = os.environ.get('TOMOPY_PYTHON_THREADS')
    if a['threads']:
        os.environ['TOMOPY_PYTHON_THREADS'] = a['threads']
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return _run(a, tomopy, rng, theta, center, one)
    finally:
        if env is None:
            os.environ.pop('TOMOPY_PYTHON_THREADS', None)
        else:
            os.environ['TOMOPY_PYTHON_THREADS'] = env


def _run(a, tomopy, rng, theta, center, one):
    alg, dy, dt, dx, gx, gy = a['alg'], a['dy'], a['dt'], a['dx'], a['gx'], a['gy']
    poison = None
    if alg.startswith('project'):
        n = 1 if alg == 'project' else 2
        objs = [rng.rand(dy, gx, gy).astype(np.float32) for _ in range(n)]
        if a['poison'] and dy > 1:
            poison = rng.randint(dy)
            objs[0][poison, rng.randint(gx), rng.randint(gy)] = np.nan
        pad = bool(rng.rand() < .5)
        if center is not None:
            center = center - dx / 2 + gx / 2
        f = tomopy.project if n == 1 else tomopy.project2
        par = dict(ncore=a['ncore'], nchunk=a['nchunk'])
        call = lambda o, c, **k: f(*o, theta, center=c, pad=pad, sinogram_order=True, **k)
        full = call(objs, center, **par)
        parts = [call([o[s:s + 1] for o in objs], one(center, s), ncore=1)[0] for s in range(dy)]
        perm = rng.permutation(dy)
        shuf = call([o[perm] for o in objs], None if center is None else center[perm], **par)
        return _compare(alg, full, parts, shuf, perm, poison)
    data = (rng.rand(dt, dy, dx) * 3 + .1).astype(np.float32)
    if alg == 'vector':
        kw = dict(num_iter=a['it'])
        call = lambda s, c, **k: np.stack(tomopy.vector(data[:, s], theta, center=c, **kw), 1)
        full = call(slice(None), center)
        parts = [call(slice(s, s + 1), one(center, s))[0] for s in range(dy)]
        perm = rng.permutation(dy)
        shuf = call(perm, None if center is None else center[perm])
        return _compare(alg, full, parts, shuf, perm, None)
    kw = {}
    if alg == 'gridrec':
        gx, gy = min(gx, dx), min(gy, dx)
        kw['filter_name'] = a['filt']
        w = max(16, 2 ** int(np.ceil(np.log2(dx))))
        if a['filt'] == 'custom':
            kw['filter_par'] = rng.rand(w).astype(np.float32)
        elif a['filt'] == 'custom2d':
            kw['filter_par'] = rng.rand(dt * w).astype(np.float32)
        elif a['filt'] == 'butterworth':
            kw['filter_par'] = [.4, 4]
    elif alg == 'fbp':
        pass
    else:
        kw['num_iter'] = a['it']
    if alg in ('bart', 'osem', 'ospml_quad', 'ospml_hybrid') and rng.rand() < .7:
        kw.update(num_block=int(rng.choice([2, 3])), ind_block=rng.permutation(dt))
    if a['grid']:
        kw.update(num_gridx=gx, num_gridy=gy)
    else:
        gx = gy = dx
    if alg in ('grad', 'tikh'):
        kw['reg_par'] = [rng.choice([-1, .02]), .3]
    if (gx < 2 or gy < 2) and 'pml' in alg:
        return None
    init = (rng.rand(dy, gx, gy) + .2).astype(np.float32) if a['init'] else None
    rd = rng.rand(dy, gx, gy).astype(np.float32) if alg == 'tikh' else None
    if a['poison'] and dy > 1 and alg != 'gridrec':
        poison = rng.randint(dy)
        data[rng.randint(dt), poison, rng.randint(dx)] = np.nan

    def call(idx, ncore, nchunk):
        k = dict(kw)
        if rd is not None:
            k['reg_data'] = rd[idx].copy()
        d = data[:, idx]
        if a['order']:
            d = np.swapaxes(d, 0, 1)
        return tomopy.recon(d.copy(), theta, center=None if center is None else center[idx], algorithm=alg, sinogram_order=a['order'],
                            init_recon=None if init is None else init[idx].copy(), ncore=ncore, nchunk=nchunk, **k)
    # a chunk of size 0 turns every slice into its own 2D job
    full = call(np.arange(dy), a['ncore'], a['nchunk'])
    parts = [call(np.arange(s, s + 1), 1, None)[0] for s in range(dy)]
    perm = rng.permutation(dy)
    shuf = call(perm, a['ncore'], a['nchunk'])
    return _compare(alg, full, parts, shuf, perm, poison)


def _compare(alg, full, parts, shuf, perm, poison):
    parts = np.array(parts)
    if full.shape != parts.shape:
        return '%s: shape %s, of the slices alone %s' % (alg, full.shape, parts.shape)
    ok = [s for s in range(len(full)) if s != poison]
    with np.errstate(invalid='ignore'):
        scale = max(float(np.nanmax(np.abs(parts[ok]))) if ok and np.isfinite(parts[ok]).any() else 1, 1e-6)
        tol = (2e-4 if alg == 'gridrec' else 2e-5) * scale
        for name, arr, ref in (('together', full, parts), ('in another order', shuf, parts[perm])):
            for k in range(len(full)):
                s = k if name == 'together' else perm[k]
                if s == poison:
                    continue
                bad = ~((np.abs(arr[k] - ref[k]) <= tol) | (np.isnan(arr[k]) & np.isnan(ref[k])) | (arr[k] == ref[k]))
                if bad.any():
                    j = tuple(np.argwhere(bad)[0])
                    return '%s: slice %d %s with the others differs from the slice alone at %s: %g, alone %g' % (alg, s, name, [int(x) for x in j], arr[k][j], ref[k][j])
    return None
