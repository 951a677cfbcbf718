"""Runs under AddressSanitizer, with allocated memory filled with NaN (see vp/build.py)."""
import random
import warnings

import numpy as np

ALGS = ['art', 'bart', 'sirt', 'mlem', 'osem', 'ospml_quad', 'ospml_hybrid', 'pml_quad', 'pml_hybrid', 'fbp', 'grad', 'tikh', 'tv', 'gridrec', 'gridrec']
OTHER = ['vector', 'vector2', 'vector3', 'project', 'project', 'project2', 'project3', 'median', 'median', 'outlier', 'inpaint', 'inpaint', 'inpaint', 'ring', 'ring',
         'sample', 'bg', 'sf', 'detect', 'mask', 'mask']
FILT = ['none', 'shepp', 'cosine', 'hann', 'hamming', 'ramlak', 'parzen', 'butterworth', 'custom', 'custom2d']


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(360 if tier == 'quick' else 9000):
        k = (ALGS + OTHER)[i % (len(ALGS) + len(OTHER))]
        yield 'native', dict(fn=k, seed=r.randint(0, 10**6), n=[r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 17]) for _ in range(3)], g=[r.randint(1, 11), r.randint(1, 11)],
                             it=r.choice([1, 2, 3]), grid=r.random() < .7, nb=r.randint(1, 6), filt=r.choice(FILT), off=r.choice([0, 0, .3, -.49, 3, -8, 40]),
                             right=r.random() < .3, ncore=r.choice([1, 1, 2, 3]), size=r.choice([3, 3, 5, 7]), axis=r.choice([0, 1, 2]), level=r.choice([0, 1, 2, 3, 4]),
                             air=r.choice([0, 1, 2, 3, 5, 20]), zeros=r.random() < .2)


def run_case(kind, a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        from tomopy.util import mproc
        real = mproc.distribute_jobs
        if a['fn'] in ('bg', 'sf'):
            mproc.distribute_jobs = serial_jobs
        try:
            return _run(a)
        except ValueError as e:
            if a['fn'] in ('detect', 'mask', 'bg'):
                return None      # filters larger than the data are refused
            raise
        finally:
            mproc.distribute_jobs = real


def _finite(fn, x, ok=None):
    x = np.asarray(x)
    bad = ~np.isfinite(x)
    if ok is not None:
        bad &= ok
    if bad.any():
        return '%s: element %s of the result was computed from memory that was never set (%r)' % (fn, [int(q) for q in np.argwhere(bad)[0]], float(x[bad][0]))
    return None


def serial_jobs(arr, func, axis, args=None, kwargs=None, ncore=None, nchunk=None, out=None):
    """The job distribution forks, which AddressSanitizer does not survive reliably: here the jobs run in this process."""
    if not isinstance(arr, np.ndarray):
        raise NotImplementedError
    if out is None:
        out = arr.copy()
    elif out is not arr:
        out[:] = arr
    n = arr.shape[axis]
    step = nchunk or -(-n // (ncore or 1))
    for lo in range(0, n, step):
        sl = [slice(None)] * arr.ndim
        sl[axis] = slice(lo, lo + step)
        part = np.ascontiguousarray(out[tuple(sl)])
        func(part, *(args or ()), **(kwargs or {}))
        out[tuple(sl)] = part
    return out


def _run(a):
    import tomopy
    fn = a['fn']
    rng = np.random.RandomState(a['seed'])
    dt, dy, dx = a['n']
    f32 = np.float32
    theta = (rng.uniform(0, np.pi, dt) if not a['right'] else rng.choice([0, np.pi / 2, np.pi, -np.pi / 2, np.pi / 4], dt)).astype(f32)
    center = dx / 2 + a['off']
    if fn in ALGS:
        data = (rng.rand(dy, dt, dx) + .1).astype(f32)
        if a['zeros']:
            data[...] = 0
        kw = {}
        gx, gy = a['g'] if a['grid'] else (dx, dx)
        if fn == 'gridrec':
            kw['filter_name'] = a['filt']
            w = max(16, 2 ** int(np.ceil(np.log2(dx))))
            if a['filt'] == 'custom':
                kw['filter_par'] = rng.rand(w).astype(f32)
            elif a['filt'] == 'custom2d':
                kw['filter_par'] = rng.rand(dt * w).astype(f32)
            elif a['filt'] == 'butterworth':
                kw['filter_par'] = [.4, 4]
            if dx < 2:
                return None
            gx, gy = min(gx, dx), min(gy, dx)
            center = dx / 2 + np.clip(a['off'], -dx / 2, dx / 2 - 1)
        elif fn == 'fbp':
            pass
        else:
            kw['num_iter'] = a['it']
        if fn in ('bart', 'osem', 'ospml_quad', 'ospml_hybrid'):
            kw.update(num_block=a['nb'], ind_block=rng.permutation(dt))
            if a['nb'] > dt:
                kw['num_block'] = dt
        if 'pml' in fn:
            gx, gy = max(gx, 2), max(gy, 2)
            kw['reg_par'] = [.1, .5] if rng.rand() < .6 else [0., 0.]
            kw['reg_par'] = kw['reg_par'] if 'hybrid' in fn else kw['reg_par'][:1]
        if fn in ('grad', 'tikh'):
            kw['reg_par'] = [rng.choice([-1, .02]), .3]
        if fn == 'tikh':
            kw['reg_data'] = rng.rand(dy, gx, gy).astype(f32)
        out = tomopy.recon(data, theta, center=center, algorithm=fn, sinogram_order=True, num_gridx=gx, num_gridy=gy, ncore=a['ncore'], **kw)
        if fn == 'grad' or fn == 'tikh':
            return None      # the step length may be 0 / 0
        if 'hybrid' in fn and kw['reg_par'][-1] == 0:
            return None
        return _finite(fn, out) if out.shape == (dy, gx, gy) else '%s: shape %s' % (fn, out.shape)
    if fn.startswith('vector'):
        n = {'vector': 1, 'vector2': 2, 'vector3': 3}[fn]
        if n > 1:
            dy = dx           # the three fields share one cube
        data = [rng.rand(dt, dy, dx).astype(f32) for _ in range(n)]
        th = [theta] + [rng.uniform(0, np.pi, dt).astype(f32) for _ in range(n - 1)]
        f = getattr(tomopy, fn)
        if n == 1:
            out = f(data[0], theta, center=center, num_iter=a['it'])
        else:
            out = f(*data, *th, num_iter=a['it'])
        return _finite(fn, np.stack(out))
    if fn.startswith('project'):
        gx, gy = a['g']
        n = {'project': 1, 'project2': 2, 'project3': 3}[fn]
        if n == 3:
            gx = gy
            dy = gx
        objs = [rng.rand(dy, gx, gy).astype(f32) for _ in range(n)]
        kw = dict(pad=bool(a['level'] % 2), ncore=a['ncore'], center=None if a['off'] == 0 else gx / 2 + a['off'])
        if n == 3:
            kw['axis'] = a['axis']
        out = getattr(tomopy, fn)(*objs, theta, **kw)
        return _finite(fn, out)
    arr = (rng.rand(dt, dy, dx) + .1).astype(f32)
    if fn in ('median', 'outlier'):
        from tomopy.misc import corr
        if rng.rand() < .5:
            arr = (arr * 1000).astype(np.uint16)
        if fn == 'median':
            return _finite(fn, corr.median_filter3d(arr, size=a['size'], ncore=a['ncore']))
        return _finite(fn, corr.remove_outlier3d(arr, .2, size=a['size'], ncore=a['ncore']))
    if fn == 'inpaint':
        from tomopy.misc import corr
        mask = rng.rand(dt, dy, dx) < rng.choice([.1, .5, .9])
        mask.flat[rng.randint(mask.size)] = False
        if rng.rand() < .2:
            mask[...] = True
        if a['zeros']:
            arr[rng.rand(*arr.shape) < .8] = 0
        return _finite(fn, corr.inpainter_morph(arr, mask, size=a['size'], iterations=a['it'], inpainting_type=rng.choice(['mean', 'median', 'random']),
                                                axis=[None, 0, 1, 2][rng.randint(4)], ncore=a['ncore']))
    if fn == 'ring':
        from tomopy.misc import corr
        n = max(dy, dx)
        rec = (rng.rand(dt, n, n)).astype(f32)
        kw = dict(center_x=None if a['off'] == 0 else n / 2 + a['off'], thresh=.1, thresh_max=300., thresh_min=-100., theta_min=int(rng.choice([0, 10, 30, 90, 179])),
                  rwidth=int(rng.choice([0, 1, 3, 8, 30])), int_mode=['WRAP', 'REFLECT'][rng.randint(2)], ncore=a['ncore'])
        return _finite(fn, corr.remove_ring(rec, **kw))
    if fn == 'sample':
        from tomopy.misc import morph
        out = [_finite('upsample', morph.upsample(arr, level=a['level'], axis=a['axis']))]
        d = morph.downsample(arr, level=a['level'], axis=a['axis'])
        return out[0] or _finite('downsample', d)
    if fn == 'bg':
        from tomopy.prep import normalize
        return _finite(fn, normalize.normalize_bg(arr, air=max(a['air'], 1), ncore=a['ncore']))
    from tomopy.prep import stripe
    if fn == 'sf':
        return _finite(fn, stripe.remove_stripe_sf(arr, size=max(1, a['air']), ncore=a['ncore']))
    if fn == 'detect':
        return _finite(fn, stripe.stripes_detect3d(arr, size=a['air'] + 1 + 10 * (a['level'] // 2), radius=max(1, a['size'] // 2), ncore=a['ncore']))
    if fn == 'mask':
        w = rng.rand(dt, dy, dx).astype(f32)
        n = lambda: int(rng.choice([1, 2, 3, 5, 20, 60]))
        m = stripe.stripes_mask3d(w, threshold=float(rng.choice([.05, .5, .9])), min_stripe_length=n(), min_stripe_depth=n() * int(rng.choice([0, 1])),
                                  min_stripe_width=n(), sensitivity_perc=float(rng.choice([1, 30, 85, 100])), ncore=a['ncore'])
        v = m.view(np.uint8)
        return None if (v <= 1).all() else 'stripes_mask3d: element %s of the mask was never set' % [int(q) for q in np.argwhere(v > 1)[0]]
