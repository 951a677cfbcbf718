"""Arguments are checked, errors reported, and calls leave no trace."""
import os
import random
import warnings

import numpy as np

ALG = ['art', 'bart', 'sirt', 'mlem', 'osem', 'ospml_quad', 'ospml_hybrid', 'pml_quad', 'pml_hybrid', 'fbp', 'gridrec', 'grad', 'tikh', 'tv']
# the documented keywords of every method
ALLOWED = dict(art=['num_iter'], bart=['num_iter', 'num_block', 'ind_block'], fbp=['filter_name', 'filter_par'], gridrec=['filter_name', 'filter_par'], mlem=['num_iter'],
               osem=['num_iter', 'num_block', 'ind_block'], ospml_hybrid=['num_iter', 'reg_par', 'num_block', 'ind_block'], ospml_quad=['num_iter', 'reg_par', 'num_block', 'ind_block'],
               pml_hybrid=['num_iter', 'reg_par'], pml_quad=['num_iter', 'reg_par'], sirt=['num_iter'], tv=['num_iter', 'reg_par'], grad=['num_iter', 'reg_par'],
               tikh=['num_iter', 'reg_data', 'reg_par'])
VALUES = dict(num_iter=2, num_block=2, ind_block=None, reg_par=np.array([.5, .2], 'f'), filter_name='hann', filter_par=np.array([.5, 8.], 'f'), reg_data=None)
ACC = ['accelerated', 'pool_size', 'interpolation', 'device', 'grid_size', 'block_size']
FILTERS = ['median_filter', 'gaussian_filter', 'sobel_filter', 'remove_outlier', 'remove_outlier1d', 'remove_ring']


def cases(seed, tier):
    r = random.Random(seed)
    kinds = ['refuse', 'keyword', 'history', 'callable', 'callable', 'worker', 'default', 'env', 'history']
    for i in range(900 if tier == 'quick' else 8000):
        yield kinds[i % len(kinds)], dict(seed=r.randint(0, 10**6), alg=r.choice(ALG), dt=r.randint(1, 6), dy=r.randint(1, 7), dx=r.randint(3, 9), ncore=r.choice([None, 1, 2, 3, 8, 20]),
                                          nchunk=r.choice([None, None, 0, 1, 2, 5]), sino=r.random() < .5, grid=r.random() < .5, threads=r.choice([None, None, '1', '2', '9']))


def run_case(kind, a):
    keep = os.environ.get('TOMOPY_PYTHON_THREADS')
    if kind in ('callable', 'worker') and a['nchunk'] == 0:
        a = dict(a, nchunk=1)      # nchunk=0 gives the method single slices without the first axis
    if a['threads']:
        os.environ['TOMOPY_PYTHON_THREADS'] = a['threads']
    else:
        os.environ.pop('TOMOPY_PYTHON_THREADS', None)
    before = _tables()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            why = globals()['_' + kind](a, np.random.RandomState(a['seed']))
        after = _tables()
        if why is None:
            for k, v in before.items():
                if after.get(k) != v:
                    why = 'the table %s of the module is changed by the call: was %s' % (k, str(v)[:200])
        if why is None and os.environ.get('TOMOPY_PYTHON_THREADS') != a['threads']:
            why = 'TOMOPY_PYTHON_THREADS is %r after the call, was %r' % (os.environ.get('TOMOPY_PYTHON_THREADS'), a['threads'])
        return why
    finally:
        if keep is None:
            os.environ.pop('TOMOPY_PYTHON_THREADS', None)
        else:
            os.environ['TOMOPY_PYTHON_THREADS'] = keep


def _tables():
    """The tables of keywords and defaults of the module (what is empty at first may be a cache)."""
    import copy
    import importlib
    m = importlib.import_module('tomopy.recon.algorithm')
    return {k: copy.deepcopy(v) for k, v in vars(m).items() if isinstance(v, (dict, list, set)) and v and not k.startswith('__')}


def _data(a, rng):
    x = (rng.rand(a['dt'], a['dy'], a['dx']) + .1).astype('f')
    if a['sino']:
        x = x.swapaxes(0, 1).copy()
    return x, np.sort(rng.uniform(.1, 3., a['dt']))


def _kw(a, **k):
    kw = dict(sinogram_order=a['sino'], ncore=a['ncore'], nchunk=a['nchunk'])
    if a['grid']:
        kw.update(num_gridx=4, num_gridy=5)
    kw.update(k)
    return kw


def _raises(what, f, *exc):
    try:
        r = f()
    except exc or (ValueError,):
        return None
    except Exception as e:
        return '%s raises %s: %s' % (what, type(e).__name__, str(e)[:100])
    return '%s is accepted (result %s)' % (what, getattr(r, 'shape', r))


def _refuse(a, rng):
    import tomopy
    x, th = _data(a, rng)
    alg, dt, dy, dx = a['alg'], a['dt'], a['dy'], a['dx']
    g = (4, 5) if a['grid'] else (dx, dx)
    b = []
    b.append(('one angle too many', lambda: tomopy.recon(x, np.append(th, 1.), algorithm=alg, **_kw(a))))
    b.append(('one angle too few', lambda: tomopy.recon(x, th[:-1], algorithm=alg, **_kw(a))))
    b.append(('an unknown method', lambda: tomopy.recon(x, th, algorithm=alg + '_', **_kw(a))))
    b.append(('no method', lambda: tomopy.recon(x, th, **_kw(a))))
    b.append(('a method that is a number', lambda: tomopy.recon(x, th, algorithm=7, **_kw(a))))
    b.append(('an unknown keyword', lambda: tomopy.recon(x, th, algorithm=alg, **_kw(a, numiter=1))))
    if dy > 1:
        b.append(('one center too many', lambda: tomopy.recon(x, th, center=np.full(dy + 1, dx / 2.), algorithm=alg, **_kw(a))))
        if dy > 2:
            b.append(('one center too few', lambda: tomopy.recon(x, th, center=np.full(dy - 1, dx / 2.), algorithm=alg, **_kw(a))))
    for s in ((dy + 1,) + g, (dy, g[0] + 1, g[1]), (dy, g[0], g[1] + 1), g):
        b.append(('init_recon of shape %s for %s' % (s, (dy,) + g), lambda s=s: tomopy.recon(x, th, algorithm=alg, init_recon=np.ones(s, 'f'), **_kw(a))))
    if dy > 1:
        b.append(('init_recon with fewer slices', lambda: tomopy.recon(x, th, algorithm=alg, init_recon=np.ones((dy - 1,) + g, 'f'), **_kw(a))))
    if 'num_block' in ALLOWED[alg]:
        b.append(('num_block=0', lambda: tomopy.recon(x, th, algorithm=alg, **_kw(a, num_block=0))))
        for what, ib in (('short', np.arange(dt - 1)), ('long', np.arange(dt + 1)), ('negative', np.arange(dt) - 1), ('too large', np.arange(dt) + 1)):
            b.append(('%s ind_block' % what, lambda ib=ib: tomopy.recon(x, th, algorithm=alg, **_kw(a, num_block=1, ind_block=ib))))
    if alg in ('ospml_hybrid', 'pml_hybrid', 'tikh'):
        b.append(('a single reg_par', lambda: tomopy.recon(x, th, algorithm=alg, **_kw(a, reg_par=np.ones(1, 'f')))))
    if alg == 'tikh':
        for s in ((dy + 1,) + g, (dy, g[0], g[1] + 1), g):
            b.append(('reg_data of shape %s for %s' % (s, (dy,) + g), lambda s=s: tomopy.recon(x, th, algorithm=alg, **_kw(a, reg_data=np.ones(s, 'f')))))
    if alg == 'gridrec':
        b.append(('a grid wider than the Fourier grid', lambda: tomopy.recon(x, th, algorithm=alg, **_kw(a, num_gridx=17, num_gridy=4))))
        b.append(('a grid higher than the Fourier grid', lambda: tomopy.recon(x, th, algorithm=alg, **_kw(a, num_gridx=4, num_gridy=17))))
        for fn, n in (('custom', 7), ('custom2d', 8 * dt - 1), ('butterworth', 1)):
            b.append(('%d parameters for the filter %s' % (n, fn), lambda fn=fn, n=n: tomopy.recon(x, th, algorithm=alg, **_kw(a, filter_name=fn, filter_par=np.ones(n, 'f')))))
    what, f = b[rng.randint(len(b))]
    return _raises('%s: %s' % (alg, what), f)


def _keyword(a, rng):
    import tomopy
    x, th = _data(a, rng)
    alg = a['alg']
    for k in sorted(VALUES):
        v = VALUES[k]
        if k == 'ind_block':
            v = rng.permutation(a['dt'])
        if k == 'reg_data':
            v = np.zeros((a['dy'],) + ((4, 5) if a['grid'] else (a['dx'],) * 2), 'f')
        if k == 'num_block':
            v = 1
        f = lambda: tomopy.recon(x, th, algorithm=alg, **_kw(a, **{k: v}))
        if k in ALLOWED[alg]:
            r = f()
            if r.dtype != np.float32 or r.shape != ((a['dy'], 4, 5) if a['grid'] else (a['dy'], a['dx'], a['dx'])):
                return '%s with %s: %s %s' % (alg, k, r.dtype, r.shape)
        else:
            why = _raises('%s: keyword %s' % (alg, k), f)
            if why:
                return why
    if alg not in ('mlem', 'sirt'):
        for k in ACC:
            why = _raises('%s: keyword %s' % (alg, k), lambda: tomopy.recon(x, th, algorithm=alg, **_kw(a, **{k: 0})))
            if why:
                return why
    return None


def _some_call(tomopy, a, rng, alg):
    x, th = _data(a, rng)
    kw = _kw(a)
    for k in ALLOWED[alg]:
        if rng.rand() < .6 and VALUES[k] is not None and k != 'num_block':
            kw[k] = VALUES[k]
    if 'num_block' in ALLOWED[alg] and rng.rand() < .5:
        kw['num_block'] = int(rng.randint(1, a['dt'] + 1))
    c = None if rng.rand() < .5 else a['dx'] / 2 + rng.uniform(-1, 1, a['dy'])
    return lambda: tomopy.recon(x.copy(), th.copy(), center=None if c is None else c.copy(), algorithm=alg, **kw)


def _history(a, rng):
    """the same call before and after other calls, good and bad"""
    import tomopy
    f = _some_call(tomopy, a, rng, a['alg'])
    r1 = f()
    k1 = r1.copy()
    for j in range(3):
        b = dict(a, alg=ALG[rng.randint(len(ALG))], dt=int(rng.randint(1, 6)), dy=int(rng.randint(1, 5)), dx=int(rng.randint(3, 9)))
        if rng.rand() < .3:
            try:
                tomopy.recon(np.ones((2, 2, 5), 'f'), np.zeros(2), algorithm=b['alg'], **_kw(b, nonsense=1))
            except ValueError:
                pass
            try:
                tomopy.recon(np.ones((2, 2, 5), 'f'), np.zeros(2), algorithm=_bad, ncore=a['ncore'], nchunk=a['nchunk'])
            except ZeroDivisionError:
                pass
        _some_call(tomopy, b, rng, b['alg'])()
    r2 = f()
    if not np.array_equal(r1, k1, equal_nan=True):
        return '%s: the result of a call changed during later calls' % a['alg']
    if np.shares_memory(r1, r2):
        return '%s: two calls return the same memory' % a['alg']
    ok = (r1 == r2) | (np.isnan(r1) & np.isnan(r2)) | (np.abs(r1 - r2) <= 1e-5 * (1 + np.abs(r1)))
    if not ok.all():
        return '%s: the same call gives another result after other calls: %s' % (a['alg'], np.abs(r1 - r2).max())
    return None


def _bad(*a, **k):
    return 1 // 0


def _callable(a, rng):
    """a Python method gets each slice exactly once, with its own data, center and image"""
    import tomopy
    x, th = _data(a, rng)
    dy = a['dy']
    sino = x if a['sino'] else x.swapaxes(0, 1)
    c = a['dx'] / 2 + rng.uniform(-1, 1, dy).astype('f') if rng.rand() < .7 else None
    seen = []
    opt = dict(proj_type='x', n=int(rng.randint(9)))
    init = None
    if rng.rand() < .4:
        init = rng.rand(dy, *((4, 5) if a['grid'] else (a['dx'],) * 2)).astype('f')
        init0 = init.copy()

    def method(tomo, center, rec, theta, **kw):
        seen.append((tomo.copy(), np.array(center), rec.copy(), theta.copy(), dict(kw)))
        rec[:] = tomo.sum((1, 2))[:, None, None] + center[:, None, None]
    r = tomopy.recon(x, th, center=c, algorithm=method, options=opt, **_kw(a, **({} if init is None else dict(init_recon=init))))
    c32 = np.full(dy, a['dx'] / 2., 'f') if c is None else c
    g = (4, 5) if a['grid'] else (a['dx'],) * 2
    want = np.broadcast_to((sino.astype('d').sum((1, 2)) + c32)[:, None, None], (dy,) + g)
    if r.shape != (dy,) + g or not np.allclose(r, want, rtol=1e-4):
        return 'a Python method: wrong slices in the result'
    n = sum(s[0].shape[0] for s in seen)
    if n != dy:
        return 'a Python method was given %d slices instead of %d' % (n, dy)
    for t, ce, re, tt, kw in seen:
        if t.shape[1:] != sino.shape[1:] or ce.shape != (t.shape[0],) or re.shape != (t.shape[0],) + g:
            return 'a Python method was given shapes %s %s %s' % (t.shape, ce.shape, re.shape)
        if not np.allclose(tt, th, atol=1e-6) or tt.dtype != np.float32:
            return 'a Python method was given other angles'
        if kw.get('options') != opt:
            return 'a Python method was given options %r' % (kw.get('options'),)
        if (kw['num_gridx'], kw['num_gridy']) != g:
            return 'a Python method was given the grid %s' % ((kw['num_gridx'], kw['num_gridy']),)
        k = [m for m in range(dy) if np.array_equal(sino[m], t[0])]
        if not k:
            return 'a Python method was given other data'
        if init is not None and not np.array_equal(re, init0[k[0]:k[0] + t.shape[0]]):
            return 'a Python method was given another initial image'
        if init is None and not (re == np.float32(1e-6)).all():
            return 'a Python method was given an initial image of %r' % re.flat[0]
        if not np.array_equal(ce, c32[k[0]:k[0] + t.shape[0]].astype('f')):
            return 'a Python method was given another center'
    return None


class Boom(Exception):
    pass


def _worker(a, rng):
    """an error in one of the workers reaches the caller"""
    import tomopy
    x, th = _data(a, rng)
    sino = x if a['sino'] else x.swapaxes(0, 1)
    bad = int(rng.randint(a['dy']))

    def method(tomo, center, rec, theta, **kw):
        for m in range(tomo.shape[0]):
            if np.array_equal(tomo[m], sino[bad]):
                raise Boom()
    why = _raises('recon: an error in slice %d of %d' % (bad, a['dy']), lambda: tomopy.recon(x, th, algorithm=method, **_kw(a)), Boom)
    if why:
        return why
    nm = FILTERS[rng.randint(len(FILTERS))]
    s = [a['dy'], a['dt'] + 1, a['dx']]
    y = rng.rand(*s).astype('f')
    f = getattr(tomopy, nm)
    nc = a['ncore']
    if nm in ('median_filter',):
        g = lambda: f(y, size=0, ncore=nc)
    elif nm == 'gaussian_filter':
        g = lambda: f(y, sigma=[1, 2, 3], ncore=nc)
    elif nm in ('remove_outlier', 'remove_outlier1d'):
        g = lambda: f(y, 1., size=0, ncore=nc)
    elif nm == 'remove_ring':
        g = lambda: f(y, center_x='a', ncore=nc)
    else:
        g = None
    if g is not None:
        why = _raises('%s: an error in a worker' % nm, g, Exception)
        if why:
            return why
    return None


def _env(a, rng):
    import tomopy
    x, th = _data(a, rng)
    n0 = os.environ.get('TOMOPY_PYTHON_THREADS')
    lim = []

    def method(tomo, center, rec, theta, **kw):
        lim.append(os.environ.get('TOMOPY_PYTHON_THREADS'))
        rec[:] = 1
    tomopy.recon(x, th, algorithm=method, **_kw(a))
    if n0 is not None:
        for v in lim:
            if v is None or int(v) > int(n0):
                return 'TOMOPY_PYTHON_THREADS=%s, but %s threads are used' % (n0, v)
    return None


def _default(a, rng):
    """explicit defaults change nothing"""
    import tomopy
    x, th = _data(a, rng)
    alg, dx = a['alg'], a['dx']
    base = tomopy.recon(x, th, algorithm=alg, sinogram_order=a['sino'])
    kw = dict(num_gridx=dx, num_gridy=dx, center=dx / 2.)
    if rng.rand() < .5:
        kw['center'] = np.full(a['dy'], dx / 2.)
    for k in ALLOWED[alg]:
        kw[k] = dict(num_iter=1, num_block=1, ind_block=np.arange(a['dt']), reg_par=np.ones(10), filter_name='shepp', filter_par=np.array([.5, 8]), reg_data=np.zeros((a['dy'], dx, dx)))[k]
    if alg not in ('gridrec',):
        kw['init_recon'] = np.full((a['dy'], dx, dx), 1e-6)
    got = tomopy.recon(x, th, algorithm=alg, sinogram_order=a['sino'], ncore=a['ncore'], nchunk=a['nchunk'], **kw)
    if got.shape != base.shape:
        return '%s: shape %s with the defaults given explicitly, %s without' % (alg, got.shape, base.shape)
    ok = (got == base) | (np.isnan(got) & np.isnan(base)) | (np.abs(got - base) <= 1e-4 * (1e-3 + np.abs(base)))
    if not ok.all():
        return '%s: the defaults given explicitly change the result by up to %s' % (alg, np.nanmax(np.abs(got - base)))
    return None
