"""A table of calls of the public functions, shared by the oracles of C13 and C14.

Each entry:  name -> function(rng, shape) -> Call.  `arrays` are the array arguments (positional order),
`hold` those whose values must not change, `out` tells how out= works, `kinds` the dtypes for which the
values of the result must be those of the float32 call.
"""
import numpy as np

F = ['float64', 'float32']
ANY = ['float64', 'int16', 'uint8', 'uint16', 'int32', 'int64', 'float32']


class Call:
    def __init__(self, fn, arrays, kw=None, out=None, kinds=ANY, rtol=1e-5, atol=1e-5, exact_int=True, tuple_=False, mutates=()):
        self.fn, self.arrays, self.kw = fn, arrays, kw or {}
        self.out, self.kinds, self.rtol, self.atol = out, kinds, rtol, atol
        self.mutates = mutates

    def __call__(self, arrays=None, **kw):
        a = dict(self.arrays if arrays is None else arrays)
        return self.fn(**a, **dict(self.kw, **kw))


def ints(rng, *shape, lo=1, hi=60):
    """values that every integer type holds exactly"""
    return rng.randint(lo, hi, shape).astype(np.float32)


def table():
    import tomopy as t
    T = {}

    def entry(f):
        T[f.__name__.lstrip('_')] = f
        return f

    for nm in ('remove_outlier', 'remove_outlier1d'):
        def f(rng, s, fn=getattr(t, nm)):
            return Call(lambda arr, **k: fn(arr, **k), dict(arr=ints(rng, *s)), dict(dif=float(rng.choice([0, 3, 10])), size=int(rng.randint(1, 6)), axis=int(rng.randint(3))), out='arr')
        T[nm] = f
    for nm in ('median_filter', 'sobel_filter', 'gaussian_filter'):
        def f(rng, s, fn=getattr(t, nm), nm=nm):
            kw = dict(axis=int(rng.randint(3)))
            if nm == 'median_filter':
                kw['size'] = int(rng.randint(1, 6))
            if nm == 'gaussian_filter':
                kw.update(sigma=float(rng.choice([.5, 1, 3])), order=int(rng.choice([0, 0, 1])))
            return Call(fn, dict(arr=ints(rng, *s)), kw, atol=1e-4)
        T[nm] = f

    @entry
    def _median_filter3d(rng, s):
        return Call(t.median_filter3d, dict(arr=ints(rng, *s)), dict(size=int(rng.choice([3, 5]))), kinds=['float64', 'float32', 'uint16'])

    @entry
    def _remove_outlier3d(rng, s):
        return Call(t.remove_outlier3d, dict(arr=ints(rng, *s)), dict(dif=float(rng.choice([1, 5])), size=3), kinds=['float32', 'uint16', 'float64'])

    @entry
    def _median_filter_cuda(rng, s):
        return Call(t.median_filter_cuda, dict(arr=ints(rng, *s)), dict(size=3, axis=int(rng.randint(3))))

    @entry
    def _remove_outlier_cuda(rng, s):
        return Call(t.remove_outlier_cuda, dict(arr=ints(rng, *s)), dict(dif=4., size=3, axis=int(rng.randint(3))))

    @entry
    def _remove_ring(rng, s):
        n = max(4, s[1])
        return Call(t.remove_ring, dict(rec=ints(rng, s[0], n, n)), dict(rwidth=int(rng.randint(1, 5)), int_mode=['WRAP', 'REFLECT'][rng.randint(2)]), out='rec', atol=1e-3, rtol=1e-4)

    @entry
    def _inpainter_morph(rng, s):
        # an even window and 'median': sorting ties apart, the same values give the same result
        m = rng.rand(*s) < .3
        m.flat[0] = False
        return Call(t.inpainter_morph, dict(arr=ints(rng, *s), mask=m), dict(size=int(rng.choice([3, 5])), iterations=1, inpainting_type=['mean', 'median'][rng.randint(2)], axis=[None, 0, 1, 2][rng.randint(4)]), atol=1e-4)

    @entry
    def _minus_log(rng, s):
        return Call(t.minus_log, dict(arr=ints(rng, *s)), out='arr')

    @entry
    def _normalize(rng, s):
        kw = dict(averaging=['mean', 'median'][rng.randint(2)])
        if rng.rand() < .5:
            kw['cutoff'] = 1.2
        fl, dk = ints(rng, rng.randint(1, 4), *s[1:], lo=60, hi=100), ints(rng, rng.randint(1, 4), *s[1:], lo=0, hi=20)
        if rng.rand() < .3:
            fl, dk = fl[0], dk[0]
        return Call(t.normalize, dict(arr=ints(rng, *s), flat=fl, dark=dk), kw, out='arr')

    @entry
    def _normalize_nf(rng, s):
        k, per = rng.randint(1, 4), rng.randint(1, 3)
        loc = sorted(rng.randint(0, s[0] + 1, k).tolist())
        kw = dict(flat_loc=loc)
        if rng.rand() < .5:
            kw['cutoff'] = 1.2
        dk = ints(rng, rng.randint(1, 3), *s[1:], lo=0, hi=20)
        return Call(t.normalize_nf, dict(tomo=ints(rng, *s), flats=ints(rng, k * per, *s[1:], lo=60, hi=100), dark=dk), kw, out='tomo')

    @entry
    def _normalize_bg(rng, s):
        return Call(t.normalize_bg, dict(tomo=ints(rng, *s)), dict(air=int(rng.randint(1, s[2] + 1))))

    @entry
    def _normalize_roi(rng, s):
        return Call(t.normalize_roi, dict(arr=ints(rng, *s)), dict(roi=[0, 0, s[1], s[2]]))

    @entry
    def _retrieve_phase(rng, s):
        return Call(t.retrieve_phase, dict(tomo=ints(rng, s[0], max(2, s[1]), max(2, s[2]))), dict(pad=bool(rng.rand() < .5), pixel_size=5e-4, dist=10.), kinds=F, rtol=1e-3, atol=1e-2)

    def stripe(nm, kw, kinds=F, tol=1e-3, wide=False):
        def f(rng, s, fn=getattr(t, nm)):
            s = (max(6, s[0]), s[1], max(8, s[2]))
            return Call(fn, dict(tomo=ints(rng, *s)), kw(rng), kinds=kinds, rtol=tol, atol=1e-2)
        T[nm] = f
    stripe('remove_stripe_fw', lambda r: dict(level=int(r.choice([1, 2])), pad=bool(r.rand() < .5)))
    stripe('remove_stripe_ti', lambda r: dict(nblock=int(r.choice([0, 2])), alpha=1.5), tol=5e-3)
    stripe('remove_stripe_sf', lambda r: dict(size=int(r.choice([1, 3, 5]))), ANY)
    stripe('remove_stripe_based_filtering', lambda r: dict(sigma=2, size=3))
    stripe('remove_stripe_based_fitting', lambda r: dict(order=2, sigma=(2, 4)))
    stripe('remove_large_stripe', lambda r: dict(snr=3, size=5))
    stripe('remove_dead_stripe', lambda r: dict(snr=3, size=5))
    stripe('remove_stripe_based_interpolation', lambda r: dict(snr=3, size=5))

    @entry
    def _stripes_detect3d(rng, s):
        return Call(t.stripes_detect3d, dict(tomo=ints(rng, *[max(4, q) for q in s])), dict(size=int(rng.randint(1, 2)), radius=int(rng.randint(1, 3))), kinds=['float32'])

    @entry
    def _stripes_mask3d(rng, s):
        s = [max(6, q) for q in s]
        return Call(t.stripes_mask3d, dict(weights=rng.rand(*s).astype('f')), dict(threshold=.6, min_stripe_length=3, min_stripe_depth=2, min_stripe_width=2, sensitivity_perc=80.), kinds=['float32'])

    for nm in ('downsample', 'upsample'):
        def f(rng, s, fn=getattr(t, nm)):
            ax = int(rng.randint(3))
            s = list(s)
            s[ax] = max(s[ax], 4)
            return Call(fn, dict(arr=ints(rng, *s)), dict(level=int(rng.randint(0, 3)), axis=ax))
        T[nm] = f

    @entry
    def _pad(rng, s):
        kw = dict(axis=int(rng.randint(3)), npad=int(rng.randint(0, 4)), mode=['constant', 'edge'][rng.randint(2)])
        return Call(t.pad, dict(arr=ints(rng, *s)), kw, kinds=ANY)

    @entry
    def _sino_360_to_180(rng, s):
        s = (max(2, s[0]),) + tuple(s[1:])
        return Call(t.sino_360_to_180, dict(data=ints(rng, *s)), dict(overlap=int(rng.randint(0, s[2] + 1)), rotation=['left', 'right'][rng.randint(2)]), kinds=F)

    @entry
    def _trim_sinogram(rng, s):
        return Call(t.trim_sinogram, dict(data=ints(rng, *s)), dict(center=s[2] / 2., x=int(rng.randint(-2, 3)), y=int(rng.randint(-2, 3)), diameter=float(rng.randint(1, s[2] + 1))))

    @entry
    def _blur_edges(rng, s):
        return Call(t.blur_edges, dict(prj=ints(rng, s[0], max(2, s[1]), max(2, s[2]))), dict(low=.2, high=.8), kinds=F)

    @entry
    def _distortion_correction_proj(rng, s):
        return Call(t.distortion_correction_proj, dict(tomo=ints(rng, *s)), dict(xcenter=s[2] / 2., ycenter=s[1] / 2., list_fact=[1., 1e-2, -1e-3]), kinds=F, atol=1e-3)

    @entry
    def _distortion_correction_sino(rng, s):
        return Call(t.distortion_correction_sino, dict(tomo=ints(rng, *s)), dict(ind=int(rng.randint(s[1])), xcenter=s[2] / 2., ycenter=s[1] / 2., list_fact=[1., 1e-2, -1e-3]), kinds=F, atol=1e-3)

    @entry
    def _mask_empty_slice(rng, s):
        return Call(t.recon.rotation.mask_empty_slice, dict(tomo=ints(rng, *s)), kinds=F) if hasattr(t.recon, 'rotation') else None

    @entry
    def _find_center_pc(rng, s):
        a = ints(rng, 12, 16)
        return Call(t.find_center_pc, dict(proj1=a, proj2=np.roll(a[:, ::-1], 2, 1)), dict(tol=.5), kinds=F, atol=1e-3)

    @entry
    def _find_center_vo(rng, s):
        return Call(t.find_center_vo, dict(tomo=ints(rng, 20, 3, 24)), dict(ind=1, smin=-4, smax=4, srad=2, drop=2, ncore=1), kinds=F, atol=1e-3)

    @entry
    def _propagate_tie(rng, s):
        s = [max(2, q) for q in s]
        return Call(t.propagate_tie, dict(mu=rng.rand(*s).astype('f'), delta=rng.rand(*s).astype('f')), dict(pixel_size=1., dist=.1), kinds=F, atol=1e-3)

    @entry
    def _calc_intensity(rng, s):
        return Call(t.calc_intensity, dict(probe=rng.rand(4, 4).astype('f'), proj=rng.rand(9, 11).astype('f')), dict(mode=['near', 'far'][rng.randint(2)]), kinds=F, rtol=1e-3, atol=1e-3)

    for nm in ('add_drift', 'add_rings', 'add_zingers', 'add_noise', 'add_poisson'):
        def f(rng, s, fn=getattr(t, nm), nm=nm):
            seed = int(rng.randint(10**6))

            def g(tomo):
                np.random.seed(seed)
                return fn(tomo)
            return Call(g, dict(tomo=ints(rng, *s)), kinds=F, rtol=1e-4, atol=1e-3)
        T[nm] = f

    algs = ['art', 'bart', 'sirt', 'mlem', 'osem', 'ospml_quad', 'ospml_hybrid', 'pml_quad', 'pml_hybrid', 'fbp', 'gridrec', 'grad', 'tikh', 'tv']
    for nm in algs:
        def f(rng, s, nm=nm):
            dt, dy, dx = rng.randint(1, 7), s[1], max(4, s[2])
            kw = dict(algorithm=nm, sinogram_order=bool(rng.rand() < .5))
            ar = dict(tomo=ints(rng, *([dy, dt, dx] if kw['sinogram_order'] else [dt, dy, dx])), theta=np.sort(rng.uniform(.1, 3., dt)).astype('f'))
            if nm not in ('fbp', 'gridrec'):
                kw['num_iter'] = int(rng.randint(1, 3))
            g = None
            if nm != 'gridrec' and rng.rand() < .5:
                g = (int(rng.randint(2, 7)), int(rng.randint(2, 7)))
                kw.update(num_gridx=g[0], num_gridy=g[1])
            if rng.rand() < .6:
                ar['center'] = (dx / 2 + rng.uniform(-1, 1, dy if rng.rand() < .5 else 1)).astype('f')
            if nm in ('osem', 'ospml_quad', 'ospml_hybrid', 'bart') and dt > 1:
                kw['num_block'] = int(rng.randint(1, dt + 1))
                ar['ind_block'] = rng.permutation(dt).astype('f')
            if nm in ('ospml_quad', 'ospml_hybrid', 'pml_quad', 'pml_hybrid', 'grad', 'tikh', 'tv'):
                ar['reg_par'] = rng.uniform(.1, 1., 1 if nm in ('ospml_quad', 'pml_quad') else 2).astype('f')
            if nm == 'tikh':
                ny, nx = (g[1], g[0]) if g else (dx, dx)
                ar['reg_data'] = ints(rng, dy, nx, ny) if nx == ny else ints(rng, dy, g[0], g[1])
            if nm == 'gridrec':
                kw['filter_name'] = ['none', 'shepp', 'hann', 'butterworth'][rng.randint(4)]
                if kw['filter_name'] == 'butterworth':
                    ar['filter_par'] = np.array([.4, 4], 'f')
            import tomopy

            def run(tomo, theta, **k):
                return tomopy.recon(tomo, theta, **k)
            c = Call(run, ar, kw, rtol=1e-3, atol=1e-3)
            c.kinds = ANY
            c.fixed = {'theta': F, 'center': F, 'reg_par': F, 'filter_par': F, 'ind_block': ['float32', 'int16', 'int32', 'int64', 'float64']}
            return c
        T['recon_' + nm] = f

    def vec(rng, s, k):
        dt, dy, dx = rng.randint(1, 5), s[1], max(3, s[2])
        if k > 1:
            dy = dx
        return dt, dy, dx

    @entry
    def _vector(rng, s):
        dt, dy, dx = vec(rng, s, 1)
        return _fixed(Call(t.vector, dict(tomo=ints(rng, dt, dy, dx), theta=rng.uniform(.1, 3, dt).astype('f')), dict(num_iter=1), rtol=1e-3, atol=1e-3))

    @entry
    def _vector2(rng, s):
        dt, dy, dx = vec(rng, s, 2)
        d2 = dt
        return _fixed(Call(t.vector2, dict(tomo1=ints(rng, dt, dy, dx), tomo2=ints(rng, d2, dy, dx), theta1=rng.uniform(.1, 3, dt).astype('f'), theta2=rng.uniform(.1, 3, d2).astype('f')), dict(num_iter=1), rtol=1e-3, atol=1e-3))

    @entry
    def _vector3(rng, s):
        dt, dy, dx = vec(rng, s, 3)
        return _fixed(Call(t.vector3, dict([('tomo%d' % i, ints(rng, dt, dy, dx)) for i in (1, 2, 3)] + [('theta%d' % i, rng.uniform(.1, 3, dt).astype('f')) for i in (1, 2, 3)]), dict(num_iter=1), rtol=1e-3, atol=1e-3))

    for nm, k in (('project', 1), ('project2', 2), ('project3', 3)):
        def f(rng, s, fn=getattr(t, nm), k=k):
            s = (s[0], max(2, s[1]), max(2, s[2]))
            if k == 3:
                s = (s[1], s[1], s[1])
            names = ['obj'] if k == 1 else ['objx', 'objy', 'objz'][:k]
            ar = {n: ints(rng, *s) for n in names}
            dt = rng.randint(1, 5)
            ar['theta'] = rng.uniform(.1, 3, dt).astype('f')
            kw = dict(emission=bool(rng.rand() < .7), pad=bool(rng.rand() < .5), sinogram_order=bool(rng.rand() < .5))
            if rng.rand() < .5:
                ar['center'] = (s[2] / 2 + rng.uniform(-.5, .5, s[0])).astype('f')
            if not kw['emission']:
                for n in names:
                    ar[n] /= 64
            c = Call(fn, ar, kw, rtol=1e-3, atol=1e-3)
            if not kw['emission']:
                c.kinds = F
            return _fixed(c)
        T[nm] = f
    return T


def _fixed(c):
    c.fixed = {k: F for k in c.arrays if k.startswith('theta') or k == 'center'}
    return c
