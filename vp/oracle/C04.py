import random

import numpy as np

from . import ref


def cases(seed, tier):
    r = random.Random(seed)
    for i in range(2600 if tier == 'quick' else 15000):
        k = ['project', 'project', 'project', 'project2', 'project3', 'dense'][i % 6]
        yield k, dict(seed=r.randint(0, 10**6), ox=r.randint(1, 8), oz=r.randint(1, 8), oy=r.choice([1, 1, 2, 3, 5]), dt=r.randint(1, 6),
                      pad=r.random() < .5, emission=r.random() < .7, order=r.random() < .5, generic=r.random() < .6, percenter=r.random() < .5,
                      ncore=r.choice([1, 2, 3]), nchunk=r.choice([None, 1, 2, 3]), axis=r.choice([0, 1, 2]), scalar=r.random() < .5)


def _geom(a, rng, ox, oz, dx, oy):
    for _ in range(60):
        if a['generic']:
            theta = rng.uniform(-6.2, 6.2, a['dt'])
            c0 = dx / 2 + rng.uniform(-1.5, 1.5)
        else:
            theta = np.linspace(0, np.pi, a['dt'], endpoint=bool(rng.rand() < .5))
            c0 = dx / 2 + rng.choice([0, 0, .5, .25, -1])
        theta = theta.astype(np.float32)
        cs = [float(np.float32(c0))] * oy
        if a['percenter'] and oy > 1:
            alt = float(np.float32(c0 + rng.uniform(-1, 1)))
            cs = [c0 if rng.rand() < .5 else alt for _ in range(oy)]
            cs = [float(np.float32(c)) for c in cs]
        rays = {c: ref.Rays(ox, oz, dx, c, theta) for c in set(cs)}
        if not any(q.ambiguous.any() for q in rays.values()):
            return theta, cs, rays
    return None


def run_case(kind, a):
    import tomopy
    rng = np.random.RandomState(a['seed'])
    ox, oz, oy = a['ox'], a['oz'], a['oy']
    if kind == 'dense':
        # a standard acquisition: many equally spaced angles, default center
        return _dense(a, rng)
    if kind == 'project3' and a['axis']:
        ox = oz = oy = max(2, min(ox, 5))
    dx = int(np.ceil((np.sqrt(ox * ox + oz * oz) + 2) / 2) * 2) if a['pad'] else ox
    g = _geom(a, rng, ox, oz, dx, oy)
    if g is None:
        return None
    theta, cs, rays = g
    objs = [rng.uniform(-1, 2, (oy, ox, oz)).astype(np.float32) for _ in range(3)]
    center = cs[0] if a['scalar'] and len(set(cs)) == 1 else np.array(cs)
    kw = dict(center=center, emission=a['emission'], pad=a['pad'], sinogram_order=a['order'])
    keep = [o.copy() for o in objs]
    if kind == 'project':
        got = tomopy.project(objs[0], theta, ncore=a['ncore'], nchunk=a['nchunk'], **kw)
    elif kind == 'project2':
        got = tomopy.project2(objs[0], objs[1], theta, **kw)
    else:
        got = tomopy.project3(objs[0], objs[1], objs[2], theta, axis=a['axis'], **kw)
    if any(not np.array_equal(o, k) for o, k in zip(objs, keep)):
        return 'the object was modified'
    if not a['order']:
        if got.shape != (len(theta), oy, dx):
            return 'shape %s, expected %s' % (got.shape, (len(theta), oy, dx))
        got = np.swapaxes(got, 0, 1)
    if got.shape != (oy, len(theta), dx):
        return 'shape %s, expected %s' % (got.shape, (oy, len(theta), dx))
    th = np.asarray(theta, float)
    for s in range(oy):
        r = rays[cs[s]]
        if kind == 'project':
            want = r.forward(objs[0][s])
        else:
            if kind == 'project2' or a['axis'] == 0:
                u, v = objs[0][s], objs[1][s]
            elif a['axis'] == 1:
                # rotation about the last axis: the slice holds (y, z) of row x, column y
                u, v = objs[1][:, :, s].T, objs[2][:, :, s].T
            else:
                u, v = objs[0][:, s, :].T, objs[2][:, s, :].T
            want = -(np.cos(th)[:, None] * r.forward(u) + np.sin(th)[:, None] * r.forward(v))
        if not a['emission']:
            want = np.exp(-want)
        tol = 2e-3 * max(1, np.abs(want).max())
        err = np.abs(got[s] - want)
        if not (err <= tol).all():
            p, d = np.unravel_index(np.argmax(np.where(np.isfinite(err), err, np.inf)), err.shape)
            return '%s: slice %d angle %g bin %d is %g, the line integral is %g' % (kind, s, th[p], d, got[s, p, d], want[p, d])
    return None


def _dense(a, rng):
    import tomopy
    n = a['ox'] + 2
    m = a['oz'] + 2
    theta = tomopy.angles(8 + a['dt'])
    if theta.shape != (8 + a['dt'],) or abs(theta[0]) > 1e-12 or abs(theta[-1] - np.pi) > 1e-9 or np.ptp(np.diff(theta)) > 1e-9:
        return 'angles(n) is not n equally spaced angles from 0 to 180 degrees'
    obj = rng.uniform(0, 1, (2, n, m)).astype(np.float32)
    got = tomopy.project(obj, theta, sinogram_order=True)
    r = ref.Rays(n, m, got.shape[2], got.shape[2] / 2.0, theta)
    for s in range(2):
        want = r.forward(obj[s])
        ok = ~r.ambiguous
        err = np.abs(got[s] - want)
        err[~ok] = 0
        if not (err < 3e-3 * max(1, want.max())).all():
            p, d = np.unravel_index(np.argmax(err), err.shape)
            return 'default geometry: angle %g bin %d is %g, the line integral is %g' % (theta[p], d, got[s, p, d], want[p, d])
        # the beam covers the object: every projection carries its mass (less where rays run along the border lines)
        mass = got[s].sum(-1) / obj[s].sum()
        if min(n, m) >= 6 and (mass.max() > 1.35 or (mass[ok.all(1)] < 0.65).any()):
            mass = got[s].sum(-1)
            return 'the mass of the projections is %s, of the object %g' % (mass, obj[s].sum())
    return None
