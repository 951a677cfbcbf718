"""Independent double precision reference of the parallel beam geometry and of the iterative updates.

The model is the documented one: the object grid is centred on the rotation axis, detector bin d of
projection theta looks along a straight line, the value of a bin is the sum over the pixels of the length
of the line in the pixel times the pixel.  Lines are clipped as the library does it (crossings closer
than 0.01 to the far border are dropped), so rays near such a border are flagged ambiguous.
"""
import numpy as np


class IllConditioned(Exception):
    """Rounding decides the result: not a test."""


class Rays:
    """Crossed pixels and lengths of every ray: self.w is (dt, dx, ox*oz)."""

    def __init__(self, ox, oz, dx, center, theta):
        self.ox, self.oz, self.dx = ox, oz, dx
        theta = np.asarray(np.asarray(theta, np.float32), np.float64)
        self.dt = len(theta)
        self.w = np.zeros((self.dt, dx, ox * oz))
        self.ambiguous = np.zeros((self.dt, dx), bool)
        self.corner = False        # a ray passes through a corner of a pixel
        mov = (dx - 1) * 0.5 - float(np.float32(center))
        frac = mov - np.floor(mov)
        if abs(frac - 0.01) < 1e-4 or frac > 1 - 1e-5 or 0 < frac < 1e-5:
            self.ambiguous[:] = True
        if frac < 0.01:
            mov += 0.01
        mov += 0.5
        gx = np.arange(ox + 1) - ox * 0.5
        gy = np.arange(oz + 1) - oz * 0.5
        far = float(ox + oz)
        for p in range(self.dt):
            c, s = np.cos(theta[p]), np.sin(theta[p])
            for d in range(dx):
                y0 = (1 - dx) / 2.0 + d + mov
                # the line: point (x, y) = (-y0 s, y0 c) + t (-c, -s)
                px, py = -y0 * s, y0 * c
                t, bad = [], False
                if abs(s) > 1e-6:
                    x = px + (gy - py) / s * c
                    tol = 2e-6 * (1 + abs(c / s)) * (far + 10)
                    lo, hi = gx[0] + 0.01, gx[-1] - 0.01
                    keep = (x >= lo) & (x <= hi)
                    bad |= bool((np.abs(x - lo) < tol).any() or (np.abs(x - hi) < tol).any())
                    t.append(-((gy - py) / s)[keep])
                if abs(c) > 1e-6:
                    y = py + (gx - px) / c * s
                    tol = 2e-6 * (1 + abs(s / c)) * (far + 10)
                    lo, hi = gy[0] + 0.01, gy[-1] - 0.01
                    keep = (y >= lo) & (y <= hi)
                    bad |= bool((np.abs(y - lo) < tol).any() or (np.abs(y - hi) < tol).any())
                    t.append(-((gx - px) / c)[keep])
                t = np.sort(np.concatenate(t)) if t else np.zeros(0)
                if len(t) > 1:
                    m = (t[1:] + t[:-1]) / 2
                    ln = np.diff(t)
                    self.corner |= bool((ln < 1e-3).any())
                    mx, my = px - m * c + ox * 0.5, py - m * s + oz * 0.5
                    ix, iy = np.floor(mx).astype(int), np.floor(my).astype(int)
                    near = (np.abs(mx - np.round(mx)) < 1e-4) | (np.abs(my - np.round(my)) < 1e-4)
                    bad |= bool((near & (ln > 1e-3)).any())
                    ok = (ix >= 0) & (ix < ox) & (iy >= 0) & (iy < oz)
                    bad |= bool((~ok & (ln > 1e-3)).any())
                    np.add.at(self.w[p, d], (iy + ix * oz)[ok], ln[ok])
                self.ambiguous[p, d] = bad

    def forward(self, obj):
        """obj (ox, oz) -> (dt, dx)"""
        return self.w @ np.asarray(obj, np.float64).ravel()

    def plain(self):
        """The exact model without the border clipping: total length of a line in the grid."""
        return self.w.sum(-1)


def good_geometry(rng, ox, oz, dx, dt, generic=True, tries=60):
    """(center, theta) without ambiguous rays, and its Rays."""
    for _ in range(tries):
        if generic:
            center = float(np.float32(dx / 2 + rng.uniform(-1.4, 1.4)))
            theta = np.sort(rng.uniform(0.03, np.pi - 0.03, dt))
            if rng.rand() < 0.3:
                theta = rng.uniform(-6, 6, dt)
        else:
            center = dx / 2.0 + rng.choice([0, 0, 0.5, 0.25])
            theta = np.linspace(0, np.pi, dt, endpoint=bool(rng.rand() < .3))
        theta = theta.astype(np.float32)
        r = Rays(ox, oz, dx, center, theta)
        if not r.ambiguous.any():
            return center, theta, r
    return None


def subsets(dt, nb):
    """Projection indices of every block (the first dt % nb blocks hold one more)."""
    size, rest, out, k = dt // nb, dt % nb, [], 0
    for b in range(nb):
        n = size + (1 if b < rest else 0)
        out.append(list(range(k, k + n)))
        k += n
    return out


def art(r, data, x, num_iter):
    """One projection after the other: x += (b - <w, x>) / <w, w> * w"""
    x = x.copy()
    for _ in range(num_iter):
        for p in range(r.dt):
            for d in range(r.dx):
                w = r.w[p, d]
                n2 = w @ w
                if n2 != 0:
                    x += (data[p, d] - w @ x) / n2 * w
    return x


def bart(r, data, x, num_iter, nb=1, order=None):
    x = x.copy()
    for _ in range(num_iter):
        for blk in subsets(r.dt, nb):
            ps = [order[q] if order is not None else q for q in blk]
            num, den = np.zeros_like(x), np.zeros_like(x)
            for p in ps:
                for d in range(r.dx):
                    w = r.w[p, d]
                    n2 = w @ w
                    if n2 != 0:
                        num += (data[p, d] - w @ x) / n2 * w
                        den += w
            nz = den != 0
            x[nz] += num[nz] / den[nz]
    return x


def osem(r, data, x, num_iter, nb=1, order=None):
    x = x.copy()
    for _ in range(num_iter):
        for blk in subsets(r.dt, nb):
            ps = [order[q] if order is not None else q for q in blk]
            num, den = np.zeros_like(x), np.zeros_like(x)
            for p in ps:
                for d in range(r.dx):
                    w = r.w[p, d]
                    if (w != 0).any():
                        s = w @ x
                        den += w
                        if s != 0:
                            num += data[p, d] / s * w
            nz = den != 0
            x[nz] *= num[nz] / den[nz]
    return x


def _weights(ox, oz):
    """Neighbours (index, weight) of every pixel; the weights of one pixel add up to one."""
    out = []
    for i in range(ox):
        for j in range(oz):
            n = [(a, b) for a in (i - 1, i, i + 1) for b in (j - 1, j, j + 1)
                 if (a, b) != (i, j) and 0 <= a < ox and 0 <= b < oz]
            w = np.array([1.0 if a == i or b == j else 1 / np.sqrt(2) for a, b in n])
            out.append((np.array([a * oz + b for a, b in n]), w / w.sum()))
    return out


def ospml(r, data, x, num_iter, reg, nb=1, order=None, hybrid=False):
    x = x.copy()
    nbr = _weights(r.ox, r.oz)
    for _ in range(num_iter):
        for blk in subsets(r.dt, nb):
            ps = [order[q] if order is not None else q for q in blk]
            num, den = np.zeros_like(x), np.zeros_like(x)
            for p in ps:
                for d in range(r.dx):
                    w = r.w[p, d]
                    if (w != 0).any():
                        s = w @ x
                        den += w
                        if abs(s) < 1e-3 * w.sum():
                            raise IllConditioned
                        if s != 0:
                            num += data[p, d] / s * w
            E = -x * num
            F, G = np.zeros_like(x), np.zeros_like(x)
            for k, (ix, wg) in enumerate(nbr):
                if hybrid:
                    gam = 1 / (1 + np.abs((x[k] - x[ix]) / reg[1]))
                else:
                    gam = np.ones(len(ix))
                F[k] = (2 * reg[0] * wg * gam).sum()
                G[k] = (-2 * reg[0] * wg * gam * (x[k] + x[ix])).sum()
            G += den
            x = (-G + np.sqrt(G * G - 8 * E * F)) / (4 * F)
    return x


def fbp(r, data):
    return np.einsum('pd,pdk->k', np.asarray(data, np.float64), r.w)


def grad(r, data, x, num_iter, reg, tikh=None):
    """Gradient descent on |r (W x - b)|^2 (+ reg1 |x - x0|^2), r^2 = 2 / (dx dt)."""
    x = x.copy()
    sc = 1 / np.sqrt(r.dx * r.dt / 2.0)
    W = r.w.reshape(-1, r.w.shape[-1])
    b = np.asarray(data, np.float64).ravel()
    x = x / sc
    xp = gp = None
    for i in range(num_iter):
        res = sc * (W @ x) - b
        g = 2 * sc * (W.T @ res)
        if tikh is not None:
            g = g + 2 * reg[1] * (x - tikh)
        if reg[0] < 0:
            if i == 0:
                step = 1e-3
            else:
                a, c = (x - xp) @ (g - gp), (g - gp) @ (g - gp)
                step = a / c
        else:
            step = reg[0]
        xp, gp = x, g
        x = x - step * g
    return x * sc


def tv(r, data, x, num_iter, lam):
    """Chambolle-Pock for |r W x - b|^2 / 2 + lam TV(x), step 0.35; differences need both neighbours."""
    c, sc = 0.35, 1 / np.sqrt(r.dx * r.dt / 2.0)
    sh = (r.ox, r.oz)
    W = r.w.reshape(-1, r.w.shape[-1])
    b = np.asarray(data, np.float64).ravel()
    x = (x / sc).reshape(sh)
    u = x.copy()
    px, py, p1 = np.zeros(sh), np.zeros(sh), np.zeros(len(b))
    for _ in range(num_iter):
        px[:-1, :-1] += c * (x[1:, :-1] - x[:-1, :-1])
        py[:-1, :-1] += c * (x[:-1, 1:] - x[:-1, :-1])
        m = np.sqrt(px * px + py * py)
        m = np.where(m > lam, m / lam if lam else np.inf, 1)
        px, py = px / m, py / m
        p1 = (p1 + c * sc * (W @ x.ravel()) - c * b) / (1 + c)
        adj = (sc * (W.T @ p1)).reshape(sh)
        old = u.copy()
        u = u - c * adj
        u += c * np.diff(px, axis=0, prepend=0)
        u += c * np.diff(py, axis=1, prepend=0)
        x = 2 * u - old
    return x.ravel() * sc
