import random

import numpy as np
import tomopy.util.mproc as mp


def _f(a, *extra, k=1.0):
    return a * 2 + k


def _f2(a, b, k=1.0):
    return a + 3 * b + k


def cases(seed, tier):
    r = random.Random(seed)
    top = 40 if tier == 'quick' else 90
    block = []
    for n in range(1, top):
        yield 'slices', dict(n=n)
    for i in range(30 if tier == 'quick' else 120):
        yield 'slices', dict(n=r.choice([r.randint(40, 500), r.randint(500, 5000)]))
    for n in list(range(1, 20)) + [33, 64, 101]:
        yield 'cpus', dict(n=n)
        yield 'ranks', dict(n=n)
    for i in range(12 if tier == 'quick' else 60):
        yield 'jobs', dict(shape=[r.randint(1, 7) for _ in range(3)], axis=r.randint(0, 2), ncore=r.choice([1, 1, 2, 3, 8]),
                           nchunk=r.choice([None, 0, 1, 2, 3, 5]), dtype=r.choice(['float32', 'float64', 'int32']), dtype2=r.choice(['float32', 'float64', 'int32']), two=r.random() < 0.4,
                           out=r.random() < 0.4, seed=r.randint(0, 10**6))


def _check(n, slcs, nchunk):
    if nchunk == 0:
        if list(slcs) != list(range(n)):
            return 'collapsed parts are %s' % (list(slcs)[:6],)
        return None
    cnt = np.zeros(n, int)
    prev = 0
    for s in slcs:
        idx = np.arange(n)[s]
        if len(idx) == 0:
            return 'empty part %s' % (s,)
        if idx[0] != prev:
            return 'part %s does not follow the previous one (expected start %d)' % (s, prev)
        cnt[s] += 1
        prev = idx[-1] + 1
    if not (cnt == 1).all():
        return 'index %d is covered %d times' % (int(np.argmax(cnt != 1)), int(cnt[np.argmax(cnt != 1)]))


def _chk(n, ncore, nchunk):
    c, s = mp.get_ncore_slices(n, ncore, nchunk)
    if not 1 <= c <= max(n, 1):
        return 'n=%s ncore=%s nchunk=%s: %s workers' % (n, ncore, nchunk, c)
    if ncore and c > ncore:
        return 'n=%s ncore=%s nchunk=%s: more workers than asked: %s' % (n, ncore, nchunk, c)
    if nchunk is None and len(s) > c:
        return 'n=%s ncore=%s: %d parts for %d workers' % (n, ncore, len(s), c)
    if nchunk and any(len(range(n)[q]) > nchunk for q in s):
        return 'n=%s nchunk=%s: a part is larger than the chunk' % (n, nchunk)
    w = _check(n, s, nchunk)
    if w:
        return 'n=%s ncore=%s nchunk=%s: %s' % (n, ncore, nchunk, w)


def _chk2(n, ncore, nchunk):
    c, k = mp.get_ncore_nchunk(n, ncore, nchunk)
    if not 1 <= c <= n or (ncore and c > ncore):
        return 'get_ncore_nchunk n=%s ncore=%s nchunk=%s: %s workers' % (n, ncore, nchunk, c)
    if (nchunk is None and (k < 1 or c * k < n)) or (nchunk == 0 and k != 0) or (nchunk and k != min(nchunk, n)):
        return 'get_ncore_nchunk n=%s ncore=%s nchunk=%s: chunk %s for %s workers' % (n, ncore, nchunk, k, c)


def run_case(kind, a):
    if kind == 'cpus':
        n = a['n']
        old = mp.mp.cpu_count
        try:
            for cpus in (1, 2, 3, 4, 6, 7, 12, 16, 31, 64):
                mp.mp.cpu_count = lambda: cpus
                for ncore in (None, 0, 1, 2, 5, n, n + 3, 100):
                    for nchunk in (None, 0, 1, 2, 5, n):
                        w = _chk(n, ncore, nchunk) or (_chk2(n, ncore, nchunk) if ncore != 0 else None)
                        if w:
                            return 'on a machine with %d cores: %s' % (cpus, w)
        finally:
            mp.mp.cpu_count = old
        return None
    if kind == 'ranks':
        n = a['n']
        old = mp.get_nproc, mp.get_rank
        try:
            for size in (1, 2, 3, 5, 8):
                for ncore in (1, 2, 3, 8):
                    for nchunk in (None, 1, 2, 3, 7, 0):
                        got = []
                        for rank in range(size):
                            mp.get_nproc, mp.get_rank = (lambda: size), (lambda: rank)
                            for s in mp.get_worker_ncore_slices(n, ncore, nchunk)[1]:
                                got += [s] if nchunk == 0 else list(range(n)[s])
                        if sorted(got) != list(range(n)):
                            return 'n=%d ncore=%s nchunk=%s over %d processes: the processes together cover %s' % (n, ncore, nchunk, size, got[:40])
        finally:
            mp.get_nproc, mp.get_rank = old
        return None
    if kind == 'slices':
        n = a['n']
        for ncore in [None, 0, 1, 2, 3, 5, 7, 8, n, n + 1, 2 * n] + ([4, 6, 9, 11, 16, 31, 64] if n < 100 else [17, 100, 499]):
            for nchunk in [None, 0, 1, 2, 3, 4, 7, n - 1, n, n + 1]:
                if nchunk is not None and nchunk < 0:
                    continue
                w = _chk(n, ncore, nchunk)
                if w:
                    return w
        return None
    if kind == 'jobs':
        rng = np.random.RandomState(a['seed'])
        x = (rng.rand(*a['shape']) * 50).astype(a['dtype'])
        x0 = x.copy()
        arrs = x
        f = _f
        if a['two']:
            y = (rng.rand(*a['shape']) * 50).astype(a.get('dtype2', a['dtype']))
            y0 = y.copy()
            arrs = [x, y]
            f = _f2
            ref = (x0 + 3 * y0 + 2).astype(a['dtype'] if a['out'] else y.dtype)
        else:
            ref = (x0 * 2 + 2).astype(a['dtype'])
        out = np.zeros(a['shape'], a['dtype']) if a['out'] else None
        got = mp.distribute_jobs(arrs, f, axis=a['axis'], kwargs={'k': 2}, ncore=a['ncore'], nchunk=a['nchunk'], out=out)
        if got.shape != ref.shape or not np.array_equal(got, ref):
            return 'compiled result differs from the serial one at %s' % (np.argwhere(got != ref)[:3].tolist() if got.shape == ref.shape else got.shape,)
        if a['out'] and got is not out and not np.array_equal(out, ref):
            return 'out was not filled'
        if not np.array_equal(x, x0):
            return 'the input array was modified'
        return None
