"""C15: recon: arguments, distribution and errors."""
import copy

from ..obl import z3
from .. import pyu as U, pysym as P

ORACLE_S = 45
ORACLE_WHAT = ('recon on the real code: wrong arguments of every kind, every keyword of every method, Python methods (each slice exactly once), errors raised in a worker, calls before and after other calls, '
               'defaults given explicitly, TOMOPY_PYTHON_THREADS, errors in the workers of the filters')
A = 'tomopy.recon.algorithm.'


def _env(m, env):
    import types
    os_ = types.SimpleNamespace(environ=env)
    return os_


def _recon(chunk, threads):
    """A Python method gets every slice, with its own data, center and image, and its errors are raised."""
    def run(L):
        E = U.begin(L, 'recon', [A + f for f in ('recon', 'init_tomo', '_init_recon', '_get_func', '_dist_recon', '_slice_kwargs', '_get_algorithm_args', '_get_algorithm_kwargs', '_keep_python_threads')] + ['tomopy.sim.project.get_center'],
                    ['pool', 'slices'])
        m = _mod()
        import tomopy.util.mproc as mp
        for sino, init in ((False, False), (True, True)):
            if True:
                def body():
                    dy, dt, dx, nt, ncen = U.dims(E, 'dy', 'dt', 'dx', 'n_theta', 'n_center')
                    E.assume(ncen >= 2)
                    tomo = P.SymArr.input('tomo', [dy, dt, dx] if sino else [dt, dy, dx], 'float32')
                    theta = P.SymArr.input('theta', [nt], 'float64')
                    cen = P.SymArr.input('center', [ncen], 'float32')
                    gx, gy = U.dims(E, 'gx', 'gy')
                    i0 = P.SymArr.input('init', [dy, gx, gy], 'float32') if init else None
                    nc, ch = P.SymInt(z3.Int('ncore')), P.SymInt(z3.Int('nchunk')) if chunk else None
                    E.assume(nc.t >= 1, *([ch.t >= 1] if chunk else []))
                    split = U.Split()
                    E.owner = lambda buf: (lambda b: split.seen[-1][3](b[0])) if split.seen else None
                    calls = []
                    G = z3.Function('reconstructed', *([z3.IntSort()] * 4 + [z3.RealSort()]))
                    q = [z3.Int('q%d' % i) for i in range(3)]
                    z = [z3.Int('z%d' % i) for i in range(3)]

                    def method(t, c, r, th, **kw):
                        k = E.loops[-1].k if E.loops else None
                        E.assume(*[z3.And(i >= 0, i < n_) for i, n_ in zip(q, t._shape)], z3.And(z[0] == q[0], *[z3.And(i >= 0, i < n_) for i, n_ in zip(z, r._shape)]))
                        calls.append(dict(k=k, t=t.elem(q), c=c.elem([q[0]]), r=r.elem(z), th=th.elem([q[1]]), shapes=(list(t._shape), list(c._shape), list(r._shape), list(th._shape)), kw=kw))
                        r.write(lambda v: G(v[0], v[1], v[2], k))
                    env = {} if threads is None else {'TOMOPY_PYTHON_THREADS': threads}
                    keep = dict(env)
                    E.loop_inv = {'nreal': lambda k: k}
                    with U.Patched((mp, 'get_ncore_slices', split), (m, 'cf', U.CF), (m, 'os', _env(m, env))):
                        try:
                            out = m.recon(tomo, theta, center=cen, sinogram_order=sino, algorithm=method, init_recon=i0, ncore=nc, nchunk=ch, num_gridx=P.wrap(gx), num_gridy=P.wrap(gy))
                        except ValueError:
                            E.prove('only angles or centers that do not fit the data are refused', z3.Or(nt != dt, ncen != dy))
                            return
                    E.prove('angles and centers that do not fit the data are refused', z3.And(nt == dt, ncen == dy))
                    E.prove('TOMOPY_PYTHON_THREADS is as before', z3.BoolVal(env == keep))
                    E.prove('the result is float32', z3.BoolVal(out.dtype == 'float32'))
                    U.same_shape(E, 'one image for every slice', out, [dy, gx, gy])
                    if not E.prove('the method is called', z3.BoolVal(len(calls) >= 1)):
                        raise P.StopPath()
                    n, c, O, W = split.seen[-1]
                    for d in calls:
                        k = d['k']
                        s0 = O(k) + q[0]
                        (t0, t1, t2), (c0,), (r0, r1, r2), (h0,) = d['shapes']
                        ln = O(k + 1) - O(k)
                        E.prove('the method gets a part of the data', z3.And(t0 == ln, t1 == dt, t2 == dx, c0 == ln, r0 == ln, r1 == gx, r2 == gy, h0 == dt))
                        x = P.SymArr.input('tomo', [dy, dt, dx] if sino else [dt, dy, dx], 'float32')
                        E.prove('the method gets the data of its slices', d['t'] == x.elem([s0, q[1], q[2]] if sino else [q[1], s0, q[2]]))
                        E.prove('the method gets the centers of its slices', d['c'] == z3.Function('center', z3.IntSort(), z3.RealSort())(s0))
                        E.prove('the method gets the angles', d['th'] == z3.Function('theta', z3.IntSort(), z3.RealSort())(q[1]))
                        if init:
                            E.prove('the method gets the initial image of its slices', d['r'] == P.SymArr.input('init', [dy, gx, gy], 'float32').elem([s0, z[1], z[2]]))
                        else:
                            E.prove('the initial image is constant', d['r'] == P.toz(1e-6))
                        E.prove('the grid is passed on', z3.And(P.toz(d['kw']['num_gridx']) == gx, P.toz(d['kw']['num_gridy']) == gy))
                    v = U.index(E, [dy, gx, gy])
                    k = W(v[0])
                    E.prove('the result is what the method made of its slices', out.elem(v) == G(v[0] - O(k), v[1], v[2], k))
                E.explore(body)
    return run


def _raise(L):
    """An error in any of the parts is raised by recon, and the environment is restored."""
    E = U.begin(L, 'recon', [A + '_dist_recon', A + '_keep_python_threads'], ['pool', 'slices'])
    m = _mod()
    import tomopy.util.mproc as mp

    class Boom(Exception):
        pass
    for chunk in (False, True):
        for threads in (None, '2'):
            def body():
                dy, dt, dx = U.dims(E, 'dy', 'dt', 'dx')
                tomo = P.SymArr.input('tomo', [dt, dy, dx], 'float32')
                theta = P.SymArr.input('theta', [dt], 'float64')
                nc, ch = P.SymInt(z3.Int('ncore')), P.SymInt(z3.Int('nchunk')) if chunk else None
                E.assume(nc.t >= 1, *([ch.t >= 1] if chunk else []))
                E.loop_inv = {'nreal': lambda k: k}

                def method(t, c, r, th, **kw):
                    raise Boom()
                env = {} if threads is None else {'TOMOPY_PYTHON_THREADS': threads}
                keep = dict(env)
                with U.Patched((mp, 'get_ncore_slices', U.Split()), (m, 'cf', U.CF), (m, 'os', _env(m, env))):
                    try:
                        m.recon(tomo, theta, center=None, algorithm=method, ncore=nc, nchunk=ch)
                    except Boom:
                        E.prove('an error of the method is raised', z3.BoolVal(True))
                        E.prove('TOMOPY_PYTHON_THREADS is as before', z3.BoolVal(env == keep))
                        return
                E.fail('an error of the method is raised', 'recon returned')
            E.explore(body)


def _mod():
    import importlib
    import tomopy
    return importlib.import_module('tomopy.recon.algorithm')


def _tables(m):
    """The containers of the module (tables of keywords and defaults; what starts empty may be a cache), to see that no call changes them."""
    return {k: copy.deepcopy(v) for k, v in vars(m).items() if isinstance(v, (dict, list, set)) and v and not k.startswith('__')}


def _unchanged(E, m, before):
    changed = [k for k in sorted(before) if vars(m).get(k) != before[k]]
    E.prove('the tables of keywords and defaults are as before', z3.BoolVal(not changed), where=', '.join(changed))


# the keywords of every method
ALLOWED = dict(art=['num_iter'], bart=['num_iter', 'num_block', 'ind_block'], fbp=['filter_name', 'filter_par'], mlem=['num_iter'],
               osem=['num_iter', 'num_block', 'ind_block'], ospml_hybrid=['num_iter', 'reg_par', 'num_block', 'ind_block'], ospml_quad=['num_iter', 'reg_par', 'num_block', 'ind_block'],
               pml_hybrid=['num_iter', 'reg_par'], pml_quad=['num_iter', 'reg_par'], sirt=['num_iter'], tv=['num_iter', 'reg_par'], grad=['num_iter', 'reg_par'],
               tikh=['num_iter', 'reg_data', 'reg_par'])
KEYS = ['num_iter', 'num_block', 'ind_block', 'reg_par', 'reg_data', 'filter_name', 'filter_par', 'nonsense']


def _builtin(alg):
    """What the compiled method gets from recon: its keywords with the types and sizes it reads."""
    def run(L):
        E = U.begin(L, 'recon_' + alg, [A + 'recon'], ['pool', 'slices'])
        m = _mod()
        import tomopy.util.mproc as mp
        before = _tables(m)
        for given in (False, True):
            def body():
                dy, dt, dx, gx, gy = U.dims(E, 'dy', 'dt', 'dx', 'gx', 'gy')
                tomo = P.SymArr.input('tomo', [dt, dy, dx], 'float64')
                theta = P.SymArr.input('theta', [dt], 'float64')
                nc = P.SymInt(z3.Int('ncore'))
                E.assume(nc.t >= 1)
                E.loop_inv = {'nreal': lambda k: k}
                split = U.Split()
                E.owner = lambda buf: (lambda b: split.seen[-1][3](b[0])) if split.seen else None
                kw, bad, wit = {}, [], []

                def reduced(kind, arr_, r):
                    if kind != 'any':
                        return
                    j = z3.Int('j')
                    snap, w = arr_.snapshot(), E.fresh('w')
                    E.assume(z3.Implies(z3.And(j >= 0, j < arr_._shape[0], P.tob(snap([j]))), r), z3.Implies(r, z3.And(w >= 0, w < arr_._shape[0], P.tob(snap([w])))))
                    if 'ind_block' in kw:
                        wit.append(kw['ind_block'].elem([w]))
                E.reduced = reduced
                if given:
                    kw = dict(num_gridx=P.wrap(gx), num_gridy=P.wrap(gy))
                    al = ALLOWED[alg]
                    if 'num_iter' in al:
                        kw['num_iter'] = P.SymInt(z3.Int('num_iter'))
                    if 'num_block' in al:
                        nb, ni = z3.Int('num_block'), z3.Int('n_ind')
                        E.assume(ni >= 0)
                        kw['num_block'] = P.wrap(nb)
                        kw['ind_block'] = P.SymArr.input('ind_block', [ni], 'int32')
                        bad += [nb < 1, ni != dt]
                    if 'reg_par' in al:
                        nr = z3.Int('n_reg')
                        E.assume(nr >= (1 if alg.endswith('quad') or alg in ('tv', 'grad') else 0))
                        kw['reg_par'] = P.SymArr.input('reg_par', [nr], 'float64')
                        if alg in ('ospml_hybrid', 'pml_hybrid', 'tikh'):
                            bad.append(nr < 2)
                    if 'reg_data' in al:
                        rd = [z3.Int('r%d' % i) for i in range(3)]
                        E.assume(*[r >= 0 for r in rd])
                        kw['reg_data'] = P.SymArr.input('reg_data', rd, 'float64')
                        bad.append(z3.Or(rd[0] != dy, rd[1] != gx, rd[2] != gy))
                else:
                    gx = gy = dx
                seen = []

                def stub(t, c, r, th, **k):
                    seen.append((t, c, r, th, k))
                    if 'reg_data' in k:
                        w = [z3.Int('w%d' % i) for i in range(3)]
                        E.assume(*[z3.And(i >= 0, i < n) for i, n in zip(w, k['reg_data']._shape)])
                        seen[-1] += (w, k['reg_data'].elem(w), E.loops[-1].k)
                with U.Patched((mp, 'get_ncore_slices', split), (m, 'cf', U.CF), (m, 'os', _env(m, {})), (m.extern, 'c_' + alg, stub)):
                    try:
                        m.recon(tomo, theta, algorithm=alg, ncore=nc, **kw)
                    except ValueError:
                        if 'num_block' in kw:
                            bad += [z3.Or(q < 0, q >= dt) for q in wit]
                        E.prove('only arguments that do not fit are refused', z3.Or(*bad) if bad else z3.BoolVal(False))
                        return
                E.prove('arguments that do not fit are refused', z3.Not(z3.Or(*bad)) if bad else z3.BoolVal(True))
                if not E.prove('the compiled method is called', z3.BoolVal(len(seen) == 1)):
                    raise P.StopPath()
                _unchanged(E, m, before)
                t, c, r, th, k = seen[0][:5]
                for nm, arr in (('data', t), ('center', c), ('image', r), ('angles', th)):
                    E.prove('the %s are float32' % nm, z3.BoolVal(str(arr.dtype) == 'float32'))
                    E.prove('the %s are contiguous' % nm, P.tob(arr.is_contig()))
                n = t._shape[0]
                E.prove('the sizes fit', z3.And(n >= 1, t._shape[1] == dt, t._shape[2] == dx, c._shape[0] == n, th._shape[0] == dt, r._shape[0] == n, r._shape[1] == gx, r._shape[2] == gy))
                E.prove('the grid is passed on', z3.And(P.toz(k['num_gridx']) == gx, P.toz(k['num_gridy']) == gy))
                if 'num_iter' in ALLOWED[alg]:
                    E.prove('the number of iterations is passed on', P.toz(k['num_iter']) == (z3.Int('num_iter') if given else 1))
                if 'num_block' in ALLOWED[alg]:
                    b = k['ind_block'] if type(k['ind_block']) is P.SymArr else P.from_concrete(k['ind_block'])
                    E.prove('the order of the projections is int32, contiguous and complete', z3.And(str(b.dtype) == 'int32', P.tob(b.is_contig()), b._shape[0] == dt))
                    j = z3.Int('j')
                    E.assume(j >= 0, j < dt)
                    E.prove('every entry of the order is a projection', z3.And(b.elem([j]) >= 0, b.elem([j]) < dt))
                    E.prove('the order and the number of blocks are passed on', z3.And(b.elem([j]) == (z3.Function('ind_block', z3.IntSort(), z3.IntSort())(j) if given else j), P.toz(k['num_block']) == (z3.Int('num_block') if given else 1)))
                if 'reg_par' in ALLOWED[alg]:
                    p = k['reg_par'] if type(k['reg_par']) is P.SymArr else P.from_concrete(k['reg_par'])
                    need = 1 if alg in ('ospml_quad', 'pml_quad', 'tv', 'grad') else 2
                    E.prove('the parameters are float32 and contiguous', z3.And(str(p.dtype) == 'float32', P.tob(p.is_contig())))
                    E.prove('there are as many parameters as the method reads', p._shape[0] >= need)
                    E.prove('the parameters are passed on', z3.And(*[p.elem([z3.IntVal(i)]) == (z3.Function('reg_par', z3.IntSort(), z3.RealSort())(i) if given else 1) for i in range(need)]))
                if 'reg_data' in ALLOWED[alg]:
                    p = k['reg_data']
                    w, val, kk = seen[0][5:]
                    E.prove('the prior is float32 and contiguous', z3.And(str(p.dtype) == 'float32', P.tob(p.is_contig())))
                    E.prove('the prior is that of the slices', z3.And(p._shape[0] == n, p._shape[1] == gx, p._shape[2] == gy))
                    O = split.seen[-1][2]
                    E.prove('the prior is passed on', val == (P.SymArr.input('reg_data', [dy, gx, gy], 'float64').elem([O(kk) + w[0], w[1], w[2]]) if given else z3.RealVal(0)))
            E.explore(body)

        def refuse(key):
            def body():
                dy, dt, dx = U.dims(E, 'dy', 'dt', 'dx')
                tomo = P.SymArr.input('tomo', [dt, dy, dx], 'float32')
                theta = P.SymArr.input('theta', [dt], 'float64')
                with U.Patched((mp, 'get_ncore_slices', U.Split()), (m, 'cf', U.CF), (m, 'os', _env(m, {})), (m.extern, 'c_' + alg, lambda *a, **k: None)):
                    try:
                        m.recon(tomo, theta, algorithm=alg, **{key: 1})
                    except ValueError:
                        E.prove('keywords of other methods are refused', z3.BoolVal(True), where=key)
                        _unchanged(E, m, before)
                        return
                E.fail('keywords of other methods are refused', key)
            E.explore(body)
        for key in KEYS:
            if key not in ALLOWED[alg]:
                refuse(key)
    return run


UNITS = {'recon': _recon(False, None), 'recon_chunks': _recon(True, None), 'recon_threads': _recon(True, '2'), 'recon_errors': _raise}
for _a in ALLOWED:
    UNITS['recon_' + _a] = _builtin(_a)
