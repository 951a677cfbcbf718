"""C16: maps of indices: padding, 360 to 180 degree sinograms, trimming, circular masks."""
from ..obl import z3
from .. import pyu as U, pysym as P

ORACLE_S = 25
ORACLE_WHAT = 'pad, sino_360_to_180, trim_sinogram and circ_mask on the real code against their definitions, with random shapes (down to length one), axes, overlaps, types and layouts'
N = 'tomopy.misc.morph.'


def _pad(L):
    E = U.begin(L, 'pad', [N + 'pad', N + '_get_slices', N + '_get_npad'], ['ne'])
    import tomopy.misc.morph as m
    for dt in ('float32', 'float64', 'int32', 'uint16', 'bool'):
        for axis in (0, 1, 2, -1):
            for mode in ('constant', 'edge', None):
                if axis != 1 and dt not in ('float32', 'uint16'):
                    continue

                def body():
                    s = U.dims(E, 'n0', 'n1', 'n2')
                    arr = P.SymArr.input('arr', s, dt)
                    n = P.SymInt(z3.Int('npad'))
                    E.assume(n.t >= 0)
                    kw = {} if mode is None else {'mode': mode}
                    c = 0
                    if mode == 'constant':
                        c = kw['constant_values'] = P.SymInt(z3.Int('value')) if dt[0] in 'iu' else (P.SymReal(z3.Real('value')) if dt[0] == 'f' else True)
                        if dt == 'uint16':
                            E.assume(c.t >= 0, c.t < 2 ** 16)
                        if dt == 'int32':
                            E.assume(c.t >= -2 ** 31, c.t < 2 ** 31)
                    out = m.pad(arr, axis, npad=n, **kw)
                    w = list(s)
                    w[axis] = s[axis] + 2 * n.t
                    U.same_shape(E, 'npad elements more on both sides', out, w)
                    E.prove('the element type is kept', z3.BoolVal(out.dtype == dt))
                    v = U.index(E, w)
                    x = v[axis] - n.t
                    at = lambda i: P.SymArr.input('arr', s, dt).elem([i if q == axis % 3 else v[q] for q in range(3)])
                    got = out.elem(v)
                    as_ = (lambda a: P.tob(a)) if dt == 'bool' else (lambda a: P.real(a))
                    ins = z3.And(x >= 0, x < s[axis])
                    E.prove('the input is in the middle', z3.Implies(ins, as_(got) == as_(at(x))))
                    if mode == 'edge':
                        E.prove('the edge is repeated', z3.And(z3.Implies(x < 0, as_(got) == as_(at(z3.IntVal(0)))), z3.Implies(x >= s[axis], as_(got) == as_(at(s[axis] - 1)))))
                    else:
                        E.prove('the rest is the constant', z3.Implies(z3.Not(ins), as_(got) == as_(P.toz(c))))
                    E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
                E.explore(body)

    def bad(kw):
        def body():
            s = U.dims(E, 'n0', 'n1', 'n2')
            try:
                m.pad(P.SymArr.input('arr', s, 'float32'), 0, npad=2, **kw)
            except ValueError:
                E.prove('bad modes and keywords are refused', z3.BoolVal(True))
                return
            E.fail('bad modes and keywords are refused', 'accepted %r' % (kw,))
        E.explore(body)
    for kw in (dict(mode='reflect'), dict(mode=3), dict(mode='edge', constant_values=1), dict(mode='constant', other=2)):
        bad(kw)


def _sino(L):
    E = U.begin(L, 'sino_360_to_180', [N + 'sino_360_to_180'])
    import tomopy.misc.morph as m
    for dt in ('float32', 'float64'):
        for side in ('left', 'right'):
            for real_ in (False, True):
                def body():
                    s = U.dims(E, 'n0', 'n1', 'n2')
                    data = P.SymArr.input('data', s, dt)
                    dz = s[2]
                    if real_:
                        ov = P.SymReal(z3.Real('overlap'))
                        o = P.round_half_even(ov.t)
                    else:
                        ov = P.SymInt(z3.Int('overlap'))
                        o = ov.t
                    E.assume(o >= 0, o <= dz)
                    out = m.sino_360_to_180(data, overlap=ov, rotation=side)
                    n = s[0] / 2
                    w = [n, s[1], 2 * dz - o]
                    U.same_shape(E, 'half the projections and twice the width less the overlap', out, w)
                    E.prove('the element type is kept', z3.BoolVal(out.dtype == dt))
                    v = U.index(E, w)
                    x = P.SymArr.input('data', s, dt)
                    c = v[2]
                    first = lambda k: x.elem([v[0], v[1], k])
                    second = lambda k: x.elem([n + v[0], v[1], k])
                    got = out.elem(v)
                    t = c - (dz - o)
                    # the weight of the pixel that is t from the inner edge of the overlap
                    wt = lambda i: z3.If(o == 1, z3.RealVal(1) / 2, P.real(i) / P.real(o - 1))
                    if side == 'left':
                        E.prove('the right part is the first half', z3.Implies(c >= dz, got == first(c - dz + o)))
                        E.prove('the left part is the second half, mirrored', z3.Implies(c < dz - o, got == second(dz - 1 - c)))
                        want = wt(t) * first(t) + wt(o - 1 - t) * second(o - 1 - t)
                    else:
                        E.prove('the left part is the first half', z3.Implies(c < dz - o, got == first(c)))
                        E.prove('the right part is the second half, mirrored', z3.Implies(c >= dz, got == second(2 * dz - o - 1 - c)))
                        want = wt(o - 1 - t) * first(c) + wt(t) * second(dz - 1 - t)
                    E.prove('the overlap is blended linearly', z3.Implies(z3.And(c >= dz - o, c < dz), got == want))
                    E.prove('the input is not changed', z3.BoolVal(data.buf.writes == 0))
                E.explore(body)


def _mask(L):
    E = U.begin(L, 'circ_mask', ['tomopy.misc.corr.circ_mask', 'tomopy.misc.corr._get_mask'], ['ne'])
    import tomopy.misc.corr as m
    for dt in ('float32', 'float64', 'uint16'):
        for axis in (0, 1, 2, -1):
            def body():
                s = U.dims(E, 'n0', 'n1', 'n2')
                arr = P.SymArr.input('arr', s, dt)
                ratio, val = P.SymReal(z3.Real('ratio')), P.SymReal(z3.Real('val'))
                out = m.circ_mask(arr, axis, ratio=ratio, val=val)
                U.same_shape(E, 'the result has the shape of the input', out, s)
                v = U.index(E, s)
                o = list(s)
                o[0], o[axis] = o[axis], o[0]       # the other two axes
                q = list(v)
                q[0], q[axis] = q[axis], q[0]
                half = z3.RealVal(1) / 2
                y = P.real(q[1]) + half - P.real(o[1]) / 2
                x = P.real(q[2]) + half - P.real(o[2]) / 2
                small = P.real(z3.If(o[1] < o[2], o[1], o[2])) / 2
                keep = x * x + y * y < ratio.t * ratio.t * (small * small)
                a = P.real(P.SymArr.input('arr', s, dt).elem(v))
                E.prove('pixels inside of the circle are kept and the others get the value', out.elem(v) == z3.If(keep, a, val.t))
            E.explore(body)


def _trim(L):
    E = U.begin(L, 'trim_sinogram', [N + 'trim_sinogram'], ['sin, cos and arctan2 are functions'])
    import tomopy.misc.morph as m

    def body():
        s = U.dims(E, 'n0', 'n1', 'n2')
        data = P.SymArr.input('data', s, 'float32')
        x, y = P.SymInt(z3.Int('x')), P.SymInt(z3.Int('y'))
        c, d = P.SymReal(z3.Real('center')), P.SymReal(z3.Real('diameter'))
        E.assume(d.t >= 1)
        out = m.trim_sinogram(data, c, x, y, d)
        w = [s[0], s[1], z3.ToInt(d.t)]
        U.same_shape(E, 'the width is that of the region', out, w)
        v = U.index(E, w)
        rad = P.uf('sqrt', P.real(x.t * x.t + y.t * y.t))
        ang = P.uf('arctan2', P.real(x.t), P.real(y.t))
        k = E.done[-1].k
        E.assume(v[0] == k)
        pi = P.toz(P._np.pi)
        lo = P.uf('cos', z3.simplify(ang - P.real(k) * (pi / P.real(s[0])))) * rad + c.t - d.t / 2
        E.assume(lo >= 0, lo + d.t <= P.real(s[2]))
        i1, i2 = -z3.ToInt(-lo), z3.ToInt(lo + d.t)
        E.prove('a row is cut out of the projection where the region is', z3.Implies(v[2] < i2 - i1, out.elem(v) == P.SymArr.input('data', s, 'float32').elem([v[0], v[1], i1 + v[2]])))
        E.prove('the rest is one', z3.Implies(v[2] >= i2 - i1, out.elem(v) == 1))
        E.prove('the input is not changed', z3.BoolVal(data.buf.writes == 0))
    E.explore(body)


UNITS = {'pad': _pad, 'sino_360_to_180': _sino, 'circ_mask': _mask, 'trim_sinogram': _trim}
