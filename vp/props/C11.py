"""C11: inpainting."""
from ..obl import z3
from .. import pyu as U, pysym as P, misc_c as M

ORACLE_S = 40
ORACLE_WHAT = ('inpainter_morph on the real code: pixels outside of the mask stay, the masked ones that are reached get a value from the range of their known neighbours, slices along '
               'an axis are treated one by one, and bad arguments are refused; random data, masks, windows, types, layouts and thread counts')
KINDS = {'mean': 0, 'median': 1, 'random': 2}


def _wrap(rank, axis):
    def run(L):
        from .. import cast
        E = U.begin(L, 'inpainter_morph', ['tomopy.misc.corr.inpainter_morph', 'tomopy.util.extern.misc.c_inpainter'])
        import tomopy.misc.corr as m
        tu = cast.parse(M.M + 'inpainter.c')
        for dt, contig in (('float32', True), ('float32', False), ('float64', True), ('uint16', False)):
            for kind in KINDS:
                def body():
                    s = U.dims(E, *['n%d' % i for i in range(rank)])
                    arr = P.SymArr.input('arr', s, dt, contig)
                    mask = P.SymArr.input('mask', s, 'bool', contig)
                    size, it, nc = P.SymInt(z3.Int('size')), P.SymInt(z3.Int('iterations')), P.SymInt(z3.Int('ncore'))
                    E.assume(size.t >= 1, it.t >= 0, nc.t >= 1)
                    F = []

                    def value(p, c, arrs):
                        ks = [l.k for l in E.loops]
                        nd = arrs['Output'].ndim
                        f = z3.Function('inpainted', *([z3.IntSort()] * (nd + len(ks)) + [z3.RealSort()]))
                        F.append((f, ks, arrs['Input'], arrs['Mask'], c, arrs['Output'].snapshot()))
                        return lambda v: f(*v, *ks)
                    br = U.Bridge(E, {'Inpainter_morph_main': M.inpaint_main}, [tu], {'Inpainter_morph_main': value}).install()
                    out = m.inpainter_morph(arr, mask, size=size, iterations=it, inpainting_type=kind, axis=axis, ncore=nc)
                    if not E.prove('the compiled code is called once for every part', z3.BoolVal(len(F) == 1)):
                        raise P.StopPath()
                    f, ks, a_in, m_in, c, _ = F[0]
                    U.same_shape(E, 'the result has the shape of the input', out, s)
                    E.prove('the result is float32', z3.BoolVal(out.dtype == 'float32'))
                    v = U.index(E, s)
                    x, y = P.SymArr.input('arr', s, dt, contig), P.SymArr.input('mask', s, 'bool', contig)
                    if axis is None:
                        w, at = v, []
                        dims = list(s)
                        whole = v
                    else:
                        w, at = [q for i, q in enumerate(v) if i != axis], [v[axis]]
                        dims = [q for i, q in enumerate(s) if i != axis]
                        whole = list(v)
                        whole[axis] = ks[0]
                    E.prove('the compiled code gets the data', a_in.elem(w) == P.real(x.elem(whole)))
                    E.prove('the compiled code gets the mask', P.tob(m_in.elem(w)) == P.tob(y.elem(whole)))
                    d = [z3.IntVal(1)] * (3 - len(dims)) + dims
                    E.prove('the sizes are given fastest first', z3.And(c.dimX == d[2], c.dimY == d[1], c.dimZ == d[0]))
                    E.prove('iterations, window and method are passed on', z3.And(c.iterations == it.t, c.W_halfsize == size.t, c.method_type == KINDS[kind], c.ncores == nc.t))
                    E.prove('the result is what the compiled code puts out, slice by slice', out.elem(v) == f(*w, *at))
                    E.prove('the inputs are not changed', z3.BoolVal(arr.buf.writes == 0 and mask.buf.writes == 0))
                E.explore(body)
    return run


def _bad(L):
    E = U.begin(L, 'bad arguments', ['tomopy.misc.corr.inpainter_morph'])
    import tomopy.misc.corr as m

    def attempt(what, rank, mdt, kw):
        def body():
            s = U.dims(E, *['n%d' % i for i in range(rank)])
            br = U.Bridge(E, {}, []).install()
            try:
                m.inpainter_morph(P.SymArr.input('arr', s, 'float32'), P.SymArr.input('mask', s, mdt), **kw(E))
            except ValueError:
                E.prove(what, z3.BoolVal(True))
                return
            E.fail(what, 'accepted')
        E.explore(body)

    def far(E):
        a = P.SymInt(z3.Int('axis'))
        E.assume(z3.Or(a.t < 0, a.t > 2))
        return {'axis': a}
    attempt('a mask that is not boolean is refused', 3, 'uint8', lambda E: {})
    attempt('an unknown method is refused', 3, 'bool', lambda E: {'inpainting_type': 'linear'})
    attempt('an axis for 2D data is refused', 2, 'bool', lambda E: {'axis': 0})
    attempt('an axis that does not exist is refused', 3, 'bool', far)


UNITS = {'inpainter_morph_3d': _wrap(3, None), 'inpainter_morph_2d': _wrap(2, None), 'bad_arguments': _bad}
for _a in (0, 1, 2):
    UNITS['inpainter_morph_axis%d' % _a] = _wrap(3, _a)
for _n in list(M.INPAINT) + ['Inpainter_morph_main']:
    UNITS['c_' + _n] = M.unit(_n, ['mem', 'init', 'race'])
