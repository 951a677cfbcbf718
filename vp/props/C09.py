"""C09: background normalization."""
from ..obl import z3
from .. import pyu as U, pysym as P, misc_c as M

ORACLE_S = 25
ORACLE_WHAT = 'normalize_bg on the real code against the line through the means of the air on both sides, with random shapes, air widths, zero backgrounds, types and layouts; bad air widths are refused'


def _bg(L):
    from .. import cast
    E = U.begin(L, 'normalize_bg', ['tomopy.prep.normalize.normalize_bg', 'tomopy.util.extern.prep.c_normalize_bg', 'tomopy.util.dtype.as_int32'], ['dist'])
    import tomopy.prep.normalize as m
    import tomopy.util.mproc as mp
    tu = cast.parse(M.PR + 'prep.c')
    for dt in ('float32', 'float64', 'uint16', 'int32'):
        for default in (False, True):
            def body():
                s = U.dims(E, 'n0', 'n1', 'n2')
                arr = P.SymArr.input('tomo', s, dt)
                air, nc, ch = P.SymInt(z3.Int('air')), P.SymInt(z3.Int('ncore')), P.SymInt(z3.Int('nchunk'))
                E.assume(nc.t >= 1, ch.t >= 1)
                bad = z3.BoolVal(False) if default else z3.Or(air.t < 1, air.t > s[2])
                F = {}

                def value(p, c, arrs):
                    F['in'] = arrs['data'].snapshot()
                    f = F['f'] = z3.Function('normalized', *([z3.IntSort()] * 3 + [z3.RealSort()]))
                    return lambda v: f(*v)
                br = U.Bridge(E, {'normalize_bg': M.normalize_bg}, [tu], {'normalize_bg': value}).install()
                dist = U.Distribute()
                with U.Patched((mp, 'distribute_jobs', dist)):
                    try:
                        out = m.normalize_bg(arr, ncore=nc, nchunk=ch, **({} if default else {'air': air}))
                    except ValueError:
                        E.prove('only air that does not fit the data is refused', bad)
                        return
                E.prove('air that does not fit the data is refused', z3.Not(bad))
                if not E.prove('the compiled code runs once on every part', z3.BoolVal(len(br.calls) == 1)):
                    raise P.StopPath()
                c = br.calls[0][1]
                U.same_shape(E, 'the result has the shape of the input', out, s)
                v = U.index(E, s)
                dist.part(E, v)
                w = [v[0] - dist.a] + v[1:]
                x = P.real(P.SymArr.input('tomo', s, dt).elem(v))
                E.prove('the compiled code gets the projections', F['in'](w) == x)
                E.prove('the sizes are those of the part', z3.And(c.dx == dist.b - dist.a, c.dy == s[1], c.dz == s[2]))
                E.prove('the width of the air is passed on', c.nair == (1 if default else air.t))
                E.prove('the result is what the compiled code puts out', out.elem(v) == F['f'](*w))
                E.prove('the work is split over the projections', z3.BoolVal(dist.axis == 0))
                E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
            E.explore(body)


UNITS = {'normalize_bg': _bg, 'c_normalize_bg': M.unit('normalize_bg', ['mem', 'init', 'race'])}
