"""C07: down- and upsampling."""
from ..obl import z3
from .. import pyu as U, pysym as P, misc_c as M

ORACLE_S = 25
ORACLE_WHAT = 'downsample, upsample and one after the other on the real code against the mean and the repetition of blocks, with random shapes, levels, axes, element types and layouts'


def _sample(up):
    fname = 'upsample' if up else 'downsample'

    def run(L):
        from .. import cast
        E = U.begin(L, fname, ['tomopy.misc.morph.' + f for f in (fname, '_sample', '_init_out')] + ['tomopy.util.extern.misc.c_sample'], ['2**level is the same positive integer in Python and in C'])
        import tomopy.misc.morph as m
        tu = cast.parse(M.M + 'morph.c')
        for dt in ('float32', 'float64', 'int32'):
            for axis in (0, 1, 2):
                for level in (0, 1, 2, 5, 'any'):
                    def body():
                        s = U.dims(E, 'n0', 'n1', 'n2')
                        arr = P.SymArr.input('arr', s, dt)
                        lv = level if level != 'any' else P.SymInt(z3.Int('level'))
                        if level == 'any':
                            E.assume(lv.t >= 0)
                        b = P.pow2(P.toz(lv)) if level == 'any' else z3.IntVal(2 ** level)
                        E.assume(b >= 1)
                        F = {}

                        def value(p, c, arrs):
                            F['in'], F['c'] = arrs['data'], c
                            F['init'] = arrs['out'].snapshot()
                            f = F['f'] = z3.Function('sampled', *([z3.IntSort()] * 3 + [z3.RealSort()]))
                            return lambda v: f(*v)
                        br = U.Bridge(E, {'sample': M.sample}, [tu], {'sample': value}).install()
                        out = getattr(m, fname)(arr, level=lv, axis=axis)
                        if not E.prove('the compiled code is called once', z3.BoolVal(len(br.calls) == 1)):
                            raise P.StopPath()
                        c = br.calls[0][1]
                        want = list(s)
                        want[axis] = s[axis] * b if up else s[axis] / b
                        U.same_shape(E, 'the length of the axis is %s by 2**level' % ('multiplied' if up else 'divided'), out, want)
                        E.prove('the result is float32', z3.BoolVal(out.dtype == 'float32'))
                        E.prove('the mode is right', c.mode == (1 if up else 0))
                        E.prove('the sizes are those of the input', z3.And(c.dx == s[0], c.dy == s[1], c.dz == s[2]))
                        E.prove('axis and level are passed on', z3.And(c.axis == axis, c.level == P.toz(lv)))
                        w = U.index(E, want, 'w')
                        E.prove('the sums start at zero', F['init'](w) == 0)
                        E.prove('the result is what the compiled code puts out', out.elem(w) == F['f'](*w))
                        v = U.index(E, s)
                        E.prove('the compiled code gets the input', F['in'].elem(v) == P.real(P.SymArr.input('arr', s, dt).elem(v)))
                        E.prove('the input is not changed', z3.BoolVal(arr.buf.writes == 0))
                    E.explore(body)
    return run


UNITS = {'downsample': _sample(False), 'upsample': _sample(True)}
for _n in ('downsample', 'upsample', 'sample'):
    UNITS['c_' + _n] = M.unit(_n, ['mem', 'init', 'race'])
