"""Contracts on the C functions of libtomo/misc and libtomo/prep."""
from .obl import z3
from .cvc import Contract, I, R, FA, pow2f
from .grid import Grid

M = 'source/libtomo/misc/'
PR = 'source/libtomo/prep/'
vol = lambda c: c.dx * c.dy * c.dz
VOL = lambda c: c.dimX * c.dimY * c.dimZ


# ---------------------------------------------------------------- down- and upsampling
def _bs(c):
    l = z3.simplify(c.level) if z3.is_expr(c.level) else I(c.level)
    return I(2 ** l.as_long()) if z3.is_int_value(l) and l.as_long() >= 0 else pow2f(l)


def _sample_req(c):
    return [('sizes', z3.And(c.dx >= 0, c.dy >= 0, c.dz >= 0, c.level >= 0, c.axis >= 0, c.axis <= 2))]


def _down_out(c):
    b = _bs(c)
    return z3.If(c.axis == 0, (c.dx / b) * c.dy * c.dz, z3.If(c.axis == 1, c.dx * (c.dy / b) * c.dz, c.dx * c.dy * (c.dz / b)))


def _up_out(c):
    return _bs(c) * (c.dx * c.dy * c.dz)


_str = [lambda lc: lc.fn.dz, lambda lc: lc.fn.dy * lc.fn.dz, lambda lc: pow2f(lc.fn.level), lambda lc: pow2f(lc.fn.level) * lc.fn.dz,
        lambda lc: pow2f(lc.fn.level) * lc.fn.dy * lc.fn.dz]
SP = ['data', 'dx', 'dy', 'dz', 'level', 'axis', 'out']
downsample = Contract('downsample', SP, sizes={'data': vol, 'out': _down_out}, requires=_sample_req, writes={'out': lambda c: (I(0), _down_out(c))}, strides=_str)
upsample = Contract('upsample', SP, sizes={'data': vol, 'out': _up_out}, requires=_sample_req, writes={'out': lambda c: (I(0), _up_out(c))},
                    inits={'out': lambda c: (I(0), _up_out(c))}, strides=_str)

sample = Contract('sample', ['mode'] + SP, sizes={'data': vol, 'out': lambda c: z3.If(c.mode == 0, _down_out(c), z3.If(c.mode == 1, _up_out(c), I(0)))},
                  requires=_sample_req, writes={'out': lambda c: (I(0), z3.If(c.mode == 0, _down_out(c), z3.If(c.mode == 1, _up_out(c), I(0))))},
                  inits={'out': lambda c: (I(0), z3.If(c.mode == 1, _up_out(c), I(0)))}, strides=_str)

# ---------------------------------------------------------------- prep
normalize_bg = Contract(
    'normalize_bg', ['data', 'dx', 'dy', 'dz', 'nair'], sizes={'data': vol},
    requires=lambda c: [('sizes', z3.And(c.dx >= 0, c.dy >= 0, c.dz >= 1)), ('the air fits', z3.And(c.nair >= 1, c.nair <= c.dz))],
    writes={'data': lambda c: (I(0), vol(c))})

remove_stripe_sf = Contract(
    'remove_stripe_sf', ['data', 'dx', 'dy', 'dz', 'size', 'istart', 'iend'], sizes={'data': vol},
    requires=lambda c: [('sizes', z3.And(c.dx >= 0, c.dy >= 0, c.dz >= 0)), ('slices', z3.And(c.istart >= 0, c.iend <= c.dy))],
    writes={'data': lambda c: (I(0), vol(c))})


# ---------------------------------------------------------------- stripe detection
def _pos3(c):
    return [('sizes', z3.And(c.dimX >= 1, c.dimY >= 1, c.dimZ >= 1)),
            ('position', z3.And(c.i >= 0, c.i < c.dimX, c.j >= 0, c.j < c.dimY, c.k >= 0, c.k < c.dimZ))]


def _index(c):
    return c.dimX * c.dimY * c.k + c.j * c.dimX + c.i


one = lambda nm: {nm: lambda c: (_index(c), _index(c) + 1)}
_fill = [lambda lc: lc.fn.dimX * lc.fn.dimY, lambda lc: lc.fn.dimX, lambda lc: I(1)]
every = lambda *ns: {n: (lambda c: (I(0), VOL(c))) for n in ns}
mirror_index = Contract('mirror_index', ['index', 'offset', 'dim'], requires=lambda c: [('index', z3.And(c.index >= 0, c.index < c.dim))], result='int',
                        ensures=lambda c: [('inside', z3.And(c.ret >= 0, c.ret < c.dim)),
                                           ('mirrored or in place', z3.Or(c.ret == c.index - c.offset, c.ret == c.index))])

G3 = Grid('dimZ', 'dimY', 'dimX')
G2 = Grid('dimY', 'dimX')
gradient3D_local = Contract(
    'gradient3D_local', ['input', 'output', 'dimX', 'dimY', 'dimZ', 'axis', 'step_size'], sizes={'input': VOL, 'output': VOL},
    requires=lambda c: [('sizes', z3.And(c.dimX >= 1, c.dimY >= 1, c.dimZ >= 1, c.step_size >= 0))],
    reads=every('input'), writes=every('output'), inits=every('output'), ghost=lambda c: G3.facts(), cands=G3.init_cands)
ratio_mean_stride3d = Contract(
    'ratio_mean_stride3d', ['input', 'output', 'radius', 'i', 'j', 'k', 'dimX', 'dimY', 'dimZ'], sizes={'input': VOL, 'output': VOL},
    requires=lambda c: _pos3(c) + [('radius', c.radius >= 1)], reads=dict(every('input'), **one('output')), writes=one('output'))
vertical_median_stride3d = Contract(
    'vertical_median_stride3d', ['input', 'output', 'window_halflength_vertical', 'window_fulllength', 'midval_window_index', 'i', 'j', 'k', 'dimX', 'dimY', 'dimZ'],
    sizes={'input': VOL, 'output': VOL},
    requires=lambda c: _pos3(c) + [('window', z3.And(c.window_halflength_vertical >= 0, c.window_fulllength == 2 * c.window_halflength_vertical + 1,
                                                     c.midval_window_index >= 0, c.midval_window_index < c.window_fulllength))],
    reads=every('input'), writes=one('output'), inits=one('output'))
mean_stride3d = Contract(
    'mean_stride3d', ['input', 'output', 'i', 'j', 'k', 'dimX', 'dimY', 'dimZ'], sizes={'input': VOL, 'output': VOL},
    requires=_pos3, reads=every('input'), writes=one('output'), inits=one('output'))
remove_inconsistent_stripes = Contract(
    'remove_inconsistent_stripes', ['mask', 'out', 'stripe_length_min', 'stripe_depth_min', 'sensitivity', 'switch_dim', 'i', 'j', 'k', 'dimX', 'dimY', 'dimZ'],
    sizes={'mask': VOL, 'out': VOL}, requires=_pos3, reads=every('mask'), writes=one('out'),
    ensures=lambda c: [('pixels are only taken out of the mask', z3.Or(c.out.post(_index(c)) == c.out.at(_index(c)), c.out.post(_index(c)) == 0))])
remove_short_stripes = Contract(
    'remove_short_stripes', ['mask', 'out', 'stripe_length_min', 'i', 'j', 'k', 'dimX', 'dimY', 'dimZ'],
    sizes={'mask': VOL, 'out': VOL}, requires=_pos3, reads=every('mask'), writes=one('out'),
    ensures=lambda c: [('pixels are only taken out of the mask', z3.Or(c.out.post(_index(c)) == c.out.at(_index(c)), c.out.post(_index(c)) == 0))])
merge_stripes = Contract(
    'merge_stripes', ['mask', 'out', 'stripe_length_min', 'stripe_width_min', 'i', 'j', 'k', 'dimX', 'dimY', 'dimZ'],
    sizes={'mask': VOL, 'out': VOL}, requires=_pos3, reads=dict(every('mask'), **one('out')), writes=one('out'),
    ensures=lambda c: [('pixels are only added to the mask', z3.Or(c.out.post(_index(c)) == c.out.at(_index(c)), c.out.post(_index(c)) == 1))])
_dims3 = lambda c: [('sizes', z3.And(c.dimX >= 1, c.dimY >= 1, c.dimZ >= 1))]
stripesdetect3d_main_float = Contract(
    'stripesdetect3d_main_float', ['Input', 'Output', 'window_halflength_vertical', 'ratio_radius', 'ncores', 'dimX', 'dimY', 'dimZ'],
    sizes={'Input': VOL, 'Output': VOL}, requires=lambda c: _dims3(c) + [('window', z3.And(c.window_halflength_vertical >= 1, c.ratio_radius >= 1))],
    writes=every('Output'), inits=every('Output'), result='int', fill=_fill)
stripesmask3d_main_float = Contract(
    'stripesmask3d_main_float', ['Input', 'Output', 'threshold_val', 'stripe_length_min', 'stripe_depth_min', 'stripe_width_min', 'sensitivity', 'ncores', 'dimX', 'dimY', 'dimZ'],
    sizes={'Input': VOL, 'Output': VOL}, requires=_dims3, writes=every('Output'), inits=every('Output'), result='int', fill=_fill)
STRIPES = {c.name: c for c in (mirror_index, gradient3D_local, ratio_mean_stride3d, vertical_median_stride3d, mean_stride3d, remove_inconsistent_stripes,
                               remove_short_stripes, merge_stripes)}

# ---------------------------------------------------------------- 3D median
def _med(name, three):
    P3 = ['i', 'j', 'k'] if three else ['i', 'j']
    D3 = ['dimX', 'dimY', 'dimZ'] if three else ['dimX', 'dimY']
    n = (lambda c: c.dimX * c.dimY * c.dimZ) if three else (lambda c: c.dimX * c.dimY)
    idx = (lambda c: c.dimX * c.dimY * c.k + c.j * c.dimX + c.i) if three else (lambda c: c.j * c.dimX + c.i)
    d = lambda c: 2 * c.radius + 1
    tot = (lambda c: d(c) * d(c) * d(c)) if three else (lambda c: d(c) * d(c))

    def req(c):
        r = [('sizes', z3.And(c.dimX >= 1, c.dimY >= 1, c.radius >= 0)), ('position', z3.And(c.i >= 0, c.i < c.dimX, c.j >= 0, c.j < c.dimY)),
             ('window', c.sizefilter_total == tot(c)), ('index', c.index == idx(c))]
        if three:
            r.append(('layer', z3.And(c.dimZ >= 1, c.k >= 0, c.k < c.dimZ)))
        return r
    st = [lambda lc: 2 * lc.fn.radius + 1] + ([lambda lc: (2 * lc.fn.radius + 1) * (2 * lc.fn.radius + 1)] if three else [])
    return Contract(name, ['Input', 'Output', 'radius', 'sizefilter_total', 'mu_threshold'] + P3 + ['index'] + D3, sizes={'Input': n, 'Output': n}, requires=req,
                    reads={'Input': lambda c: (I(0), n(c))}, writes={'Output': lambda c: (c.index, c.index + 1)}, strides=st)


MEDIAN = {n: _med(n, '3D' in n) for n in ('medfilt3D_float', 'medfilt2D_float', 'medfilt3D_uint16', 'medfilt2D_uint16')}


def _medmain(name):
    n = lambda c: z3.If(c.dimZ == 0, c.dimX * c.dimY, VOL(c))
    return Contract(name, ['Input', 'Output', 'radius', 'mu_threshold', 'ncores', 'dimX', 'dimY', 'dimZ'], sizes={'Input': n, 'Output': n},
                    requires=lambda c: [('sizes', z3.And(c.dimX >= 1, c.dimY >= 1, c.dimZ >= 0, c.radius >= 0))],
                    writes={'Output': lambda c: (I(0), n(c))}, result='int')


MEDMAIN = {n: _medmain(n) for n in ('medianfilter_main_float', 'medianfilter_main_uint16')}


# ---------------------------------------------------------------- inpainting
class Window:
    """There is a nonzero value in the direct neighbourhood: what the code's vicinity mean stands for, and what makes the
    list of neighbours collected from the larger window non-empty."""

    def __init__(self, three):
        self.g = G3 if three else G2
        self.centre = [z3.Int('arg_' + x) for x in (('k', 'j', 'i') if three else ('j', 'i'))]
        self.W = z3.Int('arg_W_halfsize')
        self.NZ, self.w0 = z3.Bool('a neighbour is nonzero'), z3.Int('nonzero_neighbour')

    def near(self, m, r):
        return z3.And(self.g.inside(m), *[z3.And(d(m) >= x - r, d(m) <= x + r) for d, x in zip(self.g.D, self.centre)])

    def ghost(self, c):
        m = z3.Int('m!w')
        v = c.Output.at
        return self.g.facts() + [z3.Implies(self.NZ, z3.And(self.near(self.w0, 1), v(self.w0) != 0)),
                                 FA(m, z3.Implies(z3.And(self.near(m, 1), v(m) != 0), self.NZ), v(m))]

    def hints(self, b, off):
        return self.g.hint(off) if b.name == 'Output' else []

    def cands(self, lc):
        out = lc.param_block('Output')
        for d in lc.reals():
            yield '%s is zero unless a neighbour is not' % lc.vc.vname(d), lambda s, lc, d=d: z3.Implies(s.vars[d] != 0, self.NZ)
        for e in lc.ints():
            for seq, perm, nm in self.g.nests(lc):
                if e in seq:
                    continue
                for ce in (self.centre, None):
                    def f(s, lc, e=e, seq=seq, perm=perm, ce=ce):
                        m = z3.Int('m!w')
                        v = z3.Select(s.mem[out], m)
                        return z3.Implies(s.vars[e] == 0, FA(m, z3.Implies(z3.And(self.near(m, self.W), self.g.visited(s, seq, perm, m, ce)), v == 0), v))
                    yield 'no nonzero value before %s while %s is zero%s' % (nm, lc.vc.vname(e), '' if ce is None else ' (centred)'), f


def _inp(name, params, three, extra=lambda c: [], reads=(), writes=(), sizes=None, strides=None):
    P3 = ['i', 'j', 'k'] if three else ['i', 'j']
    D3 = ['dimX', 'dimY', 'dimZ'] if three else ['dimX', 'dimY']
    n = (lambda c: c.dimX * c.dimY * c.dimZ) if three else (lambda c: c.dimX * c.dimY)
    idx = (lambda c: c.dimX * c.dimY * c.k + c.j * c.dimX + c.i) if three else (lambda c: c.j * c.dimX + c.i)

    def req(c):
        r = [('sizes', z3.And(c.dimX >= 1, c.dimY >= 1)), ('position', z3.And(c.i >= 0, c.i < c.dimX, c.j >= 0, c.j < c.dimY))]
        if three:
            r.append(('layer', z3.And(c.dimZ >= 1, c.k >= 0, c.k < c.dimZ)))
        return r + extra(c)
    at = lambda c: (idx(c), idx(c) + 1)
    rd = {p: (at if p in writes else (lambda c: (I(0), n(c)))) for p in reads}
    con = Contract(name, params + P3 + D3, sizes=dict({p: n for p in params if p in ('Mask', 'M_upd', 'Output', 'Updated')}, **(sizes or {})), requires=req,
                   reads=rd, writes={p: at for p in writes}, strides=strides)
    if name.startswith('median_rand'):
        w = Window(three)
        con.ghost, con.hints, con.cands, con.atmost = w.ghost, w.hints, w.cands, True
    return con


_W = lambda c: 2 * c.W_halfsize + 1
_s1 = [lambda lc: I(1), lambda lc: 2 * lc.fn.W_halfsize + 1]
_s2 = _s1 + [lambda lc: (2 * lc.fn.W_halfsize + 1) * (2 * lc.fn.W_halfsize + 1)]
INPAINT = {
    'mean_smoothing_2D': _inp('mean_smoothing_2D', ['Mask', 'Output', 'Updated'], False, reads=('Mask', 'Output'), writes=('Updated',)),
    'mean_smoothing_3D': _inp('mean_smoothing_3D', ['Mask', 'Output', 'Updated'], True, reads=('Mask', 'Output'), writes=('Updated',)),
    'eucl_weighting_inpainting_2D': _inp('eucl_weighting_inpainting_2D', ['M_upd', 'Output', 'Updated', 'Gauss_weights', 'W_halfsize'], False,
                                         lambda c: [('window', c.W_halfsize >= 1)], ('M_upd', 'Output'), ('M_upd', 'Updated'),
                                         {'Gauss_weights': lambda c: _W(c) * _W(c)}, _s1),
    'eucl_weighting_inpainting_3D': _inp('eucl_weighting_inpainting_3D', ['M_upd', 'Output', 'Updated', 'Gauss_weights', 'W_halfsize'], True,
                                         lambda c: [('window', c.W_halfsize >= 1)], ('M_upd', 'Output'), ('M_upd', 'Updated'),
                                         {'Gauss_weights': lambda c: _W(c) * _W(c) * _W(c)}, _s2),
    'median_rand_inpainting_2D': _inp('median_rand_inpainting_2D', ['M_upd', 'Output', 'Updated', 'W_halfsize', 'window_fullength', 'method_type'], False,
                                      lambda c: [('window', z3.And(c.W_halfsize >= 1, c.window_fullength == _W(c) * _W(c)))], ('M_upd', 'Output'), ('M_upd', 'Updated'), None, _s1),
    'median_rand_inpainting_3D': _inp('median_rand_inpainting_3D', ['M_upd', 'Output', 'Updated', 'W_halfsize', 'window_fullength', 'method_type'], True,
                                      lambda c: [('window', z3.And(c.W_halfsize >= 1, c.window_fullength == _W(c) * _W(c) * _W(c)))], ('M_upd', 'Output'), ('M_upd', 'Updated'), None, _s2),
}
inpaint_main = Contract(
    'Inpainter_morph_main', ['Input', 'Mask', 'Output', 'iterations', 'W_halfsize', 'method_type', 'ncores', 'dimX', 'dimY', 'dimZ'],
    sizes={'Input': VOL, 'Mask': VOL, 'Output': VOL}, requires=lambda c: _dims3(c) + [('window', c.W_halfsize >= 1)],
    writes=every('Output'), inits=every('Output'), result='int', strides=_s2, fill=_fill)

FILES = {}
for _c in (downsample, upsample):
    FILES[_c.name] = (M + 'morph.c', _c, {})
FILES['sample'] = (M + 'morph.c', sample, {'downsample': downsample, 'upsample': upsample})
FILES['normalize_bg'] = (PR + 'prep.c', normalize_bg, {})
FILES['remove_stripe_sf'] = (PR + 'stripe.c', remove_stripe_sf, {})
for _n, _c in STRIPES.items():
    FILES[_n] = (PR + 'stripes_detect3d.c', _c, STRIPES)
for _c in (stripesdetect3d_main_float, stripesmask3d_main_float):
    FILES[_c.name] = (PR + 'stripes_detect3d.c', _c, STRIPES)
for _n, _c in list(MEDIAN.items()) + list(MEDMAIN.items()):
    FILES[_n] = (M + 'median_filt3d.c', _c, MEDIAN)
for _n, _c in INPAINT.items():
    FILES[_n] = (M + 'inpainter.c', _c, INPAINT)
FILES['Inpainter_morph_main'] = (M + 'inpainter.c', inpaint_main, INPAINT)


def unit(name, facets, change=None, timeout_ms=8000):
    def run(L):
        from . import cast, cvc
        from .obl import Unsupported
        path, c, con = FILES[name]
        tu = cast.parse(path)
        con = {k: v for k, v in con.items() if k != name and k in tu['functions']}
        if change is not None:
            c, con = change(c, con)
        if name not in tu['functions']:
            raise Unsupported('%s is not defined in %s' % (name, path))
        L.under_contract('%s (%s)' % (name, path))
        L.assume('C integers do not overflow and floats are exact reals', 'malloc and calloc succeed', 'pointer arguments of one call do not overlap')
        g = cvc.VCGen(L, tu['functions'][name], tu, c, contracts=con, facets=facets, funcs=tu['functions'], timeout_ms=timeout_ms)
        g.run()
        run.gen = g
    return run
