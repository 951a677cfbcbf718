"""C02: every slice is reconstructed on its own."""
from .. import recon_c as R

ORACLE_S = 45
ORACLE_WHAT = ('every reconstruction method and the projector run on stacks and on single slices of the real code, for many core and chunk counts, '
               'per-slice centers, initial images, slice orders and one slice of NaN')
FUNCS = ['art', 'bart', 'fbp', 'grad', 'osem', 'ospml_hybrid', 'ospml_quad', 'tikh', 'tv', 'project', 'project2', 'vector']
COST = {'ospml_hybrid': 8, 'ospml_quad': 8, 'tv': 7, 'tikh': 6, 'grad': 6}
UNITS = {f: R.unit(f, ['flow']) for f in FUNCS}
