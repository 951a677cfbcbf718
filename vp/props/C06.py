"""C06: the iterative methods follow their update rules."""
from .. import recon_c as R

ORACLE_S = 50
ORACLE_WHAT = ('every compiled reconstruction method on the real code against an independent double precision implementation of its update rule, '
               'with random grids, angles, centers, subsets, orders, initial images and parameters')
FUNCS = ['art', 'bart', 'fbp', 'grad', 'osem', 'ospml_hybrid', 'ospml_quad', 'tikh', 'tv']
COST = {'ospml_hybrid': 8, 'ospml_quad': 8, 'tv': 7, 'tikh': 6, 'grad': 6}
UNITS = {f: R.unit(f, ['init']) for f in FUNCS}
