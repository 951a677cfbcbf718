"""C04: the projector computes line integrals."""
from .. import recon_c as R

ORACLE_S = 45
ORACLE_WHAT = ('project, project2 and project3 on the real code against an independent double precision model of the geometry: random and standard '
               'angles, grids, detector widths, per-slice centers, emission/transmission, padding and output orders')
UTIL = ['preprocessing', 'calc_coords', 'trim_coords', 'sort_intersections', 'calc_dist', 'calc_dist2', 'calc_simdata', 'calc_simdata2', 'calc_simdata3']
COST = {'project': 3, 'project2': 3, 'project3': 4}
UNITS = {f: R.unit(f, ['mem', 'init']) for f in UTIL + ['project', 'project2', 'project3']}
