"""C05: multiplicative and penalised-likelihood reconstructions stay non-negative and finite."""
from .. import recon_c as R

ORACLE_S = 40
ORACLE_WHAT = 'mlem, osem, ospml_* and pml_* on the real code with sparse, zero, tiny and huge non-negative data, many grids, subsets and initial images'
COST = {'osem': 3, 'ospml_quad': 5, 'ospml_hybrid': 6}
UNITS = {
    'osem': R.unit('osem', ['nonneg'], R.nonneg_change(False)),
    'ospml_quad': R.unit('ospml_quad', ['nonneg'], R.nonneg_change(True)),
    'ospml_hybrid': R.unit('ospml_hybrid', ['nonneg'], R.nonneg_change(True)),
    'calc_simdata': R.unit('calc_simdata', ['nonneg'], lambda c, con: (R.nonneg_simdata_contract(), con)),
    'calc_dist': R.unit('calc_dist', ['mem']),
}
