"""C14: the result depends on the values of the arrays, not on their type or memory layout."""
from .. import pyu as U
from . import C07, C08, C09, C10, C11, C12, C16

ORACLE_S = 45
ORACLE_WHAT = ('every public function on the real code with the same values as different element types, byte orders and memory layouts (Fortran order, strided, reversed, transposed, read-only, cut out of a larger array)')
KEEP = ('has elements of type', 'is contiguous', 'as large as it needs', 'is passed as', 'the result is float32', 'element type', 'right type', 'gets the', 'filtered by itself', 'minus the logarithm',
        'every pixel is', 'input is in the middle', 'are kept', 'first half', 'second half', 'every projection is', 'negative values', 'filtered as such', 'becomes the median', 'a row is cut out')
SKIP = ('C11.bad_arguments', 'C10.adjust_range')
UNITS = {}
for _m in (C07, C08, C09, C10, C11, C12, C16):
    _p = _m.__name__.split('.')[-1]
    for _n, _f in _m.UNITS.items():
        if not _n.startswith('c_') and '%s.%s' % (_p, _n) not in SKIP:
            UNITS[_n] = U.only(_f, *KEEP)
COST = {'upsample': 5, 'downsample': 5, 'normalize': 5, 'normalize_nf': 4}
