"""C13: the inputs are left as they are and out= is honoured."""
from .. import pyu as U
from . import C07, C08, C09, C10, C11, C12, C16

ORACLE_S = 45
ORACLE_WHAT = ('every public function on the real code: bytes, type, shape and strides of all array arguments before and after, memory shared with the result, and out= (new, strided, or the input itself) '
               'against the result without it')
KEEP = ('not changed', 'put into out', 'shares no memory')
# these work in place, as documented
SKIP = ('C10.remove_neg', 'C10.adjust_range', 'C16.circ_mask', 'C11.bad_arguments')
UNITS = {}
for _m in (C07, C08, C09, C10, C11, C12, C16):
    _p = _m.__name__.split('.')[-1]
    for _n, _f in _m.UNITS.items():
        if not _n.startswith('c_') and '%s.%s' % (_p, _n) not in SKIP:
            UNITS[_n] = U.only(_f, *KEEP)
COST = {'upsample': 5, 'downsample': 5, 'normalize': 5}
