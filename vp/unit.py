"""Runs one proof unit in its own process:  python -m vp.unit <property> <unit> <out.json>"""
import importlib
import json
import sys
import time
import traceback


def main():
    pid, unit, out = sys.argv[1:4]
    from .obl import Ledger, Unsupported
    L = Ledger(pid)
    t0 = time.time()
    res = dict(unit=unit, unsupported=None)
    try:
        mod = importlib.import_module('vp.props.%s' % pid)
        mod.UNITS[unit](L)
    except Unsupported as e:
        res['unsupported'] = str(e)[:500]
    except Exception:
        res['unsupported'] = 'verifier error: ' + traceback.format_exc()[-1500:]
    res.update(obls=[o.as_dict() for o in L.obls], assumptions=L.assumptions, functions=L.functions, trusted=L.trusted,
               covers=L.covers, solver_secs=L.solver_secs, secs=time.time() - t0)
    with open(out, 'w') as f:
        json.dump(res, f)


main()
