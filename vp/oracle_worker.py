"""Runs the contract oracle of one property on the real code:
python -m vp.oracle_worker <property> <seed> <tier> <part> <parts> <budget_s> <out.json> [case.json]"""
import importlib
import json
import os
import sys
import time
import traceback


def main():
    pid, seed, tier, part, parts, budget, out = sys.argv[1:8]
    seed, part, parts, budget = int(seed), int(part), int(parts), float(budget)
    mod = importlib.import_module('vp.oracle.%s' % pid)
    t0 = time.time()
    res = dict(evaluations=0, failures=[], samples=[], distinct=0, done=False)

    def flush():
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f)
        os.replace(out + '.tmp', out)
    if len(sys.argv) > 8:
        case = json.load(open(sys.argv[8]))
        cases = [(case['kind'], case['args'])]
        parts = 1
    else:
        cases = mod.cases(seed, tier)
    seen = set()
    last = 0
    for i, (kind, args) in enumerate(cases):
        if i % parts != part:
            continue
        if time.time() - t0 > budget:
            break
        res['current'] = dict(kind=kind, args=args)
        if time.time() - last > 0.0:
            flush()
            last = time.time()
        try:
            why = mod.run_case(kind, args)
        except Exception:
            why = 'unexpected exception: ' + traceback.format_exc()[-1200:]
        res['evaluations'] += 1
        key = json.dumps([kind, args], sort_keys=True)
        if key not in seen:
            seen.add(key)
        if len(res['samples']) < 3:
            res['samples'].append(dict(kind=kind, args=args))
        if why:
            res['failures'].append(dict(kind=kind, args=args, why=str(why)[:1500]))
            if len(res['failures']) >= 5:
                break
    res['distinct'] = len(seen)
    res['current'] = None
    res['done'] = True
    flush()
    os._exit(0)


main()
