"""python -m vp.replay <replay file>: rebuilds the C libraries from /repo and reruns the failing case."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import build as B


def main():
    case = json.load(open(sys.argv[1]))
    pid = case['property']
    if 'kind' not in case:
        print('no failing input is known; failed obligations:')
        print(json.dumps(case.get('failed_obligations'), indent=1))
        return 1
    mod = importlib.import_module('vp.props.%s' % pid)
    t = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        print(B.build(t + '/lib', getattr(mod, 'CMAKE', ())) or 'built')
        p = subprocess.run([sys.executable, '-m', 'vp.oracle_worker', pid, '1', 'quick', '0', '1', '600', t + '/out.json', sys.argv[1]],
                           env=B.oracle_env(mod, t + '/lib'), capture_output=True, text=True)
        r = json.load(open(t + '/out.json'))
        if not r['done']:
            print('the process died (exit %s)' % p.returncode, p.stderr[-3000:])
            return 1
        print(json.dumps(r['failures'], indent=1))
        return 1 if r['failures'] else 0
    finally:
        shutil.rmtree(t, ignore_errors=True)


sys.exit(main())
