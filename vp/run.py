"""One check:  python -m vp.run <property> <quick|thorough>.

1. every proof unit of the property runs in its own process (obligations are generated from /repo's
   current source and discharged by z3);
2. the contract oracle of the property runs on the real code, rebuilt from /repo (it validates the
   assumed contracts, stands in - bounded, labelled so - for functions out of the verifier's reach,
   and looks for a failing input when an obligation fails).
exit 0: held;  exit 1 + VIOLATION line: broken.
"""
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build as B

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = min(8, os.cpu_count() or 1)


def call(cmd, env, limit, cwd=HERE):
    """Run in its own session, at most limit seconds; returns (rc or None, stderr tail)."""
    err = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    err.seek(0)
    return rc, err.read().decode('utf8', 'replace')[-1500:]


def run_unit(args):
    pid, unit, tmp, limit = args
    out = os.path.join(tmp, 'unit_%s.json' % unit.replace('/', '_'))
    env = dict(os.environ)
    rc, err = call([PY, '-m', 'vp.unit', pid, unit, out], env, limit)
    if os.path.exists(out):
        return json.load(open(out))
    return dict(unit=unit, unsupported='time limit of %d s reached' % limit if rc is None else 'verifier died: ' + err[-600:],
                obls=[], assumptions=[], functions=[], trusted=[], covers=[], solver_secs=0, secs=limit)


def run_oracle(pid, tmp, libdir, tier, seed, budget, parts, tag, limit=None):
    mod_env = B.oracle_env(importlib.import_module('vp.props.%s' % pid), libdir)
    res = dict(evaluations=0, distinct=0, failures=[], samples=[], notes=[])

    def one(part):
        out = os.path.join(tmp, 'oracle_%s_%d.json' % (tag, part))
        rc, err = call([PY, '-m', 'vp.oracle_worker', pid, str(seed), tier, str(part), str(parts), str(budget), out],
                       mod_env, limit or (budget + 120))
        r = json.load(open(out)) if os.path.exists(out) else dict(evaluations=0, distinct=0, failures=[], samples=[], current=None, done=False)
        if not r.get('done'):
            if r.get('current'):
                if rc is None:
                    r['failures'].append(dict(r['current'], why='the call did not return within the time limit', hang=True))
                else:
                    r['failures'].append(dict(r['current'], why='the process died (exit %s): %s' % (rc, err[-700:])))
            else:
                r['note'] = 'oracle worker did not start: rc=%s %s' % (rc, err[-1200:])
        return r
    with cf.ThreadPoolExecutor(parts) as ex:
        for r in ex.map(one, range(parts)):
            for k in ('evaluations', 'distinct'):
                res[k] += r[k]
            res['failures'] += r['failures']
            res['samples'] += r['samples'][:1]
            if r.get('note'):
                res['notes'].append(r['note'])
    return res


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        rc = check(pid, tier, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def matches(k, f):
    if k.get('kind') != f.get('kind'):
        return False
    want = k.get('args') or {}
    return all(f.get('args', {}).get(a) == v for a, v in want.items())


def check(pid, tier, tmp, t0):
    mod = importlib.import_module('vp.props.%s' % pid)
    units = list(mod.UNITS)
    has_oracle = os.path.exists(os.path.join(HERE, 'vp', 'oracle', pid + '.py'))
    libdir = None
    build_err = None
    ex = cf.ThreadPoolExecutor(NCPU)
    fut_build = None
    if has_oracle and getattr(mod, 'BUILD', True):
        libdir = os.path.join(tmp, 'lib')
        fut_build = ex.submit(B.build, libdir, getattr(mod, 'CMAKE', ()))
    ulimit = getattr(mod, 'UNIT_LIMIT', 300 if tier == 'quick' else 1500)
    order = sorted(units, key=lambda u: -getattr(mod, 'COST', {}).get(u, 1))
    futs = {u: ex.submit(run_unit, (pid, u, tmp, ulimit)) for u in order}
    if fut_build is not None:
        build_err = fut_build.result()
    results = [futs[u].result() for u in units]
    obls = [dict(o) for r in results for o in r['obls']]
    failed = [o for o in obls if o['status'] != 'proved']
    unsupported = [(r['unit'], r['unsupported']) for r in results if r['unsupported']]
    for r in results:
        if not r['unsupported'] and not r['obls']:
            unsupported.append((r['unit'], 'no obligation was generated'))

    # ---- the oracle on the real code
    oracle = None
    if has_oracle:
        if build_err:
            print('note: the C libraries do not build: %s' % build_err[-300:])
        budget = getattr(mod, 'ORACLE_S', 40) * (1 if tier == 'quick' else 8)
        oracle = run_oracle(pid, tmp, libdir, tier, SEED, budget, getattr(mod, 'ORACLE_PARTS', NCPU), 'a')
        if failed and not oracle['failures']:
            # a failed obligation: look harder for an input that shows it
            more = run_oracle(pid, tmp, libdir, 'thorough', SEED + 1000, 90 if tier == 'quick' else 600, NCPU, 'b')
            for k in ('evaluations', 'distinct'):
                oracle[k] += more[k]
            oracle['failures'] += more['failures']
        for n in oracle['notes']:
            print('note: ' + n)

    # ---- decide
    known = known_findings(pid)
    reported, fresh = [], []
    for f in (oracle['failures'] if oracle else []):
        k = next((k for k in known if matches(k, f)), None)
        (reported if k else fresh).append((k, f))
    shown = set()
    for k in known:
        if k.get('always') or any(k is q for q, _ in reported):
            if k['what'] not in shown:
                shown.add(k['what'])
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    kobl = [k for k in known if k.get('obligation')]
    failed_new = []
    for o in failed:
        k = next((k for k in kobl if k['obligation'] in ('%s: %s' % (o['unit'], o['name']))), None)
        if k is None:
            failed_new.append(o)
        elif k['what'] not in shown:
            shown.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    violations = 0
    replay = None
    line = None
    if fresh:
        violations = len(fresh)
        f = fresh[0][1]
        replay = write_replay(pid, dict(property=pid, kind=f['kind'], args=f['args'], why=f['why'], failed_obligations=failed_new[:10],
                                        replay_with='cd %s && ./replay.sh <this file>   (rebuilds /repo and reruns the case)' % HERE))
        line = 'VIOLATION property=%s replay=%s' % (pid, replay)
        print('%s %s: %s' % (f['kind'], json.dumps(f['args'])[:300], f['why'][:700]))
    elif failed_new:
        violations = len(failed_new)
        replay = write_replay(pid, dict(property=pid, failed_obligations=failed_new[:20], note='no failing input was found',
                                        search=dict(evaluations=oracle['evaluations'] if oracle else 0)))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)
    for o in failed_new[:8]:
        print('obligation not discharged: %s: %s at %s (%s %s)' % (o['unit'], o['name'], o.get('where'), o['status'], o.get('reason', '')))
    for u, why in unsupported:
        print('out of reach on this tree (the bounded oracle stands in): %s: %s' % (u, why.strip().splitlines()[-1][:200] if why.strip() else ''))
    evidence(pid, mod, tier, results, obls, failed, unsupported, oracle, violations, t0)
    n = len(obls)
    print('%s: %d obligations, %d discharged, %d proof units (%d out of reach), %d oracle evaluations, %.1f s'
          % (pid, n, n - len(failed), len(units), len(unsupported), oracle['evaluations'] if oracle else 0, time.time() - t0))
    if line:
        print(line)
        return 1
    return 0


def write_replay(pid, d):
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', 'replay', '%s.json' % pid)
    with open(p, 'w') as f:
        json.dump(d, f, indent=1)
    return p


def evidence(pid, mod, tier, results, obls, failed, unsupported, oracle, violations, t0):
    uniq = lambda seq: list(dict.fromkeys(x if isinstance(x, str) else json.dumps(x) for x in seq))
    by = {}
    for o in obls:
        d = by.setdefault(o['unit'], dict(obligations=0, discharged=0, solver_s=0.0))
        d['obligations'] += 1
        d['discharged'] += o['status'] == 'proved'
        d['solver_s'] = round(d['solver_s'] + o['secs'], 3)
    cov = dict(obligations=len(obls), discharged=len(obls) - len(failed),
               checker_cmd='./check.sh %s %s  (z3 %s; VC generators vp/pysym.py, vp/cvc.py)' % (pid, tier, z3v()),
               trusted_base=uniq(['z3', 'clang AST', 'the VC generators in /verif/vp'] + [t for r in results for t in r['trusted']]),
               functions_under_contract=uniq(f for r in results for f in r['functions']),
               back_end='z3', solver_seconds=round(sum(o['secs'] for o in obls), 2), per_unit=by,
               reachability=[c for r in results for c in r['covers']][:60],
               out_of_reach=[dict(unit=u, reason=w[:300], stand_in='bounded oracle on the real code') for u, w in unsupported],
               failed=[dict(unit=o['unit'], name=o['name'], where=o['where'], status=o['status']) for o in failed][:20])
    if oracle:
        cov['bounded_validation'] = dict(label='bounded; not counted as proved', evaluations=oracle['evaluations'], distinct=oracle['distinct'],
                                         what=getattr(mod, 'ORACLE_WHAT', ''), samples=oracle['samples'][:3])
    d = dict(property=pid, tier=tier, seed=SEED, level='proof', coverage=cov,
             assumptions=uniq(list(getattr(mod, 'ASSUMPTIONS', [])) + [a for r in results for a in r['assumptions']]),
             wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1)
    os.replace(p + '.tmp', p)


def z3v():
    try:
        from .obl import z3
        return z3.get_version_string()
    except Exception:
        return '?'


main()
