#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property by static analysis of
the source under /repo (nothing of it is imported or executed)."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = '/opt/venv/bin/python'
if os.path.exists(PYPY) and not os.environ.get('VERIF_PYTHON') and sys.implementation.name != 'pypy':
    os.environ['VERIF_PYTHON'] = '1'
    try:
        os.execv(PYPY, [PYPY, '-B', os.path.abspath(__file__)] + sys.argv[1:])
    except OSError:
        pass
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from checks import base, registry          # noqa: E402


def known():
    """known findings: (property, key) pairs, from known_findings.txt"""
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for l in f:
            l = l.rstrip('\n')
            if l.startswith('known: '):
                head, _, what = l[7:].partition(' :: ')
                pid, _, key = head.partition(' ')
                out.append((pid.split('=')[1], key.strip(), what))
    return out


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv[2:] else 'quick'
    t0 = time.time()
    mod, arg = registry.CHECKS[pid]
    import importlib
    m = importlib.import_module('checks.' + mod)
    jobs = m.jobs(pid, tier)
    res = base.run_jobs('checks.' + mod, jobs, limit=getattr(m, 'JOB_LIMIT', 800))
    errors = [(j, e) for j, _, _, e, _ in res if e]
    obs = []
    info = {}
    for j, rows, inf, e, dt in res:
        obs += rows
        for k, v in inf.items():
            if isinstance(v, (set, frozenset)):
                info.setdefault(k, set()).update(v)
            elif isinstance(v, (int, float)):
                info[k] = info.get(k, 0) + v
            else:
                info[k] = v
    # one verdict per obligation key
    keys = {}
    for k, ok, detail, where in obs:
        r = keys.setdefault(k, {'instances': 0, 'bad': []})
        r['instances'] += 1
        if not ok:
            r['bad'].append((detail, where))
    need = getattr(m, 'MIN', {}).get(pid, {})
    if isinstance(need, int):
        need = {'*': need}
    short = []
    for k, n in need.items():
        have = len(obs) if k == '*' else sum(v['instances'] for q, v in keys.items() if k in q)
        if have < n:
            short.append('%s: %d instances, at least %d expected' % (k, have, n))
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    kn = known()
    viol = []
    found = []
    for k in sorted(keys):
        if keys[k]['bad']:
            hit = [x for x in kn if x[0] == pid and x[1] == k]
            (found if hit else viol).append((k, keys[k]['bad'], hit[0][2] if hit else ''))
    cov = {
        'explanation': m.explain(pid) if hasattr(m, 'explain') else '',
        'rule': registry.RULES.get(pid, ''),
        'obligations': len(keys), 'instances': len(obs),
        'discharged': sum(1 for r in obs if r[1]),
        'unproved': sum(1 for r in obs if not r[1]),
        'known findings': [k for k, _, _ in found],
        'obligation list': {k: v['instances'] for k, v in sorted(keys.items())},
        'jobs': {str(j): round(dt, 1) for j, _, _, _, dt in res},
    }
    for k, v in info.items():
        cov[k] = sorted(v) if isinstance(v, (set, frozenset)) and k != 'statements' else \
            (len(v) if isinstance(v, (set, frozenset)) else v)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    if errors or short:
        ev['coverage']['errors'] = [str(e)[:2000] for _, e in errors] + short
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for k, bad, what in found:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, what))
    for k, bad, _ in viol:
        print('not proved: %s (%d instances)' % (k, len(bad)))
        for d, w in bad[:2]:
            print('    at %s\n    %s' % (w or '?', d[:400]))
    if viol:
        rp = os.path.join(evdir, 'replay-%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'replay': 'python3 check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''),
                       'violations': [{'obligation': k, 'instances': [{'where': w, 'detail': d} for d, w in bad[:10]]}
                                      for k, bad, _ in viol]}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errors or short:
        for j, e in errors:
            print('ERROR in job %s:\n%s' % (j, '\n'.join(str(e).splitlines()[-12:])))
        for s in short:
            print('ERROR: ' + s)
        return 2
    print('%s holds: %d obligations, %d instances, %.1f s' % (pid, len(keys), len(obs), time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
