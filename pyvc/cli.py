import argparse
import glob
import importlib
import json
import os
import sys
import time

from . import runner
from .runner import VERIF

EVID = os.environ.get('PYVC_EVID') or os.path.join(VERIF, 'evidence')


def load(prop):
    runner.setup_path()
    mods = sorted(glob.glob(os.path.join(VERIF, 'contracts', prop.lower() + '*.py')))
    for m in mods:
        n = os.path.splitext(os.path.basename(m))[0]
        importlib.import_module('contracts.' + n)
    return [o for o in runner.OBS if o.prop == prop]


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    try:
        obs = load(prop)
    except BaseException as e:
        import traceback
        return report(prop, a.tier, seed, [], t0, load_error=traceback.format_exc())
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    if a.list:
        for o in obs:
            print(o.id)
        return 0
    if a.tier == 'quick':
        obs = [o for o in obs if o.tier == 'quick']
    obs.sort(key=lambda o: -o.timeout)
    res = runner.run_all(obs, a.tier, seed, a.jobs, a.v)
    return report(prop, a.tier, seed, res, t0, partial=bool(a.only))


def report(prop, tier, seed, res, t0, load_error=None, partial=False):
    bad = [r for r in res if not r['ok']]
    if load_error:
        bad = [{'id': prop + '/load', 'name': 'load', 'ok': False, 'error': 'the code or its contracts cannot be loaded: ' + load_error,
                'fails': [], 'vcs': 0, 'discharged': 0}]
    elif not res:
        bad = [{'id': prop + '/none', 'name': 'none', 'ok': False, 'error': 'no obligations', 'fails': [], 'vcs': 0,
                'discharged': 0}]
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    bounded = sum(1 for r in res if r.get('bounded'))
    import z3
    cov = {
        'obligations': sum(r['vcs'] for r in res),
        'discharged': sum(r['discharged'] for r in res),
        'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (prop, tier),
        'back_end': 'z3 %s (python3-vt)' % z3.get_version_string(),
        'trusted_base': trusted(),
        'harnesses': len(res),
        'harnesses_ok': sum(1 for r in res if r['ok']),
        'functions_under_contract': sorted({f for r in res for f in r.get('functions', [])}),
        'solver_s': round(sum(r.get('solver_s', 0) for r in res), 2),
        'solver_queries': sum(r.get('checks', 0) for r in res),
        'paths': sum(r.get('paths') or 0 for r in res),
        'witnesses_replayed': sum((r.get('witness') or {}).get('replayed', 0) for r in res),
        'witnesses_agreeing': sum((r.get('witness') or {}).get('agree', 0) for r in res),
        'native_search_cases': sum(r.get('searched', 0) for r in res),
        'per_obligation': [{'id': r['id'], 'ok': r['ok'], 'vcs': r['vcs'], 'discharged': r['discharged'],
                            'paths': r.get('paths'), 'solver_s': r.get('solver_s'), 'wall_s': r.get('wall_s'),
                            'labels': r.get('labels'), 'witness': r.get('witness'), 'error': r.get('error')} for r in res],
        'undischarged': [{'id': r['id'], 'error': r.get('error'), 'fails': [
            {k: f.get(k) for k in ('label', 'solver', 'path')} for f in r['fails'][:10]]} for r in bad],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': sorted({x for r in res for x in r.get('assumed', [])}) + GLOBAL_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    if not partial:
        with open(os.path.join(EVID, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    if not bad:
        print('OK property=%s obligations=%d discharged=%d harnesses=%d functions=%d wall=%.1fs' % (
            prop, cov['obligations'], cov['discharged'], len(res), len(cov['functions_under_contract']), ev['wall_s']))
        return 0
    bad.sort(key=lambda r: not any(f.get('confirmed') for f in r['fails']))
    if any(not r.get('skipped') for r in bad):
        cut = [r for r in bad if r.get('skipped')]
        bad = [r for r in bad if not r.get('skipped')]
        if cut:
            print('%d further obligations were not run' % len(cut))
    for r in bad:
        p = os.path.join(EVID, 'replay', r['id'].replace('/', '__').replace(' ', '_') + '.json')
        conf = [f for f in r['fails'] if f.get('confirmed')]
        data = {'property': prop, 'obligation': r['id'], 'verifier_error': r.get('error'),
                'failed': [{k: f.get(k) for k in ('label', 'solver', 'path')} for f in r['fails']],
                'how': 'python3-vt /verif/check.py --replay ' + p}
        if conf:
            data['label'] = conf[0]['label']
            data['inputs'] = conf[0]['confirmed'].get('inputs')
            data['native_calls'] = conf[0]['confirmed'].get('calls')
        with open(p, 'w') as f:
            json.dump(data, f, indent=1, default=repr)
        what = '; '.join(sorted({f['label'] for f in r['fails']}))[:200] or (r.get('error') or '')[:200].replace('\n', ' ')
        print('failed obligation %s: %s' % (r['id'], what))
        if conf:
            print('VIOLATION property=%s replay=%s' % (prop, p))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    return 1


def trusted():
    return ['pyvc verification-condition generator (/verif/pyvc): Python-subset semantics over the AST of the real functions',
            'z3 as decision procedure', 'CPython (import of the code under proof, class tables read from the live classes)',
            'models of external libraries listed under assumptions']


GLOBAL_ASSUMPTIONS = [
    'integers and reals are mathematical; str values are sequences of Unicode code points in the solver range',
    'no concurrent mutation of the objects during a call; MemoryError/KeyboardInterrupt/RecursionError not modelled',
    'logging calls have no effect; message text of exceptions is not specified',
    'values inside messages are JSON-like (None, bool, number, str, bytes, list, mapping, message)',
]


def replay(path):
    d = json.load(open(path))
    prop, name = d['obligation'].split('/', 1)
    obs = load(prop)
    ob = [o for o in obs if o.name == name]
    if not ob or 'inputs' not in d:
        print(json.dumps(d, indent=1))
        return 1
    b = runner.native_run(ob[0], runner.dec(d['inputs']))
    print(json.dumps({'inputs': d['inputs']}, indent=1))
    print(b and {k: b[k] for k in ('failed', 'calls') if k in b}, (b or {}).get('error', ''))
    return 1 if b and b['failed'] else 0
