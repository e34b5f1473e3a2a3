"""Runs one property's check: evidence file, known findings, exit status."""
import hashlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    """violations: list of dict(key, file, line, function, rule, message); key does not mention line numbers"""

    def __init__(s, level='other'):
        s.violations = []
        s.coverage = {}
        s.assumptions = []
        s.level = level
        s.obligations = 0

    def add(s, file, line, function, rule, message, key=None):
        k = key or '%s|%s|%s|%s' % (rule, file, function, message)
        if any(v['key'] == k and v['line'] == line for v in s.violations):
            return
        s.violations.append(dict(key=k, file=file, line=line, function=function, rule=rule, message=message))


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))['findings'] if x['property'] == prop and x.get('status') == 'known']


def main(prop, fn, tier):
    t = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = os.environ.get('VSA_EV') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        r = fn(tier)
    except Exception as e:              # the analysis itself failed: neither "holds" nor "violated"
        traceback.print_exc()
        print('ERROR property=%s the analysis could not run: %s' % (prop, e))
        with open(os.path.join(ev, prop + '.json'), 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t, 2),
                           coverage=dict(explanation='the analysis failed: %s' % e)), f, indent=1)
        return 2
    kn = {x['key']: x for x in known(prop)}
    new, old = [], []
    for v in r.violations:
        (old if v['key'] in kn else new).append(v)
    rep = os.path.join(ev, prop + '.violations.json')
    if os.path.exists(rep):
        os.unlink(rep)
    for v in {x['key']: x for x in old}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[v['key']]['what']))
    for k, x in kn.items():
        if k not in {v['key'] for v in r.violations}:
            print('note: known finding no longer reported: %s' % x['what'])
    for k, v in r.coverage.items():
        if isinstance(v, (int, float, str)) and k != 'explanation':
            print('  %s: %s' % (k, v))
    cov = dict(r.coverage)
    cov.setdefault('violations_reported', len(new))
    cov.setdefault('known_findings_matched', len({v['key'] for v in old}))
    json.dump(dict(property=prop, tier=tier, seed=seed, level=r.level, coverage=cov, wall_s=round(time.time() - t, 2),
                   violations=len(new), reports=[dict(file=v['file'], line=v['line'], function=v['function'], rule=v['rule'], message=v['message']) for v in new],
                   assumptions=r.assumptions), open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    if new:
        json.dump(new, open(rep, 'w'), indent=1)
        for v in new:
            print('%s:%d: [%s] in %s: %s' % (v['file'], v['line'] or 0, v['rule'], v['function'], v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    print('%s: held (%.1f s)' % (prop, time.time() - t))
    return 0
