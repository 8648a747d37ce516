"""Merge what the workers observed into a verdict and an evidence file."""
import collections
import importlib
import json
import os
import sys


def known_findings(here, prop):
    """Open findings: {key: description}. Fixed entries suppress nothing."""
    out = {}
    path = os.path.join(here, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    key, _, what = rest.partition(' ')
                    out[key] = what
    return out


def conclude(here, args, results, wall):
    prop = args.property
    module = importlib.import_module('bm.props.%s' % prop.lower())
    counters = collections.Counter()
    sigs = set()
    samples = []
    violations = []
    crashes = []
    cases = 0
    complete = True
    findings = collections.Counter()
    for r in results:
        if 'crash' in r:
            crashes.append(r['crash'])
            continue
        cases += r['cases']
        complete = complete and r['complete']
        counters.update(r['counters'])
        sigs.update(r['sigs'])
        samples.extend(r['samples'])
        violations.extend(r['violations'])
        findings.update(r['findings'])
    violations.sort(key=lambda v: v['index'])

    known = known_findings(here, prop)
    for key in sorted(findings):
        if key in known:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, key,
                                                        known[key]))
    status = 0
    missing = [k for k, n in module.MUST_OBSERVE.items()
               if counters.get(k, 0) < n]
    if violations:
        status = 1
    elif crashes or missing:
        status = 2
    coverage = {
        'evaluations': cases,
        'distinct_nontrivial': len(sigs),
        'rule': module.RULE,
        'samples': samples[:6],
        'observed': dict(sorted(counters.items())),
    }
    evidence = {
        'property': prop,
        'tier': args.tier,
        'seed': args.seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': coverage,
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'all_cases_run': complete,
        'wall_s': round(wall, 2),
        'violations': len(violations),
        'verdict': {0: 'held', 1: 'violated', 2: 'inconclusive'}[status],
    }
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    with open(os.path.join(here, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')

    print('%s %s seed=%d: %d cases, %d distinct, %.1f s' % (
        prop, args.tier, args.seed, cases, len(sigs), wall))
    print('observed: ' + ', '.join('%s=%d' % kv for kv in
                                   sorted(counters.items())))
    if violations:
        os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
        v = violations[0]
        path = os.path.join(here, 'replays', '%s-%s-%d-%d.json' % (
            prop, args.tier, args.seed, v['index']))
        with open(path, 'w') as f:
            json.dump(dict(v, property=prop, seed=args.seed,
                           tier=args.tier), f, indent=1)
        for other in violations[:int(os.environ.get('BM_ALL') or 4)]:
            print('case %d: %s' % (other['index'], other['message'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        for c in crashes:
            print('error: ' + c, file=sys.stderr)
        if missing:
            print('inconclusive: not enough observed: %s' % missing)
        if not complete:
            print('(the time ran out before every case was run)')
    return status
