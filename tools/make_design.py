"""
Fills in the generated parts of DESIGN.md: the table of properties, and the
one of planted bugs (from seeded/*/meta.json and tools/detected.json, which
tools/plant.py's results are merged into: `make_design.py RESULTS.jsonl`).
"""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def properties():
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    yield '| id | decided by | oracle | monitors must have seen (quick) |'
    yield '|----|-----------|--------|--------------------------------|'
    for c in man['checks']:
        text = open(os.path.join(
            HERE, 'bm', 'props', c['property'].lower() + '.py')).read()
        m = importlib.import_module('bm.props.%s' % c['property'].lower())
        yield '| %s | %s | %s | %s |' % (
            c['property'], m.RULE, c['technique'].replace(
                'runtime monitoring: ', ''),
            ', '.join('%s>=%d' % kv for kv in sorted(m.MUST_OBSERVE.items())))


def planted(results):
    path = os.path.join(HERE, 'tools', 'detected.json')
    known = json.load(open(path)) if os.path.exists(path) else {}
    for name in results:
        for line in open(name):
            r = json.loads(line)
            for check, verdict in r.get('checks', {}).items():
                known.setdefault(r['id'], {})[check] = verdict
    seeded = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    known = {k: v for k, v in known.items() if k in seeded}
    with open(path, 'w') as f:
        json.dump(known, f, indent=1, sort_keys=True)
        f.write('\n')
    yield '| planted bug | property | needs | caught by | missed by |'
    yield '|----|----|----|----|----|'
    for name in seeded:
        meta = json.load(open(os.path.join(HERE, 'seeded', name,
                                           'meta.json')))
        by = {'CAUGHT': [], '': []}
        for check, verdict in sorted(known.get(name, {}).items()):
            by[verdict if verdict == 'CAUGHT' else ''].append(check)
        yield '| %s | %s | %s | %s | %s |' % (
            name, meta['property'], meta['needs'],
            ', '.join(by['CAUGHT']), ', '.join(by['']))


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    for mark, lines in (('properties', list(properties())),
                        ('planted', list(planted(sys.argv[1:])))):
        begin, end = ('<!-- %s -->' % mark, '<!-- /%s -->' % mark)
        new = '\n'.join([begin] + lines + [end])
        pattern = re.escape(begin) + '.*?' + re.escape(end)
        assert re.search(pattern, text, re.S), mark
        text = re.sub(pattern, lambda m: new, text, flags=re.S)
    with open(path, 'w') as f:
        f.write(text)


main()
