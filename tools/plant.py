"""
Turn bug specifications into /verif/seeded/<id>/ and test the checks on them.

    plant.py SPEC.py [...] [--only ID ...] [--props C01 ...|all] [--keep]

A specification file calls ``bug(id, prop, needs, breaks, edits, demo)`` for
each bug, where `edits` is a list of (file, old, new) and `demo` the text of a
Python program.  A bug is kept if it passes the stable tests, changes lines of
the original repository, and its demonstration tells it from /repo.
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '9b821cd'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def sh(args, cwd=None, timeout=900, env=None):
    try:
        p = subprocess.run(args, cwd=cwd, timeout=timeout, env=env or ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired as exc:
        return 124, (exc.stdout or b'').decode(errors='replace')
    return p.returncode, p.stdout.decode(errors='replace')


def load(paths):
    bugs = []

    def bug(id, prop, needs, breaks, edits, demo):
        bugs.append(dict(id=id, prop=prop, needs=needs, breaks=breaks,
                         edits=edits, demo=demo))
    for path in paths:
        with open(path) as f:
            exec(compile(f.read(), path, 'exec'),
                 dict(bug=bug, I='biggus/_init.py',
                      D='biggus/experimental/dask_engine.py',
                      G='biggus/experimental/key_grouper.py'))
    return bugs


def originals(wt, patch):
    """Whether every removed line is one of the original repository."""
    path, n, bad, count = None, 0, [], 0
    blames = {}
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
            out = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', path],
                     cwd='/repo')[1].splitlines()
            blames[path] = out
        elif line.startswith('@@'):
            n = int(line.split()[1][1:].split(',')[0])
        elif line.startswith('-') and not line.startswith('---'):
            count += 1
            if BASE not in blames[path][n - 1].split()[0]:
                bad.append(n)
            n += 1
        elif line.startswith(' '):
            n += 1
    return count, bad


def stable():
    with open('/opt/vp/BASELINE.json') as f:
        text = json.load(f)
    return text


def plant(b, props, keep):
    out = dict(id=b['id'], prop=b['prop'])
    top = tempfile.mkdtemp(prefix='plant_')
    wt = os.path.join(top, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', wt])
        for path, old, new in b['edits']:
            full = os.path.join(wt, path)
            with open(full) as f:
                text = f.read()
            if text.count(old) != 1:
                out['error'] = 'old text occurs {} times in {}: {!r}'.format(
                    text.count(old), path, old[:60])
                return out
            with open(full, 'w') as f:
                f.write(text.replace(old, new))
        patch = sh(['git', 'diff'], cwd=wt)[1]
        count, bad = originals(wt, patch)
        if bad or not count:
            out['error'] = 'changes lines of ours: {} ({} removed)'.format(
                bad, count)
            if not count:
                return out
            out['mixed'] = True
        rc, text = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                       'biggus'], cwd=wt)
        last = text.strip().splitlines()[-1]
        out['tests'] = last
        if '2 failed, 467 passed' not in last:
            out['error'] = 'tests: ' + last + '\n' + '\n'.join(
                l for l in text.splitlines()
                if l.startswith(('FAILED', 'E  ')))[:1500]
            return out
        dest = os.path.join(HERE, 'seeded', b['id'])
        demo = os.path.join(top, 'demo')
        os.makedirs(demo)
        with open(os.path.join(demo, 'demo.py'), 'w') as f:
            f.write(b['demo'].lstrip('\n'))
        with open(os.path.join(demo, 'demo.sh'), 'w') as f:
            f.write('#!/bin/sh\n'
                    'here="$(cd "$(dirname "$0")" && pwd)"\n'
                    'export PYTHONDONTWRITEBYTECODE=1\n'
                    'PYTHONPATH="$PWD" exec timeout -s KILL 120 /opt/venv/bin/python '
                    '"$here/demo.py"\n')
        os.chmod(os.path.join(demo, 'demo.sh'), 0o755)
        good, gtext = sh(['bash', os.path.join(demo, 'demo.sh')],
                         cwd='/repo', timeout=300)
        broken, btext = sh(['bash', os.path.join(demo, 'demo.sh')], cwd=wt,
                           timeout=300)
        out['demo'] = (good, broken)
        if good != 0 or broken == 0:
            out['error'] = 'demo: {} {}\n{}\n---\n{}'.format(
                good, broken, gtext[-1500:], btext[-1500:])
            return out
        out['demo_text'] = btext.strip().splitlines()[-1:]
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(demo, dest)
        with open(os.path.join(dest, 'patch.diff'), 'w') as f:
            f.write(patch)
        with open(os.path.join(dest, 'meta.json'), 'w') as f:
            json.dump(dict(property=b['prop'], needs=b['needs'],
                           what_it_breaks=b['breaks']), f, indent=1)
            f.write('\n')
        if props == ['all']:
            props = ['C{:02d}'.format(i) for i in range(1, 40)
                     if os.path.exists(os.path.join(
                         HERE, 'bm', 'props', 'c{:02d}.py'.format(i)))]
        for prop in props or [b['prop']]:
            rc, text = sh([PY, 'check.py', prop, '--seed', '1'], cwd=HERE,
                          env=dict(ENV, BM_REPO=wt))
            hit = 'VIOLATION property=' + prop in text
            out.setdefault('checks', {})[prop] = (
                'CAUGHT' if rc == 1 and hit else
                'missed' if rc == 0 else 'rc={} {}'.format(rc, text[-600:]))
            if rc == 1:
                out.setdefault('why', []).append(
                    '\n'.join(l[:300] for l in text.splitlines()
                              if 'VIOLATION' in l or '  ' in l[:2])[:600])
        return out
    finally:
        shutil.rmtree(top)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('specs', nargs='+')
    p.add_argument('--only', nargs='*')
    p.add_argument('--props', nargs='*')
    p.add_argument('--keep', action='store_true')
    p.add_argument('-j', type=int, default=1)
    args = p.parse_args()
    bugs = [b for b in load(args.specs)
            if not args.only or b['id'] in args.only]
    log = '/tmp/results.jsonl'
    os.makedirs(os.path.dirname(log), exist_ok=True)
    with cf.ThreadPoolExecutor(args.j) as pool:
        for out in pool.map(lambda b: plant(b, args.props, args.keep), bugs):
            print('==', out['id'], out['prop'],
                  'ERROR ' + out['error'] if 'error' in out else '',
                  out.get('tests', ''), out.get('demo_text', ''))
            for prop, res in sorted(out.get('checks', {}).items()):
                print('    ', prop, res)
            for why in out.get('why', ()):
                print('        ', why.replace('\n', '\n         '))
            sys.stdout.flush()
            with open(log, 'a') as f:
                f.write(json.dumps({k: v for k, v in out.items()
                                    if k != 'why'}) + '\n')


if __name__ == '__main__':
    main()
