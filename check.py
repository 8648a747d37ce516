"""Decide one property by running biggus under monitors.

    check.py C01                     (tier from VERIF_TIER, default quick)
    check.py C01 --tier thorough
    check.py C01 --replay FILE

Exit status: 0 held on everything explored; 1 violated (with a VIOLATION
line); 2 inconclusive (the monitors did not observe enough).
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'


def reexec():
    """Use the repository's interpreter, with fixed string hashing."""
    if (os.environ.get('BM_CHILD') != '1'):
        python = PYTHON if os.path.exists(PYTHON) else sys.executable
        env = dict(os.environ, BM_CHILD='1', PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1')
        os.execve(python, [python] + sys.argv, env)


def main():
    reexec()
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER',
                                                         'quick'))
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--jobs', type=int, default=0)
    parser.add_argument('--cases', type=int, default=0)
    parser.add_argument('--replay')
    parser.add_argument('--worker', nargs=3)
    parser.add_argument('--setup', action='store_true')
    args = parser.parse_args()
    sys.path.insert(0, HERE)
    if args.setup:
        from bm import env
        print('checking %s' % env.biggus.__file__)
        return 0
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        args.seed = replay['seed']
        args.tier = replay['tier']
        from bm import runner
        return runner.replay(args.property, args.seed, args.tier,
                             replay['index'])
    if args.worker:
        from bm import runner
        k, n, out = args.worker
        return runner.worker(args.property, args.seed, args.tier,
                             int(k), int(n), args.cases, out)
    return drive(args)


def drive(args):
    from bm import report
    start = time.time()
    jobs = args.jobs or max(2, min(8, os.cpu_count() or 2))
    tmp = os.path.join(HERE, 'replays', '.work-%s-%d' % (args.property,
                                                        os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    procs = []
    try:
        for k in range(jobs):
            out = os.path.join(tmp, '%d.json' % k)
            err = open(os.path.join(tmp, '%d.err' % k), 'w')
            procs.append((subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), args.property,
                 '--tier', args.tier, '--seed', str(args.seed),
                 '--cases', str(args.cases),
                 '--worker', str(k), str(jobs), out],
                stdout=err, stderr=err, stdin=subprocess.DEVNULL), out,
                err))
        limit = 780 if args.tier == 'quick' else 6 * 3600
        results = []
        for proc, out, err in procs:
            try:
                proc.wait(timeout=max(1, limit - (time.time() - start)))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
            err.close()
            try:
                with open(out) as f:
                    results.append(json.load(f))
            except (OSError, ValueError):
                with open(err.name) as f:
                    tail = f.read()[-2000:]
                results.append({'crash': 'worker ended with %s\n%s' %
                                (proc.returncode, tail)})
    finally:
        for proc, _, _ in procs:
            if proc.poll() is None:
                proc.kill()
        for name in os.listdir(tmp):
            os.remove(os.path.join(tmp, name))
        os.rmdir(tmp)
    return report.conclude(HERE, args, results, time.time() - start)


if __name__ == '__main__':
    sys.exit(main())
