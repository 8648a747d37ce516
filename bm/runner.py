"""Run the cases of one property inside one process."""
import collections
import importlib
import json
import os
import random
import sys
import threading
import time
import traceback

from . import report, watch
from .ref import Bad, Skip


class Context(object):
    """What a case tells the framework."""

    def __init__(self, tier):
        self.tier = tier
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.findings = collections.Counter()
        self.counters_kinds = set()
        self.reset()

    def reset(self):
        self.desc = ''
        self._sig = None

    def count(self, name, n=1):
        """Something which was observed."""
        if n:
            self.counters[name] += n

    def nontrivial(self, *sig):
        """This case is non-trivial, of the given kind."""
        self.sigs.add(hash(repr(sig)) & 0xffffffffffff)
        if len(self.samples) < 2 and self.desc:
            self.samples.append(str(self.desc)[:400])


def load(prop):
    return importlib.import_module('bm.props.%s' % prop.lower())


def run_case(module, prop, seed, tier, index, ctx):
    """Returns None, or what is wrong."""
    from .env import thread_errors
    directed = getattr(module, 'DIRECTED', [])
    rng = random.Random('%s/%s/%d' % (seed, prop, index))
    ctx.reset()
    del thread_errors[:]
    try:
        if index < len(directed):
            ctx.desc = directed[index].__name__
            directed[index](rng, ctx)
        else:
            module.case(rng, ctx)
    except Skip:
        ctx.count('skipped')
        return None
    except Bad as e:
        return '%s: %s' % (ctx.desc, e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-3:]
        where = ' < '.join('%s:%d' % (f.name, f.lineno) for f in tb[::-1])
        extra = ''
        if thread_errors:
            extra = ' (worker thread: %r)' % (thread_errors[-1].exc_value,)
        return '%s: raised %s: %s [%s]%s' % (
            ctx.desc, type(e).__name__, e, where, extra)
    return None


def worker(prop, seed, tier, k, n, cases, out):
    module = load(prop)
    ctx = Context(tier)
    total = cases or module.CASES[tier]
    total += len(getattr(module, 'DIRECTED', []))
    budget = 600 if tier == 'quick' else 5 * 3600
    start = time.time()
    result = {'cases': 0, 'complete': True, 'violations': []}
    current = [None]
    lock = threading.Lock()

    def write():
        with lock:
            result.update(counters=ctx.counters, sigs=sorted(ctx.sigs),
                          samples=ctx.samples, findings=ctx.findings)
            with open(out + '.tmp', 'w') as f:
                json.dump(result, f)
            os.replace(out + '.tmp', out)

    def stuck(what):
        result['violations'].append({
            'index': current[0], 'message':
            '%s: evaluation can never finish: %s' % (ctx.desc, what)})
        write()
        os._exit(0)

    watch.Watchdog(stuck, lambda: current[0]).start()
    for index in range(k, total, n):
        if time.time() - start > budget:
            result['complete'] = False
            break
        current[0] = index
        message = run_case(module, prop, seed, tier, index, ctx)
        result['cases'] += 1
        if message is not None:
            result['violations'].append({'index': index,
                                         'message': message})
            if not os.environ.get('BM_ALL'):
                break
    write()
    # Don't wait for whatever a violation might have left behind.
    sys.stdout.flush()
    os._exit(0)


def replay(prop, seed, tier, index):
    module = load(prop)
    ctx = Context(tier)

    def stuck(what):
        print('%s: evaluation can never finish: %s' % (ctx.desc, what))
        sys.stdout.flush()
        os._exit(1)

    watch.Watchdog(stuck, lambda: 0).start()
    message = run_case(module, prop, seed, tier, index, ctx)
    print(message or 'case %d held: %s' % (index, ctx.desc))
    sys.stdout.flush()
    os._exit(1 if message else 0)
