"""Perturb the schedule of the evaluation threads, and watch it.

While a `Jitter` is active every `queue.Queue` is one which sleeps or
yields at random around its operations, threads are switched a thousand
times more often, and the order of the operations is recorded. With the
style 'lines' there may also be a pause between any two lines of biggus.
"""
import os
import queue
import random
import sys
import threading
import time

from .env import biggus

REAL = queue.Queue
#: Where the code of biggus is.
PREFIX = os.path.dirname(os.path.abspath(biggus.__file__)) + os.sep


class Jitter(object):
    def __init__(self, seed, style):
        self.rng = random.Random(seed)
        self.style = style
        self.lock = threading.Lock()
        self.events = []
        self.names = {}
        self.lines = random.Random(seed + 1)
        self.budget = 200
        self.often = self.rng.choice([.01, .03, .1])
        self.preempted = 0

    def pause(self, op):
        ident = threading.get_ident()
        with self.lock:
            who = self.names.setdefault(ident, len(self.names))
            self.events.append((who, op))
            x = self.rng.random()
            slow = self.style == 'bias' and who % 3 == self.rng.randrange(3)
        if self.style == 'none':
            return
        if self.style == 'yield':
            time.sleep(0)
        elif self.style == 'sleep':
            if x < .3:
                time.sleep(x * 0.002)
        elif self.style == 'bias':
            if slow:
                time.sleep(0.0005)
        elif self.style == 'lines':
            if x < .05:
                time.sleep(0.001)
        elif x < .05:
            time.sleep(0.004)

    def trace(self, frame, event, arg):
        """Trace the functions of biggus only."""
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        return self.trace_line

    def trace_line(self, frame, event, arg):
        if event == 'line' and self.budget > 0:
            x = self.lines.random()
            if x < self.often:
                self.budget -= 1
                time.sleep(self.lines.choice([0, 0.0002, 0.001, 0.003]))
                self.preempted += 1
        return self.trace_line

    def run(self, function, *args):
        """Call the function, with pauses between its lines if asked to."""
        if self.style != 'lines':
            return function(*args)
        sys.settrace(self.trace)
        try:
            return function(*args)
        finally:
            sys.settrace(None)

    def signature(self):
        return hash(tuple(self.events))

    def __enter__(self):
        jitter = self

        class Queue(REAL):
            def put(self, item, block=True, timeout=None):
                jitter.pause('p')
                REAL.put(self, item, block, timeout)
                jitter.pause('q')

            def get(self, block=True, timeout=None):
                jitter.pause('g')
                item = REAL.get(self, block, timeout)
                jitter.pause('h')
                return item

        self.old = sys.getswitchinterval()
        if self.style != 'none':
            sys.setswitchinterval(self.rng.choice([1e-6, 1e-5, 1e-4, 1e-3]))
        queue.Queue = Queue
        if self.style == 'lines':
            threading.settrace(self.trace)
        return self

    def __exit__(self, *exc):
        queue.Queue = REAL
        if self.style == 'lines':
            threading.settrace(None)
        sys.setswitchinterval(self.old)

    def source_delay(self, s, n):
        self.pause('r%s' % s.name)


STYLES = ['yield', 'sleep', 'bias', 'rare', 'lines']
