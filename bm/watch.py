"""Structural detection of threads which can never run again.

A thread counts as stuck only on structural evidence: it is inside an
untimed `Queue.get` of an empty queue, an untimed `Queue.put` of a full
queue, or an untimed `join` of a thread which is itself stuck. These calls
are hooked, rather than the frames of other threads inspected (which is not
safe while PyPy runs them as machine code). The watchdog also reports a case
of a few milliseconds which used five minutes of processor time, and one
during which all threads have been asleep, according to the kernel, for a
minute.
"""
import os
import queue
import threading
import time

_waiting = {}
_ident = threading.get_ident


def install():
    """Note which thread waits for what, without a limit."""
    get, put, join = queue.Queue.get, queue.Queue.put, threading.Thread.join

    def noted(what, obj, call):
        ident = _ident()
        outer = _waiting.get(ident)
        _waiting[ident] = (what, obj)
        try:
            return call()
        finally:
            if outer is None:
                del _waiting[ident]
            else:
                _waiting[ident] = outer

    def queue_get(self, block=True, timeout=None):
        if not block or timeout is not None:
            return get(self, block, timeout)
        return noted('get', self, lambda: get(self))

    def queue_put(self, item, block=True, timeout=None):
        if not block or timeout is not None:
            return put(self, item, block, timeout)
        return noted('put', self, lambda: put(self, item))

    def thread_join(self, timeout=None):
        if timeout is not None:
            return join(self, timeout)
        return noted('join', self, lambda: join(self))

    queue.Queue.get = queue_get
    queue.Queue.put = queue_put
    threading.Thread.join = thread_join


def state(thread):
    """
    One of None (can run, or unknown), ('get', queue), ('put', queue) or
    ('join', thread).
    """
    s = _waiting.get(thread.ident)
    if s is None:
        return None
    what, obj = s
    if what == 'get':
        return s if not obj.queue else None
    if what == 'put':
        return s if 0 < obj.maxsize <= len(obj.queue) else None
    return s if alive(obj) else None


def alive(thread):
    """
    Whether a thread goes on. (`Thread.is_alive` may not be called while
    another thread is in `Thread.join`: either might fail.)
    """
    return any(t is thread for t in threading.enumerate())


def describe(threads):
    out = []
    for t in threads:
        s = _waiting.get(t.ident)
        out.append('%s %s' % (t.name, s[0] if s else 'elsewhere'))
    return '; '.join(out)


def all_stuck(threads):
    """Whether every one of the (live) threads is structurally stuck."""
    sts = []
    for t in threads:
        if not alive(t):
            continue
        s = state(t)
        if s is None:
            return None
        sts.append((t.ident, s[0], id(s[1])))
    return sts or None


# How many other processes are being waited for.
external = [0]


def asleep():
    """Whether all other threads of this process are asleep."""
    if external[0]:
        return False
    me = str(threading.get_native_id())
    for tid in os.listdir('/proc/self/task'):
        if tid != me:
            try:
                with open('/proc/self/task/%s/stat' % tid) as f:
                    text = f.read()
            except (IOError, OSError):
                continue
            if text.rpartition(')')[2].split()[0] not in 'SI':
                return False
    return True


class Idle(object):
    """Tells whether the process has been asleep for `seconds` by now."""

    def __init__(self, seconds):
        self.seconds = seconds
        self.start()

    def start(self):
        self.since = time.monotonic()
        self.last = self.since
        self.used = time.process_time()
        self.polls = 0

    def poll(self):
        now = time.monotonic()
        used = time.process_time()
        # (A gap means that the whole process has been stopped.)
        if (now - self.last > 10 or not asleep() or
                used - self.used > .05 + .03 * (now - self.since)):
            self.start()
            return False
        self.last = now
        self.polls += 1
        return self.polls > 60 and now - self.since > self.seconds


def settle(before):
    """
    Wait for every thread which is not in `before` to end.

    Returns a description of those which never can, or None.
    """
    last = None
    same = 0
    idle = Idle(40)
    i = 0
    while True:
        new = [t for t in threading.enumerate() if t not in before]
        if not new:
            return None
        i += 1
        time.sleep(0.002 if i < 50 else 0.01 if i < 500 else .2)
        sts = all_stuck(new)
        if sts is not None and sts == last:
            same += 1
            if same > 40:
                return describe(new)
        else:
            same = 0
        last = sts
        if i > 500 and idle.poll():
            return '(asleep) ' + describe(new)


class Watchdog(threading.Thread):
    """Calls `on_stuck(description)` when no thread can ever run again."""

    def __init__(self, on_stuck, clock):
        threading.Thread.__init__(self, name='watchdog')
        self.daemon = True
        self.on_stuck = on_stuck
        self.clock = clock   # () -> identity of the current case

    def run(self):
        last = None
        same = 0
        idle = Idle(60)
        case = None
        while True:
            time.sleep(0.5)
            others = [t for t in threading.enumerate()
                      if t is not self and
                      not getattr(t, 'bm_ignore', False)]
            sts = all_stuck(others)
            now = (self.clock(), sts)
            if sts is not None and now == last:
                same += 1
                if same >= 4:
                    self.on_stuck(describe(others))
                    return
            else:
                same = 0
            last = now
            cpu = time.process_time()
            if case is None or case[0] != self.clock():
                case = (self.clock(), cpu)
                idle.start()
            elif idle.poll():
                self.on_stuck('(asleep) ' + describe(others))
                return
            elif cpu - case[1] > 300 and self.clock() is not None:
                self.on_stuck('(endless loop) ' + describe(others))
                return
