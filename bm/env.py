"""Import biggus from /repo's working tree and quieten the process.

Everything in the framework gets biggus through this module.
"""
import os
import sys
import threading
import warnings

REPO = os.environ.get('BM_REPO', '/repo')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
if sys.path[0:1] != [REPO]:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
from . import watch  # noqa: E402
watch.install()
import biggus  # noqa: E402
import biggus._init as _init  # noqa: E402

np.seterr(all='ignore')
assert os.path.realpath(biggus.__file__).startswith(
    os.path.realpath(REPO) + os.sep), biggus.__file__

DEFAULT_CHUNK = _init.MAX_CHUNK_SIZE

#: Tracebacks of biggus' worker threads, kept instead of printed.
thread_errors = []


def _hook(args):
    thread_errors.append(args)
    del thread_errors[:-20]


threading.excepthook = _hook


class chunk_size(object):
    """Evaluate with the documented module setting MAX_CHUNK_SIZE."""

    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.old = _init.MAX_CHUNK_SIZE
        _init.MAX_CHUNK_SIZE = self.value

    def __exit__(self, *exc):
        _init.MAX_CHUNK_SIZE = self.old
