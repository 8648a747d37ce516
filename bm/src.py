"""Instrumented data sources: the monitors' eyes on what biggus reads."""
import threading

import numpy as np
import numpy.ma as ma

from .ref import is_int, ortho


class SourceError(Exception):
    """Injected read failure."""


class Source(object):
    """
    A recording data source.

    `style` 'numpy' indexes like a NumPy array, 'ortho' like a
    netCDF4.Variable (each sequence key applies to its own axis). Neither
    has __array__, so nothing can read it without going through
    __getitem__.

    Records, under a lock: the number of reads, how often each element was
    read, and the biggest single read.
    """

    def __init__(self, data, style='numpy', name='src', fail_at=None,
                 on_read=None, copy=False):
        self._data = data
        self.style = style
        self.name = name
        self.fail_at = fail_at
        self.on_read = on_read
        self._copy = copy
        self._ids = np.arange(data.size).reshape(data.shape)
        self.counts = np.zeros(data.size, dtype=int)
        self.reads = 0
        self.biggest = 0
        self.total = 0
        self.lock = threading.Lock()
        if ma.isMaskedArray(data):
            self.fill_value = data.fill_value

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def shape(self):
        return self._data.shape

    @property
    def ndim(self):
        return self._data.ndim

    #: Whether what has no masked elements is read as a plain array, as a
    #: netCDF4.Variable does.
    plain = False

    #: The exception to raise instead of SourceError, if any.
    fail_with = None

    #: The sources which were made by copying others.
    restored = []

    def __getstate__(self):
        state = self.__dict__.copy()
        del state['lock'], state['on_read']
        return state

    def __setstate__(self, state):
        self.__dict__.update(state)
        self.lock = threading.Lock()
        self.on_read = None
        Source.restored.append(self)

    def reset(self):
        with self.lock:
            self.counts[:] = 0
            self.reads = self.biggest = self.total = 0

    def _index(self, a, keys):
        if self.style == 'numpy':
            return a[keys]
        if not isinstance(keys, tuple):
            keys = (keys,)
        full = list(keys)
        if Ellipsis not in [k for k in full if not isinstance(k, np.ndarray)]:
            full += [slice(None)] * (a.ndim - len(full))
        for k in full:
            if not (is_int(k) or isinstance(k, (slice, tuple, list)) or
                    k is Ellipsis or isinstance(k, np.ndarray)):
                raise TypeError('ortho source: bad key %r' % (k,))
        return ortho(a, tuple(full))

    def __getitem__(self, keys):
        ids = self._index(self._ids, keys)
        ids = np.asarray(ids).ravel()
        with self.lock:
            n = self.reads
            self.reads += 1
            np.add.at(self.counts, ids, 1)
            self.biggest = max(self.biggest, ids.size)
            self.total += ids.size
        if self.on_read is not None:
            self.on_read(self, n)
        if self.fail_at is not None and n == self.fail_at:
            if self.fail_with is not None:
                raise self.fail_with('%s read %d' % (self.name, n))
            raise SourceError('%s read %d' % (self.name, n))
        result = self._index(self._data, keys)
        if self.plain and ma.isMaskedArray(result) and \
                not ma.getmaskarray(result).any():
            result = result.data
        if self._copy and isinstance(result, np.ndarray):
            result = result.copy()
        return result
