"""Reference semantics, written against plain NumPy only.

`ortho` is the independent oracle for biggus' orthogonal indexing;
`compare` is the one place where results are judged.
"""
import numpy as np
import numpy.ma as ma


class Bad(Exception):
    """The property is violated; str() says how."""


class Skip(Exception):
    """The generated case is outside the property's domain."""


def is_int(k):
    return isinstance(k, (int, np.integer)) and not isinstance(k, bool)


def expand(keys, ndim):
    """Full per-axis key list (with None for new axes)."""
    if not isinstance(keys, tuple):
        keys = (keys,)
    n_ell = sum(1 for k in keys if k is Ellipsis)
    assert n_ell <= 1
    used = sum(1 for k in keys if k is not None and k is not Ellipsis)
    fill = ndim - used
    if fill < 0:
        raise IndexError('too many keys')
    out = []
    done = False
    for k in keys:
        if k is Ellipsis:
            out.extend([slice(None)] * fill)
            done = True
        else:
            out.append(k)
    if not done:
        out.extend([slice(None)] * fill)
    return out


def ortho(a, keys):
    """Orthogonal indexing of a NumPy array: one axis at a time."""
    full = expand(keys, a.ndim)
    # From the last to the first so axis numbers stay valid.
    axis = sum(1 for k in full if k is not None)
    for k in reversed(full):
        if k is None:
            continue
        axis -= 1
        pre = (slice(None),) * axis
        size = a.shape[axis]
        if is_int(k):
            k = int(k)
            if not -size <= k < size:
                raise IndexError('out of bounds')
            if k < 0:
                k += size
            a = a[pre + (slice(k, k + 1),)]
            a = a.reshape(a.shape[:axis] + a.shape[axis + 1:])
        elif isinstance(k, slice):
            a = a[pre + (k,)]
        else:
            k = np.asarray(k)
            if k.dtype == bool:
                if k.shape != (size,):
                    raise IndexError('boolean length')
                k = np.nonzero(k)[0]
            k = k.astype(np.intp).reshape(-1)
            if k.size and not (np.all(k >= -size) and np.all(k < size)):
                raise IndexError('out of bounds')
            a = a[pre + (k,)]
    # Insert the new axes.
    out_axis = 0
    for k in full:
        if k is None:
            a = a.reshape(a.shape[:out_axis] + (1,) + a.shape[out_axis:])
            out_axis += 1
        elif not is_int(k):
            out_axis += 1
    return a


def show(a, limit=12):
    if a is None:
        return 'None'
    if ma.isMaskedArray(a):
        return 'masked(shape=%s dtype=%s %s)' % (
            a.shape, a.dtype, str(np.ravel(a)[:limit]).replace('\n', ' '))
    if isinstance(a, np.ndarray):
        return 'array(shape=%s dtype=%s %s)' % (
            a.shape, a.dtype, str(a.ravel()[:limit]).replace('\n', ' '))
    return '%s %r' % (type(a).__name__, a)


def _tol(dtype):
    dtype = np.dtype(dtype)
    if dtype.kind == 'f':
        return {2: 4e-3, 4: 4e-6}.get(dtype.itemsize, 1e-11)
    if dtype.kind == 'c':
        return {8: 4e-6}.get(dtype.itemsize, 1e-11)
    return 0


def same_values(r, e, tol=None):
    """Elementwise equality (NaN equal to NaN); `tol` = relative."""
    r = np.asarray(r)
    e = np.asarray(e)
    if r.shape != e.shape:
        return False
    if r.size == 0:
        return True
    kind = e.dtype.kind
    if kind in 'fc' and r.dtype.kind in 'fciub':
        if kind == 'c' or r.dtype.kind == 'c':
            r = r.astype(np.complex128)
            e = e.astype(np.complex128)
            return (same_values(r.real, e.real, tol) and
                    same_values(r.imag, e.imag, tol))
        r = r.astype(np.float64)
        e = e.astype(np.float64)
        nan = np.isnan(e)
        if not np.array_equal(np.isnan(r), nan):
            return False
        r = r[~nan]
        e = e[~nan]
        inf = np.isinf(e)
        if not np.array_equal(r[inf], e[inf]):
            return False
        r = r[~inf]
        e = e[~inf]
        if np.isinf(r).any():
            return False
        if tol is None:
            return np.array_equal(r, e)
        if not e.size:
            return True
        scale = max(1e-300, float(np.max(np.abs(e))))
        return bool(np.all(np.abs(r - e) <= tol * np.maximum(
            np.abs(e), 1e-3 * scale)))
    if kind in 'mM':
        nat = np.isnat(e)
        if r.dtype.kind != kind or not np.array_equal(np.isnat(r), nat):
            return False
        return bool(np.all(r[~nat] == e[~nat]))
    return bool(np.all(r == e))


def check_nd(what, result, expected, dtype=True, tol=None):
    """`result` must be a real ndarray equal to `expected`."""
    if not isinstance(result, np.ndarray):
        raise Bad('%s: %s is not an ndarray' % (what, show(result)))
    if ma.isMaskedArray(result):
        raise Bad('%s: %s is masked, not a plain ndarray'
                  % (what, show(result)))
    _check(what, result, expected, dtype, tol)


def _check(what, result, expected, dtype, tol):
    if result.shape != expected.shape:
        raise Bad('%s: shape %s, expected %s: got %s expected %s'
                  % (what, result.shape, expected.shape, show(result),
                     show(expected)))
    if dtype and result.dtype != expected.dtype:
        raise Bad('%s: dtype %s, expected %s'
                  % (what, result.dtype, expected.dtype))
    if not same_values(result, expected, tol):
        raise Bad('%s: values %s, expected %s'
                  % (what, show(result), show(expected)))


def check_ma(what, result, expected, dtype=True, tol=None):
    """`result` must be a MaskedArray with equal mask and data."""
    if not ma.isMaskedArray(result):
        raise Bad('%s: %s is not a MaskedArray' % (what, show(result)))
    expected = ma.asanyarray(expected)
    if result.shape != expected.shape:
        raise Bad('%s: shape %s, expected %s: got %s expected %s'
                  % (what, result.shape, expected.shape, show(result),
                     show(expected)))
    rm = ma.getmaskarray(result)
    em = ma.getmaskarray(expected)
    if not np.array_equal(rm, em):
        raise Bad('%s: mask differs: got %s expected %s'
                  % (what, show(result), show(expected)))
    if dtype and result.dtype != expected.dtype:
        raise Bad('%s: dtype %s, expected %s'
                  % (what, result.dtype, expected.dtype))
    if not same_values(np.asarray(ma.getdata(result))[~rm],
                       np.asarray(ma.getdata(expected))[~em], tol):
        raise Bad('%s: values %s, expected %s'
                  % (what, show(result), show(expected)))
