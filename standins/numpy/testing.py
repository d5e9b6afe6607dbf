"""Stand-in for numpy.testing"""
import math


def _build(actual, desired, err_msg, header, decimal=None):
    return '\n%s\n%s ACTUAL: %r\n DESIRED: %r' % (
        header, (' ' + err_msg + '\n') if err_msg else '', actual, desired)


def _fin(x):
    return not (math.isnan(x) or math.isinf(x))


def assert_almost_equal(actual, desired, decimal=7, err_msg='', verbose=True):
    if isinstance(actual, (list, tuple)) or isinstance(desired, (list, tuple)):
        return assert_array_almost_equal(actual, desired, decimal, err_msg)
    msg = 'Arrays are not almost equal to %d decimals' % decimal
    if isinstance(actual, complex) or isinstance(desired, complex):
        a, d = complex(actual), complex(desired)
        assert_almost_equal(a.real, d.real, decimal, err_msg)
        assert_almost_equal(a.imag, d.imag, decimal, err_msg)
        return
    try:
        if not (_fin(desired) and _fin(actual)):
            if math.isnan(desired) or math.isnan(actual):
                if not (math.isnan(desired) and math.isnan(actual)):
                    raise AssertionError(
                        _build(actual, desired, err_msg, msg))
            elif not desired == actual:
                raise AssertionError(_build(actual, desired, err_msg, msg))
            return
    except TypeError:
        pass
    if round(abs(desired - actual), decimal) != 0:
        raise AssertionError(_build(actual, desired, err_msg, msg))


def assert_array_almost_equal(x, y, decimal=6, err_msg='', verbose=True):
    x = x if isinstance(x, (list, tuple)) else [x] * len(y)
    y = y if isinstance(y, (list, tuple)) else [y] * len(x)
    if len(x) != len(y):
        raise AssertionError(_build(x, y, err_msg, '(shapes mismatch)'))
    for a, b in zip(x, y):
        assert_almost_equal(a, b, decimal, err_msg)


def assert_allclose(actual, desired, rtol=1e-7, atol=0, err_msg='',
                    verbose=True):
    import numpy
    if not numpy.allclose(actual, desired, rtol, atol):
        raise AssertionError(_build(actual, desired, err_msg,
                                    'Not equal to tolerance'))


def assert_equal(actual, desired, err_msg='', verbose=True):
    if actual != desired and not (actual != actual and desired != desired):
        raise AssertionError(_build(actual, desired, err_msg,
                                    'Items are not equal:'))


assert_array_equal = assert_equal


def assert_approx_equal(actual, desired, significant=7, err_msg='',
                        verbose=True):
    assert_allclose(actual, desired, 10. ** -(significant - 1), 0, err_msg)
