"""Stand-in for the few parts of numpy that the package and its tests use"""
import math as _m
from numpy import testing

float64 = float32 = float_ = float
int32 = int64 = int_ = int
nan = NaN = float('nan')
inf = Inf = float('inf')
pi = _m.pi


class ndarray(list):
    """one-dimensional"""
    @property
    def shape(self):
        return (len(self),)

    @property
    def size(self):
        return len(self)

    ndim = 1

    def _el(self, other, op):
        if isinstance(other, (list, tuple)):
            return ndarray(op(a, b) for a, b in zip(self, other))
        return ndarray(op(a, other) for a in self)

    def __add__(self, o):
        return self._el(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._el(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._el(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._el(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __div__(self, o):
        return self._el(o, lambda a, b: a / b)
    __truediv__ = __div__

    def __getslice__(self, i, j):
        return ndarray(list.__getslice__(self, i, j))

    def sum(self):
        return sum(self)

    def tolist(self):
        return list(self)

    def min(self):
        return min(self)

    def max(self):
        return max(self)

    def mean(self):
        return sum(self) / float(len(self))


def array(seq, dtype=None):
    return ndarray((dtype or (lambda x: x))(x) for x in seq)


asarray = array


def zeros(n, dtype=float):
    n = n[0] if isinstance(n, tuple) else n
    return ndarray([dtype(0)] * n)


def ones(n, dtype=float):
    n = n[0] if isinstance(n, tuple) else n
    return ndarray([dtype(1)] * n)


def arange(*a):
    if len(a) == 1:
        a = (0,) + a
    start, stop = a[:2]
    step = a[2] if len(a) > 2 else 1
    n = int(_m.ceil((stop - start) / float(step)))
    return ndarray(start + i * step for i in range(max(n, 0)))


def cumsum(seq):
    out, acc = ndarray(), 0
    for x in seq:
        acc += x
        out.append(acc)
    return out


def _num(f):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            return ndarray(f(y, *a, **k) for y in x)
        return f(x, *a, **k)
    return g

isnan = _num(_m.isnan)
isinf = _num(_m.isinf)
isfinite = _num(lambda x: not (_m.isnan(x) or _m.isinf(x)))
log10 = _num(lambda x: _m.log10(x) if x > 0 else (nan if x < 0 or x != x else -inf))
log = _num(lambda x: _m.log(x) if x > 0 else (nan if x < 0 or x != x else -inf))
exp = _num(_m.exp)
sqrt = _num(_m.sqrt)
ceil = _num(lambda x: float(_m.ceil(x)))
floor = _num(lambda x: float(_m.floor(x)))
absolute = _num(abs)
sum = lambda xs: __builtins__['sum'](xs) if isinstance(__builtins__, dict) else __import__('__builtin__').sum(xs)
power = lambda a, b: a ** b


def isclose(a, b, rtol=1e-05, atol=1e-08):
    if a == b:
        return True
    if isinf(a) or isinf(b):
        return False
    return abs(a - b) <= atol + rtol * abs(b)


def allclose(a, b, rtol=1e-05, atol=1e-08):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        a = a if isinstance(a, (list, tuple)) else [a] * len(b)
        b = b if isinstance(b, (list, tuple)) else [b] * len(a)
        return len(a) == len(b) and all(
            isclose(x, y, rtol, atol) for x, y in zip(a, b))
    return isclose(a, b, rtol, atol)


def array_equal(a, b):
    return list(a) == list(b)
