"""Values exchanged with the Python 3 side, and observation helpers"""
import sys
import os
import decimal
import traceback
from java.lang import Exception as JavaException

WORK = None      # a fresh directory for the case being run
SCRATCH = None
OUT = ERR = None


def dec(x):
    """JSON value -> Python 2 value: plain strings become utf-8 `str`"""
    if isinstance(x, unicode):
        return x.encode('utf8')
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if len(x) == 1:
            (k, v), = x.items()
            if k == '__f':
                return float(v)
            if k == '__u':
                return v
            if k == '__t':
                return tuple(dec(i) for i in v)
            if k == '__b':
                return v.encode('latin1')
            if k == '__d':
                return decimal.Decimal(v)
            if k == '__m':  # mapping with any keys
                return dict((dec(a), dec(b)) for a, b in v)
        return dict((k.encode('utf8'), dec(v)) for k, v in x.items())
    return x


def dec_kw(d):
    return dict((str(k), dec(v)) for k, v in d.items())


def enc(x):
    if x is None or x is True or x is False or isinstance(x, (int, long)):
        return x
    if isinstance(x, float):
        if x != x:
            return {'__f': 'nan'}
        if x in (float('inf'), -float('inf')):
            return {'__f': str(x)}
        return float(x)
    if isinstance(x, unicode):
        return x
    if isinstance(x, str):
        try:
            return x.decode('utf8')
        except UnicodeDecodeError:
            return {'__b': x.decode('latin1')}
    if isinstance(x, decimal.Decimal):
        return {'__d': str(x)}
    if isinstance(x, tuple) or isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        if all(isinstance(k, basestring) for k in x):
            return dict((enc(k), enc(v)) for k, v in x.items())
        return {'__m': [[enc(k), enc(v)] for k, v in x.items()]}
    return {'__r': '%s' % type(x).__name__}


def typed(x):
    """(type name, value): when the type matters"""
    if isinstance(x, (list, tuple)):
        kind = 'list' if isinstance(x, list) else 'tuple'
        return [kind, [typed(i) for i in x]]
    return [type(x).__name__, x]


def mro(exc):
    return [c.__name__ for c in type(exc).__mro__]


def obs(fn, *args, **kw):
    """{'ok': value} or {'exc': class name, 'mro': [...], 'msg': text}"""
    try:
        return {'ok': fn(*args, **kw)}
    except Exception:
        exc = sys.exc_info()[1]
        return exc_obs(exc)
    except JavaException:
        exc = sys.exc_info()[1]
        return exc_obs(exc)


def exc_obs(exc):
    try:
        msg = str(exc)
    except Exception:
        try:
            msg = unicode(exc)
        except Exception:
            msg = '?'
    if isinstance(msg, str):
        msg = msg.decode('utf8', 'replace')
    names = mro(exc) if isinstance(exc, BaseException) else [
        type(exc).__name__]
    return {'exc': names[0], 'mro': names, 'msg': msg[:4000]}


def path(*names):
    p = os.path.join(WORK, *names)
    d = os.path.dirname(p)
    if not os.path.exists(d):
        os.makedirs(d)
    return p


def write(name, content):
    p = path(name)
    with open(p, 'wb') as f:
        if isinstance(content, unicode):
            content = content.encode('utf8')
        f.write(content)
    return p


def read(p):
    with open(p, 'rb') as f:
        return f.read()
