"""Canonical fingerprints of outcomes: everything a caller can observe about a
result, free of addresses, comparable between nodes and processes."""
import datetime
import functools
import re
import types

import numpy as np

_addr = re.compile(r'0x[0-9a-fA-F]{6,}')


def scrub(s):
    return _addr.sub('0x', s)


def _isds(x):
    m = type(x).__module__
    return isinstance(m, str) and m.startswith('datashape')


def tname(t):
    m = getattr(t, '__module__', '')
    return '%s.%s' % (m, t.__qualname__)


def text(f, x):
    try:
        return scrub(f(x))
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return '!%s: %s' % (type(e).__name__, scrub(str(e)))


def is_mono(x):
    return any(c.__name__ == 'Mono' and c.__module__ == 'datashape.coretypes'
               for c in type(x).__mro__)


def mono(x, top=True, depth=0):
    out = ['M', type(x).__name__]
    try:
        ps = x.parameters
    except Exception as e:
        ps = None
        out.append('!params %s: %s' % (type(e).__name__, scrub(str(e))))
    if ps is not None:
        out.append(tuple(fp(p, False, depth + 1) for p in ps) if isinstance(ps, tuple)
                   else fp(ps, False, depth + 1))
    nm = getattr(x, 'name', None)
    if nm is not None:
        out.append(('name', fp(nm, False, depth + 1)))
    if top:
        out.append(text(str, x))
        out.append(text(repr, x))
    return tuple(out)


def fp(x, top=True, depth=0):
    if depth > 60:
        return ('deep', type(x).__name__)
    t = type(x)
    if x is None or t is bool or t is int or t is str or t is bytes or t is complex:
        return (t.__name__, x if t in (int, bool, str) else repr(x))
    if t is float:
        return ('float', repr(x))
    if t in (tuple, list):
        return (t.__name__,) + tuple(fp(e, top, depth + 1) for e in x)
    if t is dict:
        return ('dict',) + tuple((fp(k, top, depth + 1), fp(v, top, depth + 1))
                                 for k, v in x.items())
    if t in (set, frozenset):
        return (t.__name__,) + tuple(sorted((fp(e, top, depth + 1) for e in x), key=repr))
    if is_mono(x):
        return mono(x, top, depth)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return ('nt', t.__name__) + tuple(fp(e, top, depth + 1) for e in x)
    if isinstance(x, np.dtype):
        return ('dtype', x.str, scrub(repr(x)),
                scrub(repr(dict(x.metadata))) if x.metadata else None)
    if isinstance(x, np.ndarray):
        return ('nd', fp(x.dtype), x.shape, scrub(repr(x.tolist())))
    if isinstance(x, np.generic):
        return ('np', t.__name__, scrub(repr(x)))
    if isinstance(x, type):
        return ('type', tname(x))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return ('func', getattr(x, '__qualname__', '?'))
    if isinstance(x, functools.partial):
        return ('partial',)
    if isinstance(x, BaseException):
        return exc(x)
    if isinstance(x, (datetime.date, datetime.time, datetime.timedelta)):
        return (t.__name__, repr(x))
    if isinstance(x, (dict, list, set, tuple, frozenset)):
        try:
            return ('sub', tname(t), scrub(repr(x)))
        except Exception:
            return ('sub', tname(t))
    return ('obj', tname(t), text(repr, x) if _isds(x) else '')


_EXC_ATTRS = ('lexpos', 'filename', 'text', 'msg', 'lineno', 'line', 'col_offset')


def exc(e):
    out = ['E', type(e).__name__, text(str, e)]
    if type(e).__name__ == 'DataShapeSyntaxError':
        out.append(tuple(fp(getattr(e, a, None)) for a in _EXC_ATTRS))
        out.append(text(repr, e))
    return tuple(out)


def chain_has(e, kinds):
    """Is an instance of kinds anywhere in the context/cause chain of e?"""
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, kinds):
            return True
        todo += [x.__cause__, x.__context__]
    return False
