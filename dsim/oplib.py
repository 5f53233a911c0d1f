"""The vocabulary operations are written in.  An operation is a Python expression
evaluated against one node; `D` is that node's datashape package, `S` the objects
shared by the clients of the run."""
import collections
import copy
import datetime as dt
import decimal
import operator
import pickle
import types

import numpy as np

from . import fp as _fp
from . import mon as _mon

_code_cache = {}


def compiled(expr):
    c = _code_cache.get(expr)
    if c is None:
        if len(_code_cache) > 20000:
            _code_cache.clear()
        c = _code_cache[expr] = compile(expr, '<op>', 'eval')
    return c


# ---- user-side classes; module level so that they pickle and print the same everywhere

class ArrLike(object):
    def __init__(self, shape, dtype):
        self.shape = shape
        self.dtype = np.dtype(dtype)

    def __repr__(self):
        return 'ArrLike'


class Opaque(object):
    def __repr__(self):
        return 'Opaque'


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyFloat(float):
    pass


NT = collections.namedtuple('NT', 'x, y')


class SubArr(np.ndarray):
    pass


def Named(name, bases=(object,), args=(), **attrs):
    """An instance of a class of the given name: two classes may share a name."""
    if bases == (object,):
        attrs['__repr__'] = lambda self: 'a ' + name        # no address
    c = type(name, bases, dict(attrs, __module__='client'))
    return c(*args)


def make_env(D, S=()):
    def lexall(s):
        return [tuple(t) for t in D.lexer.lex(s)]

    def lexsome(s, n):
        g = D.lexer.lex(s)
        out = []
        for _ in range(n):
            out.append(tuple(next(g)))
        return out

    def gone(x):
        """What can be seen of an object that nobody keeps."""
        return repr(_fp.fp(x))

    def look(n):
        """What is known under a name."""
        try:
            t = D.coretypes.Type.lookup_type(n)
        except KeyError:
            t = 'no'
        try:
            u = D.typesets.registry[n]
        except KeyError:
            u = 'no'
        return t, u, [n in k for k in (D.sym.dtype, D.sym.dim, D.sym.dtype_constr, D.sym.dim_constr)]

    def known(x):
        return look(str(x)), look(type(x).__name__), look(x if isinstance(x, str) else getattr(x, 'name', ''))

    def rt(x, proto=2):
        return pickle.loads(pickle.dumps(x, proto))

    def rtexc(s, proto=2):
        try:
            D.dshape(s)
        except D.DataShapeSyntaxError as e:
            return pickle.loads(pickle.dumps(e, proto))

    def ae(a, b, **kw):
        D.util.testing.assert_dshape_equal(a, b, **kw)
        return 'equal'

    def collect(pred, x):
        r = D.util.collect(pred, x)
        return None if r is None else list(r)

    def parse(s, t=None):
        return D.parser.parse(s, D.sym if t is None else t)

    def table(dtype=(), dim=(), dtype_constr=(), dim_constr=(), bare=False):
        t = D.TypeSymbolTable(bare=bare)
        t.dtype.update(dict(dtype))
        t.dim.update(dict(dim))
        t.dtype_constr.update(dict(dtype_constr))
        t.dim_constr.update(dict(dim_constr))
        return t

    def eqh(a, b):
        return (a == b, b == a, a != b, (hash(a) == hash(b)) if a == b else None)

    def member(x, ys):
        return (x in set(ys), x in dict.fromkeys(ys), len(set(list(ys) + [x])))

    def attr(x, *names):
        return [getattr(x, n, 'no') for n in names]

    return dict(D=D, S=S, np=np, dt=dt, OD=collections.OrderedDict, MP=types.MappingProxyType,
                Dec=decimal.Decimal, copy=copy, pickle=pickle, lexall=lexall, fr=lambda s: ('x' + s)[1:], lexsome=lexsome,
                rt=rt, gone=gone, look=look, known=known, rtexc=rtexc, ae=ae, collect=collect, parse=parse, table=table, eqh=eqh,
                member=member, attr=attr, ArrLike=ArrLike, Opaque=Opaque, MyInt=MyInt,
                MyStr=MyStr, MyList=MyList, MyDict=MyDict, MyFloat=MyFloat, NT=NT, SubArr=SubArr, Named=Named,
                operator=operator, deque=collections.deque,
                isunit=lambda t: isinstance(t, D.Unit), isstr=lambda t: isinstance(t, D.String),
                isdim=lambda t: isinstance(t, (D.Fixed, D.Var)))


def evaluate(expr, env):
    """(outcome fingerprint, value or None, exception or None)"""
    if _mon.LIBS:
        _mon.idle()
    try:
        v = eval(compiled(expr), env)
    except Exception as e:
        return _fp.exc(e), None, e
    return ('R', _fp.fp(v)), v, None
