"""User-side data sources that can be told to fail at any of their touches."""
import _thread
import collections

import numpy as np


class Oops(Exception):
    """A failure no library can know about."""


class Cut(BaseException):
    pass


FAILS = dict((c.__name__, c) for c in (OSError, IOError, ValueError, KeyError, TypeError, AttributeError, IndexError, RuntimeError,
                                       LookupError, ZeroDivisionError, ArithmeticError, OverflowError, NotImplementedError, ImportError,
                                       AssertionError, EOFError, StopIteration, NameError, ReferenceError, ConnectionResetError, TimeoutError,
                                       BufferError, RecursionError, MemoryError, KeyboardInterrupt, Oops, Cut))


class Ctl(object):
    """Counts the touches of the sources of one call; fails at the armed one."""

    def __init__(self):
        self.on = False
        self.n = 0
        self.arm = None             # (n-th touch, exception, permanent)
        self.fired = []
        self.kinds = []

    def touch(self, kind):
        if not self.on:
            return
        self.n += 1
        self.kinds.append(kind)
        a = self.arm
        if a is not None and (self.n == a[0] or (a[2] and self.n > a[0])):
            self.fired.append(kind)
            raise a[1]

    def heal(self):
        self.on = False
        self.arm = None
        self.n = 0
        self.kinds = []


def _steps(it, ctl, what):
    ctl.touch(what + ' start')
    for x in it:
        ctl.touch(what + ' item')
        yield x
    ctl.touch(what + ' end')


class FList(list):
    ctl = None

    def __iter__(self):
        return _steps(list.__iter__(self), self.ctl, 'iteration')

    def __len__(self):
        self.ctl.touch('length')
        return list.__len__(self)

    def __getitem__(self, i):
        self.ctl.touch('item access')
        return list.__getitem__(self, i)


class FTuple(tuple):
    ctl = None

    def __iter__(self):
        return _steps(tuple.__iter__(self), self.ctl, 'iteration')

    def __len__(self):
        self.ctl.touch('length')
        return tuple.__len__(self)

    def __getitem__(self, i):
        self.ctl.touch('item access')
        return tuple.__getitem__(self, i)


class FSet(set):
    ctl = None

    def __iter__(self):
        return _steps(set.__iter__(self), self.ctl, 'iteration')

    def __len__(self):
        self.ctl.touch('length')
        return set.__len__(self)


class FDict(dict):
    ctl = None

    def __iter__(self):
        return _steps(dict.__iter__(self), self.ctl, 'iteration')

    def __len__(self):
        self.ctl.touch('length')
        return dict.__len__(self)

    def __getitem__(self, k):
        self.ctl.touch('item access')
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.ctl.touch('item access')
        return dict.get(self, k, d)

    def keys(self):
        self.ctl.touch('keys')
        return dict.keys(self)

    def items(self):
        return list(_steps(dict.items(self), self.ctl, 'items'))

    def values(self):
        return list(_steps(dict.values(self), self.ctl, 'values'))

    def __contains__(self, k):
        self.ctl.touch('membership')
        return dict.__contains__(self, k)


class FOD(collections.OrderedDict):
    ctl = None

    def items(self):
        return _steps(list(collections.OrderedDict.items(self)), self.ctl, 'items')

    def __iter__(self):
        if self.ctl is None:
            return collections.OrderedDict.__iter__(self)
        return _steps(collections.OrderedDict.__iter__(self), self.ctl, 'iteration')

    def __len__(self):
        if self.ctl is not None:
            self.ctl.touch('length')
        return collections.OrderedDict.__len__(self)


class FKey(str):
    ctl = None

    def __lt__(self, o):
        self.ctl.touch('comparison')
        return str.__lt__(self, o)

    def __gt__(self, o):
        self.ctl.touch('comparison')
        return str.__gt__(self, o)


class FArr(object):
    ctl = None

    def __init__(self, shape, dtype):
        self._s, self._d = shape, np.dtype(dtype)

    @property
    def shape(self):
        self.ctl.touch('array shape')
        return self._s

    @property
    def dtype(self):
        self.ctl.touch('array dtype')
        return self._d


class FNd(np.ndarray):
    ctl = None

    @property
    def flat(self):
        self.ctl.touch('array flat')
        return np.ndarray.flat.__get__(self)

    @property
    def shape(self):
        self.ctl.touch('ndarray shape')
        return np.ndarray.shape.__get__(self)

    @property
    def dtype(self):
        self.ctl.touch('ndarray dtype')
        return np.ndarray.dtype.__get__(self)

    def __getitem__(self, i):
        self.ctl.touch('array item')
        return np.ndarray.__getitem__(self, i)


class Src(object):
    """Discovered through a rule its user registers."""
    ctl = None

    def __init__(self, payload):
        self.payload = payload


class SrcSub(Src):
    pass


class VSrc(object):
    """Validated through a rule its user registers."""
    ctl = None

    def __init__(self, ok):
        self.ok = ok


class FPred(object):
    ctl = None

    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        self.ctl.touch('predicate')
        return self.f(x)


CURRENT = {}                     # thread -> controller of the call it is in


def rules(D):
    """What the user of these classes registers, including replacements of the
    rules for int, bool and timedelta64, which strings like '1' also reach."""
    def again(ds):
        def rule(x):
            c = CURRENT.get(_thread.get_ident())
            if c is not None:
                c.touch('replaced rule')
            return ds(x)
        return rule
    D.discover.register(int)(again(lambda x: D.int64))
    D.discover.register(bool)(again(lambda x: D.bool_))
    D.discover.register(np.timedelta64)(again(lambda x: D.from_numpy((), x)))

    def of_src(s):
        s.ctl.touch('registered rule')
        v = D.discover(s.payload)
        s.ctl.touch('registered rule')
        return v

    def of_vsrc(schema, s):
        s.ctl.touch('registered rule')
        return s.ok
    D.discover.register(Src)(of_src)
    D.validate.register(D.DataShape, VSrc)(of_vsrc)


def vocabulary(ctl, D):
    """Constructors bound to the controller of one call."""
    def bind(o):
        o.ctl = ctl
        return o

    def gen(xs):
        return _steps(iter(xs), ctl, 'generator')

    def nd(x, dtype='O'):
        return bind(np.array(x, dtype=dtype).view(FNd))
    return dict(FL=lambda x=(): bind(FList(x)), FT=lambda x=(): bind(FTuple(x)), FS=lambda x=(): bind(FSet(x)),
                FD=lambda x=(): bind(FDict(x)), FO=lambda x=(): bind(FOD(x)), KEY=lambda s: bind(FKey(s)),
                FA=lambda s, d: bind(FArr(s, d)), ND=nd, SRC=lambda p: bind(Src(p)), SUB=lambda p: bind(SrcSub(p)),
                VS=lambda ok: bind(VSrc(ok)), GEN=gen, PRED=lambda f: bind(FPred(f)))
