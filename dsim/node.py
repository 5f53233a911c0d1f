"""A node: one simulated interpreter process, i.e. one fresh import of the package.

Seams given to the package inside a node: hash() is salted and free of memory
addresses, id() is a simulated allocator that reuses identities as soon as it may,
git is a simulated child process, locks and sleeps are simulated, and the clock is
the simulated one.
"""
import builtins
import decimal
import gc
import importlib.abc
import importlib.machinery
import locale
import os
import signal
import sys
import warnings
import zlib

import numpy as np

from . import code as _code
from . import git as _git
from . import mon

PKG = _code.PKG
REPO = os.environ.get('DS_REPO', '/repo')
_thash = tuple.__hash__
_shash = str.__hash__
_M = (1 << 61) - 1


def make_hash(salt):
    """hash() as a process with this salt would compute it: equal values hash
    equal, the rest is arbitrary but address-free and repeatable."""
    pre = ('%d|' % salt).encode()
    memo = {}

    def simhash(x, /):
        t = type(x)
        if t is int or t is float or t is bool or x is None:
            return builtins.hash(x)
        if isinstance(x, str) and (t.__hash__ is _shash or t is np.str_):
            h = memo.get(x)
            if h is None:
                b = pre + str(x).encode('utf-8', 'surrogatepass')
                h = (zlib.crc32(b) << 29) ^ zlib.adler32(b)
                if len(memo) < 5000:
                    memo[str(x)] = h
            return h
        if isinstance(x, tuple) and t.__hash__ is _thash:
            h = 0x345678 + salt
            for e in x:
                h = ((h ^ simhash(e)) * 1000003) & _M
            return h
        if isinstance(x, type) and type(x).__hash__ is type.__hash__:
            b = pre + ('%s.%s' % (x.__module__, x.__qualname__)).encode()
            return (zlib.crc32(b) << 20) ^ zlib.adler32(b)
        return builtins.hash(x)
    simhash.__name__ = 'hash'
    return simhash


def make_id():
    """id() of an allocator that reuses the identity of a dead object at once."""
    live = []                  # object or hole; index = identity
    where = {}                 # real identity -> index (live keeps the object alive)
    free = []
    hole = object()
    refs = sys.getrefcount
    rid = builtins.id
    pos = [0]

    def simid(x, /):
        i = where.get(rid(x))
        if i is not None:
            return 0x5000 + 16 * i
        n = len(live)
        for k in range(min(n, 128)):
            i = (pos[0] + k) % n
            if live[i] is not hole and refs(live[i]) == 2:   # only this table holds it
                del where[rid(live[i])]
                live[i] = hole
                free.append(i)
        if n:
            pos[0] = (pos[0] + 128) % n
        if free:
            i = free.pop()
            live[i] = x
        else:
            i = n
            live.append(x)
        where[rid(x)] = i
        return 0x5000 + 16 * i
    simid.__name__ = 'id'
    return simid


class Loader(importlib.abc.Loader):
    def __init__(self, node, code, path, pkgdir):
        self.node, self.code, self.path, self.pkgdir = node, code, path, pkgdir

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        n = self.node
        d = module.__dict__
        d['__builtins__'] = n.builtins
        d['__file__'] = n.file_of(self.path)
        if n.exec_hook is not None:
            n.exec_hook(module.__name__, 'before')
        sim = mon.SIM
        if sim is not None and not n.sim_import:
            old, sim.mute = sim.mute, True
            try:
                exec(self.code, d)
            finally:
                sim.mute = old
        else:
            exec(self.code, d)
        if n.exec_hook is not None:
            n.exec_hook(module.__name__, 'after')


class Finder(importlib.abc.MetaPathFinder):
    node = None
    store = None

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        n = Finder.node
        code, src, pkgdir, _ = self.store.get(name, n.instrumented)
        if code is None:
            return None
        spec = importlib.machinery.ModuleSpec(name, Loader(n, code, src, pkgdir),
                                              origin=src, is_package=pkgdir is not None)
        if pkgdir is not None:
            spec.submodule_search_locations = [pkgdir]
        return spec


_finder = Finder()

# process-wide state outside the package that a node may leave something in
GLOBALS = ('sys', 'builtins', 'threading', 'os', 'copyreg', 'types', 'functools', 'collections', 'multipledispatch', 'multipledispatch.core',
           'multipledispatch.dispatcher', 'dateutil', 'dateutil.parser', 'json', 'pickle', 'copy', 're', 'operator', 'warnings', 'decimal')
SKIP = frozenset(('last_type', 'last_value', 'last_traceback', 'last_exc', 'modules', 'tracebacklimit', '_', '__warningregistry__', '_git_refs',
                  'ps1', 'ps2', 'warnoptions', '_getframe'))
_base = []


def _tables():
    out = [m.__dict__ for m in (sys.modules.get(n) for n in GLOBALS) if m is not None]
    for mod, name in (('copyreg', 'dispatch_table'), ('multipledispatch.core', 'global_namespace'), ('multipledispatch.dispatcher', '_resolve')):
        t = getattr(sys.modules.get(mod), name, None)
        if isinstance(t, dict):
            out.append(t)
    return out


def _set_list(lst, after=None):
    def put(v):
        lst[:] = v
        if after:
            after()
    return put


def _set_environ(v):
    for k in [k for k in os.environ if k not in v]:
        del os.environ[k]
    for k, x in v.items():
        if os.environ.get(k) != x:
            os.environ[k] = x


# settings of the process: (name, get, set)
SETTINGS = [
    ('recursion limit', sys.getrecursionlimit, sys.setrecursionlimit),
    ('warning filters', lambda: list(warnings.filters), _set_list(warnings.filters, warnings._filters_mutated)),
    ('numpy error handling', np.geterr, lambda v: np.seterr(**v)),
    ('numpy print options', np.get_printoptions, lambda v: np.set_printoptions(**v)),
    ('locale', lambda: locale.setlocale(locale.LC_ALL), lambda v: locale.setlocale(locale.LC_ALL, v)),
    ('default decimal context', lambda: repr(decimal.DefaultContext), lambda v: None),
    ('environment', lambda: dict((k, v) for k, v in os.environ.items() if k not in ('TZ', 'SIMCLOCK')), lambda v: _set_environ(dict(v, TZ=os.environ.get('TZ', 'UTC')))),
    ('working directory', os.getcwd, os.chdir),
    ('module path', lambda: list(sys.path), _set_list(sys.path)),
    ('import hooks', lambda: list(sys.meta_path), _set_list(sys.meta_path)),
    ('garbage collection', gc.isenabled, lambda v: (gc.enable if v else gc.disable)()),
    ('digits in integers', sys.get_int_max_str_digits, sys.set_int_max_str_digits),
    ('signal handlers', lambda: [signal.getsignal(n) for n in _SIGNALS], lambda v: [signal.signal(n, h) for n, h in zip(_SIGNALS, v)]),
]
_SIGNALS = (signal.SIGINT, signal.SIGALRM, signal.SIGTERM, signal.SIGCHLD)
_sbase = {}


def settings():
    return dict((n, g()) for n, g, _ in SETTINGS)


def snapshot_globals():
    del _base[:]
    _base.extend((t, dict(t)) for t in _tables())
    _sbase.update(settings())


def take_settings():
    out = {}
    for n, g, put in SETTINGS:
        v = g()
        if v != _sbase[n]:
            out[n] = v
            put(_sbase[n])
    return out


_gone = object()


def take_globals():
    """What the running node left in process-wide tables; they are reset."""
    out = []
    for t, base in _base:
        for k in list(t):
            if k not in SKIP and t[k] is not base.get(k, _gone):
                out.append((t, k, t[k]))
                if k in base:
                    t[k] = base[k]
                else:
                    del t[k]
        if len(t) < len(base):
            for k in base:
                if k not in t and k not in SKIP:
                    out.append((t, k, _gone))
                    t[k] = base[k]
    return out


def put_globals(diff):
    for t, k, v in diff:
        if v is _gone:
            t.pop(k, None)
        else:
            t[k] = v


def setup(repo=None):
    Finder.store = _code.Store(repo or REPO)
    sys.meta_path.insert(0, _finder)
    _git.patch()
    mon.patch_primitives()
    for n in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[n]
    snapshot_globals()


EXTRA = ['datashape.util.testing']


class Node(object):
    def __init__(self, instrumented=False, salt=0, git=None, fileroot=None, load=True,
                 sim_import=False, extra=True):
        self.instrumented = instrumented
        self.salt = salt
        self.git = git
        self.fileroot = fileroot
        self.sim_import = sim_import
        self.exec_hook = None         # called around the execution of every module
        self.modules = {}
        self.globals = []
        self.settings = {}
        self.at_fork = ([], [], [])   # before, in the parent, in the child
        b = dict(builtins.__dict__)
        b['hash'] = make_hash(salt)
        b['id'] = make_id()
        self.builtins = b
        self.D = None
        if load:
            self.install()
            self.load(extra)

    def file_of(self, path):
        if self.fileroot is None:
            return path
        return os.path.join(self.fileroot, os.path.relpath(path, Finder.store.root and
                                                           os.path.dirname(Finder.store.root)))

    def install(self):
        cur = Finder.node
        if cur is self:
            return self
        if cur is not None:
            cur.uninstall()
        Finder.node = self
        _git.GIT = self.git
        sys.modules.update(self.modules)
        put_globals(self.globals)
        for n, _, put in SETTINGS:
            if n in self.settings:
                put(self.settings[n])
        return self

    def uninstall(self):
        assert Finder.node is self
        mods = [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]
        self.modules = dict((m, sys.modules.pop(m)) for m in mods)
        self.globals = take_globals()
        self.settings = take_settings()
        Finder.node = None

    def load(self, extra=True):
        mon.ACTIVE = True
        self.D = __import__(PKG)
        if extra:
            for m in EXTRA:
                try:
                    __import__(m)
                except ImportError:
                    pass
            for m in Finder.store.modules():
                if m in sys.modules:
                    continue
                if m.endswith('._version'):
                    continue
                try:
                    __import__(m)
                except Exception:
                    pass
        self.settings0 = settings()
        return self.D

    def left(self):
        """Settings of the process that have changed since the import."""
        now = settings()
        return ['%s: %s' % (n, str(now[n])[:200]) for n in now if now[n] != self.settings0[n]]
