"""The simulated clock (seam: libc, through the LD_PRELOAD shim native/simclock.c)."""
import ctypes
import hashlib
import os
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, 'native', 'simclock.c')


def build():
    """Build the shim (cached by content outside git); return its path."""
    with open(SRC, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    for d in (os.path.join(os.path.dirname(HERE), 'build'),
              os.path.join(tempfile.gettempdir(), 'dsim-build-%d' % os.getuid())):
        so = os.path.join(d, 'simclock-%s.so' % h)
        if os.path.exists(so):
            return so
        try:
            os.makedirs(d, exist_ok=True)
            tmp = so + '.%d.tmp' % os.getpid()
            subprocess.check_call([os.environ.get('CC', 'gcc'), '-O1', '-shared', '-fPIC',
                                   '-o', tmp, SRC])
            os.replace(tmp, so)
            return so
        except OSError:
            continue
    raise RuntimeError('cannot build the simulated clock')


class Clock(object):
    """Control of the shim from inside a worker process."""

    DEFAULT = 1467331200 * 10 ** 9          # 2016-07-01T00:00:00Z

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        try:
            f = self.lib.simclock_set
        except AttributeError:
            raise RuntimeError('simclock shim is not preloaded')
        i64 = ctypes.c_int64
        f.argtypes = [i64, i64, i64]
        self.lib.simclock_jump.argtypes = [i64, i64]
        self.lib.simclock_advance.argtypes = [i64, i64]
        for n in ('simclock_reads', 'simclock_wall_reads', 'simclock_now', 'simclock_mono'):
            getattr(self.lib, n).restype = i64

    def set(self, wall_ns=DEFAULT, mono_ns=10 ** 12, step_ns=1000, jumps=()):
        self.lib.simclock_set(wall_ns, mono_ns, step_ns)
        for at, by in jumps:
            self.lib.simclock_jump(at, by)

    def advance(self, wall_ns, mono_ns=None):
        self.lib.simclock_advance(wall_ns, wall_ns if mono_ns is None else mono_ns)

    def on(self, v=True):
        self.lib.simclock_on(1 if v else 0)

    def patch_monotonic(self):
        m = self.lib.simclock_mono
        for n in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
            setattr(time, n, lambda: m() / 1e9)
            setattr(time, n + '_ns', lambda: m())

    def reads(self):
        return self.lib.simclock_reads(), self.lib.simclock_wall_reads()

    def now(self):
        return self.lib.simclock_now()


def real():
    """Real elapsed seconds; used only for budgets and reports."""
    return time.clock_gettime(time.CLOCK_MONOTONIC_RAW)
