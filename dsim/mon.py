"""The scheduler: real threads parked and released one at a time at bytecode
granularity, plus injection of aborts at instructions.  Every decision is drawn
from the run's PRNG and recorded, or replayed from a record."""
import _thread
import os
import sys
import threading
import time
from random import Random

from .code import Y, F, G, W, S

TOOL = 3
_m = sys.monitoring
_E = _m.events
_get_ident = _thread.get_ident
_real_alloc = _thread.allocate_lock
_DISABLE = _m.DISABLE

PTS = {}
SIM = None          # the running simulation, or None
ACTIVE = False      # simulated primitives are handed out


class SimAbort(BaseException):
    """Unwinds a simulated thread when the run is over."""


class SimDeadlock(BaseException):
    """A lock is waited for that nobody can release."""


def instrument(code, pts):
    PTS[id(code)] = pts
    _m.set_local_events(TOOL, code, _E.INSTRUCTION)


def _cb(code, off):
    p = PTS[id(code)].get(off)
    if p is None:
        return _DISABLE
    s = SIM
    if s is None or s.mute or _get_ident() != s.cur_ident:
        return
    s.point(p[0], p[1])


def start():
    _m.use_tool_id(TOOL, 'dsim')
    _m.register_callback(TOOL, _E.INSTRUCTION, _cb)


# --------------------------------------------------------------- simulated locks

class SimLock(object):
    """Stand-in for threading.Lock: a blocked acquire is a scheduling decision."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        while self.owner is not None:
            s = SIM
            if self.reentrant and self.owner == me:
                self.count += 1
                return True
            if not blocking:
                return False
            if s is not None and not s.mute and me == s.cur_ident and s.started:
                if timeout is not None and timeout >= 0:
                    s.yield_blocked_once()
                    if self.owner is None:
                        break
                    s.note('lock-timeout')
                    return False
                s.block(self)
            elif LIBS and not elsewhere(self, timeout is not None and timeout >= 0):
                return False
            elif not LIBS:
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock('a lock was left held')
        s = SIM
        self.owner = me
        self.count = 1
        if s is not None:
            s.lock_acquires += 1
            if me == s.cur_ident:
                s.cur.held += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if SIM is not None:
                if SIM.cur is not None and SIM.cur.held and _get_ident() == SIM.cur_ident:
                    SIM.cur.held -= 1
                SIM.unblock(self)
            for l in LIBS:
                if l.vt.state == 'blocked' and l.vt.waiting is self:
                    l.vt.state = 'ready'
                    l.vt.waiting = None

    def locked(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0

    def _is_owned(self):
        return self.owner == _get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        c = self.count
        self.count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c


_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real_sleep = time.sleep
_real_getpid = os.getpid
FORKS = 0           # forks that led to the simulated process


def _getpid():
    return _real_getpid() + FORKS


def _register_at_fork(*, before=None, after_in_parent=None, after_in_child=None):
    from . import node
    n = node.Finder.node
    if n is None or not ACTIVE:
        return _real_at_fork(**dict((k, v) for k, v in (('before', before), ('after_in_parent', after_in_parent), ('after_in_child', after_in_child)) if v))
    for v, to in zip((before, after_in_parent, after_in_child), n.at_fork):
        if v is not None:
            to.append(v)


_real_at_fork = os.register_at_fork


def _Lock():
    return SimLock() if ACTIVE else _real_Lock()


def _RLock():
    return SimRLock() if ACTIVE else _real_RLock()


def _sleep(secs):
    if not ACTIVE:
        return _real_sleep(secs)
    s = SIM
    from . import worker
    if worker.CLOCK is not None:
        worker.CLOCK.advance(int(secs * 1e9))
    if s is not None and not s.mute and _get_ident() == s.cur_ident:
        s.note('sleep')
        if s.started:
            s.yield_blocked_once()
            return
    if LIBS:
        l = lib_here()
        if l is not None:
            l.back()


# --------------------------------------------------------------- threads made by the library

LIBS = []           # alive, of all nodes
_main = _real_alloc()
_main.acquire()
_real_start = _thread.start_new_thread
_real_sentinel = threading._set_sentinel


class Lib(object):
    """A thread the library started.  It runs when it is handed the baton: by the
    simulation, or while a call made outside of one waits for something."""

    def __init__(self, fn, args, kwargs):
        from . import node
        self.node = node.Finder.node
        self.job = (fn, args, kwargs)
        self.baton = _real_alloc()
        self.baton.acquire()
        self.ident = None
        self.killed = False
        self.sentinel = None
        self.thread = getattr(fn, '__self__', None)
        self.vt = t = VThread(1000 + len(LIBS), [])
        t.uid = t.id
        t.carrier = self
        t.lib = self
        ready = _real_alloc()
        ready.acquire()
        _real_start(self._loop, (ready,))
        ready.acquire()
        LIBS.append(self)

    def _loop(self, ready):
        self.ident = _get_ident()
        ready.release()
        self.baton.acquire()
        fn, args, kwargs = self.job
        self.job = None
        try:
            if not self.killed:
                s = SIM
                if s is not None and s.started and self.vt in s.threads and s.abort_reason:
                    raise SimAbort
                fn(*args, **kwargs)
        except (SimAbort, SystemExit):
            pass
        except BaseException:
            pass                    # as Python: reported on stderr, nobody is told
        fn = args = kwargs = None
        if self.sentinel is not None:
            self.sentinel.owner = self.ident
            self.sentinel.count = 1
            self.sentinel.release()
        self.vt.state = 'done'
        if self in LIBS:
            LIBS.remove(self)
        s = SIM
        if s is not None and s.started and s.cur is self.vt:
            s._finish(self.vt)
        else:
            _main.release()

    def back(self):
        """Hand the baton back to the call outside a simulation."""
        _main.release()
        self.baton.acquire()
        if self.killed:
            raise SimAbort


def lib_here():
    me = _get_ident()
    for l in LIBS:
        if l.ident == me:
            return l


def lend(l):
    l.baton.release()
    _main.acquire()


def elsewhere(lock, timed):
    """Outside of a simulation a lock is waited for: let the library's threads go on."""
    if SIM is not None and SIM.started:
        if timed:
            return False
        raise SimDeadlock('a lock was left held')
    me = lib_here()
    if me is not None:
        if me.killed:
            raise SimAbort
        if not timed:
            me.vt.state, me.vt.waiting = 'blocked', lock
        me.back()
        me.vt.state, me.vt.waiting = 'ready', None
        return not timed or lock.owner is None
    from . import node
    for _ in range(5000):
        ready = [l for l in LIBS if l.vt.state == 'ready' and l.node is node.Finder.node]
        if not ready:
            break
        for l in ready:
            if l.vt.state == 'ready':
                lend(l)
            if lock.owner is None:
                return True
    if timed:
        return False
    raise SimDeadlock('a lock was left held')


def idle():
    """Nothing is going on: the library's threads have all the time they want."""
    if SIM is not None and SIM.started or lib_here() is not None:
        return
    from . import node
    for _ in range(20):
        ready = [l for l in LIBS if l.vt.state == 'ready' and l.node is node.Finder.node]
        if not ready:
            return
        for l in ready:
            if l.vt.state == 'ready':
                lend(l)


def kill_libs():
    for l in list(LIBS):
        l.killed = True
        for _ in range(50):
            if l.vt.state == 'done':
                break
            l.vt.state = 'ready'
            lend(l)
        if l in LIBS:
            LIBS.remove(l)


def _start_new_thread(fn, args, kwargs={}):
    if not ACTIVE:
        return _real_start(fn, args, kwargs)
    l = Lib(fn, args, kwargs)
    s = SIM
    if s is not None and s.started:
        s.threads.append(l.vt)
        s.note('threads of the library')
    return l.ident


def _set_sentinel():
    l = lib_here() if ACTIVE else None
    if l is None:
        return _real_sentinel()
    l.sentinel = SimLock()
    return l.sentinel


def _excepthook(args, old=threading.excepthook):
    if args.exc_type is not SimAbort:
        old(args)


def patch_primitives():
    import queue
    import concurrent.futures.thread as cft
    threading._start_new_thread = _thread.start_new_thread = _thread.start_new = _start_new_thread
    threading._set_sentinel = _set_sentinel
    threading.excepthook = _excepthook
    _thread.allocate_lock = _thread.allocate = _Lock
    _thread.RLock = _RLock
    cft._global_shutdown_lock = SimLock()
    real = queue.SimpleQueue
    queue.SimpleQueue = lambda: queue._PySimpleQueue() if ACTIVE else real()
    threading.Lock = _Lock
    threading.RLock = _RLock
    threading._allocate_lock = _Lock
    time.sleep = _sleep
    os.getpid = _getpid
    os.register_at_fork = _register_at_fork


# --------------------------------------------------------------- worker threads

class _Carrier(object):
    """A real thread that runs one simulated thread at a time."""

    def __init__(self):
        self.baton = _real_alloc()
        self.baton.acquire()
        self.job = None
        self.ident = None
        self.ready = _real_alloc()
        self.ready.acquire()
        _real_start(self._loop, ())
        self.ready.acquire()

    def _loop(self):
        self.ident = _get_ident()
        self.ready.release()
        while True:
            self.baton.acquire()
            self.job()          # let go of by the next run, not here


_carriers = []


def carrier(i):
    while len(_carriers) <= i:
        _carriers.append(_Carrier())
    return _carriers[i]


# --------------------------------------------------------------- policies

class Policy(object):
    """How an exploring run decides to preempt.  A pure function of the PRNG and
    of the schedule point; `kind` varies from run to run (swarm)."""

    KINDS = ('geom', 'target', 'hot', 'pct', 'mixed', 'serial')

    def __init__(self, rng, kind=None, sites=()):
        self.rng = rng
        self.sites = frozenset(sites)     # writes to preempt at
        if self.sites and kind is None and rng.random() < 0.85:
            kind = 'sites'
        self.held_p = rng.choice((0.0, 0.2, 0.8))
        self.after = rng.choice((0, 0, 1, 2, 5, 12))
        self.due = 0
        self.kind = kind or rng.choices(self.KINDS, (5, 5, 4, 4, 4, 1))[0]
        self.mean = rng.choice((2, 4, 10, 30, 100, 300))
        self.mod = rng.choice((5, 20, 60, 200))
        self.res = rng.randrange(self.mod)
        self.p_hit = rng.choice((0.3, 0.7, 1.0))
        self.p_long = rng.choice((0.0, 0.5, 0.9))
        self.hot_p = rng.choice((0.1, 0.3, 0.7))
        self.gap = self._gap()
        if self.kind == 'pct':
            k = rng.randrange(1, 6)
            scale = rng.choice((50, 300, 1500, 6000))
            self.change = sorted(rng.randrange(1, scale) for _ in range(k))
        self.stay = 0
        self.also = bool(self.sites) and rng.random() < 0.5
        self.acq_p = rng.choice((0, 0, 0.5, 0.9))    # after something was acquired
        self.acq = 0

    def _gap(self):
        return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def want(self, sim, fl, loc):
        k = self.kind
        if k == 'serial':
            return False
        if sim.lock_acquires != self.acq:
            self.acq = sim.lock_acquires
            if self.rng.random() < self.acq_p:
                return self._hit()
        if sim.cur.held and not self.stay and self.rng.random() < self.held_p:
            return self._hit()
        if k == 'sites':
            if self.stay:
                self.stay -= 1
                return False
            if self.due:
                self.due -= 1
                if not self.due:
                    return self._hit()
            elif loc in self.sites and self.rng.random() < self.p_hit:
                if self.after:
                    self.due = self.after
                    return False
                return self._hit()
            if self.also:
                self.gap -= 1
                if self.gap <= 0:
                    self.gap = self._gap()
                    return self._hit()
            return False
        if k == 'pct':
            if self.change and sim.steps >= self.change[0]:
                self.change.pop(0)
                return True
            return False
        if self.stay:
            # the thread switched to keeps running for a while
            self.stay -= 1
            return False
        if k == 'target' or k == 'mixed':
            if loc % self.mod == self.res and self.rng.random() < self.p_hit:
                return self._hit()
            if k == 'target':
                return False
        if k == 'hot' or k == 'mixed':
            if fl & W and self.rng.random() < self.hot_p:
                return self._hit()
            if fl & S and self.rng.random() < self.hot_p / 4:
                return self._hit()
            if k == 'hot':
                return False
        self.gap -= 1
        if self.gap <= 0:
            self.gap = self._gap()
            return self._hit()
        return False

    def _hit(self):
        if self.rng.random() < self.p_long:
            self.stay = 1 << 30       # until the other thread's operation ends
        return True

    def op_end(self):
        self.stay = 0


# --------------------------------------------------------------- the simulation

class VThread(object):
    __slots__ = ('id', 'ops', 'state', 'waiting', 'uid', 'n', 'fcount', 'fault', 'carrier',
                 'results', 'k', 'error', 'nest', 'wcount', 'gcount', 'held', 'lib')

    def __init__(self, id, ops):
        self.id = id
        self.ops = ops
        self.state = 'ready'
        self.waiting = None
        self.uid = None
        self.n = 0
        self.fcount = 0
        self.fault = None
        self.results = []
        self.k = 0
        self.error = None
        self.nest = ()
        self.wcount = 0
        self.gcount = 0
        self.held = 0
        self.lib = None


class Sim(object):
    """One run.  ops are callables `op.run()`; op.uid identifies them across
    minimisation; op.fault is None or (exception factory, n-th fault point)."""

    def __init__(self, policy=None, replay=None, cap=8000000):
        self.policy = policy
        self.replay = replay            # {(uid, n): to} or None
        self.record = []                # [uid, n, to]
        self.cap = cap
        self.threads = []
        self.cur = None
        self.cur_ident = None
        self.mute = True
        self.started = False
        self.steps = 0
        self.trace = 0
        self.switches = 0
        self.abort_reason = None
        self.lock_acquires = 0
        self.blocks = 0
        self.notes = {}
        self.fired = []
        self.fault_points = 0
        self.wpoints = 0
        self.gpoints = 0
        self.nested = 0
        self.forked = None
        self.done = _real_alloc()
        self.done.acquire()
        self.on_step = None

    def note(self, k):
        self.notes[k] = self.notes.get(k, 0) + 1

    # ---- single-threaded use: run one callable with fault points armed
    def solo(self, fn, uid=0, fault=None):
        global SIM
        t = VThread(0, [])
        t.uid = uid
        t.fault = fault
        self.threads = [t]
        self.cur = t
        self.cur_ident = _get_ident()
        self.mute = False
        old, SIM = SIM, self
        try:
            return fn()
        finally:
            self.mute = True
            SIM = old

    # ---- concurrent use
    def run(self, programs):
        """programs: list of lists of ops."""
        global SIM, FORKS
        FORKS = 0
        self.threads = [VThread(i, ops) for i, ops in enumerate(programs)]
        old, SIM = SIM, self
        self.started = True
        for t in self.threads:
            t.carrier = carrier(t.id)
            t.carrier.job = self._body(t)
        first = list(self.threads)
        if LIBS:
            from . import node
            self.threads += [l.vt for l in LIBS if l.node is node.Finder.node]
        try:
            first = self._pick(first, ('start', 0), None)
            self._resume(first)
            self.done.acquire()
        finally:
            self.mute = True
            self.started = False
            SIM = old
        return self.threads

    def _body(self, t):
        def body():
            try:
                self.mute = False
                for k, op in enumerate(t.ops):
                    if self.abort_reason:
                        raise SimAbort
                    t.k = k
                    t.uid = op.uid
                    t.n = 0
                    t.fcount = 0
                    t.fault = op.fault
                    t.nest = getattr(op, "nest", ())
                    t.wcount = t.gcount = 0
                    self._boundary(t)
                    if self.abort_reason:
                        raise SimAbort
                    t.results.append(op.run(self))
                    t.fault = None
                    t.nest = ()
                    if self.policy is not None:
                        self.policy.op_end()
            except SimAbort:
                pass
            except BaseException as e:      # an error of the harness
                import traceback
                t.error = ''.join(traceback.format_exception(e))
                self.abort('harness')
            self._finish(t)
        return body

    def _boundary(self, t):
        self.trace = (self.trace * 1000003 + t.uid * 31 + t.id + 7) & 0xffffffffffff
        self._maybe_switch(t, 0, 0, boundary=True)

    def _finish(self, t):
        t.state = 'done'
        self.mute = True
        pending = any(x.state in ('ready', 'blocked') for x in self.threads if x.lib is None)
        if self.forked == 'child' and self.abort_reason is None and not pending:
            self.abort_reason = 'forked'      # over; the vanished threads are unwound
        if not pending and self.abort_reason is None:
            # threads of the library stay where they are
            self.cur_ident = None
            self.done.release()
            return
        # under abort blocked threads are woken up too, to unwind
        alive = [x for x in self.threads if x.state == 'ready' or
                 (self.abort_reason and x.state in ('blocked', 'gone'))]
        if not alive:
            if any(x.state == 'blocked' for x in self.threads):
                self.abort('deadlock')
                alive = [x for x in self.threads if x.state in ('blocked', 'gone')]
            else:
                self.cur_ident = None
                self.done.release()
                return
        to = self._pick(alive, ('end', t.id), t)
        if to.state in ('blocked', 'gone'):
            to.state = 'ready'
        self._resume(to)

    def _resume(self, t):
        self.cur = t
        self.cur_ident = t.carrier.ident
        self.switches += 1
        self.trace = (self.trace * 1000003 + t.id + 1) & 0xffffffffffff
        self.mute = False
        t.carrier.baton.release()

    def _pick(self, cands, key, cur):
        if self.replay is not None:
            to = self.replay.get(key)
            if to is not None:
                for c in cands:
                    if c.id == to:
                        return c
            return cands[0]
        if len(cands) == 1:
            return cands[0]
        to = self.policy.rng.choice(cands) if self.policy else cands[0]
        self.record.append([key[0], key[1], to.id])
        return to

    def _switch(self, t, to):
        self._resume(to)
        t.carrier.baton.acquire()
        # running again
        self.mute = False
        if self.abort_reason or t.lib is not None and t.lib.killed:
            raise SimAbort

    def _maybe_switch(self, t, fl, loc, boundary=False):
        if self.replay is not None:
            to = self.replay.get((t.uid, t.n))
            if to is None or to == t.id:
                return
            for c in self.threads:
                if c.id == to and c.state == 'ready':
                    self._switch(t, c)
                    return
            return
        pol = self.policy
        if pol is None:
            return
        if boundary:
            if pol.rng.random() > 0.5:
                return
        elif not pol.want(self, fl, loc):
            return
        cands = [c for c in self.threads if c.state == 'ready' and c is not t]
        if not cands:
            return
        to = pol.rng.choice(cands) if len(cands) > 1 else cands[0]
        self.record.append([t.uid, t.n, to.id])
        self._switch(t, to)

    def point(self, fl, loc):
        t = self.cur
        t.n += 1
        self.steps += 1
        self.trace = (self.trace * 1000003 + loc + t.id) & 0xffffffffffff
        if self.abort_reason:
            raise SimAbort
        if self.steps > self.cap:
            self.abort('step-cap')
            raise SimAbort
        if fl & F:
            t.fcount += 1
            self.fault_points += 1
            f = t.fault
            if f is not None and f[1] == t.fcount:
                t.fault = None
                self.fired.append((t.uid, f[0].__name__, t.fcount))
                raise f[0]('injected')
        if fl & (W | S):
            t.wcount += 1
            self.wpoints += 1
        g = fl & G or t.held
        if g:
            t.gcount += 1
            self.gpoints += 1
        if self.on_step is not None:
            self.on_step(self, t, fl, loc)
        if t.nest:
            for x in t.nest:
                w = x.of_writes
                if not x.ran and (t.n == x.at if not w else t.gcount == x.at and g if w == 2 else t.wcount == x.at and fl & (W | S)):
                    x.ran = True
                    self.nested += 1
                    self.trace = (self.trace * 1000003 + 77 + x.uid) & 0xffffffffffff
                    x.run(self)
        if self.started:
            self._maybe_switch(t, fl, loc)

    def abort(self, why):
        if self.abort_reason is None:
            self.abort_reason = why

    # ---- fork: the calling thread goes on alone, in the child, or as before, in the parent
    def fork(self, role):
        global FORKS
        from . import node
        before, parent, child = node.Finder.node.at_fork
        for f in reversed(before):
            f()
        if role == 'child':
            FORKS += 1
            self.forked = 'child'
            for t in self.threads:
                if t is not self.cur and t.state != 'done':
                    t.state = 'gone'
                    self.note('threads lost')
                    if t.lib is not None:
                        th = t.lib.thread
                        if isinstance(th, threading.Thread):
                            th._is_stopped = True
                            th._tstate_lock = None
                            t.lib.sentinel = None
                            threading._active.pop(t.lib.ident, None)
            todo = child
        else:
            self.forked = self.forked or 'parent'
            todo = parent
        self.trace = (self.trace * 1000003 + 99) & 0xffffffffffff
        for f in todo:
            f()

    # ---- blocking
    def block(self, lock):
        t = self.cur
        t.state = 'blocked'
        t.waiting = lock
        t.n += 1
        self.blocks += 1
        if self.policy is not None:
            self.policy.op_end()
        ready = [c for c in self.threads if c.state == 'ready']
        if not ready:
            self.abort('deadlock')
            t.state = 'ready'
            raise SimAbort
        to = self._pick(ready, ('b%d' % t.uid, t.n), t)
        self._switch(t, to)

    def unblock(self, lock):
        for c in self.threads:
            if c.state == 'blocked' and c.waiting is lock:
                c.state = 'ready'
                c.waiting = None

    def yield_blocked_once(self):
        t = self.cur
        t.n += 1
        ready = [c for c in self.threads if c.state == 'ready' and c is not t]
        if not ready:
            return
        to = self._pick(ready, ('y%d' % t.uid, t.n), t)
        self._switch(t, to)


class quiet(object):
    """Observe within a simulated call without being part of the simulation."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        if self.sim is not None:
            self.old, self.sim.mute = self.sim.mute, True

    def __exit__(self, *a):
        if self.sim is not None:
            self.sim.mute = self.old


def replay_map(record):
    return dict(((r[0], r[1]), r[2]) for r in record)
