"""What the property simulations share."""
import gc
import sys
from random import Random

from .. import fp as _fp
from .. import code as _code
from .. import gen, mon, oplib
from ..worker import H, Outcome, text


class Op(object):
    __slots__ = ('uid', 'expr', 'env', 'fault', 'value', 'error', 'code', 'nest')

    def __init__(self, uid, expr, env, fault=None):
        self.uid = uid
        self.expr = expr
        self.env = env
        self.fault = fault
        self.value = self.error = None
        self.code = oplib.compiled(expr)
        self.nest = ()

    def run(self, sim):
        try:
            self.value = eval(self.code, self.env)
        except mon.SimAbort:
            raise
        except BaseException as e:
            self.error = e
        return self

    def outcome(self):
        if self.error is not None:
            return _fp.exc(self.error)
        return ('R', _fp.fp(self.value))


class Nested(Op):
    """A call made by a signal handler or finalizer in the middle of another: just
    before the at-th schedule point of it (1: near a write, 2: at a write to shared
    state or while a lock is held)."""
    __slots__ = ('at', 'of_writes', 'ran')

    def __init__(self, uid, expr, env, at, of_writes):
        Op.__init__(self, uid, expr, env)
        self.at = at
        self.of_writes = of_writes
        self.ran = False


class Fork(object):
    """fork() as an operation."""
    expr = 'fork'
    nest = ()
    fault = None

    def __init__(self, uid, role):
        self.uid = uid
        self.role = role

    def run(self, sim):
        sim.fork(self.role)
        return self


class Base(object):
    CHUNK = 100
    CORPUS = 200
    quick_chunks = 16
    thorough_chunks = 400

    def __init__(self, ctx):
        self.ctx = ctx
        self.corpus = []
        self._probes = {}

    def probe(self, k, n=1):
        self._probes[k] = self._probes.get(k, 0) + n

    def probes(self):
        return self._probes

    def begin_chunk(self, ch):
        r = Random(H(self.ctx.seed, self.ctx.job['prop'], 'corpus', ch))
        self.corpus = []
        while len(self.corpus) < self.CORPUS:
            self.corpus.append(gen.group(r, 0))

    def survey(self, r, n):
        """Which calls reach which writes: [(function, locations, [([object], call)])].
        Guides the search only."""
        pool = []
        while len(pool) < n:
            k = r.random()
            if k < 0.5:
                pool += [([], e) for e in gen.group(r, 0)[:4]]
            elif k < 0.7:
                o, ts = gen.typed(r)
                pool += [([o], gen.same(r, 'S[0]', t)) for t in r.sample(ts, min(len(ts), 4))]
            elif k < 0.85:
                o = r.choice(gen.BIG)
                pool += [([o], gen.same(r)) for _ in range(3)]
            else:
                g = r.choice(gen.EQUIV)
                pool.append(([r.choice(g)], gen.same(r, 'S[0]', r.choice(gen.SAME))))
        at = {}
        warm = set()
        for S, e in pool:
            node = self.ctx.node(instrumented=True)
            env0 = oplib.make_env(node.D)
            try:
                vals = [eval(oplib.compiled(x), env0) for x in S]
            except Exception:
                continue
            seen = set()
            tried = {}
            hot = set()

            def step(sim, t, fl, loc):
                if not fl & _code.G:
                    return
                seen.add(loc)
                k = tried.get(loc, 0)
                if loc in hot or k > 2:
                    return
                tried[loc] = k + 1
                if _code.TARGET.get(loc) is None or shared(sim, _code.TARGET[loc]):
                    hot.add(loc)
            sim = mon.Sim(cap=500000)
            sim.on_step = step
            op = Op(0, e, oplib.make_env(node.D, vals))
            gc.freeze()
            try:
                sim.solo(lambda: op.run(sim))
            except mon.SimAbort:
                continue
            finally:
                gc.unfreeze()
            if isinstance(op.error, (RecursionError, mon.SimDeadlock)):
                continue
            for f in set(_code.WHERE[l] for l in seen):
                locs, calls = at.setdefault(f, (set(), []))
                locs.update(l for l in seen if _code.WHERE[l] == f)
                if any(_code.WHERE[l] == f for l in hot):
                    warm.add(f)
                calls.append((S, e))
        node = env0 = vals = op = None
        gc.collect()
        gc.freeze()             # what the worker keeps is not looked at again
        # the same calls with other arguments
        for f in sorted(at):
            calls = at[f][1]
            for S, e in r.sample(calls, min(len(calls), 3)):
                for _ in range(2):
                    S2 = [gen.perturb(r, x) or x for x in S]
                    if S2 != S and all(self.ctx.ref(x)[0] == 'R' for x in S2):
                        calls.append((S2, e))
                    elif not S:
                        e2 = gen.perturb(r, e)
                        if e2 and e2 != e and self.ctx.ref(e2)[:2] != ('E', 'SyntaxError'):
                            calls.append((S, e2))
        self.sites = [(f, sorted(at[f][0]), at[f][1]) for f in sorted(at)]
        self.warm = [x for x in self.sites if x[0] in warm]
        return self.sites

    def site_calls(self, r, n):
        """(locations, objects, n calls) around one function that writes."""
        f, locs, calls = r.choice(self.warm if self.warm and r.random() < 0.75 else self.sites)
        k = r.random()
        if k < 0.3:
            locs = [r.choice(locs)]
        elif k < 0.6 and _code.POINTS.get(f):
            # anywhere in that function
            ps = _code.POINTS[f]
            locs = r.sample(ps, min(len(ps), r.choice((1, 2, 4))))
        S, out = [], []
        few = [r.choice(calls) for _ in range(r.choice((1, 2, 2, 3)))]
        for _ in range(n):
            objs, e = r.choice(few)
            for o in objs:
                if o not in S:
                    S.append(o)
                e = e.replace('S[0]', 'S[%d]' % S.index(o))
            out.append(e)
        return locs, S, out

    def good_objects(self, r, n):
        """Expressions of objects that can be built."""
        out = []
        while len(out) < n:
            e = gen.obj(r, 2, 0)
            if self.ctx.ref(e)[0] == 'R':
                out.append([e])
        return out

    def sample(self, plan, out):
        return plan

    # ---- generic delta debugging over a plan
    def shrink(self, plan):
        return shrink_lists(plan, ('threads', 'ops', 'S', 'sched'))


def shared(sim, target):
    """Does the write about to happen go to something older than the call?"""
    f = sys._getframe(2)
    while f is not None and 'datashape' not in f.f_code.co_filename:
        f = f.f_back
    if f is None:
        return True
    old, sim.mute = sim.mute, True
    try:
        x = eval(target, f.f_globals, f.f_locals)
        name = target.co_names[0]
        if name not in f.f_locals:
            return True
        return gc.is_tracked(x) and not any(x is y for y in gc.get_objects())
    except Exception:
        return True
    finally:
        sim.mute = old


def without(seq, i, n):
    return seq[:i] + seq[i + n:]


def chunks_of(n):
    k = n
    while k >= 1:
        yield k
        k //= 2


def shrink_lists(plan, keys):
    """Candidates obtained by dropping parts of the listed list-valued entries."""
    for key in keys:
        v = plan.get(key)
        if not isinstance(v, list) or not v:
            continue
        if key == 'threads':
            for i in range(len(v)):
                if len(v) > 1:
                    p = dict(plan)
                    p['threads'] = v[:i] + [[]] + v[i + 1:]
                    if v[i]:
                        yield p
            for i in range(len(v)):
                for n in chunks_of(len(v[i])):
                    for j in range(0, len(v[i]), n):
                        p = dict(plan)
                        p['threads'] = v[:i] + [without(v[i], j, n)] + v[i + 1:]
                        yield p
            continue
        if key == 'S':
            continue
        for n in chunks_of(len(v)):
            for j in range(0, len(v), n):
                p = dict(plan)
                p[key] = without(v, j, n)
                yield p


def short(o, n=400):
    s = text(o)
    return s if len(s) <= n else s[:n] + '...'
