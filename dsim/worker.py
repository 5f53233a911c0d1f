"""One shard: a process that executes simulated runs one after another."""
import gc
import hashlib
import json
import os
import re
import sys
import time
import traceback
import warnings

CLOCK = None


def H(*parts):
    h = hashlib.blake2b('|'.join(str(p) for p in parts).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'big')


class Found(object):
    """A violation observed in a run."""

    def __init__(self, kind, **detail):
        self.kind = kind
        self.detail = detail

    def as_json(self):
        return {'kind': self.kind, 'detail': self.detail}


class Outcome(object):
    def __init__(self):
        self.found = []
        self.record = None       # the schedule, when one was drawn
        self.key = None          # identifies the explored behaviour (interleaving)
        self.nontrivial = True
        self.count = {}          # counters to add up
        self.digest = None       # determinism audit: hash of everything observed

    def bump(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def bad(self, kind, **detail):
        self.found.append(Found(kind, **detail))


_Sref = re.compile(r'\bS\[(\d+)\]')


class LazyS(object):
    def __init__(self, exprs, env):
        self.e = exprs
        self.env = env
        self.v = {}

    def __getitem__(self, i):
        from . import oplib
        if i not in self.v:
            self.v[i] = eval(oplib.compiled(self.e[i]), self.env)
        return self.v[i]


class Ctx(object):
    """What the runs of one shard share: caches only, never behaviour."""

    def __init__(self, job):
        self.job = job
        self.seed = job['seed']
        self.tier = job['tier']
        self.salt = job.get('salt', 0)
        self.refs = {}
        self.nodes = 0
        self.clock = CLOCK

    def node(self, **kw):
        from . import node
        self.nodes += 1
        if self.nodes % 60 == 0:
            gc.collect()
        kw.setdefault('salt', self.salt)
        return node.Node(**kw)

    def reset_clock(self):
        self.clock.set()

    def ref(self, expr, S=()):
        """The outcome of the expression evaluated alone in a fresh process."""
        used = tuple(S[int(i)] for i in sorted(set(_Sref.findall(expr))))
        key = (expr, used)
        r = self.refs.get(key)
        if r is None:
            r = self.refs[key] = self.solo(expr, S)
            if len(self.refs) > 6000:
                self.refs.clear()
        return r

    def solo(self, expr, S=()):
        from . import oplib
        cur = _current()
        n = self.node()
        env = oplib.make_env(n.D)
        env['S'] = LazyS(S, env)
        o = oplib.evaluate(expr, env)[0]
        if cur is not None:
            cur.install()
        return o


def _current():
    from . import node
    return node.Finder.node


def boot():
    global CLOCK
    warnings.simplefilter('ignore')
    import numpy                     # noqa
    import dateutil.parser           # noqa
    import multipledispatch          # noqa
    import unittest.mock             # noqa
    import ctypes                    # noqa
    import textwrap, ast, keyword    # noqa
    import _strptime                 # noqa
    import pickle, copy              # noqa
    from . import clock, node, mon
    CLOCK = clock.Clock()
    CLOCK.set()
    CLOCK.patch_monotonic()
    CLOCK.on()
    mon.start()
    node.setup()
    gc.collect()
    gc.freeze()
    gc.disable()



def load_prop(pid, ctx):
    import importlib
    m = importlib.import_module('dsim.props.%s' % pid.lower())
    return m.Prop(ctx)


def text(o):
    try:
        return o if isinstance(o, str) else repr(o)
    except Exception as e:
        return '<no text: %s>' % type(e).__name__


def run_one(prop, plan):
    """Execute a plan; returns the Outcome.  Never raises for a violation."""
    from . import mon
    prop.ctx.reset_clock()
    try:
        return prop.execute(plan)
    finally:
        if mon.LIBS:
            mon.kill_libs()


def explore(job):
    from . import clock
    ctx = Ctx(job)
    prop = load_prop(job['prop'], ctx)
    t0 = clock.real()
    res = {'runs': 0, 'counts': {}, 'found': [], 'samples': [], 'keys': 0, 'nontrivial': 0,
           'digests': [], 'stopped': None, 'errors': []}
    keys = set()
    chunks = job['chunks']
    for ch in chunks:
        ctx.refs.clear()
        prop.begin_chunk(ch)
        for i in range(prop.CHUNK):
            if clock.real() - t0 > job['cap_s']:
                res['stopped'] = 'wall'
                break
            rs = H(job['seed'], job['prop'], ch, i)
            plan = prop.plan(rs, ch, i)
            if job.get('trace_file'):
                with open(job['trace_file'], 'w') as f:
                    json.dump(plan, f)
            try:
                out = run_one(prop, plan)
            except Exception as e:
                # no answer for this run; the others may still tell
                res['errors'].append('run %d.%d: %s' % (ch, i, ''.join(traceback.format_exception(e))))
                if len(res['errors']) >= 5:
                    res['stopped'] = 'errors'
                    break
                node = _current()
                if node is not None:
                    node.uninstall()
                continue
            res['runs'] += 1
            for k, v in out.count.items():
                res['counts'][k] = res['counts'].get(k, 0) + v
            if out.nontrivial and out.key is not None and out.key not in keys:
                keys.add(out.key)
                res['nontrivial'] += 1
            if job.get('digests'):
                res['digests'].append([ch, i, out.digest])
            if len(res['samples']) < 2 and out.nontrivial:
                res['samples'].append(prop.sample(plan, out))
            if out.found:
                p = dict(plan)
                if out.record is not None:
                    p['sched'] = out.record
                res['found'].append({'plan': p, 'found': [f.as_json() for f in out.found],
                                     'chunk': ch, 'i': i})
                if len(res['found']) >= job.get('max_found', 1):
                    res['stopped'] = 'found'
                    break
        if res['stopped']:
            break
    res['wall'] = clock.real() - t0
    res['probes'] = prop.probes()
    return res


def minimise(job):
    """Shrink a failing plan while a violation of the same kind persists."""
    from . import clock
    ctx = Ctx(job)
    prop = load_prop(job['prop'], ctx)
    plan, kind = job['plan'], job['kind']
    prop.begin_chunk(job['chunk'])
    t0 = clock.real()
    tries = 0

    def fails(p):
        try:
            out = run_one(prop, p)
        except Exception:
            return None
        for f in out.found:
            if f.kind == kind:
                return [x.as_json() for x in out.found if x.kind == kind]
        return None

    best = fails(plan)
    if not best:
        return {'reproduced': False, 'plan': plan}
    progress = True
    while progress and clock.real() - t0 < job.get('shrink_s', 60):
        progress = False
        for cand in prop.shrink(plan):
            tries += 1
            got = fails(cand)
            if got:
                plan, best = cand, got
                progress = True
                break
            if clock.real() - t0 > job.get('shrink_s', 60):
                break
    return {'reproduced': True, 'plan': plan, 'found': best, 'tries': tries}


def replay(job):
    ctx = Ctx(job)
    prop = load_prop(job['prop'], ctx)
    prop.begin_chunk(job.get('chunk', 0))
    if job.get('upto') is not None:
        ch = job['chunk']
        for i in range(job['upto'] + 1):
            out = run_one(prop, prop.plan(H(job['seed'], job['prop'], ch, i), ch, i))
    else:
        out = run_one(prop, job['plan'])
    return {'found': [f.as_json() for f in out.found], 'digest': out.digest}


def main():
    job = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    sys.setswitchinterval(10.0)
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, [cpus[job.get('shard', 0) % len(cpus)]])
    except (OSError, AttributeError):
        pass
    try:
        pad = [bytes(n) for n in range(job.get('layout', 0) * 997)]     # other addresses
        del pad[::3]
        boot()
        res = {'explore': explore, 'minimise': minimise, 'replay': replay,
               'prop': lambda j: load_prop(j['prop'], Ctx(j)).special(j)}[job['mode']](job)
        res['ok'] = True
    except BaseException as e:
        res = {'ok': False, 'error': ''.join(traceback.format_exception(e))}
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.replace(tmp, out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    # run under the canonical module name, so that `worker.CLOCK` is shared
    import dsim.worker
    dsim.worker.main()
