"""C12: lazy streams are independent of each other."""
from random import Random

from .. import fp as _fp
from .. import gen, mon, oplib
from ..worker import H, Outcome
from .base import Base, short

THROW = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'StopAsyncIteration': StopAsyncIteration, 'RuntimeError': RuntimeError,
         'MemoryError': MemoryError, 'KeyError': KeyError}
CAP = 1500


def text(r):
    k = r.random()
    if k < 0.05:
        # a long one
        s = r.choice(('%s', '(%s)', '{%s}', '3 * [%s]')) % r.choice((', ', ',\n', ' ')).join(
            r.choice(('a%d: int32', 'int%d', '"s%d"', '%d * var', 'T%d...', '_%d', '?int%d', '# %d\n')) % j for j in range(r.choice((20, 40, 90, 200))))
        return s
    if k < 0.3:
        s = gen.noisy(r, gen.ds(r))
    elif k < 0.45:
        s = gen.bad(r)
    elif k < 0.8:
        s = r.choice([' ', '', '\n']).join(r.choice(['3', '*', 'var', ',', '{', '}', '(', ')', '->', '...', 'A...', ':', '=', '[', ']', '"s"', "'t'", 'int32', 'T', '?', '12345', '_a',
                                                     '# c\n', '#\n', "'\\n'", '"\\u00e9"', '0', '-7', '@', '+', '1.5', '3.', '$', '`', '"open', "'", '\\', '~', '%', '~~', 'a.b', "''",
                                                     '"\\x41"', '\u4e2d', '\t', '-', '.', '..', '|', '&', '"a\'b"', 'r'])
                                           for _ in range(r.choice((1, 2, 4, 9))))
    else:
        s = gen.ds(r, 3)
    if r.random() < 0.25:
        s += r.choice([' @', '$', ' `x', '"open', ' 3 * $ int32', "'\\q", ' # trailing', '\n\n', ' \u4e2d', '\\'])
    return s


def stream(r, S):
    k = r.random()
    if k < 0.68 or not S:
        return 'D.lexer.lex(%r)' % text(r)
    s = 'S[%d]' % r.randrange(S)
    if k < 0.84:
        return r.choice(("D.util.collect(isunit, %s)", "D.util.collect(isstr, %s)", "D.util.collect(isdim, %s)", "D.util.collect(isunit, [%s, D.int32, (D.string, %s)])",
                         "D.util.collect(lambda t: t == D.int32, %s)")).replace('%s', s)
    return r.choice(("iter(D.integral)", "iter(D.scalar)", "iter(D.numeric | D.boolean)", "iter(D.TypeSet(D.int8, D.string, D.int8))", "iter(%s)" % s, "reversed(%s)" % s,
                     "iter(D.dshape('3 * 4 * {a: int32, b: string}'))", "zip(D.signed, D.unsigned)", "iter(D.dshape('3 * var * int32').shape)",
                     "iter(D.dshape('{a: int32, b: 2 * string}').measure.fields)", "enumerate(D.floating)", "filter(isunit, D.dshapes('int32', 'string'))", "iter(D.complexes)"))


class Stream(object):
    def __init__(self, expr):
        self.expr = expr
        self.it = None
        self.pos = 0
        self.state = 'new'          # new, live, over, dead
        self.busy = False
        self.failed = False


class Op(object):
    __slots__ = ('uid', 'fault', 'spec', 'prop', 'run_', 'bad')

    def __init__(self, uid, spec, fault, run):
        self.uid, self.spec, self.fault, self.run_ = uid, spec, fault, run

    def run(self, sim):
        self.run_(sim, self)
        return None


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        r = Random(H(self.ctx.seed, 'c12', ch))
        self.objs = [o[0] for o in self.good_objects(r, 12)]
        self.seqs = {}
        self.counts = {}

    def plan(self, rs, ch, i):
        r = Random(rs)
        S = r.sample(self.objs, 2)
        nt = r.choices((1, 2, 3), (5, 4, 1))[0]
        streams = [stream(r, len(S)) for _ in range(r.choice((1, 2, 3, 5)))]
        if len(streams) > 1 and r.random() < 0.4:
            streams[1] = streams[0]                       # twins
        calls = []
        for e in streams[:2]:
            if 'lex(' in e:
                t = e[len('D.lexer.lex('):-1]
                calls += ['D.dshape(%s)' % t, 'lexall(%s)' % t, 'lexsome(%s, 2)' % t]
            else:
                calls.append('str(S[0])')
        calls += gen.group(r, len(S))[:3]
        uid = 1
        threads = []
        for t in range(nt):
            ops = []
            for _ in range(r.choice((4, 8, 16)) if nt == 1 else r.choice((3, 6))):
                k = r.random()
                s = r.randrange(len(streams))
                f = None
                if k < 0.55:
                    o = ['next', s, r.choice((1, 1, 1, 2, 3, 8, 8, 40))]
                    if r.random() < 0.05:
                        f = ['MemoryError', round(r.random(), 5)]
                elif k < 0.63:
                    o = ['new', s]
                elif k < 0.68:
                    o = ['drop', s]
                elif k < 0.73:
                    o = ['close', s]
                elif k < 0.78:
                    o = ['throw', s, r.choice(sorted(THROW))]
                elif k < 0.83:
                    o = ['drain', s]
                elif k < 0.86:
                    o = ['many', s, r.choice((3, 20, 70, 70, 300))]
                else:
                    o = ['call', r.choice(calls)]
                ops.append([uid, o, f])
                uid += 1
            threads.append(ops)
        return {'S': S, 'streams': streams, 'threads': threads, 'pseed': H(rs, 'policy'), 'sched': None}

    # ---- what a stream delivers, read alone in a fresh process
    def alone(self, expr, S):
        key = (expr, tuple(S))
        v = self.seqs.get(key)
        if v is None:
            self.ctx.reset_clock()
            node = self.ctx.node()
            env0 = oplib.make_env(node.D)
            env = oplib.make_env(node.D, [eval(oplib.compiled(e), env0) for e in S])
            items, end = [], None
            try:
                it = iter(eval(oplib.compiled(expr), env))
                for x in it:
                    items.append(_fp.fp(tuple(x) if isinstance(x, tuple) else x))
                    if len(items) >= CAP:
                        break
            except Exception as e:
                end = _fp.exc(e)
                it = locals().get('it')
            v = self.seqs[key] = (items, end, it is None)
        return v

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        S = plan['S']
        seqs = [self.alone(e, S) for e in plan['streams']]
        refs = dict((o[1][1], ctx.ref(o[1][1], S)) for t in plan['threads'] for o in t if o[1][0] == 'call')
        srefs = [ctx.ref(e) for e in S]
        ctx.reset_clock()
        node = ctx.node(instrumented=True)
        env0 = oplib.make_env(node.D)
        vals = [eval(oplib.compiled(e), env0) for e in S]
        env = oplib.make_env(node.D, vals)
        st = [Stream(e) for e in plan['streams']]
        dig = []

        def bad(kind, **kw):
            if not out.found:
                out.bad(kind, **kw)

        def look(sim, x):
            """Fingerprint, outside of the simulation."""
            old, sim.mute = sim.mute, True
            try:
                if isinstance(x, BaseException):
                    return _fp.exc(x)
                return _fp.fp(tuple(x) if isinstance(x, tuple) else x)
            finally:
                sim.mute = old

        def take(s, n, sim, op):
            """Advance the stream by up to n items, checking each."""
            items, end, unstarted = seqs[n_of[id(s)]]
            if s.it is None:
                fresh(s, sim, op)
                if s.it is None:
                    return
            for _ in range(n):
                if s.state == 'dead' or (s.state == 'live' and s.pos >= CAP):
                    return
                f0 = len(sim.fired)
                try:
                    x = next(s.it)
                except StopIteration:
                    if s.state == 'live' and (s.pos < len(items) or end is not None):
                        bad('stream-ends-early', stream=s.expr, position=s.pos, expected=short((items + [end])[s.pos]), op=op.spec)
                    s.state = 'over'
                    return
                except mon.SimAbort:
                    raise
                except BaseException as e:
                    if isinstance(e, MemoryError) and len(sim.fired) > f0:
                        s.state = 'dead'
                        out.bump('streams cut short by MemoryError')
                        return
                    if s.state == 'over' and s.failed and ('lex' not in s.expr or look(sim, e) == end):
                        return
                    s.failed = True
                    if s.state != 'live' or s.pos != len(items) or look(sim, e) != end:
                        bad('wrong-stream-error', stream=s.expr, position=s.pos, state=s.state, got=short(look(sim, e)), expected=short(end), items=len(items), op=op.spec)
                    s.state = 'over'
                    out.bump('streams ending in an error')
                    return
                got = look(sim, x)
                if s.state == 'over' and s.failed and 'lex' not in s.expr:
                    return
                if s.state == 'over':
                    bad('item-after-the-end', stream=s.expr, position=s.pos, got=short(got), op=op.spec)
                    return
                if s.pos >= len(items) or got != items[s.pos]:
                    bad('wrong-item', stream=s.expr, position=s.pos, got=short(got), expected=short(items[s.pos] if s.pos < len(items) else end), op=op.spec)
                    return
                s.pos += 1
                out.bump('items')

        def fresh(s, sim, op):
            f0 = len(sim.fired)
            s.pos = 0
            s.failed = False
            try:
                s.it = iter(eval(oplib.compiled(s.expr), env))
                s.state = 'live'
            except mon.SimAbort:
                raise
            except BaseException as e:
                s.it = None
                if isinstance(e, MemoryError) and len(sim.fired) > f0:
                    return
                items, end, unstarted = seqs[n_of[id(s)]]
                if not unstarted or look(sim, e) != end:
                    bad('wrong-stream-error', stream=s.expr, position='creation', got=short(look(sim, e)), expected=short(end), op=op.spec)

        n_of = dict((id(s), k) for k, s in enumerate(st))

        def do(sim, op):
            k = op.spec[0]
            if k == 'call':
                f0 = len(sim.fired)
                try:
                    v = eval(oplib.compiled(op.spec[1]), env)
                    got = ('R', look(sim, v))
                except mon.SimAbort:
                    raise
                except BaseException as e:
                    got = look(sim, e)
                out.bump('calls')
                if got != refs[op.spec[1]]:
                    bad('call-affected', op=op.spec, got=short(got), expected=short(refs[op.spec[1]]))
                return
            s = st[op.spec[1]]
            if s.busy:                     # being advanced by another thread: not handed over
                return
            s.busy = True
            try:
                out.bump(k)
                if k == 'next':
                    take(s, op.spec[2], sim, op)
                elif k == 'new':
                    fresh(s, sim, op)
                elif k == 'drop':
                    s.it = None
                    s.state = 'new'
                elif k == 'drain':
                    take(s, CAP + 1, sim, op)
                elif k == 'many':          # abandon many half-read twins
                    for j in range(op.spec[2]):
                        t = Stream(s.expr)
                        n_of[id(t)] = n_of[id(s)]
                        take(t, j % 4, sim, op)
                        keep.append(t)
                elif k == 'close' and s.it is not None and hasattr(s.it, 'close'):
                    try:
                        s.it.close()
                        s.state = 'over'
                    except mon.SimAbort:
                        raise
                    except BaseException as e:
                        bad('close-fails', stream=s.expr, got=repr(e))
                elif k == 'throw' and s.it is not None and hasattr(s.it, 'throw'):
                    x = THROW[op.spec[2]]('thrown in')
                    try:
                        got = s.it.throw(x)
                        bad('thrown-error-lost', stream=s.expr, got=short(got))
                    except mon.SimAbort:
                        raise
                    except BaseException as e:
                        if e is not x:
                            bad('thrown-error-lost', stream=s.expr, got=repr(e))
                    s.state = 'over'
            finally:
                s.busy = False

        keep = []
        progs = []
        for t in plan['threads']:
            prog = []
            for uid, spec, f in t:
                fault = (MemoryError, 1 + int(f[1] * 12)) if f else None
                prog.append(Op(uid, spec, fault, do))
            progs.append(prog)
        replay = None if plan['sched'] is None else mon.replay_map(plan['sched'])
        sim = mon.Sim(None if replay is not None else mon.Policy(Random(plan['pseed'])), replay)
        sim.run(progs)
        for t in sim.threads:
            if t.error:
                raise RuntimeError('harness error in a simulated thread:\n' + t.error)
        out.record = sim.record if replay is None else plan['sched']
        if sim.abort_reason in ('deadlock', 'step-cap'):
            out.bad('never-finishes', note=sim.abort_reason)
            return out

        class End(object):
            spec = 'end'
            mute = False
            fired = ()
        for s in st:                       # what is left of every stream
            if not out.found and s.it is not None:
                take(s, CAP + 1, End, End)
        for e, v, ref in zip(S, vals, srefs):
            if not out.found and ('R', _fp.fp(v)) != ref:
                out.bad('datashape-damaged', object=e, got=short(_fp.fp(v)), expected=short(ref))
        out.key = H(sim.trace, repr(plan['streams']))
        out.nontrivial = out.count.get('items', 0) > 0
        out.bump('switches', sim.switches)
        out.bump('steps', sim.steps)
        out.digest = H(sim.trace, out.count.get('items'))
        return out
