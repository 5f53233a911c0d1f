"""C10: a failing data source is reported, never absorbed."""
import _thread
from random import Random

from .. import fp as _fp
from .. import mon, oplib, sources
from ..worker import H, Outcome
from .base import Base, short

ATOMS = ['1', '2', '2.5', 'True', 'None', "'a'", "'1'", "'2014-01-01'", "'3 days'", 'b"x"', '1j', "''", 'dt.date(2014, 1, 1)']


def leaf(r):
    k = r.random()
    if k < 0.45:
        return r.choice(ATOMS)
    if k < 0.65:
        return '%s(%s)' % (r.choice(('SRC', 'SRC', 'SUB')), r.choice(ATOMS + ['[1, 2]', "{'a': 1}", "[(1, 'a'), (2, 'b')]", '(1, 2)']))
    if k < 0.75:
        return 'FA(%s, %r)' % (r.choice(('()', '(2,)', '(3, 4)')), r.choice(('int32', 'float64', 'M8[s]', 'S5')))
    if k < 0.82:
        return r.choice(("ND(['a', 'b'])", "ND(['a', 1])", "ND([1, 2], 'i4')", "ND([('a', 1), ('b', 2)], [('x', 'O'), ('y', 'i4')])"))
    return r.choice(ATOMS)


def key(r, n):
    k = r.choice("abc"[:n + 1])
    return 'KEY(%r)' % k if r.random() < 0.15 else repr(k)


def value(r, d):
    if d == 0 or r.random() < 0.15:
        return leaf(r)
    k = r.random()
    if k < 0.25:
        xs = ', '.join(value(r, d - 1) for _ in range(r.choice((0, 1, 2, 3))))
        return r.choice(('[%s]', 'FL([%s])', 'FT([%s])', '(%s,)' if xs else '[%s]', 'FL([%s])')) % xs
    if k < 0.5:                       # rows
        w = r.choice((1, 2, 3))
        rows = []
        cols = [r.choice((leaf(r), leaf(r), value(r, d - 1))) for _ in range(w)]
        rowk = r.choice(('[%s]', '(%s,)', 'FL([%s])', 'FT([%s])'))
        for _ in range(r.choice((1, 2, 3))):
            rows.append(rowk % ', '.join(c if r.random() < 0.6 else leaf(r) for c in cols))
        return r.choice(('[%s]', '(%s,)', 'FL([%s])', 'FT([%s])')) % ', '.join(rows)
    if k < 0.68:                      # list of mappings
        rows = []
        cols = [(key(r, 2), r.choice((leaf(r), value(r, d - 1)))) for _ in range(r.choice((1, 2)))]
        rowk = r.choice(('{%s}', 'FD({%s})', '{%s}'))
        for _ in range(r.choice((1, 2, 3))):
            rows.append(rowk % ', '.join('%s: %s' % (a, b if r.random() < 0.6 else leaf(r)) for a, b in cols if r.random() < 0.9))
        return r.choice(('[%s]', 'FL([%s])', 'FT([%s])')) % ', '.join(rows)
    if k < 0.8:
        xs = ', '.join('%s: %s' % (key(r, 2), value(r, d - 1)) for _ in range(r.choice((0, 1, 2))))
        return r.choice(('{%s}', 'FD({%s})', 'MP({%s})', 'MP(FD({%s}))')) % xs
    if k < 0.9:
        xs = ', '.join('(%s, %s)' % (key(r, 2), value(r, d - 1)) for _ in range(r.choice((0, 1, 2))))
        return r.choice(('OD([%s])', 'FO([%s])', 'FO([%s])')) % xs
    xs = ', '.join(r.choice(("1", "2.5", "'a'", "(1, 2)", 'SRC(1)', 'SUB(2.5)', "SRC('a')", 'FA((), "int32")')) for _ in range(r.choice((0, 1, 2, 3))))
    return r.choice(('set([%s])', 'FS([%s])', 'frozenset([%s])', 'FS([%s])')) % xs


VALIDATE = [
    ("D.dshape('var * int32')", "FL([1, VS(True), 2])"), ("D.dshape('3 * int32')", "FL([VS(True), VS(True), VS(%s)])"),
    ("'3 * int32'", "FT([1, 2, 3])"), ("D.dshape('var * {a: int32, b: string}')", "FL([FD({'a': 1, 'b': 'x'})])"),
    ("D.dshape('{a: int32, b: var * int8}')", "FD({'a': VS(True), 'b': FL([VS(%s)])})"), ("'{a: int32, b: string}'", "FT([1, 'x'])"),
    ("D.dshape('var * (int32, string)')", "FL([FL([1, 'a'])])"), ("FT([D.dshape('string'), D.dshape('int32')])", "VS(%s)"),
    ("FT(['string', 'int32'])", "'a'"), ("D.dshape('2 * 2 * int32')", "FL([FL([VS(True), VS(%s)]), [VS(True), VS(True)]])"),
    ("D.dshape('2 * int32')", "ND([1, 2], 'i4')"), ("'int32'", "VS(%s)"), ("D.dshape('{a: ?int32}')", "FD({})"), ("'{a: int32}'", "FO([('a', VS(%s))])"),
    ("FT([int, str])", "1"), ("'2 * {a: string}'", "FT([FT(['x']), {'a': 'y'}])"),
]
OTHER = [
    "D.Record(GEN([('a', D.int32), ('b', 'string')]))", "D.Record(FL([('a', 'int32'), ('b', D.string)]))", "D.Record(FO([('a', 'int32'), ('b', D.string)]))",
    "D.Record(FL([FT(['a', D.int32]), FL(['b', D.string])]))", "D.Tuple(GEN([D.int32, D.string]))", "D.Tuple(FL([D.int32, D.DataShape(3, D.string)]))",
    "D.cat_dshapes(FL(D.dshapes('3 * int32', '4 * int32', '5 * int32')))", "D.dshape(FL([3, D.int32]))", "D.dshape(FT([D.var, D.Fixed(2), D.string]))",
    "D.Categorical(FL([1, 2, 3]))", "D.Categorical(FT(['a', 'b']))", "D.Categorical(GEN(['a', 'b']))", "D.Categorical(FS([5]))", "D.Categorical(FL([SRC(1), SRC(2)]))",
    "collect(PRED(isunit), D.dshape('3 * {a: int32, b: 2 * string}'))", "collect(PRED(isstr), FL([D.int32, FL([D.string]), D.string]))",
    "collect(PRED(isdim), D.dshape('(3 * int32, {x: var * real})'))", "D.has_var_dim(FL([D.Fixed(3), D.var]))", "D.has_ellipsis(FT([D.int32, FL([D.Ellipsis()])]))",
    "D.from_numpy(FT([2, 3]), 'int32')", "D.from_numpy(FL([2]), 'S3')", "D.matches_typeset(FT([D.int32, D.int8]), FL([D.integral, D.signed]))",
    "D.dshape('5 * 3 * int32').subshape[FT([0, 1])]", "D.dshape('5 * int32').subshape[FL([0, 1])]", "D.dshape('5 * {a: int32, b: string}').subshape[0, FL(['a'])]",
    "D.dshape('5 * {a: int32, b: string}').subshape[:, FL(['a', 'b'])]", "list(D.integral | FL([D.bool_, D.string]))", "D.dshape('5 * 3 * int32').subarray(1) if not FL() else 0",
    "D.dshape('{a: int32, b: string}').measure.subshape[FL(['b'])]", "D.coretypes.Function(*FL([D.int32, D.string]))", "D.TypeSet(*FT([D.int32, D.int8]))",
]

# where a StopIteration is a failure rather than the end of something
STOPPABLE = ('registered rule', 'replaced rule', 'array shape', 'array dtype', 'item access', 'ndarray shape', 'ndarray dtype', 'array item')
SOFT = ('length',)


def an_op(r):
    k = r.random()
    if k < 0.68:
        return ['D.discover(A)', value(r, r.choice((1, 2, 2, 3)))]
    if k < 0.84:
        s, v = r.choice(VALIDATE)
        if '%s' in v:
            v = v % r.choice(('True', 'False'))
        if r.random() < 0.3:
            return ['D.validate(A[0], A[1])', '(%s, %s)' % (s, value(r, 2))]
        return ['D.validate(A[0], A[1])', '(%s, %s)' % (s, v)]
    return [r.choice(OTHER), '0']


class Call(object):
    """One call with its own sources."""
    __slots__ = ('uid', 'fault', 'call', 'ctl', 'env', 'A', 'value', 'error', 'spec')

    def __init__(self, uid, spec, D):
        self.uid, self.fault, self.spec = uid, None, spec
        self.call = oplib.compiled(spec[0])
        self.ctl = sources.Ctl()
        self.env = oplib.make_env(D)
        self.env.update(sources.vocabulary(self.ctl, D))
        self.value = self.error = None
        self.build()

    def build(self):
        self.env['A'] = eval(oplib.compiled(self.spec[1]), self.env)

    def run(self, sim):
        self.ctl.on = True
        sources.CURRENT[_thread.get_ident()] = self.ctl
        try:
            self.value = eval(self.call, self.env)
        except mon.SimAbort:
            raise
        except BaseException as e:
            self.error = e
        finally:
            self.ctl.on = False
            sources.CURRENT.pop(_thread.get_ident(), None)
        return self

    def outcome(self):
        if self.error is not None:
            return _fp.exc(self.error)
        return ('R', _fp.fp(self.value))


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        self.dry = {}

    def plan(self, rs, ch, i):
        r = Random(rs)
        nt = r.choices((1, 2, 3), (6, 3, 1))[0]
        few = [an_op(r) for _ in range(r.choice((1, 2, 4)))]
        uid = 1
        threads = []
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3, 4))):
                f = None
                if r.random() < 0.75:
                    f = [round(r.random(), 6), r.choice(sorted(sources.FAILS)) if r.random() < 0.6 else
                         r.choice(('AttributeError', 'StopIteration', 'ValueError', 'KeyError', 'TypeError', 'IndexError', 'NotImplementedError', 'OverflowError')), r.random() < 0.4]
                ops.append([uid, r.choice(few), f])
                uid += 1
            threads.append(ops)
        storm = None
        if r.random() < 0.06:
            # one source failing over and over
            storm = [r.choice(few), r.choice(sorted(sources.FAILS)), r.choice((5, 70, 250))]
        return {'threads': threads, 'storm': storm, 'pseed': H(rs, 'policy'), 'sched': None}

    def healthy(self, spec):
        """(outcome, touches) of the call with working sources in a fresh process."""
        k = tuple(spec)
        d = self.dry.get(k)
        if d is None:
            self.ctx.reset_clock()
            node = self.ctx.node()
            sources.rules(node.D)
            try:
                c = Call(0, spec, node.D)
            except Exception:
                d = (None, 0, ())
            else:
                c.run(None)
                d = (c.outcome(), c.ctl.n, tuple(c.ctl.kinds))
            self.dry[k] = d
        return d

    def execute(self, plan):
        out = Outcome()
        specs = [o[1] for t in plan['threads'] for o in t]
        refs = dict((tuple(s), self.healthy(s)) for s in specs)
        self.ctx.reset_clock()
        node = self.ctx.node(instrumented=True)
        sources.rules(node.D)
        armed = 0
        if plan.get('storm'):
            self.storm(out, plan, node)
            if out.found:
                return out
        progs = []
        for t in plan['threads']:
            prog = []
            for uid, spec, f in t:
                ref = refs[tuple(spec)]
                if ref[0] is None:
                    continue
                c = Call(uid, spec, node.D)
                if f and ref[1]:
                    n = 1 + int(f[0] * ref[1])
                    x = sources.FAILS[f[1]]
                    if x is StopIteration and not (n <= len(ref[2]) and ref[2][n - 1] in STOPPABLE):
                        x = sources.Oops
                    c.ctl.arm = (n, x('source failed', 7), f[2] and x is not StopIteration)
                    armed += 1
                prog.append(c)
            progs.append(prog)
        if any(progs):
            replay = None if plan['sched'] is None else mon.replay_map(plan['sched'])
            sim = mon.Sim(None if replay is not None else mon.Policy(Random(plan['pseed'])), replay)
            sim.run(progs)
            for t in sim.threads:
                if t.error:
                    raise RuntimeError('harness error in a simulated thread:\n' + t.error)
            out.record = sim.record if replay is None else plan['sched']
            if sim.abort_reason in ('deadlock', 'step-cap'):
                out.bad('never-finishes', note=sim.abort_reason)
                return out
            out.bump('switches', sim.switches)
            out.bump('steps', sim.steps)
        dig = []
        fired = 0
        for prog in progs:
            for c in prog:
                ref = refs[tuple(c.spec)]
                got = c.outcome()
                dig.append(got)
                out.bump('calls')
                if c.ctl.fired:
                    fired += 1
                    out.bump('fault %s at %s' % ('ndarray' if 'ndarray' in c.ctl.fired[0] else 'source', c.ctl.fired[0]))
                    out.bump('exception ' + type(c.ctl.arm[1]).__name__)
                    if c.error is c.ctl.arm[1] or reported(c):
                        continue
                    if got == ref[0] and isinstance(c.ctl.arm[1], TypeError) and c.ctl.fired[0] in SOFT:
                        continue            # list() and zip() ignore a TypeError of a length hint
                    out.bad('failure-absorbed', call=c.spec, uid=c.uid, failure=repr(c.ctl.arm[1]), at=c.ctl.fired, touch=c.ctl.arm[0], got=short(got), healthy=short(ref[0]))
                elif got != ref[0]:
                    out.bad('healthy-call-affected', call=c.spec, uid=c.uid, got=short(got), expected=short(ref[0]))
        if not out.found:
            for prog in progs:
                for c in prog:
                    hit = list(c.ctl.fired)
                    arm = c.ctl.arm
                    c.ctl.heal()
                    c.value = c.error = None
                    if 'GEN(' in c.spec[0] + c.spec[1]:
                        c.build()
                    c.run(None)
                    got = c.outcome()
                    if got != refs[tuple(c.spec)][0]:
                        out.bad('wrong-after-recovery', call=c.spec, uid=c.uid, failed_at=hit, failure=repr(arm), got=short(got), expected=short(refs[tuple(c.spec)][0]))
        out.key = H(repr([[o[1:] for o in t] for t in plan['threads']]), sim.trace if any(progs) else 0)
        out.nontrivial = fired > 0
        out.bump('failures armed', armed)
        out.bump('failures fired', fired)
        out.digest = H(repr(dig))
        for prog in progs:
            for c in prog:
                c.value = c.error = None
                c.env.clear()
        return out


    def storm(self, out, plan, node):
        spec, fail, times = plan['storm']
        ref = self.healthy(spec)
        self.ctx.reset_clock()
        node.install()
        if ref[0] is None or not ref[1]:
            return
        out.bump('storms')
        for k in range(times):
            c = Call(0, spec, node.D)
            n = 1 + k * 7919 % ref[1]
            x = sources.FAILS[fail]
            if x is StopIteration:
                x = sources.Oops
            c.ctl.arm = (n, x('source failed', 7), False)
            c.run(None)
            got = c.outcome()
            if c.ctl.fired:
                out.bump('failures fired')
                if c.error is c.ctl.arm[1] or reported(c) or got == ref[0] and isinstance(c.ctl.arm[1], TypeError) and c.ctl.fired[0] in SOFT:
                    continue
                out.bad('failure-absorbed', call=c.spec, uid=0, failure=repr(c.ctl.arm[1]), at=c.ctl.fired, touch=n, time=k + 1, got=short(got), healthy=short(ref[0]))
                return
            if got != ref[0]:
                out.bad('healthy-call-affected', call=c.spec, uid=0, time=k + 1, got=short(got), expected=short(ref[0]))
                return


def reported(c):
    """The failure reaches the caller in another admissible form."""
    e, x = c.error, c.ctl.arm[1]
    if e is None:
        return False
    if isinstance(x, AttributeError) and c.ctl.fired[0] in ('array shape', 'array dtype') and isinstance(e, NotImplementedError):
        return True                         # an object without shape or dtype is no array
    if isinstance(x, StopIteration) and isinstance(e, RuntimeError) and _fp.chain_has(e, StopIteration):
        return True                         # leaving a generator turns it into this
    return type(e) is type(x) and e.args == x.args
