"""C13: a registered discovery (or validation) rule takes effect at once and only
for its types."""
import collections
import datetime as dt
import itertools
import types
from random import Random

import numpy as np

from .. import fp as _fp
from .. import gen, mon, oplib
from ..worker import H, Outcome
from .base import Base, short


class RuleError(Exception):
    pass


class Has(object):
    payload = 1


class P0(Has):
    pass


class P1(P0):
    pass


class P2(P1):
    pass


class Q0(Has):
    pass


class PQ(P1, Q0):
    pass


class IL(list):
    payload = 2.5


class IL2(IL):
    pass


class II(int):
    payload = 'a'


class II2(II):
    pass


class IS(str):
    payload = 1


class ID(dict):
    payload = 1


class AL(Has):
    shape = (2,)
    dtype = np.dtype('int32')


class AL2(AL):
    pass


class META(type):
    pass


class WM(Has, metaclass=META):
    pass


CLASSES = dict((c.__name__, c) for c in (P0, P1, P2, Q0, PQ, IL, IL2, II, II2, IS, ID, AL, AL2, WM))
# types the package itself has a rule for: [class, a value, default answer]
BUILTIN = {'complex': (complex, 7j, 'complex'), 'bytes': (bytes, b'x', "string['A']"), 'int': (int, 7, 'int64'), 'float': (float, 2.25, 'float64'), 'bool': (bool, True, 'bool'),
           'str': (str, 'a', 'string'), 'date': (dt.date, dt.date(2014, 1, 2), 'date'), 'datetime': (dt.datetime, dt.datetime(2014, 1, 2, 3), 'datetime'), 'time': (dt.time, dt.time(3), 'time'),
           'timedelta': (dt.timedelta, dt.timedelta(3), "timedelta[unit='us']"), 'npi2': (np.int16, np.int16(5), 'int16'), 'npf4': (np.float32, np.float32(5), 'float32'),
           'nd': (np.ndarray, np.zeros(3), '3 * float64'), 'sub': (oplib.SubArr, np.zeros(2).view(oplib.SubArr), '2 * float64'), 'set': (set, {1}, '1 * int64')}
CLASSES.update((k, v[0]) for k, v in BUILTIN.items())
# whose own values take part in the wrappings, the payloads or the other calls
LOUD = ('int', 'float', 'bool', 'str', 'date', 'datetime', 'time', 'timedelta', 'npi2', 'npf4', 'nd', 'sub', 'set')
PLAIN = (['int', 'II', 'II2'], ['int', 'float', 'bool'], ['float', 'P0'], ['str', 'IS', 'P0'], ['date', 'datetime'], ['date', 'time', 'timedelta', 'datetime'], ['npi2', 'int', 'npf4'], ['nd', 'sub'],
         ['set', 'P0', 'P1'], ['float', 'npf4', 'AL'], ['bool', 'II'], ['timedelta', 'time'], ['str', 'bytes'], ['int'], ['float'], ['str'], ['bool', 'int'])
DEFAULT = dict([(k, v[2]) for k, v in BUILTIN.items()], **{'P': None, 'Q': None, 'IL': '1 * int64', 'II': 'int64', 'IS': 'string', 'ID': '{k: int64}', 'AL': '2 * int32', 'WM': None})
ORDER = {'P0': ['P0'], 'P1': ['P1', 'P0'], 'P2': ['P2', 'P1', 'P0'], 'Q0': ['Q0'], 'IL': ['IL'], 'IL2': ['IL2', 'IL'], 'II': ['II', 'int'], 'II2': ['II2', 'II', 'int'],
         'IS': ['IS', 'str'], 'ID': ['ID'], 'AL': ['AL'], 'AL2': ['AL2', 'AL'], 'WM': ['WM'], 'sub': ['sub', 'nd']}
for _k in BUILTIN:
    ORDER.setdefault(_k, [_k])
STRUCT = ('IL', 'IL2', 'ID', 'set', 'nd', 'sub')            # inside a sequence these are rows or columns
WRAPS = {
    'direct': (lambda D, x: D.discover(x), '%s'), 'list': (lambda D, x: D.discover([x]), '1 * %s'), 'list2': (lambda D, x: D.discover([x, x]), '2 * %s'),
    'tuple': (lambda D, x: D.discover((x,)), '1 * %s'), 'dict': (lambda D, x: D.discover({'a': x}), '{a: %s}'),
    'od': (lambda D, x: D.discover(collections.OrderedDict([('a', x)])), '{a: %s}'), 'mp': (lambda D, x: D.discover(types.MappingProxyType({'a': x})), '{a: %s}'),
    'lod': (lambda D, x: D.discover([{'a': x}]), '1 * {a: %s}'), 'row': (lambda D, x: D.discover([(x, 1)]), '1 * (%s, int64)'),
    'rows': (lambda D, x: D.discover([(x, 1), (x, 2)]), '2 * (%s, int64)'), 'nest': (lambda D, x: D.discover([[x]]), '1 * 1 * %s'),
    'deep': (lambda D, x: D.discover({'a': {'b': [x]}}), '{a: {b: 1 * %s}}'), 'cat': (lambda D, x: D.Categorical((x,)).type, 'measure 1 * %s'),
    'sub': (lambda D, x: D.discover.dispatch(type(x))(x), '%s'),
}
STRUCT_WRAPS = ('direct', 'dict', 'od', 'mp')
VWRAPS = {'str': lambda D, x: D.validate('int32', x), 'ds': lambda D, x: D.validate(D.dshape('int32'), x), 'list': lambda D, x: D.validate('2 * int32', [x, x]),
          'var': lambda D, x: D.validate('var * int32', (x,)), 'any': lambda D, x: D.validate(('string', D.dshape('int32')), x)}
VINT = {'var': lambda D, xs: D.validate('var * int64', xs), 'fixed': lambda D, xs: D.validate('%d * int64' % len(xs), xs), 'tuple': lambda D, xs: D.validate('var * int64', tuple(xs)),
        'each': lambda D, xs: all([D.validate('int64', x) for x in xs]), 'rows': lambda D, xs: D.validate('var * {a: int64, b: string}', [(x, 'q') for x in xs]),
        'dicts': lambda D, xs: D.validate('var * {a: int64, b: string}', [{'a': x, 'b': 'q'} for x in xs]), 'nest': lambda D, xs: D.validate('var * var * int64', [[x] for x in xs]),
        'any': lambda D, xs: D.validate(('string', 'var * int64'), xs), 'ds': lambda D, xs: D.validate(D.dshape('var * int64'), xs)}


def build(v):
    """[class name, payload or None]"""
    c, p = v
    k = CLASSES[c]
    if c in BUILTIN:
        return BUILTIN[c][1]
    if issubclass(k, list):
        x = k([1])
    elif issubclass(k, int):
        x = k(7)
    elif issubclass(k, str):
        x = k('a')
    elif issubclass(k, dict):
        x = k(k=1)
    else:
        x = k()
    if p is not None:
        x.payload = build(p)
    return x


def payload(v):
    if v[1] is not None:
        return v[1]
    return [{'IL': 'float', 'II': 'str'}.get(v[0][:2], 'int'), None]


def family(c):
    if c in BUILTIN:
        return c
    for k in sorted(DEFAULT, key=len, reverse=True):
        if c.startswith(k):
            return k


def rule(D, kind, n):
    if kind == 'const':
        return lambda x: D.String(n)
    if kind == 'ds':
        return lambda x: D.dshape('3 * {v%d: int32}' % n)
    if kind == 'rec':
        return lambda x: D.Record([('r%d' % n, D.discover(x.payload))])
    if kind == 'parse':
        def f(x):
            D.dshape('{a: 3 * int32}')
            assert D.discover([1, 2]) == D.dshape('2 * int64')
            return D.dshape('var * (string[%d], 2 * int8)' % n)
        return f

    def bad(x):
        raise RuleError(n)
    return bad


def said(kind, n, inner):
    """What the rule answers, given what it gets for the payload."""
    if kind == 'const':
        return 'string[%d]' % n
    if kind == 'ds':
        return '3 * {v%d: int32}' % n
    if kind == 'parse':
        return 'var * (string[%d], 2 * int8)' % n
    if kind == 'err':
        return ('RuleError', n)
    return inner if isinstance(inner, tuple) else '{r%d: %s}' % (n, inner)


class Op(object):
    __slots__ = ('uid', 'spec', 'fault', 'fn', 't0', 't1', 'value', 'error', 'tick')

    def __init__(self, spec, fn, tick, fault=None):
        self.uid, self.spec, self.fn, self.tick = spec[0], spec, fn, tick
        self.fault = fault
        self.t0 = self.t1 = None
        self.value = self.error = None

    def run(self, sim):
        self.t0 = next(self.tick)
        try:
            self.value = self.fn()
        except mon.SimAbort:
            raise
        except BaseException as e:
            self.error = e
        self.t1 = next(self.tick)
        return self


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        r = Random(H(self.ctx.seed, 'c13', ch))
        self.pool = [e for _ in range(14) for e in gen.group(r, 0)]
        self.pool += ["D.discover(%s)" % gen.value(r) for _ in range(30)]
        self.pool += ["D.discover(MyInt(3))", "D.discover(MyList([1]))", "D.discover(MyStr('x'))", "D.discover(MyDict(a=1))", "D.discover(Opaque())",
                      "D.discover(ArrLike((2,), 'int32'))", "D.discover([Opaque()])", "D.discover(NT(1, 2))", "D.validate('int32', Opaque())"]
        self.pool = [e for e in self.pool if 'complex' not in e and '1j' not in e and "b'" not in e and 'b"' not in e and 'j)' not in e]

    def a_value(self, r, names, d=1):
        c = r.choice(names)
        p = self.a_value(r, names, d - 1) if d and r.random() < 0.5 else None
        if c in BUILTIN:
            p = None
        return [c, p]

    def plan(self, rs, ch, i):
        r = Random(rs)
        nt = r.choices((1, 2, 3), (6, 4, 1))[0]
        quiet = sorted(c for c in CLASSES if c not in LOUD)
        names = r.choice((['P0', 'P1', 'P2'], ['P0', 'P1', 'P2', 'Q0', 'PQ'], quiet, ['IL', 'IL2', 'II', 'II2'], ['AL', 'AL2', 'P0'], ['II', 'II2', 'IS', 'ID'],
                          r.sample(quiet, 3), r.choice(PLAIN), r.choice(PLAIN), r.choice(PLAIN)))
        loud = any(c in LOUD for c in names)
        vj = r.random() < 0.25
        vals = [self.a_value(r, names) for _ in range(r.choice((1, 2, 4)))]
        others = r.sample([e for e in self.pool if not (loud and ('discover' in e or 'ategorical' in e)) and not (vj and 'validate' in e)], 4)
        uid, n = 1, 1
        threads = []
        for t in range(nt):
            ops = []
            for _ in range(r.choice((3, 6, 10)) if nt == 1 else r.choice((2, 3, 5))):
                k = r.random()
                if k < 0.3:
                    c = r.choice(names) if r.random() < 0.5 else r.choice(vals)[0]
                    kinds = ('const', 'const', 'ds', 'err') if loud else ('const', 'const', 'ds', 'parse', 'err') if c in BUILTIN else ('const', 'const', 'ds', 'rec', 'rec', 'parse', 'err')
                    ops.append([uid, 'reg', r.choice(('register', 'register', 'add', 'dispatch', 'union')), c, r.choice(kinds), n])
                    n += 1
                elif vj and k < 0.34:
                    ops.append([uid, 'vreg', 'vint', r.randrange(1, 20)])
                elif vj and k < 0.44:
                    ops.append([uid, 'vint', r.choice(sorted(VINT)), [r.choice((0, 1, 3, 7, 12, 19, 25)) for _ in range(r.choice((0, 1, 2, 3, 3, 5)))]])
                elif k < 0.36:
                    ops.append([uid, 'vreg', r.choice(['P0', 'P1', 'P2', 'Q0', 'WM']), n])
                    n += 1
                elif k < 0.44:
                    ops.append([uid, 'vcall', r.choice(sorted(VWRAPS)), [r.choice(['P0', 'P1', 'P2', 'Q0', 'PQ', 'WM']), None]])
                elif k < 0.54:
                    ops.append([uid, 'other', r.choice(others)])
                elif k < 0.6 and nt == 1:
                    ops.append([uid, 'mix', r.choice(('list', 'rows', 'lod', 'set')), [r.choice(vals) for _ in range(r.choice((2, 3, 4)))]])
                else:
                    v = r.choice(vals)
                    ws = STRUCT_WRAPS if v[0] in STRUCT else sorted(WRAPS) if 'int' not in names else sorted(w for w in WRAPS if not w.startswith('row'))
                    f = round(r.random(), 5) if r.random() < 0.08 else None
                    ops.append([uid, 'call', r.choice(ws), v, f])
                uid += 1
            threads.append(ops)
        return {'threads': threads, 'pseed': H(rs, 'policy'), 'sched': None}

    # ---- operations on the node
    def register(self, D, form, c, kind, n):
        f = rule(D, kind, n)
        k = CLASSES[c]
        if form == 'register':
            D.discover.register(k)(f)
        elif form == 'add':
            D.discover.add((k,), f)
        elif form == 'union':
            D.discover.register((k, k))(f)
        else:
            def discover(x):
                return f(x)
            self.dispatch(D)(k)(discover)

    def dispatch(self, D):
        import sys
        return sys.modules['datashape.dispatch'].dispatch

    def mixed(self, D, how, vs):
        xs = [build(v) for v in vs]
        return D.discover({'list': lambda: xs, 'rows': lambda: [(x, 1) for x in xs], 'lod': lambda: [{'a': x} for x in xs],
                           'set': lambda: dict(('k%d' % j, x) for j, x in enumerate(xs))}[how]())

    def make(self, spec, D, tick, env, nf):
        kind = spec[1]
        if kind == 'reg':
            return Op(spec, lambda: self.register(D, *spec[2:6]), tick)
        if kind == 'vreg' and spec[2] == 'vint':
            # a rule of the user's for plain integers, which looks at the value
            return Op(spec, lambda: D.validate.register(D.CType, int)(lambda s, x: x < spec[3]) and None, tick)
        if kind == 'vint':
            return Op(spec, lambda: VINT[spec[2]](D, spec[3]), tick)
        if kind == 'vreg':
            return Op(spec, lambda: D.validate.register(D.DataShape, CLASSES[spec[2]])(lambda s, x: spec[3] if spec[3] % 3 else False) and None, tick)
        if kind == 'vcall':
            x = build(spec[3])
            return Op(spec, lambda: VWRAPS[spec[2]](D, x), tick)
        if kind == 'other':
            code = oplib.compiled(spec[2])
            return Op(spec, lambda: eval(code, env), tick)
        if kind == 'mix':
            return Op(spec, lambda: self.mixed(D, spec[2], spec[3]), tick)
        x = build(spec[3])
        fault = None
        if spec[4] is not None:
            fault = (MemoryError, 1 + int(spec[4] * nf))
        return Op(spec, lambda: WRAPS[spec[2]][0](D, x), tick, fault)

    # ---- the model
    def cands(self, regs, c, op):
        """Registrations of exactly class c a call may see (None: not registered)."""
        rs = [x for x in regs if c in x[0] and x[1] is not None and x[1] <= op.t1]
        done = [x for x in rs if x[2] is not None and x[2] < op.t0]
        out = [x[3] for x in rs if not any(y is not x and x[2] is not None and y[1] > x[2] and y[2] is not None and y[2] < op.t0 for y in rs)]
        if not done:
            out.append(None)
        return out

    def chains(self, c):
        return [['PQ', 'P1', 'P0'], ['PQ', 'Q0']] if c == 'PQ' else [ORDER[c]]

    def rules_for(self, regs, c, op):
        got = []
        for chain in self.chains(c):
            may_none = True
            for k in chain:
                cs = self.cands(regs, k, op)
                got += [x for x in cs if x is not None]
                if None not in cs:
                    may_none = False
                    break
            if may_none:
                got.append(None)
        if c == 'PQ':                       # either chain may decide, but a rule beats none
            sure = [all(None in self.cands(regs, k, op) for k in chain) for chain in self.chains(c)]
            if not all(sure):
                got = [x for x in got if x is not None]
        return got

    def allowed(self, regs, v, op):
        if isinstance(v, str):
            return {v}
        out = set()
        for x in self.rules_for(regs, v[0], op):
            if x is None:
                d = DEFAULT[family(v[0])]
                out.add(d if d is not None else ('NotImplementedError', None))
            else:
                for inner in (self.allowed(regs, payload(v), op) if x[0] == 'rec' else [None]):
                    out.add(said(x[0], x[1], inner))
        return out

    def same(self, D, op, want):
        e = op.error
        if isinstance(want, tuple):
            if type(e).__name__ != want[0]:
                return False
            return want[1] is None or e.args == (want[1],)
        if e is not None:
            return False
        w = WRAPS[op.spec[2]][1] % want
        if want == 'int64':
            w = w.replace('(int64, int64)', '2 * int64')        # equal columns
        try:
            if w.startswith('measure '):
                return str(D.dshape(w[8:]).measure) == str(op.value)
            got = op.value
            return str(D.dshape(w)) == str(got if isinstance(got, D.DataShape) else D.DataShape(got))
        except Exception:
            return False

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        refs = dict((o[2], ctx.ref(o[2])) for t in plan['threads'] for o in t if o[1] == 'other')
        ctx.reset_clock()
        node = ctx.node(instrumented=True)
        D = node.D
        tick = itertools.count()
        env = oplib.make_env(D)
        progs = [[self.make(o, D, tick, env, 60) for o in t] for t in plan['threads']]
        replay = None if plan['sched'] is None else mon.replay_map(plan['sched'])
        sim = mon.Sim(None if replay is not None else mon.Policy(Random(plan['pseed'])), replay)
        sim.run(progs)
        for t in sim.threads:
            if t.error:
                raise RuntimeError('harness error in a simulated thread:\n' + t.error)
        out.record = sim.record if replay is None else plan['sched']
        if sim.abort_reason in ('deadlock', 'step-cap'):
            out.bad('never-finishes', note=sim.abort_reason)
            return out
        fired = dict((u, 1) for u, k, n in sim.fired)
        ops = [o for p in progs for o in p]
        regs = [(((o.spec[3],)), o.t0, o.t1, (o.spec[4], o.spec[5])) for o in ops if o.spec[1] == 'reg']
        vregs = [((o.spec[2],), o.t0, o.t1, ('v', o.spec[3])) for o in ops if o.spec[1] == 'vreg']
        dig = []
        ncalls = 0
        for o in ops:
            kind = o.spec[1]
            dig.append((o.uid, type(o.error).__name__, short(o.value, 80)))
            if kind in ('reg', 'vreg'):
                out.bump('registrations')
                if o.error is not None:
                    out.bad('registration-fails', op=o.spec, got=repr(o.error))
                    break
                continue
            if fired.get(o.uid) and isinstance(o.error, MemoryError):
                out.bump('calls cut short')
                continue
            out.bump('calls')
            if kind == 'other':
                got = _fp.exc(o.error) if o.error is not None else ('R', _fp.fp(o.value))
                if got != refs[o.spec[2]]:
                    out.bad('other-type-affected', op=o.spec, got=short(got), expected=short(refs[o.spec[2]]), registered=[x[:1] + x[3:] for x in regs])
                    break
                continue
            ncalls += 1
            if kind == 'call':
                al = self.allowed(regs, o.spec[3], o)
                if len(al) > 1:
                    out.bump('calls overlapping a registration')
                    if o.spec[2] in ('list2', 'rows'):
                        continue
                if not any(self.same(D, o, w) for w in al):
                    out.bad('wrong-rule', op=o.spec, got=repr(o.error) if o.error is not None else str(o.value), allowed=sorted(map(str, al)),
                            history=[[x.spec[1:], x.t0, x.t1] for x in sorted(ops, key=lambda x: x.t0 or 0)][:30])
                    break
            elif kind == 'vint':
                al = set()
                for x in self.cands(vregs, 'vint', o):
                    al.add(all(v < x[1] if x is not None else True for v in o.spec[3]))
                if len(al) > 1 or len(self.cands(vregs, 'vint', o)) > 1 and len(o.spec[3]) > 1:
                    continue
                if o.error is not None or not any(o.value is a for a in al):
                    out.bad('wrong-validation-rule', op=o.spec, got=repr(o.error or o.value), allowed=sorted(map(str, al)))
                    break
            elif kind == 'vcall':
                al = set()
                for x in self.rules_for(vregs, o.spec[3][0], o):
                    al.add(x[1] if x is not None and x[1] % 3 else False)
                if o.spec[2] in ('list', 'var', 'any'):
                    al = set(map(bool, al))
                if len(al) > 1 and o.spec[2] == 'list':
                    continue
                if o.error is not None or not any(o.value is a or (o.value == a and type(o.value) is type(a)) for a in al):
                    out.bad('wrong-validation-rule', op=o.spec, got=repr(o.error or o.value), allowed=sorted(map(str, al)))
                    break
        if not out.found and any(o.spec[1] == 'mix' for o in ops) and len(plan['threads']) == 1:
            self.mixes(out, ops)
        out.key = H(sim.trace)
        out.nontrivial = bool(regs or vregs) and ncalls > 0
        out.bump('switches', sim.switches)
        out.bump('steps', sim.steps)
        out.digest = H(repr(dig))
        for o in ops:
            o.value = o.error = o.fn = None
        return out

    def mixes(self, out, ops):
        """Several values of several types in one container, against a fresh process
        that made the same registrations and nothing else."""
        for j, o in enumerate(ops):
            if o.spec[1] != 'mix' or any(v[0] in STRUCT for v in o.spec[3]):
                continue
            if any(v[0] == 'PQ' or (v[1] and v[1][0] == 'PQ') for v in o.spec[3]):
                continue
            self.ctx.reset_clock()
            node = self.ctx.node()
            last = {}
            for p in ops[:j]:
                if p.spec[1] == 'reg':
                    last[p.spec[3]] = p.spec
            for c in sorted(last):
                self.register(node.D, 'register', c, last[c][4], last[c][5])
            try:
                want = ('R', _fp.fp(self.mixed(node.D, o.spec[2], o.spec[3])))
            except Exception as e:
                want = _fp.exc(e)
            got = _fp.exc(o.error) if o.error is not None else ('R', _fp.fp(o.value))
            out.bump('mixed containers')
            if want != got:
                out.bad('wrong-rule-in-container', op=o.spec, got=short(got), expected=short(want), before=[p.spec[1:] for p in ops[:j]])
                return
