"""C03: a call cut short anywhere leaves no trace and never yields a wrong answer."""
import sys
from random import Random

from .. import fp as _fp
from .. import code as _code
from .. import gen, mon, oplib
from ..worker import H, Outcome, _Sref
from .base import Base, Op, short

KINDS = {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'RecursionError': RecursionError}

# What every call sees afterwards: names, symbol tables, dispatch, parsing, printing.
BATTERY = [
    "[(n, D.coretypes.Type.lookup_type(n)) for n in ('int32', 'int', 'real', 'string', 'bytes', 'float', 'date', 'null', 'intptr', 'json', "
    "'void', 'Option', 'Record', 'Fixed', 'TypeSet', 'complex128', 'bool')]",
    gen.ALLNAMES,
    "[(n, D.typesets.lookup(n)) for n in ('signed', 'unsigned', 'integral', 'floating', 'complexes', 'boolean', 'real', 'numeric', 'scalar', 'zz')]",
    "[(k, sorted((n, repr(v)) for n, v in getattr(D.sym, k).items() if not callable(v)), sorted(getattr(D.sym, k))) "
    "for k in ('dtype', 'dim', 'dtype_constr', 'dim_constr')]",
    "[D.discover(x) for x in (1, 1.5, True, None, 'a', '1', '1.5', '2014-01-01', '2014-01-01 10:00', '10:30', '3 days', b'a', dt.date(2014, 1, 1), "
    "dt.datetime(2014, 1, 1), dt.time(1), dt.timedelta(1), 1j, [1, 2], (1, 'a'), {'a': 1}, [{'a': 1}, {'b': 2.5}], [(1, None), (2, 'x')], "
    "set([1]), np.arange(3), np.array(['a'], dtype='O'), np.int8(1), np.datetime64('2014'), MP({'a': 1}), OD([('z', 1)]))]",
    "[str(D.dshape(s)) for s in ('3 * int32', 'var * {a: ?int32, b: (string, real)}', 'A... * T', '(int32) -> string', \"datetime[tz='UTC']\", "
    "\"string[3, 'A']\", 'decimal[precision=7, scale=2]', \"timedelta[unit='ms']\", 'map[int32, string]', \"units['m']\")]",
    "[repr(D.dshape('{a: 3 * int32}')), D.pprint(D.dshape('{a: int32, bb: (string, string)}'), 8)]",
    "[D.promote(D.int32, D.float64), D.promote(D.Option(D.int8), D.int16), D.promote(D.string, D.Option(D.string))]",
    "[D.validate('3 * int32', [1, 2, 3]), D.validate('{a: string}', {'a': 'x'}), D.validate('date', dt.date(2014, 1, 1)), D.validate(int, 'a')]",
    "ae(D.dshape('{a: ?string}'), D.dshape('{a: ?string}'))",
    "[D.to_numpy(D.dshape('3 * {a: int32, b: string[5]}')), D.from_numpy((3,), 'M8[us]')]",
    "[D.isnumeric('int32'), D.isreal('?float32'), D.isdatelike('date'), D.isboolean('int8')]",
    "[D.dshape('3 * ' + c) for c in ('int32', 'string')]",
    "[D.dshape('var * {a: int32}').subshape[0, 'a'], D.dshape('5 * int32').subshape[1:3], D.cat_dshapes(D.dshapes('3 * int8', 'var * int8'))]",
]


class Prop(Base):
    CHUNK = 80

    def begin_chunk(self, ch):
        r = Random(H(self.ctx.seed, 'c03', ch))
        self.objs = [o[0] for o in self.good_objects(r, 12)]
        self.groups = [gen.group(r, 0) for _ in range(30)] + [[gen.op(r, f, 0) for _ in range(5)] for f in gen.NAMES_F]
        self.survey(r, 160)
        self.counts = {}

    def plan(self, rs, ch, i):
        r = Random(rs)
        S = r.sample(self.objs, r.choice((0, 1, 2)))
        nt = r.choices((1, 2, 3), (7, 3, 1))[0]
        mode = 'reclimit' if r.random() < 0.12 else 'inject'
        groups = r.sample(self.groups, r.choice((1, 1, 2, 3)))
        few = [e for g in groups for e in g]
        few = r.sample(few, min(len(few), r.choice((1, 2, 3, 5))))
        after = [e for g in groups for e in g if e not in few]
        r.shuffle(after)
        forms = [r.choice(gen.SAME) for _ in range(3)]
        if r.random() < 0.3:
            o, ts = gen.typed(r)
            S, forms = [o], r.sample(ts, 3)
        locs = ()
        if mode == 'inject' and r.random() < 0.25:
            # calls cut short at the writes they have in common
            locs, S, few = self.site_calls(r, 4)
            forms = ['repr(%s)']
            after = few + [e for e in after if 'S[' not in e]
        if mode == 'reclimit':
            nt = 1
        uid = 1
        threads = []
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3, 5))):
                if locs and r.random() < 0.8:
                    e = r.choice(few)
                elif S and r.random() < 0.25:
                    e = gen.same(r, 'S[%d]' % r.randrange(len(S)), r.choice(forms))
                elif S and r.random() < 0.35:
                    e = gen.op(r, r.choice(('print', 'eq', 'index', 'build', 'numpy', 'pred', 'util', 'pickle', 'assert')), len(S))
                else:
                    e = r.choice(few)
                f = None
                if r.random() < (0.75 if nt == 1 else 0.5):
                    f = [r.choice(sorted(KINDS)), round(r.random(), 6)]
                    if locs and r.random() < 0.8:
                        f.append(r.choice((0, 0, 1, 1, 2, 4)))
                if mode == 'reclimit' and f:
                    f = ['limit', int(2 ** r.uniform(0, 6.5))]
                ops.append([uid, e, f])
                uid += 1
            threads.append(ops)
        storm = None
        if mode == 'inject' and r.random() < (0.12 if locs else 0.05):
            # one call cut short over and over
            storm = [r.choice(few), r.choice(sorted(KINDS)), r.choices((10, 70, 250, 1300), (3, 3, 3, 1))[0], r.choice((1, 7919, 0, 0) if locs else (1, 7919))]
        return {'mode': mode, 'S': S, 'storm': storm, 'threads': threads, 'pseed': H(rs, 'policy'), 'sched': None, 'sites': list(locs),
                'after': after[:8] + [gen.same(r, 'S[%d]' % k, f) for k in range(len(S)) for f in ['hash(%s)'] + forms],
                'battery': r.sample(range(len(BATTERY)), 4)}

    def fault_points(self, expr, S):
        key = (expr, tuple(S[int(i)] for i in sorted(set(_Sref.findall(expr)))))
        n = self.counts.get(key)
        if n is None:
            node = self.ctx.node(instrumented=True)
            env0 = oplib.make_env(node.D)
            vals = [eval(oplib.compiled(e), env0) for e in S]
            near = []

            def step(s, t, fl, loc):
                if fl & _code.G and near[-1:] != [t.fcount]:
                    near.append(t.fcount)
            sim = mon.Sim()
            sim.on_step = step
            op = Op(0, expr, oplib.make_env(node.D, vals))
            sim.solo(lambda: op.run(sim))
            n = self.counts[key] = sim.fault_points, near
        return n

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        S = plan['S']
        exprs = [o[1] for t in plan['threads'] for o in t]
        refs = dict((e, ctx.ref(e, S)) for e in exprs + plan['after'])
        srefs = [ctx.ref(e) for e in S]
        brefs = [ctx.ref(BATTERY[b]) for b in plan['battery']]
        inject = plan['mode'] == 'inject'
        faults = {}
        for t in plan['threads']:
            for uid, e, f in t:
                if f and inject:
                    n, near = self.fault_points(e, S)
                    if n:
                        at = 1 + int(f[1] * n)
                        if len(f) > 2 and near:
                            at = min(n, max(1, near[int(f[1] * len(near))] + f[2]))
                        faults[uid] = (KINDS[f[0]], at)
                elif f:
                    faults[uid] = f[1]
        ctx.reset_clock()
        node = ctx.node(instrumented=inject)
        env0 = oplib.make_env(node.D)
        vals = [eval(oplib.compiled(e), env0) for e in S]
        env = oplib.make_env(node.D, vals)
        dig = []
        if plan.get('storm'):
            self.storm(out, plan, node, vals)
            if out.found:
                return out
        progs = [[Op(uid, e, oplib.make_env(node.D, vals), faults.get(uid)) for uid, e, f in t] for t in plan['threads']]
        if inject:
            replay = None if plan['sched'] is None else mon.replay_map(plan['sched'])
            sim = mon.Sim(None if replay is not None else mon.Policy(Random(plan['pseed']), sites=plan.get('sites', ())), replay)
            sim.run(progs)
            for t in sim.threads:
                if t.error:
                    raise RuntimeError('harness error in a simulated thread:\n' + t.error)
            out.record = sim.record if replay is None else plan['sched']
            if sim.abort_reason in ('deadlock', 'step-cap'):
                out.bad('never-finishes', note=sim.abort_reason + ' after an aborted call',
                        fired=[list(x) for x in sim.fired])
                return out
            if sim.abort_reason:
                raise RuntimeError(sim.abort_reason)
            fired = dict((u, (k, n)) for u, k, n in sim.fired)
            out.key = H(sim.trace, repr(sorted(fired.items())))
            for u, k, n in sim.fired:
                out.bump('fault ' + k)
            out.bump('armed but not reached', len(faults) - len(fired))
            out.bump('steps', sim.steps)
            out.bump('switches', sim.switches)
        else:
            fired = {}
            for op in progs[0]:
                if op.fault is None:
                    op.run(None)
                    continue
                k, op.fault = op.fault, None
                old = sys.getrecursionlimit()
                try:
                    sys.setrecursionlimit(depth() + k)
                    try:
                        op.run(None)
                    finally:
                        sys.setrecursionlimit(old)
                except RecursionError as e:
                    op.error = e
                if op.error is not None and _fp.chain_has(op.error, RecursionError):
                    out.bump('fault stack limit')
                fired[op.uid] = ('RecursionError', k)
            out.key = H(repr(plan['threads']))
        out.nontrivial = bool(fired)
        for prog in progs:
            for op in prog:
                hit = fired.get(op.uid)
                if hit is not None and op.error is not None and isinstance(op.error, KINDS[hit[0]]):
                    out.bump('aborted as expected')
                    dig.append(hit)
                    continue
                got = op.outcome()
                dig.append(got)
                if got != refs[op.expr]:
                    out.bad('wrong-answer-of-aborted-call' if hit else 'wrong-answer-near-aborted-call',
                            op=op.expr, uid=op.uid, fault=hit, expected=short(refs[op.expr]), got=short(got))
                elif hit:
                    out.bump('aborted, yet right answer')
        for x in node.left():
            out.bad('process-setting-changed', setting=x, fired=fired)
        if not out.found:
            self.afterwards(out, plan, node, vals, exprs, refs, srefs, brefs, fired)
        out.bump('calls', len(exprs))
        out.digest = H(repr(dig))
        for prog in progs:
            for op in prog:
                op.value = op.error = None
        return out

    def storm(self, out, plan, node, vals):
        e, kind, times, stride = plan['storm']
        n, near = self.fault_points(e, plan['S'])
        ref = self.ctx.ref(e, plan['S'])
        self.ctx.reset_clock()
        node.install()
        if not n:
            return
        out.bump('storms')
        for k in range(max(1, min(times, (60000 if times < 1000 else 900000) // n))):
            at = 1 + k * stride % n
            if not stride and near:
                # at the writes
                at = min(n, max(1, near[k % len(near)] + (0, 1, 2)[k // len(near) % 3]))
            sim = mon.Sim()
            op = Op(0, e, oplib.make_env(node.D, vals))
            sim.solo(lambda: op.run(sim), 0, (KINDS[kind], at))
            if sim.fired:
                out.bump('fault ' + kind)
            if sim.fired and isinstance(op.error, KINDS[kind]):
                continue
            got = op.outcome()
            op.value = op.error = None
            if got != ref:
                out.bad('wrong-answer-of-aborted-call' if sim.fired else 'wrong-answer-afterwards', op=e, fault=[kind, at], time=k + 1, expected=short(ref), got=short(got))
                return

    def afterwards(self, out, plan, node, vals, exprs, refs, srefs, brefs, fired):
        try:
            for e, v, ref in zip(plan['S'], vals, srefs):
                got = ('R', _fp.fp(v))
                if got != ref:
                    out.bad('datashape-damaged', object=e, fired=fired, expected=short(ref), got=short(got))
                    return
            env = oplib.make_env(node.D, vals)
            # in any order: the same call made again may put right what it left
            todo = [(e, refs[e]) for e in exprs + plan['after']] + \
                [(BATTERY[b], ref) for b, ref in zip(plan['battery'], brefs)]
            Random(plan['pseed']).shuffle(todo)
            for e, ref in todo:
                got = oplib.evaluate(e, env)[0]
                if got != ref:
                    out.bad('wrong-answer-afterwards', op=e, fired=fired, expected=short(ref), got=short(got))
                    return
        except mon.SimDeadlock as x:
            out.bad('never-finishes', note=str(x), fired=fired)


def depth():
    f = sys._getframe()
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n
