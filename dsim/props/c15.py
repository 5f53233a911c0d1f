"""C15: a process forked while other threads are inside the library can use it."""
from random import Random

from .. import gen, mon, oplib
from ..worker import H, Outcome
from . import c01
from .base import Fork, Nested, Op, short

# Registrations: the only calls that (may) hold a lock on the pinned commit.
# Every name is claimed once per run, or is taken from the start.
REG = ["reg('ctype', %r)", "reg('shape', %r)", "reg('set', %r)", "reg('type', %r)"]
TAKEN = ["reg('ctype', 'int32')", "reg('shape', 'string')", "reg('set', 'signed')", "reg('type', 'real')"]


CROWD = ['2014-01-01', '2014-01-01T10:20:30Z', 'Jan 2 2014', '10:20:30', '12', '1.5', 'hello world', '3 days', 'True', '20140101', '1/2/2014 5pm']


def env_of(D, S=()):
    env = oplib.make_env(D, S)

    def reg(kind, name):
        """Claim a name and look it up."""
        if kind == 'ctype':
            t = D.CType(name, 3, 1)
        elif kind == 'shape':
            t = D.DataShape(D.Fixed(3), D.int8, name=name)
        elif kind == 'set':
            t = D.TypeSet(D.int8, D.string, name=name)
            return repr(t), D.typesets.lookup(name) is t
        else:
            t = D.int16
            D.coretypes.Type.register(name, t)
        return str(t), D.coretypes.Type.lookup_type(name) is t

    env.update(reg=reg)
    return env


def recursive(got, ref):
    """CPython prints a container as (...) while the same thread is printing it."""
    g, e = repr(got), repr(ref)
    return any(g.count(x) > e.count(x) for x in ('(...)', '[...]', '{...}'))


class Prop(c01.Prop):
    CHUNK = 100
    ENV = staticmethod(env_of)

    def sprinkle(self, r, plan):
        """Registrations among the calls."""
        n = 0
        if r.random() < 0.5:
            p = r.choice((0.3, 0.7, 1.0))
            for t in plan['threads']:
                for o in t:
                    if r.random() < p:
                        n += 1
                        o[1] = r.choice(REG) % ('reg%d' % o[0]) if r.random() < 0.8 else r.choice(TAKEN)
        if r.random() < 0.25:
            # tables of symbols, filled and used
            p = r.choice((0.2, 0.5))
            for t in plan['threads']:
                for o in t:
                    if r.random() < p:
                        o[1] = gen.f_table(r, 0)
        return n

    def crowd(self, r, plan):
        """All threads in the same few places."""
        k = r.random()
        if k < 0.4:
            es = ['D.discover(%r)' % r.choice(CROWD) for _ in range(r.choice((1, 3)))]
        elif k < 0.7:
            es = gen.group(r, len(plan['S']))[:3]
        else:
            es = [r.choice([o[1] for t in plan['threads'] for o in t])]
        top = max([o[0] for t in plan['threads'] for o in t], default=0)
        while len(plan['threads']) < 4:
            plan['threads'].append([])
        for t in plan['threads']:
            while len(t) < 2:
                top += 1
                t.append([top, ''])
            for o in t:
                o[1] = r.choice(es)

    def plan(self, rs, ch, i):
        r = Random(rs)
        plan = c01.Prop.plan(self, H(rs, 'calls'), ch, i)
        if r.random() < 0.15:
            self.crowd(r, plan)
        else:
            self.sprinkle(r, plan)
        threads = plan['threads']
        uid = 1 + max([o[0] for t in threads for o in t], default=0)
        t = threads[r.randrange(len(threads))]
        pool = [o[1] for x in threads for o in x]
        for _ in range(r.choice((1, 2, 3))):       # what the child goes on with: what the others were doing
            e = r.choice(pool)
            if e.startswith('reg('):
                e = r.choice(REG) % ('reg%d' % uid)
            t.append([uid, e])
            uid += 1
        role = r.choices(('child', 'parent'), (5, 1))[0]
        if r.random() < 0.15:
            o = r.choice(t)
            o.append([[uid, 'fork:' + role, round(r.random(), 6), r.choice((0, 1, 2))]])
        else:
            t.insert(r.randrange(len(t)), [uid, 'fork:' + role])
        return plan

    def ref(self, e, S):
        if e.startswith('reg('):
            r = self.ctx.refs.get(('reg', e))
            if r is None:
                cur = mon_node()
                n = self.ctx.node()
                r = oplib.evaluate(e, env_of(n.D))[0]
                self.ctx.refs[('reg', e)] = r
                if cur is not None:
                    cur.install()
            return r
        return self.ctx.ref(e, S)

    def points(self, e, S):
        """(schedule points, writes, writes to shared state) of a call made alone."""
        key = ('points', e, tuple(S))
        n = self.ctx.refs.get(key)
        if n is None:
            node = self.ctx.node(instrumented=True)
            env0 = oplib.make_env(node.D)
            vals = []
            for x in S:
                try:
                    vals.append(eval(oplib.compiled(x), env0))
                except Exception:
                    vals.append(None)
            sim = mon.Sim(cap=8000000)
            op = Op(0, e, env_of(node.D, vals))
            sim.solo(lambda: op.run(sim))
            n = self.ctx.refs[key] = (sim.steps, sim.wpoints, sim.gpoints)
        return n

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        S = plan['S']
        refs = {}
        for t in plan['threads']:
            for o in t:
                for x in [o] + (o[2] if len(o) > 2 else []):
                    if not x[1].startswith('fork:') and x[1] not in refs:
                        refs[x[1]] = self.ref(x[1], S)
        deep = set(e for e in refs if refs[e][:2] == ('E', 'RecursionError'))
        srefs = [ctx.ref(e) for e in S]
        npts = dict((o[1], self.points(o[1], S)) for t in plan['threads'] for o in t if len(o) > 2 and o[1] not in deep)
        ctx.reset_clock()
        node = ctx.node(instrumented=True)
        env0 = oplib.make_env(node.D)
        vals = []
        for e in S:
            try:
                vals.append(eval(oplib.compiled(e), env0))
            except Exception:
                vals.append(None)
        progs = []
        for t in plan['threads']:
            env = env_of(node.D, vals)
            prog = []
            for o in t:
                if o[1] in deep:
                    continue
                if o[1].startswith('fork:'):
                    prog.append(Fork(o[0], o[1][5:]))
                    continue
                op = Op(o[0], o[1], env)
                if len(o) > 2:
                    nest = []
                    for uid, e, frac, w in o[2]:
                        if e in deep:
                            continue
                        w = int(w)
                        total = npts[o[1]][w]
                        if not total:
                            w, total = 0, npts[o[1]][0]
                        at = 1 + int(frac * total)
                        if e.startswith('fork:'):
                            x = Fork(uid, e[5:])
                            x.at, x.of_writes, x.ran = at, w, False
                        else:
                            x = Nested(uid, e, env, at, w)
                        nest.append(x)
                    op.nest = tuple(nest)
                prog.append(op)
            progs.append(prog)
        replay = None if plan['sched'] is None else mon.replay_map(plan['sched'])
        pol = None if replay is not None else mon.Policy(Random(plan['pseed']), sites=plan.get('sites', ()))
        sim = mon.Sim(pol, replay, cap=8000000)
        sim.run(progs)
        for t in sim.threads:
            if t.error:
                raise RuntimeError('harness error in a simulated thread:\n' + t.error)
        out.record = sim.record if replay is None else plan['sched']
        dig = [sim.trace]
        if sim.abort_reason == 'deadlock':
            out.bad('deadlock', note='a call waits for something that never comes', forked=sim.forked, nested=sim.nested)
        elif sim.abort_reason == 'step-cap':
            out.bad('no-progress', note='a call did not finish within %d steps' % sim.cap, forked=sim.forked, nested=sim.nested)
        elif sim.abort_reason not in (None, 'forked'):
            raise RuntimeError(sim.abort_reason)
        else:
            for t in sim.threads:
                done = t.results
                for op in [x for o in done for x in (o,) + tuple(o.nest)]:
                    if isinstance(op, Fork) or isinstance(op, Nested) and not op.ran:
                        continue
                    got = op.outcome()
                    dig.append(got)
                    out.bump('calls')
                    if got != refs[op.expr] and sim.nested and recursive(got, refs[op.expr]):
                        out.bump('answers cut by the recursion guard of repr()')
                        continue
                    if got != refs[op.expr]:
                        out.bad('wrong-answer', op=op.expr, uid=op.uid, nested=isinstance(op, Nested), forked=sim.forked,
                                expected=short(refs[op.expr]), got=short(got))
            for x in node.left() if sim.forked != 'child' else ():
                out.bad('process-setting-changed', setting=x)
            if sim.forked != 'child':
                for e, v, ref in zip(S, vals, srefs):
                    if ref[0] == 'R':
                        from .. import fp
                        got = ('R', fp.fp(v))
                        if got != ref:
                            out.bad('shared-object-changed', object=e, expected=short(ref), got=short(got))
                if not out.found:
                    env = env_of(node.D, vals)
                    for e in sorted(refs):
                        if e in deep or e.startswith('reg(') and e not in TAKEN:
                            continue
                        try:
                            got = oplib.evaluate(e, env)[0]
                        except mon.SimDeadlock as x:
                            got = ('deadlock', str(x))
                        if got != refs[e]:
                            out.bad('wrong-answer-afterwards', op=e, expected=short(refs[e]), got=short(got))
                            break
        out.key = sim.trace
        out.nontrivial = self.nontrivial(sim)
        out.bump('steps', sim.steps)
        out.bump('preemptions', max(0, sim.switches - len(sim.threads)))
        out.bump('lock acquires', sim.lock_acquires)
        out.bump('lock waits', sim.blocks)
        if sim.forked:
            out.bump('fault fork, in the ' + sim.forked)
            out.bump('threads lost in a fork', sim.notes.get('threads lost', 0))
        if sim.nested:
            out.bump('fault nested call', sim.nested)
        out.digest = H(repr(dig))
        for prog in progs:
            for op in prog:
                op.value = op.error = None
        return out

    @staticmethod
    def nontrivial(sim):
        return sim.forked is not None and sim.switches > 1

    def shrink(self, plan):
        for p in c01.Prop.shrink(self, plan):
            yield p
        # drop nested calls
        for i, t in enumerate(plan['threads']):
            for j, o in enumerate(t):
                if len(o) > 2:
                    for k in range(len(o[2])):
                        rest = o[2][:k] + o[2][k + 1:]
                        p = dict(plan)
                        p['threads'] = [list(x) for x in plan['threads']]
                        p['threads'][i][j] = o[:2] + ([rest] if rest else [])
                        yield p


def mon_node():
    from .. import node
    return node.Finder.node
