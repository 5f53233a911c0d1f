"""C01: concurrent calls do not affect each other; every call finishes."""
from random import Random

from .. import fp as _fp
from .. import gen, mon, oplib
from ..worker import H, Outcome
from .base import Base, Op, short


class Prop(Base):
    CHUNK = 100
    SURVEY = 160

    def focus(self, r, rs):
        """Few calls, all threads doing the same or nearly the same thing."""
        nt = r.choices((2, 3, 4), (7, 2, 1))[0]
        S = []
        k = r.random()
        if k < 0.22:
            # two objects, in either order
            g = r.choice(gen.EQUIV)
            h = g if r.random() < 0.6 else r.choice(gen.EQUIV)
            if r.random() < 0.4:
                g = h = [r.choice(gen.BIG)]
            S = [r.choice(g), r.choice(h)]
            forms = r.sample(gen.PAIR, r.choice((1, 1, 2)))
            if r.random() < 0.5:
                forms = [f for f in gen.PAIR if '==' in f or 'member' in f or 'get' in f][:3]
            mk = lambda: gen.pair(r, 'S[0]', 'S[1]', r.choice(forms))
        elif k < 0.45:
            # one object and what its class offers
            o, ts = gen.typed(r)
            S = [o]
            forms = r.sample(ts, r.choice((1, 1, 2, 3)))
            mk = lambda: gen.same(r, 'S[0]', r.choice(forms))
        elif k < 0.72:
            S = [r.choice(gen.BIG) if r.random() < 0.5 else r.choice(r.choice(self.corpus_objs)) for _ in range(r.choice((1, 1, 2)))]
            o = lambda: 'S[%d]' % r.randrange(len(S))
            forms = [r.choice(gen.SAME) for _ in range(r.choice((1, 1, 2, 3)))]
            mk = lambda: gen.same(r, o(), r.choice(forms))
        else:
            g = r.choice(self.corpus) if r.random() < 0.6 else [e[0] for e in self.fam_pool[r.choice(gen.NAMES_F)]]
            g = r.sample(g, min(len(g), r.choice((1, 2, 3))))
            mk = lambda: r.choice(g)
        threads, uid = [], 1
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 1, 2))):
                ops.append([uid, mk()])
                uid += 1
            threads.append(ops)
        return {'S': S, 'threads': threads, 'pseed': H(rs, 'policy'), 'sched': None}

    def around(self, r, rs):
        """Calls that reach the same writes."""
        nt = r.choices((2, 3), (8, 2))[0]
        locs, S, calls = self.site_calls(r, nt * 2)
        threads, uid = [], 1
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 1, 2))):
                ops.append([uid, calls[(uid - 1) % len(calls)]])
                uid += 1
            threads.append(ops)
        return {'S': S, 'threads': threads, 'pseed': H(rs, 'policy'), 'sched': None, 'sites': locs}

    def plan(self, rs, ch, i):
        plan = self.plan_(rs, ch, i)
        r = Random(H(rs, 'gone'))
        if r.random() < (0.5 if plan.get('sites') else 0.25):
            # results nobody keeps
            p = r.choice((0.5, 1.0))
            one = r.sample([o[1] for t in plan['threads'] for o in t], 1)
            if r.random() < 0.3:
                one = [r.choice(r.choice(self.fam_pool[r.choice(('build', 'build', 'numpy', 'index', 'parse', 'promote'))]))]
            same = r.random() < 0.7
            for t in plan['threads']:
                for o in t:
                    if same:
                        o[1] = one[0]
                    if r.random() < p:
                        o[1] = 'gone(%s)' % o[1]
        return plan

    def plan_(self, rs, ch, i):
        r = Random(rs)
        if r.random() < 0.22 and self.sites:
            return self.around(r, rs)
        if r.random() < 0.56:
            return self.focus(r, rs)
        nt = r.choices((2, 3, 4), (6, 3, 1))[0]
        nS = r.choice((0, 1, 2, 3))
        S = [r.choice(r.choice(self.corpus_objs)) for _ in range(nS)] if nS else []
        groups = r.sample(self.corpus, r.choice((1, 1, 2, 3)))
        pool = [e for g in groups for e in g]
        uid = 1
        threads = []
        fam = r.choice(gen.NAMES_F) if r.random() < 0.5 else None
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 1, 2, 3))):
                if S and r.random() < 0.5:
                    e = gen.op(r, r.choice(('print', 'eq', 'index', 'build', 'numpy', 'pred', 'util', 'pickle',
                                            'assert')), len(S))
                elif r.random() < 0.8:
                    e = r.choice(pool)
                else:
                    e = r.choice(r.choice(self.fam_pool[fam or r.choice(gen.NAMES_F)]))
                ops.append([uid, e])
                uid += 1
            threads.append(ops)
        return {'S': S, 'threads': threads, 'pseed': H(rs, 'policy'), 'sched': None}

    def begin_chunk(self, ch):
        Base.begin_chunk(self, ch)
        r = Random(H(self.ctx.seed, 'c01objs', ch))
        self.corpus_objs = self.good_objects(r, 30)
        self.survey(r, self.SURVEY)
        self.fam_pool = dict((f, [[gen.op(r, f, 0)] for _ in range(8)]) for f in gen.NAMES_F)

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        exprs = [e for t in plan['threads'] for _, e in t]
        S = plan['S']
        refs = dict((e, ctx.ref(e, S)) for e in exprs)
        # calls that recurse without end even alone are left out
        deep = [e for e in refs if refs[e][:2] == ('E', 'RecursionError')]
        exprs = [e for e in exprs if e not in deep]
        srefs = [ctx.ref(e) for e in S]
        ctx.reset_clock()
        node = ctx.node(instrumented=True)
        env0 = oplib.make_env(node.D)
        vals = []
        for e in S:
            try:
                vals.append(eval(oplib.compiled(e), env0))
            except Exception:
                vals.append(None)
        progs = []
        for t in plan['threads']:
            env = oplib.make_env(node.D, vals)
            progs.append([Op(uid, e, env) for uid, e in t if e not in deep])
        replay = None if plan['sched'] is None else mon.replay_map(plan['sched'])
        pol = None if replay is not None else mon.Policy(Random(plan['pseed']), sites=plan.get('sites', ()))
        sim = mon.Sim(pol, replay, cap=8000000)
        sim.run(progs)
        for t in sim.threads:
            if t.error:
                raise RuntimeError('harness error in a simulated thread:\n' + t.error)
        out.record = sim.record if replay is None else plan['sched']
        if sim.abort_reason == 'deadlock':
            out.bad('deadlock', note='all unfinished calls wait for each other')
        elif sim.abort_reason == 'step-cap':
            out.bad('no-progress', note='a call did not finish within %d steps' % sim.cap)
        elif sim.abort_reason:
            raise RuntimeError(sim.abort_reason)
        dig = [sim.trace]
        if not sim.abort_reason:
            for prog in progs:
                for op in prog:
                    got = op.outcome()
                    dig.append(got)
                    if got != refs[op.expr]:
                        out.bad('wrong-answer', op=op.expr, uid=op.uid, expected=short(refs[op.expr]),
                                got=short(got))
            for e, v, ref in zip(S, vals, srefs):
                if ref[0] == 'R':
                    try:
                        got = ('R', _fp.fp(v))
                    except mon.SimDeadlock as x:
                        got = ('deadlock', str(x))
                    if got != ref:
                        out.bad('shared-object-changed', object=e, expected=short(ref), got=short(got))
            # the calls have left nothing behind
            for x in node.left():
                out.bad('process-setting-changed', setting=x)
            if not out.found:
                env = oplib.make_env(node.D, vals)
                for e in exprs:
                    try:
                        got = oplib.evaluate(e, env)[0]
                    except mon.SimDeadlock as x:
                        got = ('deadlock', str(x))
                    if got != refs[e]:
                        out.bad('wrong-answer-afterwards', op=e, expected=short(refs[e]), got=short(got))
                        break
        out.key = sim.trace
        out.nontrivial = sim.switches > len(sim.threads)
        out.bump('steps', sim.steps)
        out.bump('switches', sim.switches)
        out.bump('calls', len(exprs))
        out.bump('preemptions', max(0, sim.switches - len(sim.threads)))
        out.bump('lock acquires', sim.lock_acquires)
        out.bump('lock waits', sim.blocks)
        if pol is not None:
            out.bump('policy ' + pol.kind)
        out.digest = H(repr(dig))
        for prog in progs:
            for op in prog:
                op.value = op.error = None
        return out
