"""C02: the answer of a call does not depend on the calls made before it."""
import gc
from random import Random

from .. import fp as _fp
from .. import gen, oplib
from ..worker import H, Outcome
from .base import Base, short

# Floods: many distinct calls of one shape, to reach the edges of caches and counters.
FLOOD = ["D.dshape('%d * int32')", "D.discover(%d)", "D.discover('%d')", "D.Fixed(%d)", "D.discover([%d] * 3)",
         "D.String(%d)", "D.DataShape(%d, D.int32)", "D.dshape('{f%d: int32}')", "D.from_numpy((%d,), 'i4')",
         "D.promote(D.String(%d + 1), D.String(3))", "hash(D.dshape('%d * var * string'))", "D.validate('%d * int32', [1, 2])",
         "D.discover({'k%d': 1.5})", "D.discover('a%d')", "D.discover('%d days')", "D.Record([('n%d', 'int8')])",
         "str(D.DataShape(%d, 2, D.string))", "D.dshape('int%d')", "D.dshape('%d * {')", "lexall('%d * f')", "D.discover(b'%d')",
         "D.discover(dt.timedelta(%d))", "D.discover((%d, 'a'))", "D.discover(np.zeros((%d,)))", "D.Decimal(%d + 1, 0)",
         "D.dshape('var * {a: %d * int8}').subshape[0]", "D.dshape('%d * int32').subshape[0:3]", "D.Categorical([%d])",
         "D.isnumeric('%d * int32')", "D.cat_dshapes(D.dshapes('%d * int32', '1 * int32'))", "D.to_numpy(D.dshape('%d * 2 * int8'))",
         "D.dshape('T%d')", "D.Units('u%d')", "D.discover([[%d], [1, 2]])", "rt(D.Fixed(%d))", "D.TypeSet(D.Decimal(%d + 1), D.int8)",
         "D.validate(int, %d)", "D.validate('{a: int64}', {'a': %d})", "D.DateTime('Z%d')", "collect(isdim, D.dshape('%d * int8'))",
         "ae(D.Fixed(%d), D.Fixed(2))", "D.discover(Opaque())", "D.discover(ArrLike((%d,), 'i4'))", "D.dshape('%d')", "D.Map(D.Decimal(%d + 1), D.int8)",
         "D.discover('%d.5')", "D.discover(['%d.25', '1'])", "D.discover('1:%d:09'[:7])", "D.discover('2014-%d-1')", "D.discover('%d e')",
         "D.discover([('%d', 1.5), ('x', None)])", "D.discover({'a': '%d.5', 'b': ['', 'true']})", "D.discover('True%d')", "D.discover(1.0 * %d)",
         "D.discover(np.int32(%d))", "D.discover(dt.date.fromordinal(%d + 1))", "D.discover(None if %d % 2 else 'x')", "D.dshape('{a: ?%d * int8}')",
         "D.dshape('(%d * int8) -> int8')", "D.discover([1, %d, None])", "D.discover([1.5, '%d', None])", "D.discover(['2014-01-01', %d])"]


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        r = Random(H(self.ctx.seed, 'c02', ch))
        self.corpus = [gen.group(r, 0) for _ in range(70)]
        self.objs = [o[0] for o in self.good_objects(r, 12)]
        # calls on arguments that are equal and not the same
        self.equals = [gen.equiv(r) for _ in range(40)]
        self.survey(r, 160)

    def plan(self, rs, ch, i):
        r = Random(rs)
        S = r.sample(self.objs, r.choice((0, 2, 3)))
        pool = [e for g in r.sample(self.corpus, r.choice((1, 2, 4, 12))) for e in g]
        sp = []
        if S:
            sp = [gen.same(r, 'S[%d]' % r.randrange(len(S))) for _ in range(4)] + [gen.op(r, r.choice(('print', 'eq', 'index', 'numpy', 'pred', 'util', 'pickle', 'build')), len(S))
                  for _ in range(5)]
        if r.random() < 0.35:
            # objects and what their classes offer
            ty = [gen.typed(r) for _ in range(r.choice((1, 2)))]
            S = [o for o, _ in ty]
            sp = [gen.same(r, 'S[%d]' % j, r.choice(ts)) for j, (_, ts) in enumerate(ty) for _ in range(r.choice((3, 6)))]
        if r.random() < 0.15 and self.sites:
            # calls that write in the same places
            _, S, sp = self.site_calls(r, 4)
            sp = sp * 4
            pool = sp + pool
        if r.random() < 0.25:
            eq = [e for g in r.sample(self.equals, r.choice((2, 4))) for e in g]
            sp = sp + eq * 3
            pool = pool + eq
        n = r.choice((6, 15, 40, 40, 120, 250))
        ops = []
        flood = r.random() < 0.2
        while len(ops) < n:
            k = r.random()
            if sp and k < 0.2:
                ops.append(['op', r.choice(sp)])
            elif k < 0.90:
                ops.append(['op', r.choice(pool)])
            elif k < 0.93:
                ops.append(['gc'])
            elif k < 0.96:
                ops.append(['adv', r.choice((10 ** 6, 10 ** 9, 86400 * 10 ** 9, 400 * 86400 * 10 ** 9,
                                             -3600 * 10 ** 9, 2 ** 31 * 10 ** 9))])
            elif k < 0.98:
                ops.append(['drop'])
            elif k < 0.985:
                # the same few calls over and over
                b = [r.choice(pool) if r.random() < 0.5 else gen.failing(r) for _ in range(r.choice((1, 1, 2, 3)))]
                ops.append(['burst', b, r.choice((10, 30, 70, 140, 300))])
            elif flood:
                if len(ops) and ops[-1][0] != 'flood' and any(x[0] == 'flood' for x in ops):
                    # what became of calls unlike those that came in such numbers
                    ops += [['op', r.choice(FLOOD).replace('%d', r.choice(('0', '1', '7', '17')))] for _ in range(25)]
                ops.append(['flood', r.choice(FLOOD), r.choice((0, 1, 7)),
                            int(2 ** (r.uniform(3, 10.6) if r.random() < 0.92 else r.uniform(10.6, 13.3))), r.choice((1, 1, 1, 3))])
        if any(x[0] == 'flood' for x in ops):
            ops += [['op', r.choice(FLOOD).replace('%d', r.choice(('0', '1', '7', '17')))] for _ in range(25)]
        if r.random() < 0.5:
            ops.append(['op', gen.ALLNAMES])
        return {'S': S, 'ops': ops}

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        S = plan['S']
        refs = {}
        for it in plan['ops']:
            if it[0] == 'op':
                refs[it[1]] = ctx.ref(it[1], S)
            elif it[0] == 'burst':
                for e in it[1]:
                    refs[e] = ctx.ref(e, S)
            elif it[0] == 'flood':
                for k in self.flood_samples(it):
                    e = self.flood_expr(it, k)
                    refs[e] = ctx.ref(e)
        sref = [ctx.ref(e) for e in S]
        ctx.reset_clock()
        node = ctx.node()
        env = oplib.make_env(node.D)
        vals = [eval(oplib.compiled(e), env) for e in S]
        env = oplib.make_env(node.D, vals)
        keep = []
        dig = []
        seen = {}
        for n, it in enumerate(plan['ops']):
            if it[0] == 'op':
                self.one(out, env, it[1], refs, n, keep, dig)
                seen[it[1]] = seen.get(it[1], 0) + 1
            elif it[0] == 'gc':
                gc.collect()
                out.bump('gc')
            elif it[0] == 'drop':
                del keep[:]
                out.bump('results dropped')
            elif it[0] == 'adv':
                ctx.clock.advance(it[1])
                out.bump('clock advance')
            elif it[0] == 'burst':
                for k in range(it[2]):
                    for e in it[1]:
                        if k in (0, it[2] - 1):
                            self.one(out, env, e, refs, n, keep, dig)
                        else:
                            try:
                                eval(oplib.compiled(e), env)
                            except Exception:
                                pass
                            out.bump('calls')
                out.bump('bursts')
            elif it[0] == 'flood':
                sam = set(self.flood_samples(it))
                for k in range(it[3]):
                    e = self.flood_expr(it, k)
                    if k in sam:
                        self.one(out, env, e, refs, n, keep, dig)
                    else:
                        try:
                            eval(e, env)
                        except Exception:
                            pass
                        out.bump('calls')
                out.bump('floods')
            if out.found:
                break
        for x in node.left():
            out.bad('process-setting-changed', setting=x)
        if not out.found:
            for e, v, ref in zip(S, vals, sref):
                got = ('R', _fp.fp(v))
                if got != ref:
                    out.bad('shared-object-changed', object=e, expected=short(ref), got=short(got))
        out.key = H(repr(plan['ops']))
        out.nontrivial = len(refs) > 1
        out.bump('repeated calls', sum(v - 1 for v in seen.values()))
        out.digest = H(repr(dig))
        return out

    @staticmethod
    def flood_samples(it):
        n = it[3]
        return sorted(set([0, 1, n // 2, n - 1]) & set(range(n)))

    @staticmethod
    def flood_expr(it, k):
        return it[1].replace('%d', str(it[2] + k * it[4]))

    def one(self, out, env, e, refs, n, keep, dig):
        got, v, x = oplib.evaluate(e, env)
        out.bump('calls')
        if x is not None:
            out.bump('failing calls')
        keep.append(v)
        if len(keep) > 40:
            del keep[:20]
        dig.append(got)
        if got != refs[e]:
            out.bad('history-dependent-answer', step=n, op=e, expected=short(refs[e]), got=short(got))

    def shrink(self, plan):
        for p in Base.shrink(self, plan):
            yield p
        for j, it in enumerate(plan['ops']):
            if it[0] == 'burst' and it[2] > 1:
                p = dict(plan)
                p['ops'] = plan['ops'][:j] + [[it[0], it[1], it[2] * 2 // 3]] + plan['ops'][j + 1:]
                yield p
            if it[0] == 'flood' and it[3] > 2:
                p = dict(plan)
                p['ops'] = plan['ops'][:j] + [it[:3] + [it[3] // 2] + it[4:]] + plan['ops'][j + 1:]
                yield p
