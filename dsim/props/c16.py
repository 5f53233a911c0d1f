"""C16: calls made by signal handlers and finalizers in the middle of other calls."""
from random import Random

from .. import gen
from ..worker import H
from . import c01, c15


class Prop(c15.Prop):
    CHUNK = 100

    def plan(self, rs, ch, i):
        r = Random(rs)
        plan = c01.Prop.plan(self, H(rs, 'calls'), ch, i)
        threads = plan['threads']
        keep = r.choices((1, 2, 3), (7, 3, 1))[0]
        del threads[keep:]
        for t in threads:
            del t[3:]
        self.sprinkle(r, plan)
        pool = [o[1] for t in threads for o in t]
        uid = 1 + max(o[0] for t in threads for o in t)
        p = r.choice((0.5, 1.0))
        if r.random() < 0.3 and plan['S']:
            o = 'S[%d]' % r.randrange(len(plan['S']))
            pool += [gen.same(r, o) for _ in range(2)]
        if r.random() < 0.2:
            pool += r.choice(self.corpus)[:3]
        for t in threads:
            for o in t:
                if r.random() > p:
                    continue
                nest = []
                for _ in range(r.choice((1, 1, 1, 2, 3))):
                    e = r.choice(pool)
                    if e.startswith('reg(') and e not in c15.TAKEN:
                        e = r.choice(c15.REG) % ('reg%d' % uid)
                    nest.append([uid, e, round(r.random(), 6), r.choice((0, 1, 2))])
                    uid += 1
                o.append(nest)
        return plan

    @staticmethod
    def nontrivial(sim):
        return sim.nested > 0
