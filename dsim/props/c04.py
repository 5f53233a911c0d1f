"""C04: names of types and type sets are claimed once, atomically."""
from random import Random

from .. import fp as _fp
from .. import gen, lin, mon, oplib
from ..worker import H, Outcome
from .base import Base, Op, short
from .c03 import KINDS

TAKEN_T = ['int32', 'string', 'real', 'Record', 'date', 'float']
TAKEN_TS = ['numeric', 'signed', 'scalar']
CLAIMS = {'ctype': 'T', 'reg': 'T', 'named': 'T', 'tset': 'TS', 'regts': 'TS'}
# claims that are all for equal things, and for what has the name already
SAME = {'ctype=': 'T', 'reg=': 'T', 'named=': 'T', 'tset=': 'TS', 'regts=': 'TS'}
CLAIMS.update(SAME)
# registrations whose other arguments are refused
REFUSED = {'bad1': 'T', 'bad2': 'T', 'bad3': 'T', 'bad4': 'T', 'bad5': 'TS', 'bad6': 'T'}
READS = {'look': 'T', 'from': 'T', 'lookts': 'TS', 'getts': 'TS'}
OTHERS = ["D.dshape('3 * int32')", "D.from_numpy((3,), 'f4')", "D.promote(D.int8, D.float64)", "D.isnumeric('?int32')",
          "copy.deepcopy(D.typesets.numeric)", "rt(D.typesets.integral)", "D.coretypes.Type.lookup_type('int64')",
          "D.typesets.maxtype(D.int8)", "D.typesets.registry['real']", "str(D.dshape('{a: real}'))", "rt(D.int32)",
          "D.TypeSet(D.int32, D.int8)", "repr(D.typesets.scalar)", "rt(D.dshape('3 * int32'))", "copy.deepcopy(D.real)"]
SPACE = dict(CLAIMS, **dict(READS, **REFUSED))
WATCH_T = ['int32', 'int64', 'string', 'real', 'float', 'date', 'null', 'Record', 'Option', 'bool', 'complex128', 'intptr', 'bytes']
WATCH_TS = ['signed', 'unsigned', 'integral', 'floating', 'complexes', 'boolean', 'real', 'numeric', 'scalar']


def kin(n):
    """Other names, much like it."""
    return [x for x in (n.upper(), n.lower(), n.capitalize(), n.swapcase(), n + ' ', ' ' + n, '\t' + n, n + '_', '_' + n, n + '0', n[:-1], n + '\n',
                        n + 's', n + '[1]', '{%s}' % n, n + '\u0301', 'datashape.' + n, n + '-', '?' + n, n + '*', chr(0xff4e) + n[1:]) if x and x != n]


def stamp(sim):
    if sim is None:
        return 1 << 40
    sim.note('stamp')
    return sim.notes['stamp']


def view(v):
    """All there is to see of a looked-up entry."""
    if v is None:
        return None
    try:
        out = [_fp.fp(v)]
    except Exception as e:
        out = ['no fingerprint', _fp.exc(e)]
    for a in ('name', 'types', 'itemsize', 'alignment', 'measure', 'shape'):
        try:
            out.append(_fp.fp(getattr(v, a)))
        except AttributeError:
            out.append('no ' + a)
        except Exception as e:
            out.append(_fp.exc(e))
    return tuple(out)


class Claim(Op):
    """A call on a registry, with its place in the history."""
    __slots__ = ('kind', 'name', 'start', 'end', 'D', 'obj', 'seen')

    def __init__(self, uid, kind, name, D, env, obj, fault):
        self.kind, self.name, self.D, self.obj = kind, name, D, obj
        self.seen = None
        Op.__init__(self, uid, expr_of(kind, name, uid), env, fault)

    def run(self, sim):
        self.start = stamp(sim)
        Op.run(self, sim)
        if self.error is None and self.kind in READS:
            # what the caller finds at the moment the lookup returns
            with mon.quiet(sim):
                self.seen = view(self.value)
        self.end = stamp(sim)
        return self


def expr_of(kind, name, uid):
    return {'ctype=': 'D.CType(%r, 4, 4)' % name,
            'reg=': 'D.coretypes.Type.register(%r, OBJ)' % name,
            'named=': 'D.DataShape(3, D.int32, name=%r)' % name,
            'tset=': 'D.TypeSet(*%s, name=%r)' % ('D.typesets.registry[%r]' % name if name in TAKEN_TS else '(D.int8, D.string)', name),
            'regts=': 'D.typesets.register_typeset(%r, OBJ)' % name,
            'ctype': 'D.CType(%r, %d, 1)' % (name, uid),
            'reg': 'D.coretypes.Type.register(%r, OBJ)' % name,
            'named': 'D.DataShape(%d, D.int32, name=%r)' % (uid, name),
            'tset': 'D.TypeSet(D.int8, D.Decimal(%d), name=%r)' % (uid, name),
            'regts': 'D.typesets.register_typeset(%r, OBJ)' % name,
            'bad1': 'D.DataShape(D.int32, %d, name=%r)' % (uid, name),
            'bad2': 'D.DataShape(D.var, Opaque(), D.int8, name=%r)' % name,
            'bad3': 'D.DataShape(name=%r)' % name,
            'bad4': 'D.CType(%r, %d)' % (name, uid),
            'bad5': 'D.typesets.register_typeset(%r)' % name,
            'bad6': 'D.DataShape("int32", name=%r)' % name,
            'cls': 'D.coretypes.Type("Cls%d", (D.coretypes.Unit,), {})' % uid,
            'look': 'D.coretypes.Type.lookup_type(%r)' % name,
            'from': 'D.coretypes.Type.lookup_type(%r)' % name,
            'lookts': 'D.typesets.lookup(%r)' % name,
            'getts': 'D.typesets.registry[%r]' % name}[kind]


class Prop(Base):
    CHUNK = 150

    def begin_chunk(self, ch):
        pass

    def plan(self, rs, ch, i):
        r = Random(rs)
        nt = r.choices((1, 2, 3, 4), (1, 5, 4, 2))[0]
        space = r.choice((('T',), ('TS',), ('T', 'TS')))
        names = ['nm%d' % k for k in range(r.choice((1, 1, 2, 3)))]
        if r.random() < 0.35:
            names.append(r.choice(TAKEN_T if 'T' in space else TAKEN_TS))
        if r.random() < 0.3:
            k = r.sample(kin(names[0]), r.choice((1, 2)))
            names = names[-2:] + [x for x in k if x not in TAKEN_T + TAKEN_TS + names]
        ck = [k for k in CLAIMS if CLAIMS[k] in space and k not in SAME]
        sk = [k for k in SAME if SAME[k] in space]
        if r.random() < 0.5:
            sk = [r.choice(sk)]
        ps = r.choice((0, 0, 0.2, 0.8))
        bk = [k for k in REFUSED if REFUSED[k] in space]
        rk = [k for k in READS if READS[k] in space]
        uid = 1
        threads = []
        pf = r.choice((0, 0, 0.2, 0.6))
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 1, 2, 3, 4))):
                k = r.random()
                f = None
                if k < 0.50:
                    kind = r.choice(ck)
                    if r.random() < ps:
                        kind = r.choice(sk)
                    elif r.random() < pf:
                        f = [r.choice(sorted(KINDS)), r.choice((1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20))]
                    ops.append([uid, kind, r.choice(names), f])
                elif k < 0.83:
                    ops.append([uid, r.choice(rk), r.choice(names), None])
                elif k < 0.89:
                    ops.append([uid, r.choice(bk), r.choice(names), None])
                elif k < 0.93:
                    ops.append([uid, 'cls', 'Cls%d' % uid, None])
                else:
                    ops.append([uid, 'op', r.choice(OTHERS), None])
                uid += 1
            threads.append(ops)
        return {'threads': threads, 'pseed': H(rs, 'policy'), 'sched': None}

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        refs = dict((o[2], ctx.ref(o[2])) for t in plan['threads'] for o in t if o[1] == 'op')
        ctx.reset_clock()
        node = ctx.node(instrumented=True)
        D = node.D
        T, TS = D.coretypes.Type.lookup_type, D.typesets.lookup
        watch = [('T', n, T(n)) for n in WATCH_T] + [('TS', n, TS(n)) for n in WATCH_TS]
        before = [(s, n, _fp.fp(v)) for s, n, v in watch]
        used = set((SPACE.get(o[1]), o[2]) for t in plan['threads'] for o in t)
        free = [(s, x) for s, n in sorted(u for u in used if u[0]) for x in kin(n)
                if (s, x) not in used and self.entry(D, s, x) is None]
        progs, objs = [], []
        for t in plan['threads']:
            p = []
            for uid, kind, name, f in t:
                env = oplib.make_env(D)
                fault = (KINDS[f[0]], f[1]) if f else None
                if kind == 'op':
                    p.append(Op(uid, name, env))
                    continue
                obj = None
                if kind in ('reg', 'regts'):
                    obj = D.DataShape(uid, D.int8) if kind == 'reg' else D.TypeSet(D.Decimal(uid))
                elif kind == 'reg=':
                    obj = T(name) if name in TAKEN_T else D.int16
                elif kind == 'regts=':
                    obj = TS(name) if name in TAKEN_TS else D.typesets.integral
                if obj is not None:
                    env['OBJ'] = obj
                p.append(Claim(uid, kind, name, D, env, obj, fault))
            progs.append(p)
        replay = None if plan['sched'] is None else mon.replay_map(plan['sched'])
        sim = mon.Sim(None if replay is not None else mon.Policy(Random(plan['pseed'])), replay)
        sim.run(progs)
        for t in sim.threads:
            if t.error:
                raise RuntimeError('harness error in a simulated thread:\n' + t.error)
        out.record = sim.record if replay is None else plan['sched']
        if sim.abort_reason in ('deadlock', 'step-cap'):
            out.bad('never-finishes', note=sim.abort_reason)
            return out
        if sim.abort_reason:
            raise RuntimeError(sim.abort_reason)
        fired = dict((u, k) for u, k, n in sim.fired)
        ops = [o for p in progs for o in p]
        # afterwards, alone: every name is tried once more and read
        tail = []
        for s, n in sorted(set((SPACE[o.kind], o.name) for o in ops if isinstance(o, Claim) and o.kind in SPACE)):
            for kind in (('look', 'ctype', 'look') if s == 'T' else ('lookts', 'tset', 'getts')):
                c = Claim(900 + len(tail), kind, n, D, oplib.make_env(D), None, None)
                try:
                    c.run(None)
                except mon.SimDeadlock as x:
                    out.bad('never-finishes', note=str(x))
                    return out
                c.start += 10 * len(tail)
                c.end = c.start + 1
                tail.append(c)
        hist = {}
        dig = []
        ids = {}

        def ident(v):
            return ids.setdefault(id(v), len(ids) + 1)

        initial = dict(((s, n), ident(v)) for s, n, v in watch)
        for n in TAKEN_T:
            initial[('T', n)] = ident(T(n)) if ('T', n) not in initial else initial[('T', n)]
        complete, made = {}, {}
        for o in ops + tail:
            if not isinstance(o, Claim):
                got = o.outcome()
                dig.append(got)
                if got != refs[o.expr]:
                    out.bad('wrong-answer', op=o.expr, expected=short(refs[o.expr]), got=short(got))
                continue
            if o.kind == 'cls':
                made[o.name] = o
                if o.error is not None:
                    out.bad('unexpected-error', op=o.expr, got=short(o.outcome()))
                continue
            if o.kind in REFUSED:
                hist.setdefault((REFUSED[o.kind], o.name), [])
                if not isinstance(o.error, (TypeError, ValueError)):
                    out.bad('unexpected-outcome', op=o.expr, got=short(o.outcome()))
                dig.append((o.uid, 'refused'))
                continue
            h = {'uid': o.uid, 'expr': o.expr, 'start': o.start, 'end': o.end}
            if o.kind in CLAIMS:
                key = (CLAIMS[o.kind], o.name)
                h['kind'] = 'claim'
                hit = fired.get(o.uid)
                if hit is not None:
                    if not (o.error is not None and isinstance(o.error, KINDS[hit])):
                        out.bad('abort-swallowed', op=o.expr, got=short(o.outcome()), fault=hit)
                        continue
                    h['result'] = 'aborted'
                    h['value'] = ident(o.obj) if o.obj is not None else 'by%d' % o.uid
                elif o.error is None:
                    h['result'] = 'ok'
                    h['value'] = ident(o.obj if o.obj is not None else o.value)
                elif isinstance(o.error, TypeError):
                    h['result'] = 'taken'
                else:
                    out.bad('unexpected-error', op=o.expr, got=short(o.outcome()))
                    continue
            else:
                key = (READS[o.kind], o.name)
                h['kind'] = 'read'
                if o.error is not None:
                    if not isinstance(o.error, KeyError):
                        out.bad('unexpected-error', op=o.expr, got=short(o.outcome()))
                        continue
                    h['result'] = None
                else:
                    if o.seen != view(o.value):
                        out.bad('incomplete-entry', op=o.expr, seen=short(o.seen), later=short(view(o.value)))
                        continue
                    h['result'] = None if o.value is None else ident(o.value)
                    if o.value is not None:
                        complete[ident(o.value)] = o.value
            dig.append((o.uid, h['result']))
            hist.setdefault(key, []).append(h)
        # values seen by readers that no successful call returned: left by aborted claims
        if not out.found:
            for key, hs in sorted(hist.items()):
                known = set(x.get('value') for x in hs if x.get('result') == 'ok') | {initial.get(key)}
                for x in hs:
                    if x['kind'] == 'read' and x['result'] is not None and x['result'] not in known:
                        try:
                            src = self.made_by(D, complete[x['result']], hs, key[1])
                        except Exception:
                            src = None          # not even its parameters can be read
                        if src is not None:
                            x['result'] = src
                        else:
                            out.bad('incomplete-or-foreign-entry', registry=key[0], name=key[1],
                                    seen=short(view(complete[x['result']])))
                why = lin.check(hs, initial.get(key))
                if why:
                    out.bad('not-claimed-once', registry=key[0], name=key[1], why=why,
                            history=[{k: v for k, v in x.items()} for x in hs])
        if not out.found:
            for n in sorted(made):
                try:
                    now = T(n)
                except KeyError:
                    now = None
                if now is not made[n].value:
                    out.bad('registration-lost', name=n, now=short(_fp.fp(now)))
        if not out.found:
            for (s, n, v), b in zip(watch, before):
                try:
                    now = (T if s == 'T' else TS)(n)
                except KeyError:
                    now = None
                if now is not v or _fp.fp(now) != b[2]:
                    out.bad('other-name-disturbed', registry=s, name=n, was=short(b[2]), now=short(_fp.fp(now)))
        if not out.found:
            for s, x in free:
                v = self.entry(D, s, x)
                if v is not None:
                    out.bad('name-nobody-claimed', registry=s, name=x, now=short(_fp.fp(v)))
        out.key = H(sim.trace, repr(sorted(fired.items())))
        out.nontrivial = sim.switches > len(sim.threads) or bool(fired)
        for k in fired.values():
            out.bump('fault ' + k)
        out.bump('steps', sim.steps)
        out.bump('preemptions', max(0, sim.switches - len(sim.threads)))
        out.bump('lock waits', sim.blocks)
        out.bump('claims', sum(1 for hs in hist.values() for x in hs if x['kind'] == 'claim'))
        out.bump('claims refused', sum(1 for hs in hist.values() for x in hs if x.get('result') == 'taken'))
        out.bump('lookups', sum(1 for hs in hist.values() for x in hs if x['kind'] == 'read'))
        out.digest = H(sim.trace, repr(dig))
        return out

    @staticmethod
    def entry(D, s, name):
        if s == 'TS':
            return D.typesets.lookup(name)
        try:
            return D.coretypes.Type.lookup_type(name)
        except KeyError:
            return None

    @staticmethod
    def made_by(D, v, hs, name):
        """Which aborted claim registered this (complete) object?"""
        for x in hs:
            if x.get('result') != 'aborted':
                continue
            u, e = x['uid'], x['expr']
            if isinstance(v, D.CType) and e.startswith('D.CType') and v.parameters == (name, u, 1):
                return x['value']
            if isinstance(v, D.TypeSet) and e.startswith('D.TypeSet') and \
                    tuple(v.types) == (D.int8, D.Decimal(u)) and v.name == name:
                return x['value']
            if isinstance(v, D.DataShape) and e.startswith('D.DataShape') and \
                    tuple(v.parameters) == (D.Fixed(u), D.int32) and v.name == name:
                return x['value']
        return None

