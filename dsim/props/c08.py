"""C08: symbol tables are isolated; a parse uses the current contents of its table."""
import itertools
from random import Random

from .. import fp as _fp
from .. import mon, oplib
from ..worker import H, Outcome
from .base import Base, Op, short
from .c03 import KINDS

# what a text cannot be parsed without
NEEDS = {'foo': 'dtype.foo', '3 * foo': 'dim_constr.fixed', '?bar': 'dtype_constr.option', '(foo, string)': 'dtype_constr.tuple',
         '(foo) -> bar': 'dtype_constr.funcproto', '... * int32': 'dim.ellipsis', 'A... * bar': 'dim_constr.ellipsis', 'T * real': 'dim_constr.typevar', 'T': 'dtype_constr.typevar',
         '{foo: int32}': 'dtype_constr.struct', 'string': 'dtype.string', 'bar': 'dtype.bar', 'var * int32': 'dim.var', 'decimal[3]': 'dtype_constr.decimal',
         'unk': 'dtype.unk', '{a: unk}': 'dtype.unk', 'int8': 'dtype.int8', 'foo[3]': 'dtype_constr.foo', 'foo * int32': 'dim.foo'}
FIELDS = ('dtype', 'dim', 'dtype_constr', 'dim_constr')
NAMES = {'dtype': ['foo', 'bar', 'int32', 'string', 'real'],
         'dim': ['mydim', 'var', 'foo', 'ellipsis'],
         'dtype_constr': ['foo', 'option', 'struct', 'tuple', 'funcproto', 'typevar', 'decimal', 'bar', 'string', 'datetime'],
         'dim_constr': ['fixed', 'typevar', 'ellipsis', 'mydim']}
VALUES = {'dtype': ['D.int8', 'D.string', "D.Record([('q', D.int8)])", 'D.float32', 'D.Decimal(3)', 'D.DataShape(D.int16)'],
          'dim': ['D.Fixed(3)', 'D.var', 'D.Fixed(7)', "D.TypeVar('Q')"],
          'dtype_constr': ["KC('a')", "KC('b')", "KC('c')", 'KBAD'],
          'dim_constr': ['KD(5)', 'KD(6)', 'KBAD']}
TEXTS = ['foo', '3 * foo', 'mydim * foo', 'var * int32', '{a: foo, b: bar}', '?bar', '(foo, string)', '(foo) -> bar', 'foo[3]', 'mydim[2] * int32',
         '... * int32', 'T * real', 'foo[bar]', 'decimal[3]', '{a: 3 * foo, b: ?string}', 'bar', 'A... * bar', '(int32, real)', '{foo: int32}',
         'var * mydim * foo', 'string', 'int8', '3 * 4 * real', "foo['x']", 'bar[3, foo]', 'T', '(var * foo) -> 3 * bar', 'foo * int32', 'unk', '{a: unk}',
         'foo[', '3 * ']


class Flip(dict):
    """A dictionary one entry of which changes after k lookups of it (a test for the
    name and the fetch that follows are one lookup)."""

    def __init__(self, d, edits):
        dict.__init__(self, d)
        self._e = {}
        for n, v, k in edits:
            self._e[n] = [v, k, False]

    def _look(self, n, test=False):
        e = self._e.get(n)
        if e is None:
            return
        if e[2] and not test:          # the fetch after a test that said yes
            e[2] = False
            return
        if e[1] == 0:
            del self._e[n]
            if e[0] is GONE:
                dict.pop(self, n, None)
            else:
                dict.__setitem__(self, n, e[0])
        else:
            e[1] -= 1
            e[2] = test and dict.__contains__(self, n)

    def __contains__(self, n):
        self._look(n, True)
        return dict.__contains__(self, n)

    def __getitem__(self, n):
        self._look(n)
        return dict.__getitem__(self, n)

    def get(self, n, d=None):
        self._look(n)
        return dict.get(self, n, d)


GONE = object()


def env_of(D, T=None):
    env = oplib.make_env(D)

    def KC(tag):
        def constr(*a, **k):
            return D.Record([(tag, D.int8), ('n', D.Decimal(1 + len(a) + len(k)))])
        constr.tag = 'KC' + tag
        return constr

    def KD(n):
        def dimc(*a, **k):
            return D.Fixed(n + len(a))
        dimc.tag = 'KD%d' % n
        return dimc

    def KBAD(*a, **k):
        raise ValueError('refused')

    def mk(bare, edits, glob=False):
        t = D.sym if glob else D.TypeSymbolTable(bare=bare)
        for f, n, v in edits:
            d = getattr(t, f)
            if v is None:
                d.pop(n, None)
            else:
                d[n] = eval(v, env)
        return t

    def flip(t, flips):
        for f in FIELDS:
            es = [(n, GONE if v is None else getattr(D.TypeSymbolTable(), f).get(n, GONE) if v == 'DEFAULT' else eval(v, env), k)
                  for g, n, v, k in flips if g == f]
            if es:
                setattr(t, f, Flip(getattr(t, f), es))
        return t

    def alone(t):
        for f in FIELDS:
            getattr(D.sym, f).clear()
        return t

    env.update(alone=alone, flip=flip, KC=KC, KD=KD, KBAD=KBAD, mk=mk, psr=lambda s, t: D.parser.parse(s, t),
               dsh=lambda s, edits, flips=(): (flip(mk(False, edits, True), flips), D.dshape(s))[1])
    return env


def stamp(sim):
    sim.note('stamp')
    return sim.notes['stamp']


class Edit(Op):
    __slots__ = ('fn', 'start', 'end')

    def __init__(self, uid, fn):
        Op.__init__(self, uid, 'None', {})
        self.fn = fn

    def run(self, sim):
        self.start = stamp(sim)
        try:
            self.fn()
        except mon.SimAbort:
            raise
        except BaseException as e:
            self.error = e
        self.end = stamp(sim)
        return self


class Parse(Op):
    __slots__ = ('start', 'end')

    def run(self, sim):
        self.start = stamp(sim)
        Op.run(self, sim)
        self.end = stamp(sim)
        return self


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        pass

    def plan(self, rs, ch, i):
        r = Random(rs)
        tables = [r.choice((False, False, False, True)) for _ in range(r.choice((1, 2, 2, 3)))]
        if r.random() < 0.2:       # made bare and filled before use
            tables = [r.choice(('late', 'late', False)) for _ in tables]
        nt = r.choices((1, 2, 3), (4, 5, 2))[0]
        texts = r.sample(TEXTS, r.choice((2, 3, 4)))
        names = [(f, n) for f in FIELDS for n in NAMES[f]]
        hot = r.sample(names, r.choice((2, 4, 8)))
        if r.random() < 0.7:
            hot += [('dtype', 'foo'), ('dtype', 'bar')]
        uid = 1
        threads = []
        pf = r.choice((0, 0, 0.3))
        for t in range(nt):
            ops = []
            for _ in range(r.choice((2, 3, 5, 8)) if nt == 1 else r.choice((1, 2, 3, 4))):
                k = r.random()
                x = r.randrange(len(tables) + 1)           # 0 is the default table
                if k < 0.45:
                    f = [r.choice(sorted(KINDS)), int(2 ** r.uniform(0, 8))] if r.random() < pf else None
                    ops.append([uid, 'parse', x, r.choice(texts), f])
                elif k < 0.85:
                    fld, n = r.choice(hot)
                    v = None if r.random() < 0.25 else r.choice(VALUES[fld])
                    ops.append([uid, 'edit', x, fld, n, v, r.choice(('item', 'item', 'update', 'replace'))])
                elif k < 0.90:
                    ops.append([uid, 'defaults', x])
                else:
                    ops.append([uid, 'fresh', r.choice(texts)])
                uid += 1
            threads.append(ops)
        return {'tables': tables, 'threads': threads, 'pseed': H(rs, 'policy'), 'sched': None}

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        ctx.reset_clock()
        node = ctx.node(instrumented=True)
        D = node.D
        env = env_of(D)
        tabs = [D.sym] + [D.TypeSymbolTable(bare=bool(b)) for b in plan['tables']]
        bare = [False] + [b is True for b in plan['tables']]
        default = [dict(getattr(tabs[0], f)) for f in FIELDS]
        for b, t in zip(plan['tables'], tabs[1:]):
            if b == 'late':
                t.add_default_types()
        start = [dict((f, dict(getattr(t, f))) for f in FIELDS) for t in tabs]
        progs = []
        written = []               # (table, field, name, value expr, object, op)
        for t in plan['threads']:
            p = []
            for o in t:
                uid, kind = o[:2]
                if kind == 'parse':
                    if o[2] == 0:
                        op = Parse(uid, 'D.dshape(%r)' % o[3], env, (KINDS[o[4][0]], o[4][1]) if o[4] else None)
                    else:
                        op = Parse(uid, 'psr(%r, T)' % o[3], dict(env, T=tabs[o[2]]), (KINDS[o[4][0]], o[4][1]) if o[4] else None)
                elif kind == 'fresh':
                    op = Parse(uid, 'psr(%r, D.TypeSymbolTable())' % o[2], env)
                elif kind == 'edit':
                    _, _, x, fld, n, v, how = o
                    obj = None if v is None else eval(v, env)

                    def fn(x=x, fld=fld, n=n, v=v, how=how, obj=obj):
                        d = getattr(tabs[x], fld)
                        if how == 'replace':
                            d = dict(d)
                        if v is None:
                            d.pop(n, None)
                        elif how == 'update':
                            d.update({n: obj})
                        else:
                            d[n] = obj
                        if how == 'replace':
                            setattr(tabs[x], fld, d)
                    op = Edit(uid, fn)
                    written.append((x, fld, n, v, obj, op))
                else:
                    x = o[2]
                    op = Edit(uid, tabs[x].add_default_types)
                    for f, d in zip(FIELDS, default):
                        for fld, n in [(f, n) for n in NAMES[f]]:
                            if n in d:
                                written.append((x, fld, n, 'DEFAULT', d[n], op))
                p.append(op)
            progs.append(p)
        replay = None if plan['sched'] is None else mon.replay_map(plan['sched'])
        sim = mon.Sim(None if replay is not None else mon.Policy(Random(plan['pseed'])), replay)
        sim.run(progs)
        for t in sim.threads:
            if t.error:
                raise RuntimeError('harness error in a simulated thread:\n' + t.error)
        out.record = sim.record if replay is None else plan['sched']
        if sim.abort_reason in ('deadlock', 'step-cap'):
            out.bad('never-finishes', note=sim.abort_reason)
            return out
        if sim.abort_reason:
            raise RuntimeError(sim.abort_reason)
        fired = dict((u, k) for u, k, n in sim.fired)
        for k in fired.values():
            out.bump('fault ' + k)
        final = [dict((f, dict(getattr(t, f))) for f in FIELDS) for t in tabs]
        dig = []
        skipped = 0
        # replays of add_default_types bring back all default names of a bare table
        glob = [(op, x) for x, op in [(o[2], op) for t, p in zip(plan['threads'], progs) for o, op in zip(t, p) if o[1] == 'defaults']]
        for t, p in zip(plan['threads'], progs):
            for o, op in zip(t, p):
                if o[1] in ('edit', 'defaults'):
                    if op.error is not None:
                        raise RuntimeError('edit failed: %r' % op.error)
                    continue
                out.bump('parses')
                if op.uid in fired:
                    if not (op.error is not None and isinstance(op.error, KINDS[fired[op.uid]])):
                        out.bad('abort-swallowed', op=op.expr, got=short(op.outcome()))
                    continue
                got = op.outcome()
                dig.append(got)
                if o[1] == 'fresh':
                    allowed = [ctx_ref(ctx, 'psr(%r, mk(False, []))' % o[2])]
                else:
                    x = o[2]
                    if bare[x] and any(gx == x and overlaps(g, op) for g, gx in glob):
                        skipped += 1
                        continue
                    full = bare[x] and any(gx == x and g.end <= op.start for g, gx in glob)
                    combos = self.contents(x, op, [w for w in written if w[0] == x])
                    if combos is None:
                        skipped += 1
                        continue
                    allowed = []
                    for c in combos:
                        if x == 0:
                            e = 'dsh(%r, %r)' % (o[3], c)
                        else:
                            e = 'psr(%r, mk(%r, %r))' % (o[3], bare[x] and not full, c)
                        a = ctx_ref(ctx, e)
                        allowed.append(a)
                        if x and o[3] and len(combos) == 1:
                            out.bump('references without the default table')
                            b = ctx_ref(ctx, e[:-1].replace(', mk(', ', alone(mk(', 1) + '))')
                            if a != b:
                                out.bad('depends-on-another-table', op=e, expected=short(b), got=short(a))
                                return out
                        need = NEEDS.get(o[3])
                        if need and self.absent(x, need.split('.'), c, bare[x] and not full, default):
                            out.bump('needed names absent')
                            if tuple(a[:2]) != ('E', 'DataShapeSyntaxError'):
                                out.bad('absent-name-resolved', op=e, needs=need, got=short(a))
                                return out
                if o[1] == 'parse' and got not in allowed and len(combos) > 1:
                    # an edit during the parse: each lookup may come before or after it
                    lead = [w for w in self.leads if w[1] != w[2]]
                    out.bump('parses that saw an entry change')
                    for ks in itertools.product(range(1, 12), repeat=len(lead)):
                        first = [(f, n, v) for (f, n), v, _w in self.leads if v not in ('UNSET', 'DEFAULT')]
                        flips = [(f, n, v, k) for ((f, n), _, v), k in zip(lead, ks)]
                        if x == 0:
                            e = 'dsh(%r, %r, %r)' % (o[3], first, flips)
                        else:
                            e = 'psr(%r, flip(mk(%r, %r), %r))' % (o[3], bare[x] and not full, first, flips)
                        allowed.append(ctx_ref(ctx, e))
                        if allowed[-1] == got:
                            break
                if got not in allowed:
                    out.bad('wrong-table-contents', op=op.expr, table=o[2] if o[1] == 'parse' else 'fresh',
                            edits=[[w[0], w[1], w[2], w[3], w[5].start, w[5].end] for w in written if w[3] != 'DEFAULT'],
                            at=[op.start, op.end], expected=short(allowed[0]), alternatives=len(allowed), got=short(got))
        # nothing but the edits changed the tables
        for x in range(len(tabs)):
            if bare[x] and any(gx == x for g, gx in glob):
                continue
            for f in FIELDS:
                names = set(w[2] for w in written if w[0] == x and w[1] == f)
                for n in set(final[x][f]) | set(start[x][f]):
                    if n not in names and final[x][f].get(n) is not start[x][f].get(n):
                        out.bad('table-changed-by-parsing', table=x, field=f, name=n,
                                was=short(repr(start[x][f].get(n))), now=short(repr(final[x][f].get(n))))
                        return out
                for n in names:
                    objs = [w[4] for w in written if w[0] == x and w[1] == f and w[2] == n] + [start[x][f].get(n)]
                    if not any(final[x][f].get(n) is v for v in objs) and n in final[x][f]:
                        out.bad('table-changed-by-parsing', table=x, field=f, name=n, now=short(repr(final[x][f].get(n))))
                        return out
        out.key = H(sim.trace, repr(plan['threads']))
        out.nontrivial = bool(written)
        out.bump('edits', len(written))
        out.bump('steps', sim.steps)
        out.bump('preemptions', max(0, sim.switches - len(sim.threads)))
        out.bump('parses not judged (ambiguous)', skipped)
        out.digest = H(sim.trace, repr(dig))
        return out

    @staticmethod
    def absent(x, need, edits, empty, default):
        there = not empty and need[1] in default[FIELDS.index(need[0])]
        for f, n, v in edits:
            if [f, n] == need:
                there = v is not None
        return not there

    def contents(self, x, op, written):
        """The possible net contents of the table during the parse."""
        per = {}
        for w in written:
            key = (w[1], w[2])
            e = w[5]
            if e.start >= op.end and e is not op:
                continue
            per.setdefault(key, []).append(w)
        choices = []
        for key, ws in sorted(per.items()):
            before = [w for w in ws if w[5].end <= op.start]
            during = [w for w in ws if w[5].end > op.start]
            # of the finished edits the last to start; concurrent finished edits are ambiguous
            vals = []
            if before:
                last = max(before, key=lambda w: w[5].end)
                if any(w is not last and w[5].end > last[5].start for w in before):
                    return None
                vals.append(last[3])
            else:
                vals.append('UNSET')
            vals += [w[3] for w in during]
            if len(during) > 1 or (during and before and any(overlaps(d[5], b[5]) for d in during for b in before)):
                return None
            choices.append([(key, v) for v in dict.fromkeys(vals)])
        out = []
        self.leads = [(c[0][0], c[0][1], c[-1][1]) for c in choices]
        n = 1
        for c in choices:
            n *= len(c)
        if n > 4:
            return None
        for combo in itertools.product(*choices):
            c = []
            for (f, name), v in combo:
                if v not in ('UNSET', 'DEFAULT'):
                    c.append((f, name, v))
            if c not in out:
                out.append(c)
        return out

    def shrink(self, plan):
        for p in Base.shrink(self, plan):
            yield p


def overlaps(a, b):
    return a.start < b.end and b.start < a.end


def ctx_ref(ctx, expr):
    r = ctx.refs.get(expr)
    if r is None:
        from . import base  # noqa
        from ..worker import _current
        cur = _current()
        n = ctx.node()
        r = ctx.refs[expr] = oplib.evaluate(expr, env_of(n.D))[0]
        if cur is not None:
            cur.install()
    return r
