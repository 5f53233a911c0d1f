"""C17: the library does not keep alive the data it is given."""
import datetime as dt
import decimal
import gc
import sys
import weakref
from random import Random

from .. import gen, mon, oplib
from ..worker import H, Outcome
from .base import Base, short
from .c03 import KINDS
from .c17x import GROW, held


class TL(list):
    pass


class TT(tuple):
    pass


class TStr(str):
    pass


class TInt(int):
    pass


class TFloat(float):
    pass


class TBytes(bytes):
    pass


class TDate(dt.date):
    pass


class TDec(decimal.Decimal):
    pass


class Tag(object):
    """Lives as long as the value whose attribute it is."""


class TD(dict):
    pass


class TS(set):
    pass


class TF(frozenset):
    pass


class Boom(Exception):
    pass


class FL(list):
    """A list that fails while being read."""

    def __iter__(self):
        yield from list.__iter__(self)
        raise Boom('source')


class Thing(object):
    """Something nobody has a rule for."""


class Ruled(object):
    def __init__(self, v):
        self.v = v


def make_env(D, born):
    env = oplib.make_env(D)

    def t(x, label=''):
        y = x
        if isinstance(x, (tuple, int, bytes)):
            y = x.tag = Tag()
        born.append((weakref.ref(y), type(x).__name__ + label))
        return x

    def arr(expr):
        return t(env['np'].array(expr), ' array')

    def oarr(items):
        a = env['np'].empty(len(items), dtype='O')
        for i, x in enumerate(items):
            a[i] = x
        return t(a, ' of objects')

    def it(*items):
        return t((x for x in items), ' of items')

    class ArrL(object):
        def __init__(self, shape, dtype):
            self.shape, self.dtype = shape, env['np'].dtype(dtype)

    @D.discover.register(Ruled)
    def _ruled(x):
        return D.discover(x.v)

    @D.validate.register(D.Record, Ruled)
    def _vruled(schema, x):
        return D.validate(schema, x.v)

    env.update(t=t, arr=arr, oarr=oarr, it=it, TL=TL, TT=TT, TD=TD, TS=TS, TF=TF, TStr=TStr, TInt=TInt, TFloat=TFloat, TBytes=TBytes, TDate=TDate, TDec=TDec, FL=FL, Thing=Thing, Ruled=Ruled, ArrL=ArrL)
    return env


def leaf(r):
    return r.choice(('t(TStr(%r))' % r.choice(('2000-01-01', 'a', '', '5', '1.5', 'None', '10:20', '2000-01-01T10:20:30', '3 days', 'True')), 't(TInt(%d))' % r.choice((0, 1, 2 ** 31, -2 ** 40, 2 ** 70)),
                     't(TFloat(%r))' % r.choice((0.0, 1.5)), 't(TBytes(b"ab"))', 't(TDate(2000, 1, 1))', 't(TDec("1.50"))'))


def value(r, d=2):
    k = r.random()
    if d <= 0 or k < 0.2:
        return leaf(r) if r.random() < 0.3 else gen.sval(r)
    sub = lambda: value(r, d - 1)
    n = r.choice((0, 1, 2, 3, 12))
    items = lambda: ', '.join(sub() for _ in range(n))
    hs = lambda: ', '.join(gen.sval(r, r.choice(('int', 'str', 'float', 'date', 'none'))) for _ in range(n))
    if k < 0.40:
        return 't(TL([%s]))' % items()
    if k < 0.48:
        return 't(TT([%s]))' % items()
    if k < 0.62:
        return 't(TD({%s}))' % ', '.join('%r: %s' % (x, sub()) for x in r.sample(['a', 'b', 'c', 'x y'], r.choice((1, 2, 3))))
    if k < 0.68:
        return 't(%s([%s]))' % (r.choice(('TS', 'TF')), hs())
    if k < 0.78:
        return r.choice(("arr([1, 2, 3])", "arr([[1.5]])", "arr(['a', 'b'])", "oarr(['a', 'b'])", "oarr(['a', None])", "oarr([t(TL([1]))])",
                         "t(np.array([(1, 'a')], dtype=[('x', 'i4'), ('y', 'O')]))", "t(np.zeros((2, 3), 'M8[D]'))", "arr([True])"))
    if k < 0.83:
        return 't(ArrL((3,), %r))' % r.choice(('i4', 'f8', 'S3'))
    if k < 0.88:
        return 't(Ruled(%s))' % sub()
    if k < 0.91:
        return 't(Thing())'
    if k < 0.94:
        return 't(FL([%s]))' % items()
    if k < 0.955:
        # wide things
        m = r.choice((25, 60, 120))
        x = r.choice((leaf(r), leaf(r), gen.sval(r), 't(TL([1]))', 't(TD(a=1))', 'None'))
        return r.choice(('oarr([%s for i in range(%d)])' % (x, m), 'oarr([%s for i in range(%d)])' % (x, m), 't(TL([%s for i in range(%d)]))' % (x, m), 't(TT([%s for i in range(%d)]))' % (x, m),
                         't(TD(("k%%d" %% i, %s) for i in range(%d)))' % (x, m), 't(TD((t(TStr("k%%02d" %% i)), %s) for i in range(%d)))' % (x, m), 'oarr([t(TStr(i)) for i in range(%d)])' % m,
                         't(TStr("a" * %d))' % (m * 30), 't(TStr("2000-01-01" + " " * %d))' % m, 't(TS(t(TStr(i)) for i in range(%d)))' % m, 't(TL([t(TL([%s, i])) for i in range(%d)]))' % (x, m),
                         't(TL(range(%d)))' % (m * 30)))
    # several of the same
    one = r.choice(('t(TD({"a": %s}))' % gen.sval(r), 't(TT([%s, 1]))' % gen.sval(r), 't(TL([%s]))' % gen.sval(r), 't(Ruled(%s))' % gen.sval(r)))
    return 't(TL([%s]))' % ', '.join([one] * r.choice((2, 3, 20)))


TYPES = ['D.int32', 'D.string', "D.dshape('3 * int8')", 'D.Option(D.date_)', "D.dshape('{a: int32}')", 'D.null', 'D.float64']


def call(r):
    k = r.random()
    if k < 0.06:
        s = 't(TStr(%r))' % r.choice(('3 * int32', '{a: int32}', 'foo', '3 * {', 'int32', '3 * ?string[5]', 'a', 'var * T'))
        return r.choice(('D.dshape(%s)', 'lexall(%s)', 'parse(%s)', 'parse(%s, table())', 'D.Record([(%s, D.int8)])', 'repr(D.Record([(%s, "3 * int8")]))', 'D.TypeVar(%s)', 'D.isrecord(%s)',
                         'D.dshape("5 * {a: int8}").subshape[%s]', 'D.dshape("{a: int8}").subshape[%s]', 'D.coretypes.Type.lookup_type(%s)', 'D.Record([("a", %s)])', 'D.DateTime(%s)', 'D.String(%s)',
                         'D.validate(%s, t(TL([1])))', 'D.DataShape(%s)', 'D.Units(%s)', 'D.Option(%s)', 'D.internal_utils.isidentifier(%s)', 'hash(D.Record([(%s, D.int8)]))',
                         'D.Record([("a", D.int8)])[%s]', 'D.Record([(%s, D.int8)]).to_numpy_dtype()', 'D.DataShape(t(TInt(5)), D.int8)', 'D.dshape("5 * int8").subshape[t(TInt(2))]',
                         'D.Fixed(t(TInt(7)))', 'D.Decimal(t(TInt(7)))', 'D.String(t(TInt(7)))')).replace('%s', s)
    ts = lambda n=None: 't(TL([%s]))' % ', '.join(r.choice(TYPES) for _ in range(n or r.choice((1, 2, 3))))
    if k < 0.5:
        return 'D.discover(%s)' % value(r, 3)
    if k < 0.7:
        return 'D.validate(%r, %s)' % (r.choice(('var * int32', '{a: int32}', '{a: string, b: var * int64}', 'string', '3 * float64', '?int32', 'var * {a: int64}',
                                                   '(int32, string)')), value(r, 2))
    if k < 0.74:
        return 'D.validate(%s, %s)' % (r.choice(('int', 't(TT([int, str]))', 'np.dtype("i4")', '(int, str)')), value(r, 1))
    f = [('a', 'D.int32'), ('b', "'3 * string'"), ('c', 'D.Option(D.int8)')]
    fl = ', '.join('(%r, %s)' % x for x in r.sample(f, r.choice((1, 2, 3))))
    return r.choice((
        'D.Record(t(TL([%s])))' % fl, 'D.Record(it(%s))' % fl, 'D.Record(t(OD([%s])))' % fl, 'repr(D.Record(t(TL([%s]))))' % fl, 'D.Record([(t(Thing()), D.int8)])',
        'D.Record([("a", t(Thing()))])', 'D.Tuple(%s)' % ts(), 'D.Tuple(it(D.int32, D.string))', 'D.TypeSet(*%s)' % ts(), 'D.Function(*%s)' % ts(),
        'D.Categorical(t(TL(["a", "b"])))', 'D.Categorical(it(1, 2))', 'hash(D.Categorical(t(TT([1, 2]))))', 'D.Categorical([t(TT([1]))])', 'D.Categorical([t(TT([1]))]) == D.Categorical([t(TT([1]))])',
        'str(D.Categorical([t(TL([1]))]))', 'hash(D.Categorical([t(TT([1])), t(TT([2]))]))', 'rt(D.Categorical([1, 2]))',
        'D.cat_dshapes(t(TL([D.dshape("3 * int8"), D.dshape("4 * int8")])))', 'D.cat_dshapes(t(TL([])))', 'D.dshape("5 * {a: int8, b: string}").subshape[t(TL([0, 2]))]',
        "D.dshape('{a: int8, b: string}').subshape[t(TL(['a', 'zz']))]", "D.dshape('{a: int8, b: string}').subshape[t(TL(['b', 'a']))]", 'D.discovery.unite_base(%s)' % ts(),
        'D.discovery.unite_identical(%s)' % ts(), 'D.discovery.lowest_common_dshape(%s)' % ts(2), 'D.discovery.unite_merge_dimensions(%s)' % ts(),
        'D.from_numpy(t(TL([2, 3])), "i4")', 'D.coretypes.from_numpy(t(TT([2])), [("a", "i4")])', 'list(D.util.collect(isunit, %s))' % ts(), 'D.util.has(D.Var, %s)' % ts(),
        'D.matches_typeset(%s, t(TT([D.numeric])))' % ts(), 'D.dshapes(%s, "int32")' % r.choice(TYPES), 'D.dshape(t(Thing()))', 'D.dshape(%s)' % ts(), 'D.DataShape(t(Thing()))',
        'D.Option(t(Thing()))', 'D.int32 == t(Thing())', 'D.dshape("3 * int32") == t(Thing())', 't(Thing()) in D.numeric', 'D.promote(D.int32, t(Thing()))', 'D.isscalar(t(Thing()))',
        'D.isnumeric(t(Thing()))', 'D.issubschema(t(Thing()), "int32")', 'D.internal_utils.groupby(len, t(TL(["a", "bb", "c"])))',
        'ae(t(Thing()), D.int32)', 'ae(D.Categorical([t(TT([1]))]), D.Categorical([t(TT([2]))]))', 'D.validate(t(Thing()), t(TL([1])))', 'D.Fixed(t(Thing()))', 'D.String(t(Thing()))',
        'D.TypeVar(t(TL(["A"])))', 'D.util.cat_dshapes(it())', 'table(dtype=t(TL([("foo", D.int8)])))', 'parse("3 * foo", table(dtype=t(TD({"foo": D.int8}))))',
        'parse("3 * foo", table(dtype=t(TD({"foo": t(Thing())}))))'))


# calls of the warm-up, calls of each of two counted phases, references per call that count as growth
COUNTS = {False: (1500, 600, 0.5), True: (350, 150, 0.3)}
LONG = 40000               # a bounded cache is full by then


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        pass

    def plan(self, rs, ch, i):
        r = Random(rs)
        if r.random() < 0.15:
            k = r.choice((1, 1, 2, 3))
            return {'ops': [], 'grow': r.sample(GROW, k), 'kind': r.choice(sorted(KINDS)) if r.random() < 0.3 else None, 'span': r.choice((4, 30, 150)),
                    'from': r.choice((0, 1, 10 ** 6))}
        pool = [call(r) for _ in range(r.choice((2, 5, 12)))]
        pf = r.choice((0, 0.2, 0.6))
        ops = []
        for u in range(r.choice((1, 3, 8, 20))):
            f = [r.choice(sorted(KINDS)), int(2 ** r.uniform(0, 8))] if r.random() < pf else None
            ops.append([u + 1, r.choice(pool), f])
        return {'ops': ops}

    def grow(self, plan):
        """The same call with ever other arguments, aborted or not."""
        out = Outcome()
        ctx = self.ctx
        ctx.reset_clock()
        kind = plan['kind']
        node = ctx.node(instrumented=kind is not None)
        node.builtins['id'] = id
        env = dict(oplib.make_env(node.D), ae=node.D.util.testing.assert_dshape_equal if hasattr(node.D.util, 'testing') else None)
        codes = [oplib.compiled(e) for e in plan['grow']]
        mods = [m for n, m in sorted(sys.modules.items()) if n == 'datashape' or n.startswith('datashape.')]
        pos = [plan['from']]

        def calls(n):
            for i in range(pos[0], pos[0] + n):
                env['i'] = i
                for c in codes:
                    try:
                        if kind:
                            mon.Sim().solo(lambda: eval(c, env), i, (KINDS[kind], 1 + i * 7919 % plan['span']))
                        else:
                            eval(c, env)
                    except (Exception, KeyboardInterrupt):
                        pass
            pos[0] += n
            env.pop('i', None)
            out.bump('calls', n * len(codes))

        def measure():
            gc.collect()
            return held(mods, skip=[node.builtins]) + (len(gc.get_objects()),)

        def growth(n):
            a = measure()
            calls(n)
            b = measure()
            calls(n)
            c = measure()
            return [min(y - x, z - y) / float(n) for x, y, z in zip(a, b, c)]

        warm, n, least = COUNTS[kind is not None]
        calls(warm)
        g = growth(n)
        out.bump('floods')
        if kind:
            out.bump('aborted floods')
        if max(g) >= least:
            # a cache that is still filling?
            calls(LONG if not kind else LONG // 4)
            g = growth(n * 2)
            if max(g) >= least:
                out.bad('piles-up', calls=plan['grow'], aborted=kind, what='%s per call' % ', '.join(
                    '%s %s' % ('%.1f' % x, w) for x, w in zip(g, ('references', 'characters of text', 'objects in the process')) if x >= least))
        out.key = H(repr(plan))
        out.nontrivial = True
        out.digest = H(repr(plan), len(out.found))
        return out

    def execute(self, plan):
        if plan.get('grow'):
            return self.grow(plan)
        out = Outcome()
        ctx = self.ctx
        ctx.reset_clock()
        node = ctx.node(instrumented=any(f for _, _, f in plan['ops']))
        node.builtins['id'] = id          # the simulated one holds on to its arguments for a while
        born = []
        env = make_env(node.D, born)
        key = []
        owner = []
        for uid, e, f in plan['ops']:
            sim = mon.Sim()
            n0 = len(born)
            code = oplib.compiled(e)
            fault = (KINDS[f[0]], f[1]) if f else None
            try:
                sim.solo(lambda: eval(code, env), uid, fault)
            except Exception as x:
                key.append(type(x).__name__)
            except KeyboardInterrupt:
                key.append('KI')
            if sim.fired:
                out.bump('fault ' + f[0])
            owner += [e] * (len(born) - n0)
            out.bump('calls')
        out.bump('values watched', len(born))
        left = [k for k, (w, _) in enumerate(born) if w() is not None]
        if left:
            gc.collect()
            left = [k for k, (w, _) in enumerate(born) if w() is not None]
            out.bump('collections')
        if left:
            k = left[0]
            out.bad('kept-alive', call=owner[k], value=born[k][1], number=len(left), of=len(born))
        out.key = H(repr(plan['ops']))
        out.nontrivial = bool(born)
        out.digest = H(repr(key), len(born))
        return out

    def shrink(self, plan):
        if plan.get('grow'):
            for e in plan['grow']:
                if len(plan['grow']) > 1:
                    yield dict(plan, grow=[e])
            if plan['kind']:
                yield dict(plan, kind=None)
            return
        for p in Base.shrink(self, plan):
            yield p
        for i, (uid, e, f) in enumerate(plan['ops']):
            if f:
                yield {'ops': plan['ops'][:i] + [[uid, e, None]] + plan['ops'][i + 1:]}
