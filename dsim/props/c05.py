"""C05: datashapes, type sets and syntax errors survive transport between processes.

A network of nodes, each a process image of its own (own import, own hash salt).
Objects travel as pickles that are relayed, duplicated, torn and interrupted; nodes
crash and restore what they held from the bytes they had received."""
import copy
import pickle
from random import Random

from .. import fp as _fp
from .. import gen, mon, oplib
from ..worker import H, Outcome
from .base import Base, Op, short
from .c03 import KINDS

SIMPLE = ['D.null', 'D.int32', 'D.string', 'D.var', 'D.date_', 'D.datetime_', 'D.json', 'D.bytes_', 'D.void', 'D.Date()', 'D.Null()', 'D.Var()',
          'D.JSON()', 'D.Bytes()', 'D.Ellipsis()', "D.TypeVar('Foo')", 'D.Fixed(3)', 'D.String(5)', "D.String('A')", "D.Time('UTC')", 'D.char',
          'D.integral', 'D.numeric', 'D.typesets.scalar', 'D.TypeSet(D.int8, D.string)', 'D.TypeSet(D.int32)', 'D.object_', 'D.bool_',
          "D.Categorical(['a', 'b'], ordered=True)", 'D.Decimal(7, 2)', "D.Units('m', D.dshape('int64'))", 'D.Map(D.string, D.int8)',
          'D.Function(D.int8, D.string)', 'D.Option(D.Option(D.int8))', 'D.Tuple([])', 'D.Record([])', "D.Record([('a', D.null)])",
          "D.dshape('var * {a: ?string, b: (int8, {c: date})}')", "D.DataShape(D.null)", "3 * D.null", "D.Option(D.null)", "D.typesets.signed | D.typesets.boolean",
          'D.TypeSet()', 'D.complex64', "D.TypeSet(D.TypeSet(D.int8), D.string)", "D.Ellipsis(D.TypeVar('A'))", "D.Tuple([D.null, D.typesets.integral])"]
ERRS = ["D.dshape(%r)" % s for s in ('int33', '{a: int32', '3 *', '\n\n  $', '{a: int32,\n b: foo}', '(int32')] + \
    ["parse('3 * * int32')", "parse('')", "D.dshape('3 *\\r\\n int33\\r\\n')", "D.dshape('{a: int32,\\r\\n\\r\\n b: foo}')", "D.dshape('\\r\\r$')", "D.dshape('3 *\\x0b\\u2028 $')",
     "D.dshape('a\\rb\\nc')", "D.dshape('\\t$\\t')", "D.dshape(MyStr('int33'))", "D.dshape('{\\'x\\\\n\\': int33}')", "D.dshape('\u4e2d * int8')", "D.dshape('int32' + ' ' * 300 + '$')",
     "D.dshape('\\n' * 70 + 'int33')", "D.dshape('x' * 70000)"]
# types of the user's own, each of which a process can build once
NAMED = ["D.CType('point', 24, 8)", "D.DataShape(3, D.CType('point_b', 24, 8))", "D.Record([('p', D.CType('point_c', 16, 4))])",
         "D.TypeSet(D.int8, D.string, name='mine')", "D.Option(D.CType('point_d', 2, 2))", "D.TypeSet(D.int64, name='mine_b') | D.typesets.floating",
         "D.Tuple([D.int8, D.CType('point_e', 4, 4)])", "D.Function(D.CType('point_f', 8, 8), D.string)", "D.Map(D.CType('point_g', 8, 4), D.int8)",
         "3 * D.Record([('t', D.TypeSet(D.string, D.bool_, name='mine_c'))])", "D.Categorical(['a', 'b'], D.CType('point_h', 8, 1))"]
# texts that any encoding of its own would trip over
ODD = ['', ' ', ';', ',', '|', ':', '\n', '\0', '\t', "'", '"', '\\', 'a;b', 'a,b', ',a', 'a|b:c', 'a\nb', 'a\0b', '\u00e9', '\u4e2d\u6587', '{', '}', '(a', 'a: int32, b', 'a\x1fb', '%s', '__class__', 'None', '1', '0x1',
       '\ud800', 'a' * 300, '\r\n', '\x1e', '/', '=', 'a=b', '&', '\u2028', '#', '*', ' a', 'a ', 'A', 'name', '_parameters', '_hash', '$', '\x7f', '\xff']


def odd(r):
    a, b, c = r.sample(ODD, 3)
    if r.random() < 0.3:
        c = a + r.choice(ODD) + b
    return r.choice(["D.Record([(%r, 'int32'), (%r, D.string)])" % (a, b), "D.Record([(%r, D.int8), (%r, D.int8), (%r, D.int8)])" % (a, b, c), "D.Record([(%r, 'int32')])" % c,
                     "D.Categorical([%r, %r])" % (a, b), "D.Categorical([%r, %r, %r], ordered=True)" % (a, b, c), "D.Units(%r)" % c, "D.DateTime(%r)" % c, "D.Time(%r)" % a,
                     "D.DataShape(3, D.Record([(%r, D.Option(D.Record([(%r, 'int8')])))]))" % (a, c), "D.Tuple([D.Record([(%r, 'int8')]), D.Units(%r)])" % (a, b),
                     "D.Map(D.Record([(%r, 'int8')]), D.Units(%r, D.dshape('int64')))" % (c, a), "D.Categorical([1, 'x', None, 2.5, (1, %r)])" % a, "D.Categorical([b'\x00', b'a'])",
                     "D.Categorical([dt.date(2014, 1, 1), dt.date(2015, 1, 1)], D.date_)", "D.Categorical([np.int8(1), np.int64(2)])", "D.Categorical([1.0, float('inf'), 1e300])",
                     "D.Categorical([True, 1.5, 2 ** 70, -1])", "D.Fixed(%d)" % r.choice((0, 1, 255, 256, 65535, 65536, 2 ** 31, 2 ** 40, 2 ** 63, 2 ** 70)),
                     "D.Decimal(%d, %d)" % (r.choice((1, 255, 300)), r.choice((0, 1, -1, 2 ** 40))), "D.String(%d, 'U32')" % r.choice((1, 255, 256, 2 ** 33)),
                     "D.Record([('f%%d' %% i, 'int8') for i in range(%d)])" % r.choice((0, 1, 3, 255, 256, 300)), "D.Tuple([D.int8] * %d)" % r.choice((0, 1, 2, 3, 4, 256)),
                     "D.DataShape(*[D.Fixed(i) for i in range(%d)] + [D.int8])" % r.choice((0, 1, 2, 3, 20)), "D.Categorical(list(range(%d)))" % r.choice((0, 1, 3, 11, 300)),
                     "D.TypeSet(*[D.Decimal(i + 1) for i in range(%d)])" % r.choice((0, 1, 3, 40)), "D.TypeVar('A%s')" % ('b' * r.choice((0, 1, 300))), "D.CType.from_numpy_dtype(np.dtype('i4'))",
                     "D.Option(D.Option(D.Option(D.int8)))", "D.Function(*[D.int8] * %d)" % r.choice((1, 2, 5)), "D.TimeDelta(%r)" % r.choice(('us', 'M', 'Y', 'as', 'W', 'ms'))])


USES = ('print', 'eq', 'index', 'build', 'numpy', 'pred', 'util', 'pickle', 'assert')
WRAPS = ('%s', '%s', '%s', '[%s, %s]', '{%s: 1}', '({%s: %s},)', 'frozenset([%s])')


def wrap(w, v):
    if w == '[%s, %s]':
        return [v, v]
    if w == '{%s: 1}':
        return {v: 1}
    if w == '({%s: %s},)':
        return ({v: v},)
    if w == 'frozenset([%s])':
        return frozenset([v])
    return v


def unwrap(w, x):
    if w == '[%s, %s]':
        return x[0]
    if w == '({%s: %s},)':
        return list(x[0])[0]
    if w in ('{%s: 1}', 'frozenset([%s])'):
        return list(x)[0]
    return x


class Fn(Op):
    __slots__ = ('fn',)

    def __init__(self, fn, fault):
        Op.__init__(self, 0, 'None', {}, fault)
        self.fn = fn


def guarded(fn, fault, out):
    """Run fn with an abort armed at its n-th fault point; (value, error)."""
    if fault is None:
        try:
            return fn(), None
        except Exception as e:
            return None, e
    sim = mon.Sim()
    try:
        v = sim.solo(fn, 0, fault)
        if sim.fired:
            return None, AssertionError('an injected %s was swallowed' % fault[0].__name__)
        return v, None
    except BaseException as e:
        if sim.fired:
            out.bump('fault %s in transfer' % fault[0].__name__)
            if isinstance(e, fault[0]):
                return None, 'aborted'
        return None, e


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        r = Random(H(self.ctx.seed, 'c05', ch))
        self.objs = [o[0] for o in self.good_objects(r, 30)] + [e for e in SIMPLE if self.ctx.ref(e)[0] == 'R']
        while len(self.objs) < 95:
            e = odd(r)
            if self.ctx.ref(e)[0] == 'R':
                self.objs.append(e)
        self.objs = [e for e in self.objs if 'name=' not in e] + [e for e in NAMED if self.ctx.ref(e)[0] == 'R']
        self.uses = [gen.op(r, r.choice(USES), 1) for _ in range(14)]

    def plan(self, rs, ch, i):
        r = Random(rs)
        n = r.choice((2, 2, 3))
        objs = [r.choice(self.objs) if r.random() < 0.9 else r.choice(ERRS) for _ in range(r.choice((1, 2, 3)))]
        ops = []
        pf = r.choice((0, 0, 0.2))
        for k in range(len(objs)):
            ops.append(['mk', k, r.randrange(n)])
        for _ in range(r.choice((4, 8, 16))):
            k = r.random()
            o = r.randrange(64)          # picks one of the copies in existence
            f = [r.choice(sorted(KINDS)), r.choice((1, 1, 2, 3, 4, 6))] if r.random() < pf else None
            if k < 0.50:
                ops.append(['send', o, r.randrange(6), r.randrange(n), r.choice(WRAPS), f])
            elif k < 0.60:
                ops.append(['copy', o, r.choice(('copy', 'deepcopy')), f])
            elif k < 0.72:
                ops.append(['touch', o])
            elif k < 0.82:
                ops.append(['torn', o, r.randrange(6), round(r.random(), 4)])
            elif k < 0.90:
                ops.append(['crash', r.randrange(n)])
            else:
                ops.append(['use', o, r.choice(self.uses)])
        return {'n': n, 'objs': objs, 'salts': [r.randrange(10 ** 6) for _ in range(n)], 'ops': ops,
                'uses': r.sample(self.uses, 3)}

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        ctx.reset_clock()
        n = plan['n']
        nodes = [ctx.node(instrumented=True, salt=s) for s in plan['salts']]
        for nd in nodes:
            nd.natives = {}
        heap = []                # [node, value, expr, payload or None, iserr]
        dig = []
        verified = 0

        def make(node, expr):
            node.install()
            env = oplib.make_env(node.D)
            try:
                v = eval(oplib.compiled(expr), env)
                if expr in NAMED:
                    node.natives[expr] = v
                return v, False
            except node.D.DataShapeSyntaxError as e:
                return e, True
            except Exception:
                return None, None

        for it in plan['ops']:
            kind = it[0]
            if kind == 'crash':
                j = it[1]
                nodes[j] = ctx.node(instrumented=True, salt=plan['salts'][j] + 1 + len(dig))
                nodes[j].natives = {}
                out.bump('node crashes')
                for h in [h for h in heap if h[0] == j]:
                    if h[3] is None:
                        heap.remove(h)
                        continue
                    w, b = h[3]
                    v, err = guarded(lambda: unwrap(w, pickle.loads(b)), None, out)
                    if err is not None:
                        out.bad('not-restored', object=h[2], after='crash', error=repr(err))
                        return out
                    h[1] = v
                    self.verify(out, nodes[j], h, plan, 'crash recovery')
                    out.bump('restored after a crash')
            elif kind == 'mk':
                v, iserr = make(nodes[it[2]], plan['objs'][it[1]])
                if iserr is not None:
                    heap.append([it[2], v, plan['objs'][it[1]], None, iserr])
            elif not heap:
                continue
            else:
                h = heap[it[1] % len(heap)]
                nodes[h[0]].install()
                if kind == 'touch':
                    guarded(lambda: (hash(h[1]), str(h[1]), repr(h[1]), h[1] == h[1]), None, out)
                elif kind == 'send':
                    w = it[4] if not h[4] else '%s'
                    f = (KINDS[it[5][0]], it[5][1]) if it[5] else None
                    b, err = guarded(lambda: pickle.dumps(wrap(w, h[1]), it[2]), f if it[2] % 2 else None, out)
                    if err == 'aborted':
                        b, err = guarded(lambda: pickle.dumps(wrap(w, h[1]), it[2]), None, out)
                    if err is not None:
                        out.bad('not-sendable', object=h[2], protocol=it[2], error=repr(err))
                        return out
                    nodes[it[3]].install()
                    v, err = guarded(lambda: unwrap(w, pickle.loads(b)), f if not it[2] % 2 else None, out)
                    if err == 'aborted':
                        v, err = guarded(lambda: unwrap(w, pickle.loads(b)), None, out)
                    if err is not None:
                        out.bad('not-restored', object=h[2], protocol=it[2], wrapped=w, error=repr(err))
                        return out
                    nh = [it[3], v, h[2], (w, b), h[4]]
                    heap.append(nh)
                    out.bump('messages')
                    if h[3] is not None:
                        out.bump('relayed')
                    self.verify(out, nodes[it[3]], nh, plan, 'protocol %d, %s' % (it[2], w))
                    dig.append(_fp.fp(str(v)))
                elif kind == 'copy':
                    f = (KINDS[it[3][0]], it[3][1]) if it[3] else None
                    if h[4]:
                        continue
                    fn = (lambda: copy.copy(h[1])) if it[2] == 'copy' else (lambda: copy.deepcopy(h[1]))
                    v, err = guarded(fn, f, out)
                    if err == 'aborted':
                        v, err = guarded(fn, None, out)
                    if err is not None:
                        out.bad('not-copied', object=h[2], how=it[2], error=repr(err))
                        return out
                    nh = [h[0], v, h[2], None, h[4]]
                    heap.append(nh)
                    out.bump('copies')
                    self.verify(out, nodes[h[0]], nh, plan, it[2])
                elif kind == 'torn':
                    b, err = guarded(lambda: pickle.dumps(h[1], it[2]), None, out)
                    if err is None:
                        cut = b[:min(int(len(b) * it[3]), len(b) - 1)]
                        out.bump('torn messages')
                        v, err = guarded(lambda: pickle.loads(cut), None, out)
                        if err is None:
                            out.bad('torn-pickle-accepted', object=h[2], protocol=it[2], bytes=len(cut), of=len(b), got=short(_fp.fp(v)))
                elif kind == 'use':
                    self.use(out, nodes[h[0]], h, it[2])
            if out.found:
                break
        if not out.found:
            for h in heap:
                nodes[h[0]].install()
                self.verify(out, nodes[h[0]], h, plan, 'at the end')
                if out.found:
                    break
        out.key = H(repr(plan))
        out.nontrivial = bool(out.count.get('messages') or out.count.get('copies'))
        out.digest = H(repr(dig))
        return out

    def verify(self, out, node, h, plan, how):
        node.install()
        env = oplib.make_env(node.D)
        v = h[1]
        ref = self.ctx.ref(h[2])
        node.install()
        if h[4]:
            got = _fp.exc(v)
            if got != ref:
                out.bad('restored-error-differs', object=h[2], how=how, expected=short(ref), got=short(got))
            return
        got = ('R', _fp.fp(v))
        if got != ref:
            out.bad('restored-differently', object=h[2], how=how, expected=short(ref), got=short(got))
            return
        try:
            native = self.native(node, h[2], env)
        except Exception as e:
            out.bad('native-refused', object=h[2], how=how, error=repr(e))
            return
        try:
            ok = (v == native, native == v, not (v != native), hash(v) == hash(native), v in {native: 1}, native in set([v]))
        except Exception as e:
            ok = repr(e)
        if ok != (True,) * 6:
            out.bad('restored-not-equal', object=h[2], how=how, equal_ne_hash_membership=str(ok))
            return
        for e in plan['uses']:
            self.use(out, node, h, e)
            if out.found:
                return

    def native(self, node, expr, env):
        if expr not in NAMED:
            return eval(oplib.compiled(expr), env)
        if not hasattr(node, 'natives'):
            node.natives = {}
        if expr not in node.natives:
            node.natives[expr] = eval(oplib.compiled(expr), env)
        return node.natives[expr]

    def use(self, out, node, h, e):
        if h[4]:
            return
        ref = self.ctx.ref(e, [h[2]])
        node.install()
        got = oplib.evaluate(e, oplib.make_env(node.D, [h[1]]))[0]
        out.bump('uses of restored objects')
        if got != ref:
            out.bad('restored-behaves-differently', object=h[2], op=e, expected=short(ref), got=short(got))

    def shrink(self, plan):
        from .base import shrink_lists
        return shrink_lists(plan, ('ops', 'uses'))

    # ---- between real processes with different hash seeds
    def special(self, job):
        exprs = job['exprs']
        node = self.ctx.node()
        env = oplib.make_env(node.D)
        out = Outcome()
        if job['phase'] == 'dump':
            res = []
            for k, e in enumerate(exprs):
                try:
                    v = eval(oplib.compiled(e), env)
                except node.D.DataShapeSyntaxError as x:
                    v = x
                else:
                    if k % 2:
                        hash(v)
                        str(v)
                    if k % 3 == 0:
                        v = {v: [v]}
                res.append([p for p in (pickle.dumps(v, proto).hex() for proto in range(6))])
            return {'dumps': res}
        found = []
        done = 0
        for k, (e, ds) in enumerate(zip(exprs, job['dumps'])):
            for proto, d in enumerate(ds):
                done += 1
                w = '%s'
                try:
                    v = pickle.loads(bytes.fromhex(d))
                    if isinstance(v, dict):
                        native = self.native(node, e, env)
                        if native not in v or v[native][0] != native:
                            found.append([e, proto, 'a dictionary keyed by it does not find the native one'])
                        v = list(v)[0]
                except Exception as x:
                    found.append([e, proto, 'not restored: %r' % x])
                    continue
                o = Outcome()
                self.verify(o, node, [0, v, e, None, isinstance(v, Exception)], {'uses': self.uses[:2] if hasattr(self, 'uses') else []}, 'process')
                for x in o.found:
                    found.append([e, proto, x.kind + ' ' + short(x.detail, 900)])
        return {'found': found, 'done': done}


def cross(cli, jobs, exprs, work, tag='c'):
    a, b = jobs
    r = cli.many([dict(a, phase='dump', exprs=exprs)], work, tag + 'd', 200)[0]
    if not r.get('ok'):
        return None, r.get('error')
    r = cli.many([dict(b, phase='load', exprs=exprs, dumps=r['dumps'])], work, tag + 'l', 200)[0]
    if not r.get('ok'):
        return None, r.get('error')
    return r, None


def orchestrate(cli, pid, tier, seed, info, work):
    from ..props.c06 import base_job
    import threading
    jobs = cli.plan_jobs(pid, tier, seed, info)
    results, viol = cli.explore(jobs, work, info, tier)
    if viol:
        return results, viol
    rounds = 8 if tier == 'quick' else 64
    out = [None] * rounds

    def one(k):
        r = Random(H(seed, 'c05cross', k))
        exprs = []
        while len(exprs) < 60:
            e = gen.obj(r, 2, 0)
            if 'name=' not in e:
                exprs.append(e)
        exprs += r.sample(SIMPLE, 20) + ERRS + NAMED + [odd(r) for _ in range(20)]
        pair = [dict(base_job(pid, seed, tier, s), salt=1 + s) for s in (k % 8, (k + 1 + k // 8) % 8)]
        exprs = cross_good(cli, pair, exprs, work, k)
        if exprs is None:
            out[k] = ({'ok': False, 'error': 'cross stage'}, None)
            return
        res, why = cross(cli, pair, exprs, work, 'x%d' % k)
        out[k] = (res or {'ok': False, 'error': why}, (pair, exprs))
    for base in range(0, rounds, 8):
        ts = [threading.Thread(target=one, args=(k,)) for k in range(base, min(base + 8, rounds))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    n = 0
    for res, ctx in out:
        if not res.get('ok'):
            results.append(res)
            continue
        n += res['done']
        for f in res['found'][:1]:
            viol.append({'cross': True, 'jobs': ctx[0], 'exprs': [f[0]], 'found': [{'kind': 'cross-process', 'detail': f}], 'all': ctx[1]})
    ok = [r for r in results if r.get('ok')]
    if ok:
        ok[0]['counts']['restored in another real process'] = n
        ok[0]['counts']['pairs of real processes'] = rounds
    return results, viol


def cross_good(cli, pair, exprs, work, k):
    """Only what can be built at all."""
    r = cli.many([dict(pair[0], mode='prop', phase='filter', prop='C05X', exprs=exprs)], work, 'f%d' % k, 200)[0]
    return r['good'] if r.get('ok') else None


def cross_minimise(cli, v, work):
    for exprs in (v['exprs'], v['all']):
        r, why = cross(cli, v['jobs'], exprs, work, 'm')
        if r and r['found']:
            return {'violation': [{'kind': 'cross-process', 'detail': {'op': f[0], 'protocol': f[1], 'what': f[2]}} for f in r['found'][:1]],
                    'exprs': exprs, 'jobs': v['jobs']}, None
    return None, why or 'did not reproduce'


def cross_replay(cli, rep, work):
    r, why = cross(cli, rep['jobs'], rep['exprs'], work, 'r')
    if r is None:
        return {'ok': False, 'error': why}
    return {'ok': True, 'found': [{'kind': 'cross-process', 'detail': {'op': f[0], 'protocol': f[1], 'what': f[2]}} for f in r['found'][:1]]}
