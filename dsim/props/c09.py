"""C09: datashapes are values; arguments are left alone."""
import collections
from random import Random

import numpy as np

from .. import fp as _fp
from .. import gen, mon, oplib
from ..worker import H, Outcome
from .base import Base, Op, short
from .c03 import KINDS

ACCESS = ['parameters', 'names', 'types', 'fields', 'dict', 'shape', 'measure', 'info()', 'ty', 'key', 'value', 'categories', 'type',
          'argtypes', 'restype', 'itemsize', 'alignment', 'encoding', 'fixlen', 'unit', 'tp', 'subshape[0]', 'subshape[0:1]',
          'subarray(0)', 'subarray(1)', 'to_numpy_dtype()', 'typevar', 'val', 'tz', 'symbol',
          'ordered', 'composite', 'parameters[0]', '__mul__(3)', '__or__(D.typesets.signed)']
BATTERY = ['x.' + a for a in ACCESS] + ['list(x)', 'len(x)', 'str(x)', 'repr(x)', 'hash(x)', '[x[n] for n in x.names]', '[x[k] for k in range(-3, 3)]', "[x[n] for n in 'abcxy']", 'D.pprint(x)', 'rt(x)',
                                          'x == x', '[n for n in x]', 'x.subshape[["a"]]', 'x.measure.dict', 'x.measure.names', 'x.measure["a"]', '[x.lookup(n) for n in "ab"]', 'x.index("a")',
                                          'D.discovery.unpack(x)', 'collect(isunit, x)', 'x.categories', 'x.measure.parameters', '3 * x', 'D.Option(x)', 'D.to_numpy(x)']
FUNCS = ['list(%s)', 'tuple(%s)', 'D.util.collect(isunit, %s)', 'D.dshapes(%s, %s)', 'D.util.dshapes(%s)', 'D.to_numpy(%s)',
         'D.coretypes.to_numpy_dtype(%s)', 'D.dshape(%s)', 'D.util.cat_dshapes([%s, %s])', 'copy.copy(%s)', 'copy.deepcopy(%s)', 'rt(%s)',
         'D.Option(%s)', '3 * %s', "D.Record([('z', %s)])", 'D.Tuple([%s, %s])', 'D.var * %s', 'D.pprint(%s)', 'eqh(%s, %s)', 'member(%s, [%s])',
         'D.isscalar(%s)', 'D.isfixed(%s)', 'D.isrecord(%s)', 'D.isnumeric(%s)', 'D.promote(%s, %s)', 'D.discovery.unite_identical([%s, %s])',
         'D.discovery.unite_base([%s, %s])', 'D.discovery.unpack(%s)', 'D.discovery.unite_merge_dimensions([%s, %s])', 'ae(%s, %s)',
         'D.validate(%s, 1)', 'D.Map(%s, D.int32)', 'D.Function(%s, %s)', 'hash(%s)', '{%s: 1}', '[repr(%s), str(%s)]', 'D.launder(%s)',
         'D.predicates.isdimension(%s)', 'D.util.to_numpy_dtype(%s)', 'D.discover(%s)', 'D.coretypes.to_numpy(%s)', '%s == %s', '%s[0]',
         'D.typesets.matches_typeset(%s, D.typesets.numeric)', 'D.util.truncate_dshape(%s)']


INPLACE = ['operator.imul(%x, 3)', 'operator.imul(%x, %y)', 'operator.imul(%x, D.var)', 'operator.imul(D.Fixed(3), %x)', 'operator.ior(%x, D.signed)', 'operator.ior(%x, %y)',
           'operator.iadd(%x, %y)', 'operator.iand(%x, %y)', 'operator.ixor(%x, %y)', 'operator.isub(%x, %y)', 'operator.iconcat(%x, %y)', 'operator.imul(%x.measure, 3)',
           'operator.ior(D.integral, D.boolean)', 'operator.imul(%x, %x)', "operator.ior(%x, %x)", "operator.imul(D.dshape('int32'), 3)", "operator.imul(D.int32, 3)", "operator.imul(D.var, D.int32)",
           "operator.imul(3, %x)", "%x * 3", "%x | %y", "%x & %y", "%x - %y", "%x + %y", "%x + [1]", "operator.imul(%x, '3 * int32')", "-%x", "~%x", "sorted([%x, %y])", "%x < %y", "divmod(%x, 2)", "bool(%x)",
           "operator.setitem(%x, 0, D.int8)", "operator.delitem(%x, 0)", "operator.setitem(%x.parameters, 0, D.int8)", "operator.setitem(%x.dict, 'a', D.int8)", "setattr(%x.__class__, '__doc__', 'x') and 1"][:-1]


def fields(r, d=1):
    n = r.choice((1, 2, 3))
    names = r.sample(['a', 'b', 'c', 'x', 'y'], n)
    if r.random() < 0.4:        # nothing left to convert
        return [(m, r.choice(CLEAN)) for m in names]
    return [(m, typ(r, d)) for m in names]


CLEAN = ['D.int64', 'D.string', 'D.float32', 'D.int8', 'D.bool_', "D.dshape('3 * int8')", "D.dshape('{p: int8}')", 'D.Option(D.date_)', "D.Record([('q', D.int8)])", 'D.Tuple([D.int8])']


def typ(r, d=1):
    return r.choice(["'int32'", "'string'", 'D.int64', "D.dshape('3 * int8')", "'{p: int8}'", 'D.Option(D.int32)', "'?date'"])


def container(r):
    """(constructor template over ARG, expression of the container)"""
    k = r.randrange(15)
    if k == 0:
        return 'D.Record(ARG)', '[%s]' % ', '.join(r.choice(('(%r, %s)', '[%r, %s]')) % f for f in fields(r))
    if k == 1:
        return r.choice(('D.Record(ARG)', 'D.Record(ARG.items())', "D.Record([('n', 'int8')] + list(ARG.items()))")), \
            'OD([%s])' % ', '.join('(%r, %s)' % f for f in fields(r))
    if k == 14 and r.random() < 0.6:
        return r.choice(('D.Record(ARG)', 'D.Record(ARG.items())', 'D.Option(D.Record(ARG))', 'D.DataShape(3, D.Record(ARG))', 'D.Map(D.int8, D.Record(ARG))')), \
            r.choice(('dict([%s])', 'OD([%s])', '[%s]', '((%s,),)[0]', 'MP(dict([%s]))', '{k: v for k, v in [%s]}.items()')) % ', '.join('(%r, %s)' % f for f in fields(r))
    if k == 2:
        return r.choice(('D.Tuple(ARG)', 'D.Tuple(ARG)', 'D.DataShape(2, D.Tuple(ARG))', 'D.Function(*ARG)', 'D.Tuple(iter(ARG))')), \
            '[%s]' % ', '.join(r.choice(('D.int32', 'D.string', "D.dshape('3 * int8')")) for _ in range(r.choice((1, 2, 3))))
    if k == 3:
        return r.choice(('D.Categorical(ARG)', 'D.Categorical(ARG, ordered=True)', 'D.Option(D.Categorical(ARG))')), \
            r.choice(("['a', 'b', 'c']", '[1, 2, 3]', '[1.5, 2.5]', "('a', 'b')", "deque(['a', 'b'])"))
    if k == 4:
        return 'D.dshape(ARG)', r.choice(("[3, 'int32']", "[D.var, 2, D.string]", "[2, D.Record([('a', 'int8')])]", "['int32']", "[D.Fixed(2), 'string']"))
    if k == 5:
        return r.choice(("D.from_numpy(ARG, 'i4')", "D.from_numpy(ARG, np.dtype([('a', 'i4'), ('b', 'O')]))")), r.choice(('[3, 4]', '[]', '(2,)', '[0]'))
    if k == 6:
        return 'D.discover(ARG)', gen.value(r, 3)
    if k == 7:
        return r.choice(('D.discover(ARG)', 'D.discover([ARG, ARG])', "D.discover({'k': ARG})"))[:None if r.random() < 0.5 else 15], r.choice(gen.ARRS if r.random() < 0.6 else gen.ODDC)
    if k == 8:
        return 'D.TypeSet(*ARG)', '[D.int8, D.int32, D.string]'
    if k == 9:
        return 'D.DataShape(*ARG)', r.choice(('[3, D.int32]', "[D.var, D.Record([('q', 'int8')])]", '[2, 3, D.string]'))
    if k == 10:
        return r.choice(("parse('3 * int32', ARG)", "parse('{a: int8}', ARG)")), 'table()'
    if k == 11:
        return "D.dshapes(*ARG)[0]", "['3 * int32', 'var * string']"
    if k == 12:
        return 'D.util.cat_dshapes(ARG)', "[D.dshape('3 * int32'), D.dshape('4 * int32')]"
    if k == 13:
        return r.choice(('D.discovery.unite_base(ARG)', 'D.discovery.unite_identical(ARG)', 'D.discovery.lowest_common_dshape(ARG)')), \
            r.choice(('[D.int64, D.int64]', '[D.int64, D.null, D.real]', '[D.string, D.null]'))
    return r.choice(('D.Record(ARG)', 'D.R[ARG[0][0]:ARG[0][1]]')), "[['a', D.Record([('b', 'int8')])]]"


CALLS = ["D.discover(ARG)", "D.discover([ARG, ARG])", "D.discover({'k': ARG})", "D.validate('var * int32', ARG)", "D.validate('{a: int64}', ARG)",
         "D.validate('var * {a: int64, b: string}', ARG)", "D.discovery.is_string_array(ARG)", "D.validate('3 * 2 * float64', ARG)",
         "D.validate('(int64, string)', ARG)", "D.discover((ARG, 1))", "D.validate('var * (int64, string)', ARG)"]


# containers handed over as an index, a shape, or arguments of a comparison
IDX = [("D.dshape('{a: int32, b: int64, c: string}').subshape[ARG]", ["['b', 'a']", "['a']", '[1, 0]', "['b', 0]", '[2, 2]', "[['a']]", '[]', "('a', 'b')", "['zz']"]),
       ("D.dshape('var * {a: int32, b: int64}').subshape[:, ARG]", ["['b', 'a']", "['a']", '[1, 0]', "['b', 0]", '[]', "['zz', 'a']"]),
       ("D.dshape('5 * 3 * {a: int32, b: int64}').subshape[ARG]", ["(slice(0, 2), 1, ['b', 'a'])", "[slice(0, 2), 1]", '[0, 2]', '[[0, 1], [0]]', "(0, [0, 1], ['a'])", 'np.array([0, 1])',
                                                                   'np.array([True, False, True, True, False])', "[True, False, True, True, False]", "(np.array([0, 2]), 1)"]),
       ("D.dshape('5 * int32').subshape[ARG]", ['np.array([3, 1])', '[3, 1]', '(slice(1, 3),)', '[True] * 5', 'deque([1])']),
       ("D.dshape('var * 3 * int32').subshape[ARG]", ['np.array([3, 1])', '[3, 1]', '[True, False]', '(slice(None), [0, 1])']),
       ("D.Record([('b', 'int8'), ('a', 'int8')])[ARG]", ["['a', 'b']", "['b']", '[0]']),
       ("D.Record([('b', 'int8'), ('a', 'int8')]).subshape[ARG]", ["['a', 'b']", "['b']", '[0, 1]']),
       ("D.util.dshapes(*ARG)", ["['int8', 'string']", "[D.int8, '3 * int8']"]), ("D.util.cat_dshapes(ARG)", ["[D.dshape('3 * int32'), D.dshape('var * int32')]", "[D.dshape('3 * int32')]"]),
       ("D.discovery.unite_merge_dimensions(ARG)", ["[D.dshape('10 * int32'), D.dshape('20 * int32')]", "[D.dshape('10 * string'), D.dshape('20 * string')]"]),
       ("D.discovery.unite_identical(ARG)", ["[D.int64, D.int64]"]), ("D.discovery.descendents(D.discovery.edges, ARG)", ["[D.int64]", '[D.bool_, D.int64]']),
       ("D.DataShape(*ARG)", ["[3, 'int32']"]), ("D.predicates.isfixed(ARG)", ["[3, 'int32']"]), ("D.issubschema('var * {a: int32}', ARG)", ["'var * {a: int32}'"]),
       ("D.typesets.matches_typeset(ARG, [D.typesets.integral])", ['[D.int8]', '[D.string]']), ("D.typesets.supertype_map and D.TypeSet(*ARG)" , ['[D.int8, D.int32]']),
       ("D.util.testing.assert_dshape_equal(D.Categorical(ARG), D.Categorical(ARG))", ["['a', 'b']"]), ("D.coretypes.DataShape(*ARG).subarray(1)", ["[3, 'int32']", "[3, 4, D.int8]"]),
       ("D.dshape('3 * int32') == ARG", ["[3, 'int32']", "'3 * int32'"]), ("D.to_numpy(D.dshape(ARG))", ["[3, 'int32']", "[2, 'string']"]),
       ("D.from_numpy(ARG, np.dtype('i4'))", ['[3, 4]', '[-1]']), ("D.coretypes.Function(*ARG)", ['[D.int8, D.int8]', "['int8', 'int8']"])]


def idx_call(r):
    t, a = r.choice(IDX)
    return [t, r.choice(a)]


def mutables(v, seen=None, depth=0):
    """Mutable containers reachable through containers."""
    seen = set() if seen is None else seen
    out = []
    if id(v) in seen or depth > 8:
        return out
    seen.add(id(v))
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            out.append(v)
    elif isinstance(v, (list, dict, set, collections.deque, bytearray)):
        out.append(v)
    if isinstance(v, dict):
        for x in list(v.values()):
            out += mutables(x, seen, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        for x in list(v):
            out += mutables(x, seen, depth + 1)
    return out


def mutate(v, r):
    ms = mutables(v)
    if not ms:
        return None
    m = r.choice(ms)
    k = r.randrange(5)
    try:
        if isinstance(m, np.ndarray):
            m[...] = m.dtype.type() if m.dtype.names is None else m[::-1].copy()
            return 'array overwritten'
        if isinstance(m, list) or isinstance(m, collections.deque):
            if k == 0:
                m.append('junk')
            elif k == 1:
                m.clear()
            elif k == 2 and len(m):
                m[r.randrange(len(m))] = 'int16'
            elif k == 3:
                m.reverse()
            elif len(m):
                m.pop()
            return 'list changed'
        if isinstance(m, dict):
            if k == 0:
                m['junk'] = 1
            elif k == 1:
                m.clear()
            elif m:
                q = list(m)[0]
                if k == 2:
                    m[q] = 'junk'
                else:
                    del m[q]
            return 'dict changed'
        if isinstance(m, set):
            m.add('junk') if k < 3 else m.clear()
            return 'set changed'
    except Exception:
        return None
    return None


def argfp(v):
    if isinstance(v, collections.deque):
        return ('deque', repr(v))
    if type(v).__name__ == 'TypeSymbolTable':
        return ('table',) + tuple(tuple(sorted((k, repr(x) if not callable(x) else 'f') for k, x in getattr(v, n).items()))
                                  for n in ('dtype', 'dim', 'dtype_constr', 'dim_constr'))
    return _fp.fp(v)


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        r = Random(H(self.ctx.seed, 'c09', ch))
        self.built = []
        while len(self.built) < 14:
            t, a = container(r)
            if self.ctx.ref(t.replace('ARG', '(%s)' % a))[0] == 'R':
                self.built.append([t, a])
        for e in self.good_objects(r, 6):
            self.built.append([e[0], 'None'])
        self.built += [[e, 'None'] for e in r.sample(['D.integral', 'D.numeric', 'D.signed', 'D.scalar', 'D.boolean', 'D.floating', 'D.int32', 'D.string', 'D.var', 'D.null', 'D.real', "D.dshape('3 * int32')[0]",
                                                      'D.TypeSet(D.int8, D.int32)', 'D.complexes', 'D.typesets.real', 'D.date_', 'D.sym.dtype["int32"]', 'D.Fixed(3)'], 5)]
        self.args = [a for _, a in [container(r) for _ in range(10)]] + [gen.value(r, 3) for _ in range(15)] + \
            [r.choice(gen.ARRS) for _ in range(4)] + [r.choice(gen.ODDC) for _ in range(3)] + ["{'a': 1}", "[{'a': 1, 'b': 'x'}]", '[1, 2]', "[[1.0, 2.0], [3.0, 4.0]]"]

    def plan(self, rs, ch, i):
        r = Random(rs)
        X = r.sample(self.built, r.choice((1, 2, 3)))
        ops = []
        uid = 0
        cut = r.choice((0, 0, 0, 0.3, 0.6))
        for _ in range(r.choice((5, 12, 25))):
            uid += 1
            k = r.random()
            if r.random() < cut:
                # looked at in the middle, and cut short
                ta = [r.choice(CALLS), r.choice(self.args)] if r.random() < 0.5 else r.choice(self.built + [idx_call(r)])
                if 'ARG' in ta[0]:
                    ops.append([uid, 'cut'] + list(ta) + [sorted(int(2 ** r.uniform(0, 10)) for _ in range(r.choice((1, 3, 8)))),
                                                          [r.choice(sorted(KINDS)), int(2 ** r.uniform(0, 9.5))] if r.random() < 0.7 else None])
                    continue
            x = 'S[%d]' % r.randrange(len(X))
            if k < 0.3:
                ops.append([uid, 'get', '%s.%s' % (x, r.choice(ACCESS))])
            elif k < 0.5:
                f = r.choice(FUNCS)
                ops.append([uid, 'get', f.replace('%s', x, 1).replace('%s', 'S[%d]' % r.randrange(len(X)))])
            elif k < 0.57:
                y = 'S[%d]' % r.randrange(len(X))
                ops.append([uid, 'get', r.choice(INPLACE).replace('%x', x).replace('%y', y)])
            elif k < 0.66:
                ops.append([uid, 'get', gen.op(r, r.choice(('print', 'eq', 'index', 'build', 'numpy', 'pred', 'util', 'pickle', 'assert')), len(X))])
            elif k < 0.8:
                ops.append([uid, 'call', r.choice(CALLS), r.choice(self.args)] if r.random() < 0.5 else [uid, 'call'] + idx_call(r))
            elif k < 0.9:
                ops.append([uid, 'mutarg', r.randrange(len(X)), r.randrange(10 ** 6)])
            else:
                ops.append([uid, 'again'])
        return {'X': X, 'ops': ops, 'mseed': r.randrange(10 ** 6)}

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        S = [t.replace('ARG', '(%s)' % a) for t, a in plan['X']]
        refs = {}
        for it in plan['ops']:
            if it[1] == 'get':
                refs[it[0]] = ctx.ref(it[2], S)
            elif it[1] in ('call', 'cut'):
                refs[it[0]] = ctx.ref(it[2].replace('ARG', '(%s)' % it[3]))
        ctx.reset_clock()
        node = ctx.node(instrumented=any(it[1] == 'cut' for it in plan['ops']))
        env0 = oplib.make_env(node.D)
        args, vals = [], []
        for t, a in plan['X']:
            v = eval(oplib.compiled(a), env0)
            b = argfp(v)
            vals.append(eval(oplib.compiled(t), dict(env0, ARG=v)))
            args.append(v)
            if argfp(v) != b:
                out.bad('argument-changed', call=t, arg=a, before=short(b), after=short(argfp(v)))
                return out
        base = [(_fp.fp(v), hash(v) if hashable(v) else None) for v in vals]
        keyed = dict((v, j) for j, v in enumerate(vals) if hashable(v))
        twins = [eval(oplib.compiled(e), env0) for e in S]
        env = oplib.make_env(node.D, vals)
        r = Random(plan['mseed'])
        results = []
        dig = []
        for it in plan['ops']:
            kind = it[1]
            what = it[2:]
            if kind == 'get':
                got, v, _ = oplib.evaluate(it[2], env)
                dig.append(got)
                out.bump('calls')
                if got != refs[it[0]]:
                    out.bad('answer-changed', op=it[2], step=it[0], objects=S, expected=short(refs[it[0]]), got=short(got))
                elif not ('[]' in it[2]):
                    if not _fp.is_mono(v) if v is not None else False:
                        m = mutate(v, Random(H(plan['mseed'], it[0])))
                        if m:
                            out.bump('returned container changed')
                            what = what + [m]
                    results.append((it[2], v, _fp.fp(v) if _fp.is_mono(v) else None))
            elif kind == 'call':
                a = eval(oplib.compiled(it[3]), env0)
                consumable = hasattr(a, '__next__')
                b = argfp(a)
                got, v, _ = oplib.evaluate(it[2], dict(env0, ARG=a))
                out.bump('calls')
                dig.append(got)
                if not consumable and argfp(a) != b:
                    out.bad('argument-changed', call=it[2], arg=it[3], before=short(b), after=short(argfp(a)))
                elif got != refs[it[0]]:
                    out.bad('answer-changed', op=it[2], arg=it[3], expected=short(refs[it[0]]), got=short(got))
                else:
                    if _fp.is_mono(v):
                        results.append((it[2] + ' of ' + it[3], v, _fp.fp(v)))
                    if mutate(a, Random(H(plan['mseed'], it[0]))):
                        out.bump('argument changed by its owner')
            elif kind == 'cut':
                self.cut(out, it, node, refs, dig)
            elif kind == 'mutarg':
                if mutate(args[it[2]], Random(it[3])):
                    out.bump('argument changed by its owner')
                    e = self.differs(vals[it[2]], twins[it[2]], env0)
                    if e:
                        out.bad('follows-its-argument', object=plan['X'][it[2]], of=e[0], expected=short(e[1]), got=short(e[2]))
            elif kind == 'again':
                for q in range(len(vals)):
                    if hashable(vals[q]) and (vals[q] not in keyed or not (vals[q] == twins[q] and twins[q] == vals[q])
                                              or hash(vals[q]) != hash(twins[q])):
                        out.bad('identity-changed', object=S[q], note='no longer found in a dictionary or equal to its twin')
            for q, v in enumerate(vals):
                now = _fp.fp(v)
                if now != base[q][0]:
                    out.bad('datashape-changed', object=plan['X'][q], after=[kind] + what, was=short(base[q][0]), now=short(now))
                elif base[q][1] is not None and (hash(v) != base[q][1] or v not in keyed):
                    out.bad('hash-changed', object=plan['X'][q], after=[kind] + what)
            if out.found:
                break
        if not out.found:
            for e, v, f in results:
                if f is not None and _fp.fp(v) != f:
                    out.bad('result-changed-later', op=e, was=short(f), now=short(_fp.fp(v)))
                    break
        out.key = H(repr(plan))
        out.nontrivial = bool(out.count.get('argument changed by its owner') or out.count.get('returned container changed'))
        out.digest = H(repr(dig))
        return out

    def cut(self, out, it, node, refs, dig):
        """A call whose argument is looked at in the middle of it; it may be cut short."""
        uid, _, t, a, looks, fault = it
        env0 = oplib.make_env(node.D)
        v = eval(oplib.compiled(a), env0)
        if hasattr(v, '__next__'):
            return
        b = argfp(v)
        seen = []
        n = [0]

        def step(s, th, fl, loc):
            n[0] += 1
            if n[0] in looks and not seen:
                with mon.quiet(s):
                    f = argfp(v)
                if f != b:
                    seen.append(f)
        sim = mon.Sim()
        sim.on_step = step
        op = Op(0, t, dict(env0, ARG=v))
        sim.solo(lambda: op.run(sim), 0, (KINDS[fault[0]], fault[1]) if fault else None)
        got = op.outcome()
        dig.append(got)
        op.value = None
        out.bump('arguments looked at in the middle of a call', sum(1 for x in looks if x <= n[0]))
        if sim.fired:
            out.bump('fault ' + fault[0])
        if seen:
            out.bad('argument-changed-meanwhile', call=t, arg=a, before=short(b), meanwhile=short(seen[0]))
        elif argfp(v) != b:
            out.bad('argument-changed', call=t, arg=a, fault=fault, before=short(b), after=short(argfp(v)))
        elif got != refs[uid] and not (sim.fired and isinstance(op.error, KINDS[fault[0]])):
            out.bad('answer-changed', op=t, arg=a, fault=fault, expected=short(refs[uid]), got=short(got))
        op.error = None

    def differs(self, v, twin, env):
        """Something in which an object differs from one built from arguments nobody changed."""
        for e in BATTERY:
            a = oplib.evaluate(e, dict(env, x=v))[0]
            b = oplib.evaluate(e, dict(env, x=twin))[0]
            if a != b:
                return e, b, a

    def shrink(self, plan):
        return shrink_ops(plan)


def shrink_ops(plan):
    from .base import shrink_lists
    return shrink_lists(plan, ('ops',))


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False
