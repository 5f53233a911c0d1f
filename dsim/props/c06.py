"""C06: answers do not depend on hash seeds, memory layout or iteration order.

The same calls run in processes that differ in PYTHONHASHSEED, in the salt of the
package's own hash(), in memory layout and in the order of set displays; and, within
a process, on containers whose iteration order the simulator permutes."""
import random
import re
from random import Random

from .. import gen, oplib
from ..worker import H, Outcome
from .base import Base, short


class PSet(set):
    """A set whose iteration order is decided by the simulator."""

    def __new__(cls, items=(), k=0):
        return set.__new__(cls)

    def __init__(self, items=(), k=0):
        set.__init__(self, items)
        seen = []
        for x in items:
            if x not in seen:
                seen.append(x)
        Random(k).shuffle(seen)
        self._o = seen

    def __iter__(self):
        return iter(self._o)

    def __reduce__(self):
        return (set, (list(self._o),))


class PFrozen(frozenset):
    def __new__(cls, items=(), k=0):
        items = list(items)
        self = frozenset.__new__(cls, items)
        seen = []
        for x in items:
            if x not in seen:
                seen.append(x)
        Random(k).shuffle(seen)
        self._o = seen
        return self

    def __iter__(self):
        return iter(self._o)


def PDict(items, k=0):
    """A plain dict filled in the given order, permuted."""
    items = list(items)
    Random(k).shuffle(items)
    return dict(items)


def SetIn(items, k=0):
    """A plain set filled, with other elements coming and going, in permuted order."""
    seen = []
    for x in items:
        if x not in seen:
            seen.append(x)
    items = seen
    r = Random(k)
    r.shuffle(items)
    s = set()
    junk = ['j%d' % i for i in range(r.choice((0, 3, 20, 200)))]
    s.update(junk)
    for x in items:
        s.add(x)
    for j in junk:
        s.discard(j)
    return s


EXTRA = dict(PSet=PSet, PFrozen=PFrozen, PDict=PDict, SetIn=SetIn)

HASHABLE = ['int', 'float', 'bool', 'none', 'str', 'date', 'datetime', 'time', 'timedelta', 'bytes', 'np']


def elems(r, n=None):
    if n is None and r.random() < 0.04:
        n = r.choice((20, 40, 70))
    n = n or r.choice((1, 2, 2, 3, 3, 4, 6, 9))
    g = [r.choice(HASHABLE) for _ in range(r.choice((1, 2, 3)))]
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.75:
            e = gen.sval(r, r.choice(g))
        elif k < 0.93:
            m = r.choice((0, 1, 2, 2, 3))
            e = '(%s)' % ''.join(gen.sval(r, r.choice(g)) + ', ' for _ in range(m))
        else:
            e = 'frozenset([%s])' % gen.sval(r, r.choice(g))
        out.append(e)
    return out


KEYS = [['a', 'b', 'name', 'amount', 'Z', 'x y', '1', 'bb'], ['a', 'A', 'b', 'B', 'aB', 'Ab', 'ab', 'AB'], ['a', '_a', '__a', 'a_', '_a_', '_', '__'],
        ['1', '01', '001', '1.0', '+1', ' 1', '10', '9', '2'], ['x y', 'xy', 'x  y', ' xy', 'xy ', 'x-y', 'x_y', 'x.y'], [1, 2, 10, 3, -1, 0, 255],
        ['abc', 'abd', 'acb', 'bac', 'cab', 'bca'], ['\xe9', 'e\u0301', 'e', '\xc9', 'E'], ['id', 'ID', 'Id', 'iD'], [1, 'a', 'b', 'cc', 'd', 2, 10, 'Z'], ['a', 'b', None, 'c', 'd'], ['x', b'x', 'y', b'y', b'z', 'z'], [(1, 2), 'a', 'b', 'c', (1,)], [1.5, 2, 3, True, 10], ['', ' ', '  ', '\t']]


def some_keys(r):
    if r.random() < 0.06:
        # wide rows
        p = r.choice(('c%d', 'c%02d', 'Col %d', '%d', 'x_%d'))
        ks = [p % i for i in range(r.choice((17, 26, 33, 40, 65)))]
        return ks if r.random() < 0.5 else r.sample(ks, len(ks))
    ks = r.choice(KEYS) if r.random() < 0.6 else KEYS[0]
    return r.sample(ks, min(len(ks), r.choice((2, 3, 4, 6))))


def pairs(r, d=1, ks=None):
    ks = ks or some_keys(r)
    return '[%s]' % ', '.join('(%r, %s)' % (k, pval(r, d - 1)) for k in ks)


def pval(r, d):
    """A value containing sets and plain dicts; %k is the permutation."""
    k = r.random()
    if d <= 0 or k < 0.3:
        return gen.sval(r)
    if k < 0.6:
        return r.choice(('PSet([%s], %%k)', 'PFrozen([%s], %%k)', 'SetIn([%s], %%k)')) % ', '.join(elems(r))
    if k < 0.85:
        return 'PDict(%s, %%k)' % pairs(r, d)
    return '[%s]' % ', '.join(pval(r, d - 1) for _ in range(r.choice((1, 2, 3))))


def perm_op(r):
    k = r.random()
    if k < 0.45:
        v = pval(r, 3)
        while '%k' not in v:
            v = pval(r, 3)
        return 'D.discover(%s)' % v
    if k < 0.55:
        return 'D.validate(%r, %s)' % (r.choice(('var * int32', 'var * string', '3 * int64', 'var * ?float64', '2 * int32')),
                                       'PSet([%s], %%k)' % ', '.join(elems(r)))
    if k < 0.67:
        return 'D.validate(%r, PDict(%s, %%k))' % (
            r.choice(('{a: int64, b: string}', '{a: string}', '{b: float64, a: int32, name: string}')),
            '[%s]' % ', '.join('(%r, %s)' % (n, gen.sval(r)) for n in r.sample(['a', 'b', 'name', 'c'], 3)))
    ks = some_keys(r)
    rows = ', '.join('PDict(%s, %%k)' % pairs(r, 1, r.sample(ks, r.choice((len(ks), len(ks), max(1, len(ks) - 1))))) for _ in range(r.choice((1, 2, 3))))
    return 'D.discover([%s])' % rows


def set_op(r):
    k = r.randrange(8)
    if k <= 3:
        w = r.choice(('set([%s])', 'frozenset([%s])', '[set([%s])]', "{'a': set([%s])}", '(1, frozenset([%s]))'))
        return 'D.discover(%s)' % (w % ', '.join(elems(r)))
    ts = r.sample(['D.int8', 'D.int32', 'D.int64', 'D.float32', 'D.string', 'D.bool_', 'D.date_', 'D.Decimal(3)', 'D.complex64',
                   "D.dshape('3 * int32')"], r.choice((2, 3, 5)))
    if k == 4:
        return r.choice(('repr(D.TypeSet(%s))', 'str(D.TypeSet(%s))', 'D.TypeSet(%s)', 'list(D.TypeSet(%s) | D.typesets.boolean)',
                         'len(D.TypeSet(%s))', 'repr(D.TypeSet(%s) | D.typesets.floating)')) % ', '.join(ts)
    if k == 5:
        return 'D.validate(%r, set([%s]))' % (r.choice(('var * string', 'var * int64', '2 * string')), ', '.join(elems(r)))
    if k == 6:
        n = r.sample(['a', 'b', 'c', 'dd', 'e'], 3)
        m = r.sample(['a', 'b', 'c', 'dd', 'e'], 3)
        return 'ae(D.dshape(%r), D.dshape(%r), check_record_order=%s)' % (
            '{%s}' % ', '.join('%s: int32' % x for x in n), '{%s}' % ', '.join('%s: int32' % x for x in m), r.choice(('True', 'False')))
    ns = [r.choice("abcd") for _ in range(6)]
    return r.choice(('D.Record([%s])' % ', '.join('(%r, "int8")' % x for x in ns),
                     'D.dshape("{%s}")' % ', '.join('%s: int8' % x for x in ns),
                     'D.discovery.lowest_common_dshape([%s])' % ', '.join(ts[:2]),
                     'D.discovery.unite_base([%s])' % ', '.join(ts[:3])))


BLOCK = 60
_cmp = re.compile(r"'(?:<|>|<=|>=)' not supported between instances of '(\S+)' and '(\S+)'")


def norm(o):
    """Which of two incomparable keys is named first is not part of the answer."""
    if o[0] == 'E' and o[1] == 'TypeError' and isinstance(o[2], str):
        m = _cmp.search(o[2])
        if m:
            return ('E', 'TypeError', 'not comparable')
    return o


class Prop(Base):
    CHUNK = 6

    def block(self, ch, i):
        r = Random(H(self.ctx.seed, 'c06', ch, i))
        out = []
        while len(out) < BLOCK:
            k = r.random()
            if k < 0.3:
                out += [e for e in gen.group(r, 0) if 'hash(' not in e]   # the number itself is a process's own
            elif k < 0.65:
                out.append(set_op(r))
            else:
                out.append(perm_op(r))
        return out[:BLOCK]

    def run_block(self, exprs, salt, nperm=4):
        """Per expression: the outcome; plus in-process permutation failures."""
        node = self.ctx.node(salt=salt)
        env = oplib.make_env(node.D)
        env.update(EXTRA)
        random.seed(salt)            # process-wide generators start differently in every process
        env['np'].random.seed(salt % 2 ** 32)
        res, bad = [], []
        n = 0
        for e in exprs:
            if '%k' in e:
                outs = []
                for k in range(nperm):
                    outs.append(norm(oplib.evaluate(e.replace('%k', str(k)), env)[0]))
                    n += 1
                for k in range(1, nperm):
                    if outs[k] != outs[0]:
                        bad.append((e, k, outs[0], outs[k]))
                        break
                res.append(outs[0])
            else:
                n += 1
                res.append(norm(oplib.evaluate(e, env)[0]))
        return res, bad, n

    def special(self, job):
        from .. import clock
        t0 = clock.real()
        if job.get('exprs') is not None:
            res, bad, n = self.run_block(job['exprs'], job['salt'])
            return {'out': [short(o, 3000) for o in res], 'dig': [H(repr(o)) for o in res],
                    'bad': [[e, k, short(a), short(b)] for e, k, a, b in bad]}
        # shake the heap, so that addresses differ from shard to shard in a repeatable way
        dig, found, calls, blocks, perms = {}, [], 0, 0, 0
        samples = []
        stopped = None
        for ch in job['chunks']:
            for i in range(self.CHUNK):
                if clock.real() - t0 > job['cap_s']:
                    stopped = 'wall'
                    break
                ex = self.block(ch, i)
                salt = H(job['salt'], ch, i) % 100003
                self.ctx.reset_clock()
                res, bad, n = self.run_block(ex, salt)
                calls += n
                blocks += 1
                perms += sum(1 for e in ex if '%k' in e)
                dig['%d.%d' % (ch, i)] = [H(repr(o)) for o in res]
                if not samples:
                    samples = [{'block': [ch, i], 'calls': ex[:6], 'salt': salt}]
                if bad and len(found) < 3:
                    e, k, a, b = bad[0]
                    found.append({'e': e, 'k': k, 'a': short(a), 'b': short(b), 'salt': salt})
            if stopped:
                break
        return {'dig': dig, 'found': found, 'calls': calls, 'blocks': blocks, 'perms': perms, 'samples': samples,
                'stopped': stopped, 'wall': clock.real() - t0}


def base_job(pid, seed, tier, s):
    return {'mode': 'prop', 'prop': pid, 'tier': tier, 'seed': seed, 'hashseed': (0, 1, 42, 7, 1000, 31337, 99991, 123456789)[s % 8] + s // 8,
            'salt': 3 * s + 1, 'shard': s, 'layout': s}


def orchestrate(cli, pid, tier, seed, info, work):
    n = info['thorough_chunks'] if tier == 'thorough' else info['quick_chunks']
    cap = info['cap_thorough'] if tier == 'thorough' else info['cap_quick']
    jobs = [dict(base_job(pid, seed, tier, s), chunks=list(range(n)), cap_s=cap) for s in range(8)]
    rs = cli.many(jobs, work, 'x', cap * 1.5 + 120)
    results, viol = [], []
    for r, j in zip(rs, jobs):
        if not r.get('ok'):
            results.append(r)
            continue
        results.append({'ok': True, 'runs': r['blocks'], 'nontrivial': 0, 'counts': {
            'calls': r['calls'], 'calls repeated under 4 iteration orders': r['perms']}, 'samples': r['samples'], 'wall': r['wall'],
            'stopped': r['stopped']})
        for f in r['found']:
            viol.append({'cross': True, 'jobs': [j], 'exprs': [f['e']], 'found': [{'kind': 'order-dependent-answer', 'detail': f}]})
    ok = [(j, r) for j, r in zip(jobs, rs) if r.get('ok')]
    distinct = set()
    compared = 0
    if ok:
        p = Prop(_Ctx(ok[0][0]))
        for key in ok[0][1]['dig']:
            rows = [(j, r['dig'][key]) for j, r in ok if key in r['dig']]
            ch, i = map(int, key.split('.'))
            distinct.update(p.block(ch, i))
            for x in range(len(rows[0][1])):
                for j, row in rows[1:]:
                    compared += 1
                    if row[x] != rows[0][1][x] and len(viol) < 4:
                        a = dict(rows[0][0], chunks=None)
                        b = dict(j, chunks=None)
                        a['salt'] = H(a['salt'], ch, i) % 100003
                        b['salt'] = H(b['salt'], ch, i) % 100003
                        viol.append({'cross': True, 'jobs': [a, b], 'exprs': p.block(ch, i)[:x + 1],
                                     'found': [{'kind': 'hash-seed-dependent-answer', 'detail': {}}]})
    if results and results[0].get('ok'):
        results[0]['nontrivial'] = len(distinct)
        results[0]['counts']['comparisons across processes'] = compared
    return results, viol


class _Ctx(object):
    def __init__(self, job):
        self.job = job
        self.seed = job['seed']


def cross_run(cli, jobs, exprs, work, tag='c'):
    js = [dict(j, mode='prop', exprs=exprs) for j in jobs]
    rs = cli.many(js, work, tag, 120)
    for r in rs:
        if not r.get('ok'):
            return None, r.get('error')
    if len(rs) == 1:
        found = [{'kind': 'order-dependent-answer', 'detail': {'op': b[0], 'permutation': b[1], 'order 0': b[2], 'permuted': b[3]}}
                 for b in rs[0]['bad']]
        return found, None
    a, b = rs
    found = []
    for e, x, y, dx, dy in zip(exprs, a['out'], b['out'], a['dig'], b['dig']):
        if dx != dy:
            found.append({'kind': 'hash-seed-dependent-answer', 'detail': {
                'op': e, 'in a process with PYTHONHASHSEED=%s salt=%s' % (jobs[0]['hashseed'], jobs[0]['salt']): x,
                'with PYTHONHASHSEED=%s salt=%s' % (jobs[1]['hashseed'], jobs[1]['salt']): y}})
    return found[-1:], None


def cross_minimise(cli, v, work):
    jobs, exprs = v['jobs'], v['exprs']
    tries = 1
    best, why = cross_run(cli, jobs, exprs, work)
    if not best:
        return None, why or 'did not reproduce: %s' % exprs[-1]
    for cand in ([exprs[-1]], exprs[-5:], exprs[-20:]):
        tries += 1
        got, why = cross_run(cli, jobs, cand, work)
        if got:
            best, exprs = got, cand
            break
    return {'violation': best, 'exprs': exprs, 'jobs': jobs, 'shrink_tries': tries}, None


def cross_replay(cli, rep, work):
    found, why = cross_run(cli, rep['jobs'], rep['exprs'], work, 'r')
    if found is None:
        return {'ok': False, 'error': why}
    return {'ok': True, 'found': found}
