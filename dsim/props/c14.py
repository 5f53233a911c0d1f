"""C14: an interrupted import can be retried."""
import sys
from random import Random

from .. import fp as _fp
from .. import gen, mon, oplib
from ..node import PKG, settings
from ..worker import H, Outcome
from .base import Base, short
from .c03 import BATTERY

KINDS = {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt}
MODULES = ['', '.coretypes', '.discovery', '.dispatch', '.error', '.internal_utils', '.lexer', '.parser', '.predicates', '.promote', '.py2help',
           '.type_symbol_table', '.typesets', '.user', '.util', '.util.testing', '.validation']
# how the modules of the package see each other and the package itself
WIRING = [
    "sorted(n for n in dir(D) if not n.startswith('__'))", "[type(getattr(D, n, None)).__name__ for n in ('lexer', 'parser', 'coretypes', 'discovery', 'util', 'user', 'promote', 'typesets', "
    "'type_symbol_table', 'predicates', 'validation', 'error', 'internal_utils', 'dispatch', 'py2help', '_version', '__version__')]",
    "D.Categorical([1, 2, 3]).type", "D.dshape('categorical[[\"a\", \"b\"], type=string, ordered=False]')", "D.coretypes.Option('int32')", "D.DataShape(3, 'int32')",
    "D.Record([('a', 'string')])", "D.Tuple(['int32', D.string])", "D.to_numpy_dtype(D.dshape('map[int32, {a: string}]'))", "D.Type.lookup_type('int32') is D.int32",
    "D.typesets.lookup('real') is D.typesets.real", "D.sym.dtype['int32'] is D.int32", "D.discover.__class__.__name__", "sorted(map(str, D.discover.funcs)) == sorted(map(str, D.discovery.discover.funcs))",
    "[isinstance(D.discover(1), D.coretypes.Unit), type(D.dshape('int32')) is D.coretypes.DataShape, type(D.discovery.discover([1])) is D.DataShape]",
    "[D.util.dshape is D.dshape, D.parser.parse is D.parser.parse, D.coretypes.DataShape is D.DataShape, D.discovery.discover is D.discover, D.error.DataShapeSyntaxError is D.DataShapeSyntaxError]",
    "D.util.testing.assert_dshape_equal(D.dshape('int32'), D.dshape('int32'))", "[len(D.discover.funcs), len(D.validate.funcs), len(D.issubschema.funcs)]", "rt(D.dshape('3 * {a: ?int32}'))",
    "D.promote(D.int32, D.Option(D.float64))", "D.validate('3 * int32', [1, 2, 3])", "D.dshape('{a: int32}') == 'no'", "rtexc('3 *')", "D.dshape('3 *')", "D.__version__",
    "D.coretypes.Type._registry.keys() >= {'int32', 'string', 'real'} if hasattr(D.coretypes.Type, '_registry') else 1", "D.dshape('5 * {a: int32}').subshape[0, 'a']", "D.isnumeric('int32')",
]


class Prop(Base):
    CHUNK = 40

    def begin_chunk(self, ch):
        r = Random(H(self.ctx.seed, 'c14', ch))
        self.pool = [e for _ in range(15) for e in gen.group(r, 0)]
        self.total = None

    def plan(self, rs, ch, i):
        r = Random(rs)
        faults = []
        for _ in range(r.choices((1, 2, 3), (6, 3, 2))[0]):
            k = r.choice(sorted(KINDS))
            m = r.random()
            if m < 0.75:
                faults.append(['inside', k, round(r.random(), 6)])
            else:
                faults.append(['around', k, r.choice(MODULES), r.choice(('before', 'after'))])
        return {'ops': faults, 'entry': [r.choice(MODULES[:-1] if r.random() < 0.3 else ['']) for _ in faults] + [r.choice(['', '', '', '.coretypes', '.util', '.discovery'])],
                'wiring': r.sample(range(len(WIRING)), 10), 'battery': r.sample(range(len(BATTERY)), 4), 'calls': r.sample(self.pool, 6)}

    def points(self):
        if self.total is None:
            self.ctx.reset_clock()
            node = self.ctx.node(instrumented=True, sim_import=True, load=False)
            node.install()
            sim = mon.Sim()
            sim.solo(lambda: node.load(extra=False))
            self.total = sim.fault_points
            __import__('datashape.util.testing')
            self.clean = settings()
            node.uninstall()
        return self.total

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        exprs = [WIRING[k] for k in plan['wiring']] + [BATTERY[k] for k in plan['battery']] + plan['calls']
        refs = dict((e, ctx.ref(e)) for e in exprs)
        total = self.points()
        ctx.reset_clock()
        node = ctx.node(instrumented=True, sim_import=True, load=False)
        node.install()
        found = settings()
        dig = []
        hit = 0
        try:
            mon.ACTIVE = True
            for f, entry in zip(plan['ops'], plan['entry']):
                sim = mon.Sim()
                fault = None
                if f[0] == 'inside':
                    fault = (KINDS[f[1]], 1 + int(f[2] * total))
                else:
                    def hook(name, when, f=f):
                        if name == PKG + f[2] and when == f[3]:
                            node.exec_hook = None
                            sim.fired.append((0, f[1], 0))
                            raise KINDS[f[1]]('injected')
                    node.exec_hook = hook
                try:
                    sim.solo(lambda: __import__(PKG + entry), fault=fault)
                    err = None
                except BaseException as e:
                    err = e
                node.exec_hook = None
                dig.append((repr(err)[:80], len(sim.fired)))
                if sim.fired:
                    hit += 1
                    out.bump('%s %s the package' % (f[1], 'inside' if f[0] == 'inside' else f[3] + ' a module of'))
                    if err is not None and not isinstance(err, KINDS[f[1]]):
                        out.bad('wrong-error-of-interrupted-import', fault=f, got=repr(err), before=plan['ops'])
                        return out
                elif err is not None:
                    out.bad('retry-fails', faults=plan['ops'], got=repr(err), entry=entry)
                    return out
                if err is not None:
                    now = settings()
                    for k in sorted(now):
                        if now[k] != found[k] and now[k] != self.clean[k]:
                            out.bad('setting-changed-by-interrupted-import', setting='%s: %s' % (k, str(now[k])[:200]), faults=plan['ops'])
                            return out
            try:
                __import__(PKG + plan['entry'][-1])
                node.D = sys.modules[PKG]
                for m in ('datashape.util.testing',):
                    __import__(m)
            except BaseException as e:
                out.bad('retry-fails', faults=plan['ops'], got=repr(e), entry=plan['entry'][-1])
                return out
            env = oplib.make_env(node.D)
            for e in exprs:
                got = oplib.evaluate(e, env)[0]
                dig.append(got)
                if got != refs[e]:
                    out.bad('differs-from-clean-import', faults=plan['ops'], op=e, expected=short(refs[e]), got=short(got))
                    break
            node.settings0 = self.clean
            for x in node.left():
                out.bad('process-setting-changed', setting=x, faults=plan['ops'])
            out.bump('imports', len(plan['ops']) + 1)
            out.bump('calls', len(exprs))
        finally:
            node.exec_hook = None
            node.uninstall()
        out.key = H(repr(plan['ops']))
        out.nontrivial = hit > 0
        out.digest = H(repr(dig))
        return out
