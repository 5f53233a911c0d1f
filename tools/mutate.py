#!/usr/bin/env python3
"""Mechanical mutants of the kinds that break the properties; the existing tests filter them.

mutate.py list                      number of mutants per operator
mutate.py filter OUT.json [OP...]   which mutants pass the existing tests
mutate.py run OUT.json [--n N] [--seed S] [OP...]   run the checks of the operator on N sampled survivors
mutate.py show NAME
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

FILES = ['coretypes', 'discovery', 'error', 'internal_utils', 'lexer', 'parser', 'predicates', 'promote', 'type_symbol_table',
         'typesets', 'user', 'validation', 'util/__init__', 'util/testing']
CHECKS = {'memo-eq': ['C02'], 'memo-hash': ['C02'], 'memo-id': ['C02'], 'memo-repr': ['C02'], 'last': ['C01', 'C03'], 'last2': ['C01'], 'scratch': ['C01', 'C16'],
          'busy': ['C03', 'C10'], 'except': ['C10', 'C03'], 'keep': ['C17'], 'keep-error': ['C17'], 'lock': ['C15', 'C16'], 'rlock': ['C15'],
          'set-order': ['C06'], 'unsorted': ['C06'], 'nocopy': ['C09', 'C08'], 'inplace': ['C09'], 'lazy': ['C01', 'C03'], 'selfscratch': ['C01', 'C09'],
          'depth': ['C03', 'C10'], 'unlock': ['C04'], 'noreduce': ['C05'], 'pile': ['C17'], 'count': ['C02'], 'shared-gen': ['C12'], 'partial': ['C10']}


def functions(tree):
    """(path, node, in class?) of module-level functions and methods."""
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n, None
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.name + '.' + m.name, m, n


def isgen(f):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f))


def parse(s):
    return ast.parse(s).body


def args_of(f):
    a = f.args
    if a.kwonlyargs or a.kwarg:
        return None
    t = ', '.join(x.arg for x in a.posonlyargs + a.args)
    if a.vararg:
        t += (', ' if t else '') + '*' + a.vararg.arg
    return '(%s%s)' % (t, ',' if t else '')


def wrap(mod, f, cls, template):
    """Replace the body by an inner function `orig` and the template."""
    inner = copy.deepcopy(f)
    inner.name = '_orig'
    inner.decorator_list = []
    doc = ast.get_docstring(f, clean=False)
    for a in ast.walk(inner.args):
        pass
    f2 = [inner] + parse(template)
    if doc is not None:
        f2 = [f.body[0]] + f2
        inner.body = inner.body[1:] or [ast.Pass()]
    # super() and defaults stay as they are: `_orig` is called with all arguments
    f.body = f2


def mutants(name, src):
    tree = ast.parse(src)
    fs = list(functions(tree))
    out = []

    def add(op, what, edit):
        out.append((op, '%s:%s:%s' % (op, name, what), edit))

    for k, (path, f, cls) in enumerate(fs):
        tag = '%s@%d' % (path, f.lineno)
        a = args_of(f)
        uses_super = any(isinstance(x, ast.Name) and x.id in ('super', '__class__') for x in ast.walk(f))
        special = path.endswith(('__new__', '__init__', '__setattr__', '__getattr__', '__del__')) or (cls and any(isinstance(b, ast.Name) and b.id == 'type' for b in cls.bases))
        g = '_m%d' % f.lineno

        def wrapper(template, k=k, pre=()):
            def edit(t):
                ff = list(functions(t))[k]
                wrap(t, ff[1], ff[2], template)
                for p in pre:
                    t.body[1:1] = parse(p)
                # after the imports and the docstring
            return edit
        if a is not None and not uses_super and not special and not isgen(f):
            call = '_orig' + (a if a != '()' else '()')
            call = '_orig(*%s)' % a
            first = f.args.args[0].arg if f.args.args else None
            for kind, key in (('eq', a), ('hash', 'hash(%s)' % a), ('id', 'id(%s)' % (f.args.args[-1].arg if f.args.args else '0')), ('repr', 'repr(%s)' % a)):
                if not f.args.args and not f.args.vararg:
                    continue
                add('memo-' + kind, tag, wrapper('''
try:
    _k = %s
    if _k in %s:
        return %s[_k]
except TypeError:
    return %s
_r = %s
%s[_k] = _r
return _r
''' % (key, g, g, call, call, g), pre=['%s = {}' % g]))
            if f.args.args:
                add('last', tag, wrapper('''
try:
    if %s['k'] is not None and len(%s['k']) == len(%s) and all(x is y for x, y in zip(%s['k'], %s)):
        return %s['v']
except KeyError:
    pass
%s['k'] = %s
%s['v'] = _v = %s
return _v
''' % (g, g, a, g, a, g, g, a, g, call), pre=["%s = {'k': None}" % g]))
                add('last2', tag, wrapper('''
if %s['k'] is not None and len(%s['k']) == len(%s) and all(x is y for x, y in zip(%s['k'], %s)):
    return %s['v']
_v = %s
%s['v'] = _v
%s['k'] = %s
return _v
''' % (g, g, a, g, a, g, call, g, g, a), pre=["%s = {'k': None}" % g]))
                add('busy', tag, wrapper('''
_k = repr(%s)
if _k in %s:
    raise RuntimeError('recursive')
%s.add(_k)
_v = %s
%s.discard(_k)
return _v
''' % (a, g, g, call, g), pre=['%s = set()' % g]))
                add('keep', tag, wrapper('''
%s[0] = %s
return %s
''' % (g, a, call), pre=['%s = [None]' % g]))
                add('keep-error', tag, wrapper('''
try:
    return %s
except Exception as e:
    %s[0] = e
    raise
''' % (call, g), pre=['%s = [None]' % g]))
                add('pile', tag, wrapper('''
%s.append(str(%s))
return %s
''' % (g, a, call), pre=['%s = []' % g]))
            add('depth', tag, wrapper('''
%s[0] += 1
if %s[0] > 60:
    raise ValueError('too deep')
_v = %s
%s[0] -= 1
return _v
''' % (g, g, call, g), pre=['%s = [0]' % g]))
            add('count', tag, wrapper('''
%s[0] += 1
if %s[0] > 900:
    raise ValueError('too many')
return %s
''' % (g, g, call), pre=['%s = [0]' % g]))
            for kind in ('lock', 'rlock'):
                add(kind, tag, wrapper('''
with %s:
    return %s
''' % (g, call), pre=['%s = __import__("threading").%s()' % (g, 'Lock' if kind == 'lock' else 'RLock')]))
        # local variables shared by all calls
        params = set(x.arg for x in ast.walk(f.args) if isinstance(x, ast.arg))
        inner_defs = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and x is not f]
        inner_names = set(y.id for x in inner_defs for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store))
        stored = set(x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) - params - inner_names
        glob = set(y for x in ast.walk(f) if isinstance(x, ast.Global) for y in x.names)
        for v in sorted(stored - glob):
            def edit(t, k=k, v=v, g=g):
                ff = list(functions(t))[k][1]
                for x in ast.walk(ff):
                    if isinstance(x, ast.Name) and x.id == v:
                        x.id = '%s_%s' % (g, v)
                i = 1 if ast.get_docstring(ff) is not None else 0
                ff.body.insert(i, ast.Global(names=['%s_%s' % (g, v)]))
            add('scratch', '%s.%s' % (tag, v), edit)
            if cls is not None and f.args.args and f.args.args[0].arg == 'self':
                def edit(t, k=k, v=v, g=g):
                    ff = list(functions(t))[k][1]

                    class T(ast.NodeTransformer):
                        def visit_Name(self, n):
                            if n.id == v:
                                return ast.copy_location(ast.Attribute(value=ast.Name(id='self', ctx=ast.Load()), attr='_s_' + v, ctx=n.ctx), n)
                            return n
                    T().visit(ff)
                add('selfscratch', '%s.%s' % (tag, v), edit)

    # sites
    nodes = list(ast.walk(tree))
    infun = set()
    for _, f, _ in fs:
        infun.update(map(id, ast.walk(f)))

    def site(op, what, i, change):
        def edit(t):
            n = list(ast.walk(t))[i]
            change(n)
        add(op, what, edit)

    def become(n, m):
        n.__class__ = m.__class__
        n.__dict__.clear()
        n.__dict__.update(m.__dict__)

    for i, n in enumerate(nodes):
        at = '%s' % getattr(n, 'lineno', 0)
        if isinstance(n, ast.ExceptHandler) and n.type is not None and id(n) in infun:
            for w in ('Exception', 'BaseException'):
                def ch(n, w=w):
                    n.type = ast.Name(id=w, ctx=ast.Load())
                site('except', at + w, i, ch)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and id(n) in infun:
            if n.func.id == 'sorted':
                site('unsorted', at, i, lambda n: setattr(n.func, 'id', 'list'))
                site('inplace', at, i, lambda n: become(n, ast.parse('(lambda x: (x.sort(), x)[1])(0)', mode='eval').body) if 0 else n.__setattr__('func', ast.parse('lambda x: (x.sort(), x)[1] if isinstance(x, list) else sorted(x)', mode='eval').body))
            if n.func.id in ('list', 'tuple', 'dict', 'set'):
                site('nocopy', at, i, lambda n, w=n.func.id: n.__setattr__('func', ast.parse('lambda x: x if hasattr(x, "__len__") else %s(x)' % w, mode='eval').body))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            site('nocopy', at, i, lambda n: become(n, n.func.value))
        if isinstance(n, (ast.For, ast.comprehension)) and (id(n) in infun):
            ln = getattr(n.iter, 'lineno', 0)

            def ch(n):
                n.iter = ast.Call(func=ast.parse('lambda x: (sorted(x, key=lambda o: hash(str(o))) if isinstance(x, (list, tuple, dict, set)) else x)', mode='eval').body, args=[n.iter], keywords=[])
            site('set-order', str(ln), i, ch)
            if isinstance(n, ast.comprehension):
                def ch(n):
                    n.iter = ast.Call(func=ast.Name(id='_quiet', ctx=ast.Load()), args=[n.iter], keywords=[])
                s0 = len(out)

                def edit(t, i=i, ch=ch):
                    ch(list(ast.walk(t))[i])
                    t.body[1:1] = parse('''
def _quiet(x):
    try:
        for y in x:
            yield y
    except Exception:
        pass
''')
                add('partial', str(ln) + '/%d' % i, edit)
        if isinstance(n, ast.With) and id(n) in infun and 'lock' in ast.unparse(n.items[0]):
            site('unlock', at, i, lambda n: become(n, ast.If(test=ast.Constant(value=True), body=n.body, orelse=[])))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and id(n) in infun:
            site('inplace', at + '+', i, lambda n: become(n, ast.Call(func=ast.parse('__import__("operator").iadd', mode='eval').body, args=[n.left, n.right], keywords=[])))
    # pickling methods
    for ci, c in enumerate(tree.body):
        if isinstance(c, ast.ClassDef):
            for mi, m in enumerate(c.body):
                if isinstance(m, ast.FunctionDef) and m.name in ('__reduce__', '__getstate__', '__setstate__', '__reduce_ex__', '__copy__', '__deepcopy__', '__getnewargs__'):
                    def edit(t, ci=ci, mi=mi):
                        t.body[ci].body[mi] = ast.Pass()
                    add('noreduce', '%s.%s' % (c.name, m.name), edit)
    # module-level tables filled on first use, one entry after the other
    for ti, n in enumerate(tree.body):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.targets[0].id
            used = [f for _, f, _ in fs if any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(f))]
            if used:
                def edit(t, ti=ti, v=v):
                    n = t.body[ti]
                    n.targets[0].id = '_full_' + v
                    t.body[ti + 1:ti + 1] = parse('''
_lazy_%s = []


def _get_%s():
    if not _lazy_%s:
        x = _full_%s
        if isinstance(x, dict):
            y = {}
            _lazy_%s.append(y)
            for k in x:
                y[k] = x[k]
        elif isinstance(x, list):
            y = []
            _lazy_%s.append(y)
            for k in x:
                y.append(k)
        else:
            _lazy_%s.append(None)
            _lazy_%s[0] = x
    return _lazy_%s[0]

%s = _full_%s
''' % ((v,) * 11))
                    for _, f, _ in functions(t):
                        if f.name == '_get_' + v:
                            continue

                        class T(ast.NodeTransformer):
                            def visit_Name(self, m):
                                if m.id == v and isinstance(m.ctx, ast.Load):
                                    return ast.Call(func=ast.Name(id='_get_' + v, ctx=ast.Load()), args=[], keywords=[])
                                return m
                        f.body = [T().visit(b) for b in f.body]
                add('lazy', v, edit)
    return out


def all_mutants():
    out = {}
    for fn in FILES:
        p = '/repo/datashape/%s.py' % fn
        src = open(p).read()
        for op, name, edit in mutants(fn, src):
            while name in out:
                name += "'"
            out[name] = (op, fn, src, edit)
    return out


def text(m):
    op, fn, src, edit = m
    t = ast.parse(src)
    # keep `from __future__` first
    head = []
    body = t.body
    edit(t)
    fut = [n for n in t.body if isinstance(n, ast.ImportFrom) and n.module == '__future__']
    doc = t.body[:1] if isinstance(t.body[0], ast.Expr) and isinstance(t.body[0].value, ast.Constant) else []
    rest = [n for n in t.body if n not in fut and n not in doc]
    t.body = doc + fut + rest
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def put(d, m):
    with open('%s/repo/datashape/%s.py' % (d, m[1]), 'w') as f:
        f.write(text(m) + '\n')


def main():
    av = sys.argv[1:]
    cmd = av.pop(0)
    M = all_mutants()
    if cmd == 'list':
        c = {}
        for n, m in M.items():
            c[m[0]] = c.get(m[0], 0) + 1
        print(len(M), c)
    elif cmd == 'show':
        for n in av:
            m = M[n]
            a, b = ast.unparse(ast.parse(m[2])), text(m)
            import difflib
            print('\n'.join(difflib.unified_diff(a.split('\n'), b.split('\n'), lineterm='', n=4)))
    elif cmd == 'filter':
        res = av.pop(0)
        done = json.load(open(res)) if os.path.exists(res) else {}
        most = int(os.environ.get('MOST', '10000'))
        todo = []
        for op in sorted(set(m[0] for m in M.values())):
            mine = [n for n in M if M[n][0] == op and (not av or op in av)]
            random.Random(7).shuffle(mine)
            todo += [n for n in mine[:most] if n not in done]

        def one(n):
            d = plant.copy()
            try:
                try:
                    put(d, M[n])
                except Exception as e:
                    return n, 'mutation: %r' % e
                try:
                    return n, plant.tests(d) or 'ok'
                except Exception as e:
                    return n, 'error: %r' % e
            finally:
                shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
            for k, (n, r) in enumerate(ex.map(one, todo)):
                done[n] = r[:200]
                if k % 50 == 0:
                    json.dump(done, open(res, 'w'), indent=0)
        json.dump(done, open(res, 'w'), indent=0)
        print(sum(v == 'ok' for v in done.values()), 'of', len(done))
    elif cmd == 'run':
        res = av.pop(0)
        n, seed, log = 20, 1, res + '.log'
        while av and av[0].startswith('--'):
            o = av.pop(0)
            if o == '--n':
                n = int(av.pop(0))
            elif o == '--seed':
                seed = int(av.pop(0))
        done = json.load(open(res))
        ok = sorted(k for k, v in done.items() if v == 'ok' and k in M)
        seen = set()
        if os.path.exists(log):
            seen = set(l.split()[0] for l in open(log))
        for op in av or sorted(CHECKS):
            mine = [k for k in ok if M[k][0] == op and k not in seen]
            random.Random(seed).shuffle(mine)
            for k in mine[:n]:
                d = plant.copy()
                try:
                    put(d, M[k])
                    r = []
                    for c in CHECKS[op]:
                        p = plant.sh('bin/check %s quick' % c, cwd=plant.V, env=dict(os.environ, DS_REPO=d + '/repo'))
                        r.append('%s:%s' % (c, {0: 'quiet', 1: 'caught'}.get(p.returncode, 'rc%d' % p.returncode)))
                        if p.returncode == 1:
                            break
                    with open(log, 'a') as f:
                        f.write('%s %s\n' % (k, ' '.join(r)))
                finally:
                    shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
