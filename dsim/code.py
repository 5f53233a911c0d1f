"""Source of the package under test, compiled twice (plain and instrumented),
and the classification of its instructions into schedule points and fault points.
"""
import ast
import dis
import os
import zlib

PKG = 'datashape'

Y = 1        # schedule point
F = 2        # fault point: a call or an iteration step is about to run
W = 4        # the instruction touches (or may touch) shared mutable state
S = 8        # ... in a function that writes something other than locals
G = 16       # a write, other than a constructor's to an attribute
WHERE = {}   # location id -> function, of such writes
POINTS = {} # function -> all its location ids
TARGET = {}  # location id -> compiled expression of what is written to; None: certainly not only the function's own

MUTATORS = frozenset('''append add pop clear update setdefault popitem remove extend
insert discard appendleft popleft extendleft sort reverse register __setitem__
__delitem__ setattr acquire release notify wait set'''.split())

_WRITE_OPS = frozenset(['STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'STORE_DEREF',
                        'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL', 'DELETE_DEREF',
                        'STORE_SLICE'])
_POINT_OPS = _WRITE_OPS | frozenset(['CALL', 'CALL_FUNCTION_EX', 'BINARY_SUBSCR', 'LOAD_ATTR',
                                     'FOR_ITER', 'CONTAINS_OP', 'COMPARE_OP', 'BINARY_OP',
                                     'JUMP_BACKWARD', 'YIELD_VALUE', 'SEND', 'BEFORE_WITH',
                                     'LOAD_SUPER_ATTR', 'CALL_INTRINSIC_1', 'LIST_EXTEND',
                                     'SET_UPDATE', 'DICT_UPDATE', 'DICT_MERGE', 'UNPACK_SEQUENCE',
                                     'IMPORT_NAME'])
_FAULT_OPS = frozenset(['CALL', 'CALL_FUNCTION_EX', 'FOR_ITER'])


def walk_codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            for x in walk_codes(c):
                yield x


class _Cleanup(ast.NodeVisitor):
    """Lines of clean-up code (finally bodies, re-raising handlers, __exit__):
    an abort is not injected there - it would be a second failure during the
    handling of the first."""

    def __init__(self):
        self.lines = set()

    def _add(self, nodes):
        for n in nodes:
            self.lines.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

    def visit_Try(self, node):
        self._add(node.finalbody)
        for h in node.handlers:
            last = h.body[-1]
            if isinstance(last, ast.Raise) and last.exc is None:
                self._add(h.body)
        self.generic_visit(node)

    visit_TryStar = visit_Try

    def visit_FunctionDef(self, node):
        if node.name in ('__exit__', '__del__'):
            self._add(node.body)
        self.generic_visit(node)


def _chain(n):
    """A plain chain of names, attributes and indices."""
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, (ast.Constant, ast.Name)):
            return False
        n = n.value
    return isinstance(n, ast.Name)


def _target(i, lines):
    p = i.positions
    if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL', 'LOAD_GLOBAL', 'STORE_DEREF', 'DELETE_DEREF') or p is None or p.lineno is None or p.lineno != p.end_lineno:
        return None
    text = lines[p.lineno - 1].encode()[p.col_offset:p.end_col_offset].decode('utf-8', 'replace')
    try:
        n = ast.parse(text, mode='eval').body
    except SyntaxError:
        return None
    if not isinstance(n, (ast.Attribute, ast.Subscript)) or not _chain(n.value):
        return None
    return compile(ast.Expression(n.value), '<target>', 'eval')


def classify(code, cleanup_lines, lines=()):
    """{offset: (flags, location id)} for one code object."""
    ins = list(dis.get_instructions(code))
    stored_globals = set()
    writes = False
    first = None
    rows = []
    for i in ins:
        if i.opname == 'EXTENDED_ARG':
            if first is None:
                first = i.offset
            continue
        rows.append((first if first is not None else i.offset, i))
        first = None
    init = code.co_name in ('__init__', '__new__', '<module>')
    for off, i in rows:
        if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
            stored_globals.add(i.argval)
        if i.opname in _WRITE_OPS and not (init and i.opname == 'STORE_ATTR'):
            writes = True
        if i.opname == 'LOAD_ATTR' and i.argval in MUTATORS:
            writes = True
    pts = {}
    q = code.co_qualname
    for k, (off, i) in enumerate(rows):
        op = i.opname
        fl = 0
        if op in _POINT_OPS or (op == 'LOAD_GLOBAL' and i.argval in stored_globals) \
                or (op == 'LOAD_DEREF' and writes):
            fl |= Y
        if op in _WRITE_OPS or (op in ('LOAD_ATTR',) and i.argval in MUTATORS) \
                or (op == 'LOAD_GLOBAL' and i.argval in stored_globals):
            fl |= W | Y
            if not (init and op == 'STORE_ATTR'):
                fl |= G
        if op in _FAULT_OPS:
            with_exit = (op == 'CALL' and k >= 3 and
                         all(rows[j][1].opname == 'LOAD_CONST' and rows[j][1].argval is None
                             for j in (k - 1, k - 2, k - 3)) and i.arg == 2)
            line = i.positions.lineno if i.positions else None
            if not with_exit and line not in cleanup_lines:
                fl |= F
        if fl:
            if writes:
                fl |= S
            loc = zlib.crc32(('%s@%d' % (q, off)).encode())
            if fl & G:
                WHERE[loc] = q
                TARGET[loc] = _target(i, lines)
            pts[off] = (fl, loc)
    if any(fl & G for fl, _ in pts.values()):
        POINTS[q] = [loc for _, loc in pts.values()]
    return pts


class Store(object):
    """Compiled sources of one tree."""

    def __init__(self, root):
        self.root = os.path.join(root, PKG)
        self.cache = {}
        self.keep = []

    def locate(self, fullname):
        parts = fullname.split('.')[1:]
        base = os.path.join(self.root, *parts)
        p = os.path.join(base, '__init__.py')
        if os.path.isdir(base) and os.path.exists(p):
            return p, base
        p = base + '.py'
        if parts and os.path.exists(p):
            return p, None
        return None, None

    def get(self, fullname, instrumented):
        key = fullname, instrumented
        r = self.cache.get(key)
        if r is None:
            path, pkgdir = self.locate(fullname)
            if path is None:
                self.cache[key] = r = (None, None, None, None)
                return r
            with open(path, 'rb') as f:
                src = f.read()
            tree = ast.parse(src, path)
            c = _Cleanup()
            c.visit(tree)
            code = compile(src, path, 'exec', dont_inherit=True)
            table = None
            if instrumented:
                from . import mon
                table = {}
                text = src.decode('utf-8').split('\n')
                for co in walk_codes(code):
                    table[id(co)] = classify(co, c.lines, text)
                    mon.instrument(co, table[id(co)])
            self.keep.append(code)
            self.cache[key] = r = (code, path, pkgdir, table)
        return r

    def modules(self):
        """Names of the importable modules of the package (tests excluded)."""
        out = []
        for d, dirs, files in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            rel = os.path.relpath(d, self.root)
            pre = PKG if rel == '.' else PKG + '.' + rel.replace(os.sep, '.')
            for f in sorted(files):
                if f == '__init__.py':
                    out.append(pre)
                elif f.endswith('.py'):
                    out.append(pre + '.' + f[:-3])
        return out
