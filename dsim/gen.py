"""Seeded generation of operations (expressions) over the whole public API."""
import re


SCALARS = ['bool', 'int8', 'int16', 'int32', 'int64', 'intptr', 'int', 'uint8', 'uint16',
           'uint32', 'uint64', 'uintptr', 'float16', 'float32', 'float64', 'complex64',
           'complex128', 'real', 'complex', 'string', 'json', 'date', 'time', 'datetime',
           'timedelta', 'null', 'void', 'object']
NUM = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
       'float16', 'float32', 'float64', 'complex64', 'complex128']
PARAM = ["string[10]", "string['A']", "string['U16']", "string[7, 'U32']", "string[10, 'ascii']",
         "string['utf-8']", "datetime[tz='UTC']", "datetime[tz='America/New_York']",
         "time[tz='UTC']", "timedelta[unit='ms']", "timedelta[unit='D']",
         "timedelta[unit='microseconds']", "units['meter']", "units['second', int64]",
         "units['m', 3 * float32]", "decimal[precision=7, scale=2]", "decimal[9]",
         "decimal[precision=18]", "complex[float32]", "complex[float64]",
         "map[string, int32]", "map[int32, {a: string}]", "option[int32]",
         "categorical[['a', 'b'], type=string, ordered=True]",
         "categorical[[1, 2, 3], type=int64, ordered=False]", "T", "Foo",
         "tuple[[int32, string]]", "struct[['x', 'y'], [int32, string]]"]
NAMES = ['a', 'b', 'x', 'name', 'amount', 'id', 'when', 'A', 'Key', '_p', 'value_1', 'class',
         "'two words'", '"quoted"', "'it'"]


def measure(r, d):
    k = r.random()
    if d <= 0 or k < 0.45:
        return r.choice(SCALARS)
    if k < 0.62:
        return r.choice(PARAM)
    if k < 0.70:
        return '?' + r.choice(SCALARS + PARAM)
    if k < 0.86:
        n = r.choice((0, 1, 2, 2, 3, 4, 6))
        names = r.sample(NAMES, n)
        return '{' + ', '.join('%s: %s' % (nm, ds(r, d - 1)) for nm in names) + \
            (',' if n and r.random() < 0.1 else '') + '}'
    if k < 0.95:
        return '(' + ', '.join(ds(r, d - 1) for _ in range(r.choice((1, 2, 2, 3)))) + ')'
    return '(' + ', '.join(ds(r, d - 1) for _ in range(r.choice((0, 1, 2)))) + ') -> ' + \
        ds(r, d - 1)


def dim(r):
    return r.choice(['var', 'var', '3', '3', '5', '10', '0', '1', '1000000', 'N', 'M', '...',
                     'A...', '2', '7'])


def big_ds(r):
    """A long text."""
    k = r.randrange(8)
    ts = r.sample(['int32', 'string', 'int8', '?date', '3 * int8', 'float64', 'bool', "string[5, 'A']", '(int8, int16)', '{p: int8}'], r.choice((1, 2, 4)))
    n = r.choice((13, 17, 21, 26, 34, 50))
    if k < 3:
        s = '{%s}' % ', '.join('%s%d: %s' % (r.choice('ff_n') if k else 'field_', i, r.choice(ts)) for i in range(n))
    elif k == 3:
        s = '(%s)' % ', '.join(r.choice(ts) for _ in range(n))
    elif k == 4:
        s = ' * '.join([str(r.choice((2, 3, 'var'))) for _ in range(n // 2)] + [r.choice(ts)])
    else:
        m = r.choice((6, 9, 12, 18, 25))
        a, b = r.choice((('{a: ', '}'), ('{a: ', '}'), ('(', ')'), ('3 * {x: int8, y: var * ', '}'), ('({b: ', '})'), ('(int8) -> ', '')))
        s = a * m + r.choice(ts) + b * m
    return r.choice(('', '', 'var * ', '3 * ')) + s


def ds(r, d=2):
    if d == 2 and r.random() < 0.03:
        return big_ds(r)
    n = r.choice((0, 0, 0, 1, 1, 1, 2, 3))
    dims = []
    for _ in range(n):
        x = dim(r)
        if '...' in x and any('...' in y for y in dims):
            x = 'var'
        dims.append(x)
    s = ' * '.join(dims + [measure(r, d)])
    if r.random() < 0.05:
        s = '?' + s
    return s


def noisy(r, s):
    """An equivalent or nearly equivalent spelling."""
    k = r.randrange(10)
    if k == 9:
        return s.replace(' ', r.choice(('\r\n', '\r', '\t', '\n\n', '\r\n\t', '\x0b', '\u2028', '\xa0')[:8 if r.random() < 0.3 else 5]), r.choice((1, 2, 9)))
    if k == 0:
        return s.replace(' * ', '*')
    if k == 1:
        return '  ' + s
    if k == 2:
        return s + '  # comment'
    if k == 3:
        return s.replace(' ', '\n', 1)
    if k == 4:
        return s.replace(', ', ',')
    if k == 5:
        return s + ' '
    if k == 6:
        return '# c\n' + s
    if k == 7:
        return s.replace("'", '"')
    return s.upper() if r.random() < 0.2 else s.replace('var', '3')


_BAD = ['', ' ', '*', '3 *', '* int32', 'int33', '3 * ', '{a: int32', '{a int32}', '(int32',
        'int32]', 'string[', 'string[]', "string['bad']", '... * ... * int32', '3 * ...', '?', '??int32',
        'foo * int32', 'Foo *', '{a: int32, a: string}', 'int32 int64', '3 3', '$', '{1: int32}',
        "decimal[]", 'var', 'N * ', '{a: }', '(int32,,string)', '-1 * int32', '-> int32',
        '(int32) ->', "datetime[tz=3]", "complex[int32]", "timedelta[unit='fortnight']",
        'categorical[]', '3 * int32 # ok\n $', '\t\n', 'a' * 200, "units[3]", '{"a": int32',
        'string[1, 2, 3]', 'map[int32]', 'unknown[3]', '3 * var[2] * int32', 'fixed[3] * int32',
        "{'a': int32, 'a': int32, 'b': int8, b: int8}", 'intxx', 'int32\n*\nint32', 'True', '3',
        "'abc'", '3 * 4', '3 * {a: int32, b: var}', 'typevar[int32]', 'ellipsis * int32',
        '3 *\r\nint33', '{a: int32,\r\n b: $}', '\r\r\nint32 *\r\n', '3 *\x0b$', '3 *\u2028int33', 'int32\r*', '\x0c$\x0c\n$', '{a:\tint33}']


def bad(r):
    if r.random() < 0.5:
        return r.choice(_BAD)
    s = ds(r, 2)
    k = r.randrange(5)
    if not s:
        return s
    i = r.randrange(len(s))
    if k == 0:
        return s[:i]
    if k == 1:
        return s[:i] + s[i + 1:]
    if k == 2:
        return s[:i] + r.choice('*,:[]{}()?$.-=3aA"\' \n\r\t') + s[i:]
    if k == 3:
        return s + r.choice([' *', ' int32', ']', '}', ' $', ', int32'])
    j = r.randrange(len(s))
    i, j = min(i, j), max(i, j)
    return s[:i] + s[j:]


# ---------------------------------------------------------------- datashape objects

def big_obj(r):
    """A datashape of many parts."""
    n = r.choice((11, 13, 17, 21, 26, 34, 50))
    ts = r.sample(["'int32'", 'D.string', 'D.Option(D.int8)', "D.dshape('3 * int8')", 'D.float64', 'D.Tuple([D.int8])', "D.Record([('p', 'int8')])",
                   'D.Categorical([1, 2], type=D.int64)', 'D.Categorical([1.0, 2.0], type=D.int64)', 'D.DataShape(D.int32)', 'D.Decimal(9)'], r.choice((1, 2, 3, 4)))
    t = ', '.join(ts)
    k = r.randrange(7)
    if k < 3:
        return "D.Record([('f%%d' %% i, [%s][i %% %d]) for i in range(%d)])" % (t, len(ts), n)
    if k == 3:
        return 'D.Tuple([%s] * %d)' % (t, n)
    if k == 4:
        return 'D.Categorical([%s for i in range(%d)]%s)' % (r.choice(("'c%d' % i", 'i', 'i * 0.5', "'%d' % i")), n, r.choice(('', ', ordered=True', ', type=D.string')))
    if k == 5:
        return 'D.Function(*[D.int8, D.string, D.int32] * %d)' % n
    return 'D.DataShape(*[D.Fixed(i) for i in range(1, %d)] + [%s])' % (n, ts[0] if ts[0] != "'int32'" else 'D.int32')


def obj(r, d=2, S=0):
    """An expression denoting a datashape object."""
    if S and r.random() < 0.6:
        return 'S[%d]' % r.randrange(S)
    if d == 2 and r.random() < 0.05:
        return big_obj(r)
    k = r.random()
    if k < 0.55:
        return 'D.dshape(%r)' % ds(r, d)
    if k < 0.62:
        return 'D.' + r.choice(['int32', 'int64', 'float64', 'string', 'bool_', 'complex64', 'var',
                                'date_', 'datetime_', 'time_', 'timedelta_', 'null', 'json',
                                'bytes_', 'uint8', 'float32', 'object_', 'void', 'char',
                                'integral', 'numeric', 'boolean'])
    return build(r, d)


def scal(r):
    return r.choice(["D.int32", "D.int64", "'int32'", "'string'", "D.float64", "D.string",
                     "D.bool_", "D.dshape('int32')", "D.Option(D.int32)", "'?float64'",
                     "D.String(10, 'A')", "D.Decimal(9, 2)", "D.DateTime('UTC')", "D.date_",
                     "D.TimeDelta('ms')", "'var * int32'", "D.dshape('3 * string')",
                     "D.Fixed(3) * D.int32", "D.Record([('u', 'int8')])"])


def build(r, d=2):
    k = r.randrange(16)
    if k == 0:
        return 'D.DataShape(%s, %s)' % (r.choice(['3', 'D.var', 'D.Fixed(4)', "D.TypeVar('N')",
                                                  'D.Ellipsis()', '0', '2, 3']), scal(r))
    if k == 1:
        n = r.sample(['a', 'b', 'c', 'x', 'y z', 'name', '1st', 'if'], r.choice((1, 2, 3)))
        return 'D.Record([%s])' % ', '.join('(%r, %s)' % (m, scal(r)) for m in n)
    if k == 2:
        n = r.sample(['a', 'b', 'c'], 2)
        return 'D.Record(OD([%s]))' % ', '.join('(%r, %s)' % (m, scal(r)) for m in n)
    if k == 3:
        return "D.R[%s]" % ', '.join('%r: %s' % (m, scal(r)) for m in r.sample(['p', 'q', 's'], 2))
    if k == 4:
        return 'D.Tuple([%s])' % ', '.join(r.choice(
            ['D.int32', 'D.string', "D.dshape('3 * int8')", "D.Option(D.int64)"])
            for _ in range(r.choice((1, 2, 3))))
    if k == 5:
        return 'D.Option(%s)' % scal(r)
    if k == 6:
        return 'D.Map(%s, %s)' % (scal(r), scal(r))
    if k == 7:
        return 'D.Function(%s)' % ', '.join(r.choice(
            ['D.int32', 'D.string', "D.dshape('3 * int8')"]) for _ in range(r.choice((1, 2, 3))))
    if k == 8:
        return 'D.Categorical(%s)' % r.choice(
            ["['a', 'b']", "[1, 2, 3]", "['a', 'b'], ordered=True", "[1.5, 2.5], type=D.float64",
             "list('abcdefghijklmnop')", "[True, False]", "['x', 1]", "[]", "['a', None]"])
    if k == 9:
        return 'D.String(%s)' % r.choice(["", "10", "'A'", "10, 'A'", "'utf-16'", "5, 'U32'"])
    if k == 10:
        return 'D.Decimal(%s)' % r.choice(["5", "5, 2", "precision=11, scale=2", "18", "19", "1, 0"])
    if k == 11:
        return 'D.Units(%s)' % r.choice(["'m'", "'s', D.dshape('int64')", "'kg', D.dshape('3 * int8')"])
    if k == 12:
        return 'D.%s(%s)' % r.choice([('Time', ''), ('Time', "'UTC'"), ('DateTime', ''),
                                      ('DateTime', "'EST'"), ('TimeDelta', ''), ('TimeDelta', "'ms'"),
                                      ('TimeDelta', "'nanoseconds'"), ('Date', ''), ('Null', ''),
                                      ('JSON', ''), ('Bytes', ''), ('Var', ''), ('Ellipsis', ''),
                                      ('TypeVar', "'Ab'"), ('Fixed', '7'), ('Ellipsis', "D.TypeVar('Q')")])
    if k == 13:
        return '%s * %s' % (r.choice(['3', 'D.var', 'D.Fixed(2)', '0']),
                            r.choice(['D.int32', "D.dshape('var * string')", "D.Record([('a', 'int32')])",
                                      'D.Fixed(3) * D.int8', 'D.string']))
    if k == 14:
        return 'D.TypeSet(%s)' % ', '.join(r.sample(['D.int32', 'D.int64', 'D.float32', 'D.string',
                                                     'D.bool_', 'D.date_'], r.choice((1, 2, 3))))
    return "D.dshape([%s])" % r.choice(["3, 'int32'", "D.var, D.string", "D.Fixed(2), D.Fixed(3), D.int8",
                                        "'3 * int32'", "D.int32"])


BADBUILD = ["D.DataShape()", "D.DataShape('int32')", "D.DataShape(D.int32, 3)", "D.DataShape(3)",
            "D.Fixed(-1)", "D.Fixed('a')", "D.TypeVar('a')", "D.String('bad')", "D.TimeDelta('x')",
            "D.Units(3)", "D.Units('m', D.int32)", "D.Time(3)", "D.DateTime(3)", "D.Record([('a', 3.5)])",
            "D.Record([('a', 'int32'), ('a', 'int8')])", "D.Record([('a', 'nope')])", "D.Option(object())",
            "D.R['a':]", "D.R[:'int32']", "D.R[3:'int32']", "D.R['a':'int32':'b']", "D.R['a']", "D.R[3: 'int8']", "D.R['a':, 'b': 'int8']", "D.R['a': 'int8': 1]", "D.Record([])", "D.Decimal(1).to_numpy_dtype()", "D.Decimal(19).to_numpy_dtype()", "D.Decimal(18).to_numpy_dtype()",
            "D.int32.__rmul__('3')", "D.int32.__rmul__('var * 2')", "'3' * D.int32", "D.var * '3 * int8'", "'3 * int8' * D.int8", "D.validate('3 * ...', [1])", "D.validate(D.DataShape(D.Ellipsis()), 1)", "D.issubschema('int32', '...')",
            "ae(D.Units('m'), D.Units('s'))", "ae(D.Units('m'), D.Units('m', D.dshape('int8')))", "ae(D.Tuple([D.int8]), D.Tuple([D.int8, D.int8]))", "ae(D.Function(D.int8), D.Function(D.int8, D.int8))", "ae(D.DateTime('UTC'), D.Time('UTC'))",
            "ae(D.Option(D.int8), D.Option(D.int16))", "ae(D.String(3), D.String(4))", "ae(D.Function(D.int8, D.int8), D.Function(D.int8, D.int16))", "D.internal_utils._toposort({1: [2], 2: [1]})", "D.discover(D.discovery.Mock())",
            "D.dshape('5 * 3 * int32').subshape[None]", "D.dshape('5 * 3 * int32').subshape[[1], 1]", "D.dshape('5 * 3 * int32').subshape[None, 1]",
            "D.Tuple(['zzz'])", "D.dshape(3.5)", "D.dshape(None)", "D.dshape([])", "D.Map('nope', 3)",
            "D.DataShape(D.var, D.var)", "D.Decimal()", "D.String(1, 2, 3)", "D.coretypes.Type.lookup_type('nope')",
            "D.coretypes.Type.lookup_type('int32')", "D.coretypes.Type.lookup_type('real')",
            "D.typesets.lookup('numeric')", "D.typesets.lookup('nope')", "D.typesets.registry['real']",
            "D.typesets.registry['nope']"]

# ---------------------------------------------------------------- values

STRS = ['', ' ', '1', '-7', '1.5', '1e5', 'True', 'false', 'hello', 'two words', '2014-01-01',
        '2014-01-01 12:30:00', '2014-01-01T12:30:00.5', '12:34:56', '12:34:56.789', '1 day',
        '3 hours', '5 ms', '1.5 days', '2 parsecs', 'nan', 'inf', 'sunday', '01/02/2014', '1-2-3-4-5',
        'Jan 5 2014', '20140101', '2014', 'a1', '10:30', '0', '00', '1_000', 'None', 'null', '\t',
        'Dec 25 2015 10:00', '2012-02-29', 'x' * 40, '1 2 3', '$5']
SC_GROUPS = {
    'int': ['0', '1', '-5', '2', '10', '2**40', '2**70', '7'],
    'float': ['1.5', '0.0', '-2.0', '1e300', 'float("nan")', 'float("inf")', '1.0'],
    'bool': ['True', 'False'],
    'none': ['None'],
    'str': None,
    'bytes': ["b'abc'", "b''"],
    'date': ["dt.date(2014, 1, 2)", "dt.date(2000, 2, 29)"],
    'datetime': ["dt.datetime(2014, 1, 2, 3, 4)", "dt.datetime(2000, 1, 1)"],
    'time': ["dt.time(12, 30)"],
    'timedelta': ["dt.timedelta(1)", "dt.timedelta(seconds=5)"],
    'complex': ["1j", "complex(1, 2)"],
    'np': ["np.int8(1)", "np.int32(5)", "np.uint64(7)", "np.float32(1.5)", "np.float64(2.5)",
           "np.bool_(True)", "np.complex64(1)", "np.datetime64('2014-01-01')",
           "np.datetime64('2014-01-01T12:00')", "np.timedelta64(3, 'D')", "np.timedelta64(5, 'ms')",
           "np.str_('ab')", "np.bytes_(b'ab')", "np.int64(1)"],
    'odd': ["Opaque()", "Ellipsis", "ArrLike((3,), 'i4')", "ArrLike((), 'f8')", "Dec('1.5')", "MyInt(3)",
            "MyStr('2014-01-01')", "MyStr('abc')", "MyFloat(1.5)", "range(3)", "len", "int", "np.ma.masked_array([1, 2])",
            "np.array([1, 2]).view(SubArr)", "D.null", "deque([1])", "iter([1])"],
}
ARRS = ["np.array([1, 2, 3])", "np.array([[1.5, 2.5]])", "np.zeros((2, 0))", "np.array(5)",
        "np.array(['a', 'bc'])", "np.array([b'a'])", "np.array(['x', 'y'], dtype='O')",
        "np.array(['x', None], dtype='O')", "np.array([1, 2], dtype='O')", "np.array([True])",
        "np.array(['2014-01-01'], dtype='M8[D]')", "np.array(['2014'], dtype='M8[us]')",
        "np.array([3], dtype='m8[ms]')", "np.array([(1, 2.5)], dtype=[('a', 'i4'), ('b', 'f8')])",
        "np.array([(1, 'x')], dtype=[('a', 'i4'), ('b', 'O')])",
        "np.array([(1, None)], dtype=[('a', 'i4'), ('b', 'O')])",
        "np.zeros(2, dtype=[('p', [('q', 'i2')]), ('r', 'f4', (2, 3))])", "np.arange(6, dtype='>i4').reshape(2, 3)",
        "np.array([1+2j], dtype='c8')", "np.array([], dtype='O')", "np.array(['a', 3, 'b', 'c', 'd', 'e'], dtype='O')"]


# sets of several things of a kind, and mappings whose keys cannot be ordered
ODDC = ["set([1, 2, 3])", "set([Opaque(), Opaque()])", "frozenset([1.5, 2.5])", "set([Opaque()])", "frozenset([Opaque(), Opaque(), Opaque()])", "set([b'a', b'b'])", "set([True, False])",
        "set([dt.date(2014, 1, 1), dt.date(2015, 1, 1)])", "set([(1, 2), (3, 4)])", "[set([1, 2]), set([3, 4])]", "{1: 1, 'a': 2}", "{1: 1, 'a': 2, 'b': 3, 'cc': 4, 'd': 5}", "{'a': 1, None: 2}",
        "{1: 1, 2.5: 2, True: 3}", "{b'a': 1, 'a': 2}", "OD([(1, 1), ('a', 2)])", "[{1: 1}, {'a': 1}]", "{(1, 2): 1, (1, 3): 2}", "{(1,): 1, 'x': 2}", "{dt.date(2014, 1, 1): 1, 'x': 2}", "MP({2: 1, 'b': [1, 2]})",
        "{1: 'a', 2: 'b'}", "{frozenset([1]): 1, frozenset([2]): 2}"]


def sval(r, g=None):
    g = g or r.choice(list(SC_GROUPS))
    if g == 'str':
        return repr(r.choice(STRS))
    return r.choice(SC_GROUPS[g])


def big_value(r):
    """A long, wide or deep value."""
    k = r.randrange(10)
    g = r.choice(['int', 'float', 'bool', 'str', 'date', 'np', 'none'])
    n = r.choice((11, 14, 18, 22, 27, 33, 41, 55, 70, 110)[:5 if g == 'str' else 10])
    a, b, c = sval(r, g), sval(r, g if r.random() < 0.5 else None), sval(r, r.choice(['int', 'none', 'str', g]))
    if "'" in a + b + c:
        n = min(n, 27)
    if k < 3:
        e = r.choice(('[%s] * %d + [%s] + [%s] * 9', '[%s] * %d + [%s] * 2 + [%s]', '(%s,) * %d + (%s, %s)')) % (a, n, b, c if r.random() < 0.5 else a)
        return 'MyList(%s)' % e if r.random() < 0.1 else e
    if k == 3:
        return '[(%s, %s)] * %d + [(%s, %s)] + [(%s, %s)]' % (a, c, n, b, c, a, c)
    if k == 4:
        w = r.choice(('dict', 'dict', 'OD', 'MP'))
        e = "[('k%%02d' %% (i * %d %% %d), [%s, %s, %s][i %% 3]) for i in range(%d)]" % (r.choice((1, 7, 5)), n if n % 7 and n % 5 else n + 1, a, b, c, n)
        return 'MP(dict(%s))' % e if w == 'MP' else '%s(%s)' % (w, e)
    if k == 5:
        return "[dict(('k%%d' %% i, %s) for i in range(%d)), dict(('k%%d' %% i, %s) for i in range(%d))]" % (a, min(n, 30), b, min(n, 30))
    if k == 6:
        m = r.choice((6, 12, 20))
        return '[' * m + a + ']' * m
    if k == 7:
        return r.choice(("'x' * %d", "'1' * %d", "'1 day' + ' ' * %d", "'a b ' * %d", "b'x' * %d", "' ' * %d", "'2014-01-01' + ' ' * %d", "'-' * %d")) % n
    if k == 8:
        return r.choice(("np.array(['a'] * %d + [1], dtype='O')", "np.array([1] + ['a'] * %d, dtype='O')", 'np.ones(1).reshape((1,) * %d)', "np.zeros(%d, [('f%%d' %% i, 'i4') for i in range(20)])",
                         "np.array(['a'] * %d, dtype='O')", "np.array([None] * %d)", "np.arange(%d)")) % min(n, 20)
    return r.choice(('set(range(%d))', 'frozenset(range(%d))', "set('a%%d' %% i for i in range(%d))", 'list(range(%d))', 'tuple(range(%d))')) % n


def value(r, d=2):
    if d == 2 and r.random() < 0.04:
        return big_value(r)
    k = r.random()
    if d <= 0 or k < 0.25:
        return sval(r)
    if k < 0.33:
        return r.choice(ARRS) if r.random() < 0.85 else r.choice(ODDC)
    if k < 0.50:
        g = r.choice(['int', 'float', 'bool', 'str', 'date', 'datetime', 'timedelta', 'np', 'none'])
        xs = [sval(r, g if r.random() < 0.8 else r.choice(['int', 'float', 'none', 'str', 'bool']))
              for _ in range(r.choice((0, 1, 2, 3, 5)))]
        return seq(r, xs)
    if k < 0.62:
        # rows of a table
        m = r.choice((1, 2, 3))
        cols = [r.choice(['int', 'float', 'str', 'bool', 'none', 'date', 'datetime']) for _ in range(m)]
        rows = []
        for _ in range(r.choice((1, 2, 3))):
            c = [sval(r, g if r.random() < 0.85 else r.choice(['none', 'str', 'int'])) for g in cols]
            if r.random() < 0.08:
                c = c[:-1]
            rows.append('(%s,)' % ', '.join(c) if c else '()')
        return '[%s]' % ', '.join(rows)
    if k < 0.74:
        ks = r.sample(['a', 'b', 'name', 'amount'], r.choice((1, 2, 3)))
        rows = []
        for _ in range(r.choice((1, 2, 3))):
            kk = [x for x in ks if r.random() < 0.9]
            rows.append('{%s}' % ', '.join('%r: %s' % (x, value(r, d - 2)) for x in kk))
        return '[%s]' % ', '.join(rows)
    if k < 0.84:
        ks = r.sample(['a', 'b', 'name', 'amount', '1'], r.choice((0, 1, 2, 3)))
        if r.random() < 0.3:
            # of one kind
            g = r.choice([None, None, [x for x in ARRS if 'dtype' not in x], ['[1, 2]', '(1, 2)', '[]', '[1.5]'], ["{'a': 1}", "{'b': 'x'}", '{}']] + list(SC_GROUPS))
            one = (lambda: r.choice(ARRS)) if g is None else (lambda: r.choice(g)) if isinstance(g, list) else (lambda: sval(r, g))
            if r.random() < 0.3:
                return seq(r, [one() for _ in range(r.choice((2, 3, 4)))], sets=False)
            body = ', '.join('%r: %s' % (x, one()) for x in ks)
        else:
            body = ', '.join('%r: %s' % (x, value(r, d - 1)) for x in ks)
        w = r.random()
        return '{%s}' % body if w < 0.6 else 'MP({%s})' % body if w < 0.8 else 'OD({%s})' % body
    return seq(r, [value(r, d - 1) for _ in range(r.choice((1, 2, 2, 3)))], sets=False)


def seq(r, xs, sets=True):
    k = r.random()
    if k < 0.6:
        return '[%s]' % ', '.join(xs)
    if k < 0.85 or not sets:
        return '(%s)' % ''.join(x + ', ' for x in xs)
    if k < 0.9:
        return 'MyList([%s])' % ', '.join(xs)
    if k < 0.95 or not xs:
        return 'frozenset([%s])' % ', '.join(xs[:1])
    return 'set([%s])' % ', '.join(xs[:1])


# ---------------------------------------------------------------- operation families

def idx(r):
    return r.choice(['0', '1', '-1', '5', ':', '0:3', '1:', ':-1', '0:7:2', '::2', '[0, 1]', '[]',
                     "'a'", "'name'", "['a']", "['a', 'b']", '(0, 0)', '(slice(None), 0)',
                     "(slice(None), 'a')", "(slice(0, 3), ['a'])", '(None, 0)', '()', 'True', '1.5',
                     '(slice(None), slice(None))', '(0, 1, 2)', '2:1', "'missing'", '-3:', '(slice(None), [0])'])


def f_parse(r, S):
    s = ds(r, 3)
    k = r.random()
    if k < 0.55:
        return 'D.dshape(%r)' % s
    if k < 0.65:
        return 'parse(%r)' % s
    if k < 0.85:
        return 'D.dshape(%r)' % noisy(r, s)
    return 'D.dshapes(%r, %r)' % (s, ds(r, 1))


def f_bad(r, S):
    k = r.random()
    if k < 0.8:
        return '%s(%r)' % (r.choice(['D.dshape', 'D.dshape', 'parse', 'lexall']), bad(r))
    return r.choice(BADBUILD)


def f_lex(r, S):
    s = bad(r) if r.random() < 0.3 else noisy(r, ds(r, 2))
    return 'lexall(%r)' % s


# objects whose printing fails, alone and inside others
NOPRINT = ["D.String('q', 'A')", "D.Record([('x', 'int32'), ('y', D.String('q', 'A'))])", "D.Tuple([D.int32, D.String('q', 'A')])",
           "D.DataShape(3, D.String('q', 'A'))", "D.Record([('x', D.Record([('y', D.Tuple([D.String('q', 'A')]))]))])",
           "D.Option(D.String('q', 'A'))", "D.Record([('a' * 90, 'int32'), ('y', D.String('q', 'A'))])"]


def f_print(r, S):
    o = obj(r, 3, S) if r.random() > 0.07 else r.choice(NOPRINT)
    return _fmt(r, o)


def _fmt(r, o):
    k = r.randrange(5)
    if k == 0:
        return 'str(%s)' % o
    if k == 1:
        return 'repr(%s)' % o
    if k == 2:
        return 'D.pprint(%s)' % o
    if k == 3:
        return 'D.pprint(%s, width=%d)' % (o, r.choice((0, 10, 20, 30, 50, 120)))
    return '[str(%s), repr(%s)]' % (o, o)


def f_eq(r, S):
    a = obj(r, 2, S)
    b = a if r.random() < 0.3 else obj(r, 2, S)
    if r.random() < 0.2:
        b = r.choice(['3', "'int32'", 'None', 'D.int32', '(D.int32,)', '0'])
    return r.choice(['eqh(%s, %s)', '%s == %s', 'member(%s, [%s])', '%s != %s']) % (a, b)


def f_build(r, S):
    if S and r.random() < 0.3:
        o = obj(r, 1, S)
        return r.choice(['3 * %s', 'D.Option(%s)', "D.Record([('k', %s)])", 'D.Tuple([%s])',
                         'D.DataShape(2, %s)', 'D.Map("int32", %s)', 'D.Function(D.int32, %s)',
                         'D.Fixed(3) * %s', 'D.dshape(%s)']) % o
    return build(r)


def f_index(r, S):
    o = obj(r, 2, S)
    k = r.randrange(9)
    if k < 5:
        return '%s.subshape[%s]' % (_p(o), idx(r))
    if k == 5:
        return '%s.subarray(%d)' % (_p(o), r.choice((0, 1, 2, 3, -1)))
    if k == 6:
        return '%s[%s]' % (_p(o), r.choice(['0', '-1', '1:', "'a'", '5']))
    if k == 7:
        return 'attr(%s, "shape", "measure", "parameters", "itemsize", "alignment")' % o
    return 'attr(%s.measure, "names", "types", "fields", "dict", "ty", "dshapes", "restype", "argtypes")' % _p(o)


def _p(o):
    return o if ' ' not in o or o.startswith('D.') and ' * ' not in o.split('(')[0] and o.endswith(')') \
        and not o.startswith('D.var *') and not o.startswith('D.Fixed') else '(%s)' % o


NPDT = ["'i4'", "'>i8'", "'u1'", "'f4'", "'f8'", "'c8'", "'?'", "'S5'", "'U7'", "'M8[D]'", "'M8[us]'",
        "'m8[s]'", "'O'", "[('a', 'i4'), ('b', 'f8')]", "[('p', [('q', 'i2')])]", "'V4'", "'f2'", "'m8'",
        "[('x', 'f4', (2, 3))]", "'c16'", "'M8'", "'M8[Y]'"]


def f_numpy(r, S):
    k = r.randrange(5)
    if k == 0:
        return 'D.to_numpy(%s)' % obj(r, 2, S)
    if k == 1:
        return 'D.to_numpy_dtype(%s)' % obj(r, 2, S)
    if k == 2:
        return 'D.from_numpy(%s, np.dtype(%s))' % (r.choice(['()', '(3,)', '(2, 3)', '(0,)', '[4]']), r.choice(NPDT))
    if k == 3:
        return 'D.CType.from_numpy_dtype(np.dtype(%s))' % r.choice(NPDT)
    return 'D.to_numpy(D.from_numpy(%s, %s))' % (r.choice(['()', '(3,)', '(2, 3)']), r.choice(NPDT))


def f_discover(r, S):
    return 'D.discover(%s)' % value(r, 3)


def f_promote(r, S):
    def sc():
        k = r.random()
        if k < 0.5:
            return 'D.' + r.choice(['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
                                    'float16', 'float32', 'float64', 'complex64', 'complex128', 'bool_',
                                    'string', 'date_', 'datetime_', 'timedelta_', 'object_'])
        if k < 0.75:
            return 'D.Option(D.%s)' % r.choice(['int32', 'int64', 'float64', 'string', 'date_', 'uint8'])
        return r.choice(["D.TimeDelta('ms')", "D.TimeDelta('D')", "D.String(10, 'A')", "D.String(5)",
                         "D.Decimal(9)", "D.Decimal(7, 2)", "D.Option(D.Decimal(4))", "D.dshape('int32')",
                         "D.DateTime('UTC')", "D.json"])
    a, b = sc(), sc()
    k = r.randrange(5)
    if k < 3:
        return 'D.promote(%s, %s%s)' % (a, b, r.choice(['', '', ', promote_option=False', ', True']))
    if k == 3:
        return 'D.optionify(%s, %s, %s)' % (a, b, sc())
    return 'D.typesets.%s(%s)' % (r.choice(['maxtype', 'supertype']), a)


PREDS = ['isdimension', 'ishomogeneous', 'istabular', 'isfixed', 'isscalar', 'isrecord', 'iscollection',
         'isnumeric', 'isboolean', 'isdatelike', 'isreal', 'has_var_dim', 'has_ellipsis']


def f_pred(r, S):
    p = r.choice(PREDS)
    if r.random() < 0.35 and p not in ('has_var_dim', 'has_ellipsis'):
        return 'D.%s(%r)' % (p, ds(r, 2))
    o = obj(r, 2, S)
    if r.random() < 0.2:
        return '[f(%s) for f in (%s)]' % (o, ', '.join('D.' + x for x in r.sample(PREDS[4:6] + PREDS[11:], 3)))
    return 'D.%s(%s)' % (p, o)


def f_sets(r, S):
    t = r.choice(['integral', 'floating', 'complexes', 'boolean', 'numeric', 'scalar', 'signed', 'unsigned'])
    x = 'D.' + r.choice(['int8', 'uint64', 'float32', 'float16', 'complex64', 'bool_', 'string', 'int_', 'real'])
    k = r.randrange(8)
    if k == 0:
        return '%s in D.%s' % (x, t)
    if k == 1:
        return 'D.matches_typeset((%s, %s), (D.%s, %s))' % (x, x, t, x)
    if k == 2:
        return 'list(D.%s)' % t
    if k == 3:
        u = r.choice(['D.integral', 'D.boolean', 'D.floating'])
        return 'D.%s | %s' % (t, u)
    if k == 4:
        return '[len(D.%s), str(D.%s), repr(D.%s), D.%s.types]' % (t, t, t, t)
    if k == 5:
        return 'D.TypeSet(%s)' % ', '.join(r.sample(['D.int32', 'D.int64', 'D.float32', 'D.string'], 2))
    if k == 6:
        return 'eqh(D.TypeSet(D.int32, %s), D.TypeSet(D.int32, %s))' % (x, x)
    return 'D.matches_typeset(%s, D.%s)' % (x, t)


def f_util(r, S):
    k = r.randrange(4)
    if k == 0:
        m = measure(r, 1)
        return 'D.cat_dshapes(D.dshapes(%r, %r%s))' % (
            '%d * %s' % (r.randrange(5), m), '%d * %s' % (r.randrange(5), m if r.random() < 0.8 else 'int8'),
            ', %r' % ('2 * ' + m) if r.random() < 0.3 else '')
    if k == 1:
        return 'collect(%s, %s)' % (r.choice(['isunit', 'isdim', 'isstr', 'D.isscalar']), obj(r, 2, S))
    if k == 2:
        return 'D.has_var_dim(%s)' % obj(r, 2, S)
    return 'D.has_ellipsis(%s)' % obj(r, 2, S)


VAL = [("'int32'", ['1', 'True', '1.5', 'np.int32(1)', "'a'", 'None', 'MyInt(2)']),
       ("D.int64", ['1', 'np.int64(1)', '1.0', 'np.int32(1)']), ("D.float64", ['1.5', '1', 'np.float32(1)']),
       ("'3 * int32'", ['[1, 2, 3]', '(1, 2)', "[1, 'a', 3]", '[1.0, 2.0, 3.0]', 'np.arange(3, dtype="i4")']),
       ("'var * int32'", ['[]', '[1]', '(1, 2, 3)']), ("'{a: int32, b: string}'",
                                                       ["{'a': 1, 'b': 'x'}", "{'a': 1}", "(1, 'x')", "[1, 2]", '5']),
       ("'var * {a: int64, b: ?string}'", ["[{'a': 1, 'b': 'x'}]", "[(1, 'x')]"]),
       ("'string'", ["'a'", '1', "b'a'"]), ("int", ['1', 'True', "'a'"]), ("(int, str)", ['1', "'a'", '1.5']),
       ("'date'", ["dt.date(2014, 1, 1)", "dt.datetime(2014, 1, 1)", "'2014-01-01'"]),
       ("'datetime'", ["dt.datetime(2014, 1, 1)", "dt.date(2014, 1, 1)"]), ("'time'", ['dt.time(1)', '1']),
       ("np.dtype('i4')", ['1', 'np.int32(1)', '1.5']), ("'?int32'", ['1', 'None']), ("None", ['None']),
       ("'2 * 2 * int32'", ['[[1, 2], [3, 4]]', '[[1, 2], [3]]', 'np.zeros((2, 2), dtype="i4")'])]


def f_validate(r, S):
    if r.random() < 0.25:
        a = ds(r, 1)
        return 'D.issubschema(%r, %r)' % (a, a if r.random() < 0.5 else ds(r, 1))
    s, vs = r.choice(VAL)
    return 'D.validate(%s, %s)' % (s, r.choice(vs) if r.random() < 0.85 else value(r, 1))


def _reorder(r, d):
    """A record text and the same fields in another order, nested in something."""
    n = r.sample(['a', 'b', 'x', 'id', "'two words'"], r.choice((2, 3)))
    fs = ['%s: %s' % (k, measure(r, d)) for k in n]
    gs = fs[:]
    r.shuffle(gs)
    w = r.choice(['{%s}', '3 * {%s}', '{z: {%s}}', '({%s}, int8)', '?{%s}', '{%s}', 'var * {q: int32, z: 2 * {%s}}'])
    return w % ', '.join(fs), w % ', '.join(gs)


def f_assert(r, S):
    s = ds(r, 2)
    t = s
    if r.random() < 0.2:
        s, t = _reorder(r, 1)
        return 'ae(D.dshape(%r), D.dshape(%r)%s)' % (s, t, r.choice(['', ', check_record_order=False', ', check_record_order=True',
                                                                      ', check_record_order=False, check_tz=False']))
    k = r.random()
    if k < 0.5:
        for a, b in (('int32', 'int64'), ('string', 'json'), ('var', '3'), ("'UTC'", "'EST'"), ("'ms'", "'D'"),
                     ('3', '5'), ('float64', 'string[10]')):
            if a in s and r.random() < 0.6:
                t = s.replace(a, b, 1)
                break
        else:
            t = ds(r, 2)
    kw = ''.join(', %s=False' % x for x in ['check_dim', 'check_tz', 'check_timedelta_unit',
                                            'check_str_encoding', 'check_str_fixlen',
                                            'check_record_order'] if r.random() < 0.15)
    if S and r.random() < 0.4:
        return 'ae(S[%d], S[%d]%s)' % (r.randrange(S), r.randrange(S), kw)
    return 'ae(D.dshape(%r), D.dshape(%r)%s)' % (s, t, kw)


def f_units(r, S):
    u = r.choice(['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y', 'year', 'years', 'weeks', 'day', 'days',
                  ' ms ', 'nanoseconds', 'seconds', 'date', 'minute', 'xyz', 'MS', 'd', 'microsecond'])
    return r.choice(['D.coretypes.normalize_time_unit(%r)', 'D.TimeDelta(unit=%r)',
                     'D.discovery.deltaparse("3 " + %r)', 'D.discover("7 " + %r)']) % u


def f_unite(r, S):
    xs = [r.choice(['D.int32', 'D.int64', 'D.float64', 'D.string', 'D.null', 'D.bool_', 'D.date_', 'D.datetime_',
                    "D.dshape('int64')", "D.dshape('null')"]) for _ in range(r.choice((1, 2, 3)))]
    k = r.randrange(6)
    if k == 0:
        return 'D.discovery.unite_base([%s])' % ', '.join(xs)
    if k == 1:
        return 'D.discovery.unite_identical([%s])' % ', '.join(xs)
    if k == 2:
        return 'D.discovery.unite_merge_dimensions([%s])' % ', '.join('%d * %s' % (r.randrange(4), xs[0]) for _ in xs)
    if k == 3:
        return 'D.discovery.lowest_common_dshape([%s])' % ', '.join(xs)
    if k == 4:
        return 'D.discovery.timeparse(%r)' % r.choice(['12:30:00', '12:30', 'x', '1:2:3.5', '25:00:00'])
    return 'D.discovery.unite_base([D.Record([("a", %s)]), D.Record([("a", %s)])])' % (xs[0], xs[-1])


def f_pickle(r, S):
    o = obj(r, 2, S)
    k = r.randrange(7)
    if k < 3:
        return 'rt(%s, %d)' % (o, r.choice((2, 2, 3, 4, 5)))
    if k == 3:
        return 'copy.copy(%s)' % o
    if k == 4:
        return 'copy.deepcopy(%s)' % o
    if k == 5:
        return 'rt([%s, %s], %d)' % (o, o, r.choice((2, 4)))
    return 'eqh(rt(%s), %s)' % (o, o)


# names that something converted, printed or discovered might be entered under
DTNAMES = ['int8', 'bool', 'str', 'str160', 'str224', 'bytes40', 'bytes8', 'object', 'void', 'void32', 'float16', 'complex128', 'datetime64', 'datetime64[D]', 'datetime64[us]', 'datetime64[ns]', 'datetime64[Y]',
           'timedelta64', 'timedelta64[ms]', 'timedelta64[D]', 'timedelta64[s]', 'U8', 'U32', 'A', 'ascii', 'utf8', 'T', 'N', 'A...', '...', 'var', '3', 'None', 'true', 'Date', 'Fixed', 'zz', '', 'int', 'float',
           'a', 'UTC', 'ms', 'm', '?int32', '3 * int32', '{a: int32}', 'numeric', 'integral', 'mine', 'hello', 'date_', 'bool_', 'ctype("int32")', 'String', 'TypeSet', 'tuple', 'record', 'struct', 'option']
ALLNAMES = '[look(n) for n in %r]' % DTNAMES


TABLES = ["table()", "table()", "table(bare=True)", "table([('foo', D.int8), ('bar', D.Record([('q', 'int8')]))])", "table([('int32', D.string)])", "table(dim=[('many', D.var), ('five', D.Fixed(5))])",
          "table(dtype_constr=[('pick', lambda *a: D.Option(a[0]))])", "table(dtype_constr=[('tuple', lambda *a: D.dshape('3 * int8')[1])])", "table(dtype_constr=[('cat', lambda c, **k: D.Categorical(c, **k))])",
          "table([('x', D.int8)], bare=True)", "table(dtype_constr=[('boom', lambda *a: 1 // 0)])", "table(dtype_constr=[('again', lambda *a: parse('(int8, %s)' % str(a[0]))[0])])", "copy.deepcopy(table([('z', D.date_)]))",
          "table([('T1', D.int8)], [('N', D.Fixed(9))])", "table(dim_constr=[('rep', lambda n: D.Fixed(n))])"]
TTEXTS = ['int32', '3 * int32', 'foo', '3 * {a: foo, b: bar}', 'many * five * int8', 'pick[int8]', '(int8, string)', "cat[['a', 'b'], ordered=True]", 'x', 'boom[3]', '3 * boom[int8]', 'again[int8]', 'z', 'N * T1', '{a: ?foo}', 'rep[3] * int8',
          "string['A']", 'option[int8]', '?x', '(foo) -> bar', 'cat[[True, False]]', 'many * x', 'tuple[[int8, foo]]', 'struct[["a"], [foo]]', 'map[foo, x]', 'pick[3, "a"]', 'pick[[1, 2, 3]]', 'pick[[true, false]]', 'pick[[]]', 'pick[a=1]',
          'pick[int8', 'pick[int8,]', 'pick[=3]', 'cat[[1, "a"]]', 'cat[[true, 1]]', 'foo[3]', '... * foo', 'foo * int8']


def f_table(r, S):
    t = r.choice(TABLES)
    k = r.random()
    if k < 0.2:
        return '[sorted(%s.%s) for t in (%s,)]' % ('t', r.choice(('dtype', 'dim', 'dtype_constr', 'dim_constr')), t)
    if k < 0.3:
        return '[(n, repr(t.dtype[n])) for t in (%s,) for n in sorted(t.dtype)]' % t
    if k < 0.8:
        return 'parse(%r, %s)' % (_ttext(r, t), t)
    return '[str(parse(s, t)) for t in (%s,) for s in (%s)]' % (t, ', '.join(repr(_ttext(r, t)) for _ in range(2)))


def _ttext(r, t):
    if r.random() < 0.7:
        xs = [x for x in TTEXTS if any("'%s'" % w in t for w in re.findall('[A-Za-z]+', x))]
        if xs:
            return r.choice(xs)
    return r.choice(TTEXTS)


def f_names(r, S):
    if r.random() < 0.4:
        return ALLNAMES
    if r.random() < 0.5:
        return 'look(%r)' % r.choice(DTNAMES + SCALARS)
    return 'known(%s)' % obj(r, 2, S)


FAMILIES = {'names': (f_names, 1), 'table': (f_table, 2), 'parse': (f_parse, 5), 'bad': (f_bad, 3), 'lex': (f_lex, 2), 'print': (f_print, 4), 'eq': (f_eq, 4),
            'build': (f_build, 4), 'index': (f_index, 4), 'numpy': (f_numpy, 3), 'discover': (f_discover, 7),
            'promote': (f_promote, 3), 'pred': (f_pred, 3), 'sets': (f_sets, 2), 'util': (f_util, 2),
            'validate': (f_validate, 3), 'assert': (f_assert, 3), 'units': (f_units, 1), 'unite': (f_unite, 2),
            'pickle': (f_pickle, 2)}
NAMES_F = list(FAMILIES)
WEIGHTS = [FAMILIES[k][1] for k in NAMES_F]


def op(r, family=None, S=0):
    f = family or r.choices(NAMES_F, WEIGHTS)[0]
    return FAMILIES[f][0](r, S)


# Groups of calls whose arguments are easily confused: equal but different, same
# text up to spelling, same length, same type, and so on.
TWINS = [
    ['D.discover(1)', 'D.discover(True)', 'D.discover(1.0)', 'D.discover(np.int64(1))', 'D.discover(np.int8(1))',
     'D.discover(np.bool_(True))', 'D.discover(1+0j)', 'D.discover(MyInt(1))'],
    ['D.discover([1, 0])', 'D.discover([True, False])', 'D.discover([1.0, 0.0])', 'D.discover((1, 0))',
     'D.discover(((1, 0),))', 'D.discover([1, 0.0])', 'D.discover([1, None])', 'D.discover([True, 0])'],
    ['D.discover((1, 2))', 'D.discover((1.0, 2.0))', 'D.discover((True, 2))', 'D.discover((1, "2"))',
     'D.discover(NT(1, 2))', 'D.discover([1, 2])', 'D.discover((1, 2, 3))'],
    ["D.discover({'a': 1})", "D.discover({'a': True})", "D.discover({'a': 1.0})", "D.discover(OD([('a', 1)]))",
     "D.discover(MP({'a': 1}))", "D.discover([{'a': 1}])", "D.discover({'a': [1]})", "D.discover({'a': None})"],
    ["D.discover(OD([('a', 1), ('b', 2)]))", "D.discover(OD([('b', 2), ('a', 1)]))", "D.discover({'b': 2, 'a': 1})"],
    ["D.discover('1')", "D.discover(' 1')", "D.discover('1.0')", "D.discover('01')", "D.discover(1)", "D.discover(b'1')",
     "D.discover('True')", "D.discover('TRUE')", "D.discover('1 ')", "D.discover('1 day')"],
    ["D.discover('2014-01-01')", "D.discover('2014-01-01 00:00')", "D.discover('2014-01-01 00:01')",
     "D.discover(dt.date(2014, 1, 1))", "D.discover(dt.datetime(2014, 1, 1))", "D.discover('2014-01-01x')"],
    ["D.discover(dt.timedelta(1))", "D.discover('1 day')", "D.discover('1 D')", "D.discover('24 hours')",
     "D.discover(np.timedelta64(1, 'D'))", "D.discover(np.timedelta64(24, 'h'))"],
    ["D.discover([])", "D.discover(())", "D.discover({})", "D.discover('')", "D.discover([[]])", "D.discover([{}])",
     "D.discover([()])", "D.discover(None)", "D.discover(OD())"],
    ["D.discover([(1, 2), (3, 4)])", "D.discover([(1, 'a'), (3, 4)])", "D.discover([(1, None), (3, 4)])",
     "D.discover([[1, 2], [3, 4]])", "D.discover([(1,), (3, 4)])", "D.discover(np.array([(1, 2), (3, 4)]))"],
    ["D.discover(np.array([1, 2]))", "D.discover(np.array([1, 2], dtype='i4'))", "D.discover(np.array([1.0, 2]))",
     "D.discover(np.array([[1, 2]]))", "D.discover(np.array([1, 2], dtype='O'))", "D.discover(ArrLike((2,), 'i8'))"],
    ["D.discover(np.array(['a'], dtype='O'))", "D.discover(np.array([1], dtype='O'))", "D.discover(np.array(['a']))",
     "D.discover(np.array([None], dtype='O'))"],
    ["D.discover(Opaque())", "D.discover(ArrLike((2,), 'i4'))", "D.discover(ArrLike((3,), 'f4'))", "D.discover(MyList([1]))",
     "D.discover(MyDict(a=1))"],
    ["D.discover([1, 'a', 2.5])", "D.discover(['1', 'a', '2.5'])", "D.discover([1, 2.5])", "D.discover([1, 'a'])"],
    ["D.dshape('3 * int32')", "D.dshape('3*int32')", "D.dshape(' 3 * int32 ')", "D.dshape('3 * int32 # x')",
     "D.dshape('3 * int')", "D.dshape('3 * int64')", "D.dshape('13 * int32')", "D.dshape(D.dshape('3 * int32'))",
     "D.dshape([3, 'int32'])", "D.dshape((3, D.int32))"],
    ["D.dshape('int3')", "D.dshape(' int3')", "D.dshape('int3 ')", "D.dshape('int3\\n')", "D.dshape('\\nint3')",
     "D.dshape('int33')", "lexall('int3')", "parse('int3')"],
    ["D.dshape('{a: int32, b: string}')", "D.dshape('{b: string, a: int32}')", "D.dshape('{a:int32,b:string}')",
     "D.dshape('{a: int32, b: string,}')", "D.dshape(\"{'a': int32, 'b': string}\")", "D.dshape(\"{'a ': int32, b: string}\")",
     "D.dshape('{A: int32, b: string}')", "D.dshape(\"{'a  b': int32}\")", "D.dshape(\"{'a b': int32}\")"],
    ["D.dshape('(int32, string)')", "D.dshape('(int32, string,)')", "D.dshape('(string, int32)')",
     "D.dshape('(int32) -> string')", "D.dshape('(int32, string) -> int8')", "D.dshape('(int32)')"],
    ["D.dshape(\"datetime[tz='UTC']\")", "D.dshape(\"datetime[tz='utc']\")", "D.dshape('datetime')", "D.dshape(\"time[tz='UTC']\")",
     "D.DateTime('UTC')", "D.DateTime()"],
    ["D.dshape(\"string['A']\")", "D.dshape(\"string['ascii']\")", "D.dshape('string')", "D.dshape(\"string['U8']\")",
     "D.dshape(\"string[1]\")", "D.String(1)", "D.String('A')", "D.String(True)", "D.String(1, 'A')"],
    ["D.dshape('T')", "D.dshape('T * T')", "D.dshape('T... * T')", "D.dshape('T * int32')", "D.dshape('... * int32')",
     "D.dshape('... * ... * int32')"],
    ["D.dshape('?int32')", "D.dshape('? int32')", "D.dshape('option[int32]')", "D.dshape('3 * ?int32')", "D.dshape('?3 * int32')",
     "D.dshape('??int32')"],
    ["D.dshape('')", "D.dshape(' ')", "D.dshape('#')", "D.dshape('\\n')", "lexall('')", "lexall('#')"],
    ["str(D.DataShape(D.int32))", "str(D.int32)", "repr(D.DataShape(D.int32))", "repr(D.int32)", "str(D.dshape('int32'))"],
    ["D.pprint(D.dshape('{a: int32, b: (string, real)}'))", "D.pprint(D.dshape('{a: int32, b: (string, real)}'), 10)",
     "D.pprint(D.dshape('{a: int32, b: (string, real)}'), width=10)", "repr(D.dshape('{a: int32, b: (string, real)}'))",
     "str(D.dshape('3 * {a: int32, b: (string, real)}'))", "D.pprint(D.dshape('3 * {a: int32, b: (string, real)}'), width=12)"],
    ["D.Decimal(1, 1)", "D.Decimal(1, True)", "D.Decimal(1.0, 1)", "D.Decimal(1)", "D.Decimal(1, 0)", "D.Decimal(True, False)"],
    ["D.Categorical([1, 2])", "D.Categorical([1.0, 2.0])", "D.Categorical([True, 2])", "D.Categorical((1, 2))",
     "D.Categorical(['1', '2'])", "D.Categorical([1, 2], ordered=True)", "D.Categorical([1, 2], ordered=1)"],
    ["D.Fixed(3) == 3", "D.Fixed(3) == 3.0", "D.Fixed(1) == True", "D.Fixed(3) == D.Fixed(3)", "D.Fixed(3) == D.dshape('3 * int32')[0]",
     "eqh(D.DataShape(D.int32), D.int32)", "eqh(D.dshape('int32'), D.dshape('int'))"],
    ["D.Fixed(1)", "D.Fixed(True)", "D.Fixed(np.int64(1))", "1 * D.int32", "True * D.int32", "D.DataShape(True, D.int32)"],
    ["D.from_numpy((3,), 'i4')", "D.from_numpy((3,), '>i4')", "D.from_numpy([3], 'i4')", "D.from_numpy((True,), 'i4')",
     "D.from_numpy((), 'i4')", "D.from_numpy((3,), 'i8')", "D.from_numpy((3,), 'u4')"],
    ["D.from_numpy((), 'S5')", "D.from_numpy((), 'U5')", "D.from_numpy((), 'S20')", "D.from_numpy((), 'U20')", "D.from_numpy((), 'O')"],
    ["D.from_numpy((), 'M8[D]')", "D.from_numpy((), 'M8[us]')", "D.from_numpy((), 'm8[D]')", "D.from_numpy((), 'm8[us]')", "D.from_numpy((), 'M8')"],
    ["D.from_numpy((2,), [('a', 'i4'), ('b', 'f8')])", "D.from_numpy((2,), [('b', 'f8'), ('a', 'i4')])",
     "D.from_numpy((2,), np.dtype([('a', 'i4'), ('b', 'f8')], align=True))", "D.from_numpy((2,), [('a', 'i4', (2,)), ('b', 'f8')])"],
    ["D.to_numpy(D.dshape('3 * int32'))", "D.to_numpy(D.dshape('N * int32'))", "D.to_numpy(D.dshape('var * int32'))",
     "D.to_numpy(D.dshape('int32'))", "D.to_numpy(D.int32)", "D.to_numpy(D.dshape('3 * ?int32'))", "D.to_numpy_dtype(D.dshape('3 * int32'))"],
    ["D.to_numpy(D.dshape('string'))", "D.to_numpy(D.dshape('string[5]'))", "D.to_numpy(D.dshape(\"string[5, 'A']\"))",
     "D.to_numpy(D.dshape('?date'))", "D.to_numpy(D.dshape('date'))", "D.to_numpy(D.dshape('datetime'))"],
    ["D.promote(D.int32, D.int64)", "D.promote(D.int64, D.int32)", "D.promote(D.int32, D.Option(D.int64))",
     "D.promote(D.Option(D.int32), D.int64, promote_option=False)", "D.promote(D.Option(D.int32), D.int64)", "D.promote(D.Option(D.int32), D.Option(D.int32))",
     "D.promote(D.Option(D.int32), D.int32, False)", "D.promote(D.int32, D.int32)"],
    ["D.promote(D.string, D.Option(D.string))", "D.promote(D.string, D.string)", "D.promote(D.String(5), D.String(7))",
     "D.promote(D.string, D.int32)", "D.promote(D.string, D.Option(D.string), promote_option=False)"],
    ["D.validate('int32', 1)", "D.validate('int32', True)", "D.validate('int32', 1.0)", "D.validate('int32', np.int32(1))", "D.validate(D.int32, 1)",
     "D.validate(int, 1)", "D.validate(np.dtype('i4'), 1)", "D.validate('int64', 1)"],
    ["D.validate('3 * int32', [1, 2, 3])", "D.validate('3 * int32', [1, 2])", "D.validate('var * int32', [1, 2])",
     "D.validate('3 * int32', (1, 2, 3))", "D.validate('3 * int64', [1, 2, 3])", "D.validate('3 * int32', [1.0, 2.0, 3.0])"],
    ["D.validate('{a: int64}', {'a': 1})", "D.validate('{a: int64}', (1,))", "D.validate('{a: int64}', {'b': 1})", "D.validate('{b: int64}', {'a': 1})"],
    ["D.validate((int, str), 1)", "D.validate((str, int), 1)", "D.validate((str,), 1)", "D.validate((int, str), 'a')", "D.validate(('int64', 'string'), 'a')"],
    ["D.isscalar('int32')", "D.isscalar('?int32')", "D.isscalar(D.int32)", "D.isscalar('{a: int32}')", "D.isscalar(D.dshape('3 * int32'))",
     "D.isscalar(D.Categorical([1]))"],
    ["D.isrecord('{a: int32}')", "D.isrecord('?{a: int32}')", "D.isrecord('3 * {a: int32}')", "D.isrecord(D.Record([('a', 'int32')]))"],
    ["D.isfixed('10 * int32')", "D.isfixed('var * int32')", "D.isfixed('N * int32')", "D.isfixed('10 * {a: var * int32}')", "D.isfixed('{a: var * int32}')"],
    ["D.isnumeric('int32')", "D.isnumeric('?int32')", "D.isnumeric('string')", "D.isreal('float32')", "D.isreal('int32')", "D.isboolean('bool')",
     "D.isboolean('3 * ?bool')", "D.isdatelike('date')", "D.isdatelike('time')"],
    ["D.dshape('var * {a: int32, b: string}').subshape[0]", "D.dshape('var * {a: int32, b: string}').subshape[0:1]",
     "D.dshape('var * {a: int32, b: string}').subshape[:]", "D.dshape('var * {a: int32, b: string}').subshape[[0]]",
     "D.dshape('var * {a: int32, b: string}').subshape[0, 'a']", "D.dshape('var * {a: int32, b: string}').subshape[:, 'a']",
     "D.dshape('var * {a: int32, b: string}').subshape[:, ['a']]", "D.dshape('var * {a: int32, b: string}').subshape[:, ['b', 'a']]",
     "D.dshape('var * {a: int32, b: string}').subshape[True]", "D.dshape('var * {b: string, a: int32}').subshape[:, ['a']]"],
    ["D.dshape('5 * int32').subshape[1:3]", "D.dshape('5 * int32').subshape[1:-1]", "D.dshape('5 * int32').subshape[1:]", "D.dshape('5 * int32').subshape[::2]",
     "D.dshape('6 * int32').subshape[1:]", "D.dshape('var * int32').subshape[1:3]", "D.dshape('var * int32').subshape[:3]"],
    ["D.dshape('{x: int32}').subshape['x']", "D.dshape('{x: int64}').subshape['x']", "D.dshape('{x: int32}').subshape[0]", "D.dshape('{x: int32}').subshape[['x']]",
     "D.dshape('{x: int32}').subshape[['y']]", "D.dshape('{x: int32}').subshape[:1]"],
    ["D.dshape('3 * 4 * int32').subarray(1)", "D.dshape('3 * 4 * int32').subarray(2)", "D.dshape('3 * 4 * int32').subarray(-1)", "D.dshape('3 * 4 * int32').subarray(3)",
     "D.dshape('3 * 4 * int32').subarray(0)", "D.dshape('3 * 4 * int64').subarray(1)", "D.dshape('3 * 4 * int32').subarray(True)"],
    ["D.Record([('a', 'int32')])", "D.Record([['a', 'int64']])", "D.Record([('b', 'int32')])", "D.Record(OD([('a', 'int32')]))", "D.Record({'a': 'int32'}.items())",
     "D.Record([('a', 'int32'), ('a', 'int32')])", "D.Record([(1, 'int32')])", "D.Record([('1', 'int32')])", "D.Record([(True, 'int32')])"],
    ["D.Tuple([D.int32])", "D.Tuple((D.int32,))", "D.Tuple([D.dshape('int32')])", "D.Tuple([D.int64])", "D.Tuple([])"],
    ["D.TimeDelta('us')", "D.TimeDelta('microseconds')", "D.TimeDelta('microsecond')", "D.TimeDelta(' us')", "D.TimeDelta('ms')", "D.TimeDelta('m')", "D.TimeDelta('M')",
     "D.TimeDelta('D')", "D.TimeDelta('d')"],
    ["D.Units('m')", "D.Units('m', D.dshape('float64'))", "D.Units('m', D.dshape('int64'))", "D.Units('M')"],
    ["D.Option('int32')", "D.Option(D.int32)", "D.Option(D.dshape('int32'))", "D.Option(D.Option(D.int32))", "D.Option('3 * int32')", "D.Option(3)"],
    ["D.cat_dshapes(D.dshapes('3 * int32', '4 * int32'))", "D.cat_dshapes(D.dshapes('4 * int32', '3 * int32'))", "D.cat_dshapes(D.dshapes('3 * int32', '4 * int64'))",
     "D.cat_dshapes(D.dshapes('3 * int32'))", "D.cat_dshapes([])", "D.cat_dshapes(D.dshapes('var * int32', '3 * int32'))"],
    ["collect(isunit, D.dshape('var * {a: int32, b: 2 * int32}'))", "collect(isdim, D.dshape('var * {a: int32, b: 2 * int32}'))",
     "collect(isunit, D.dshape('{a: int32}'))", "collect(isunit, [D.int32, D.var])", "collect(isunit, 5)"],
    ["D.TypeSet(D.int32, D.int64)", "D.TypeSet(D.int64, D.int32)", "D.TypeSet(D.int32)", "D.TypeSet(D.int32, D.int32, D.int64)", "eqh(D.TypeSet(D.int32), D.TypeSet(D.int32))"],
    ["ae(D.dshape('int32'), D.dshape('int64'))", "ae(D.dshape('int32'), D.dshape('int32'))", "ae(D.dshape('3 * int32'), D.dshape('4 * int32'))",
     "ae(D.dshape('3 * int32'), D.dshape('4 * int32'), check_dim=False)", "ae(D.int32, D.int64)"],
    ["ae(D.dshape('{a: int32, b: int8}'), D.dshape('{b: int8, a: int32}'))", "ae(D.dshape('{a: int32, b: int8}'), D.dshape('{b: int8, a: int32}'), check_record_order=False)",
     "ae(D.dshape('{a: int32}'), D.dshape('{a: int32, b: int8}'))", "ae(D.dshape('{a: int32, b: int8}'), D.dshape('{a: int32, b: int16}'))"],
    ["ae(D.dshape('{a: int32, b: {x: int32, y: int64}}'), D.dshape('{b: {y: int64, x: int32}, a: int32}'), check_record_order=False)",
     "ae(D.dshape('{a: int32, b: int8}'), D.dshape('{b: int8, a: int32}'))", "ae(D.dshape('{a: {x: int32, y: int64}}'), D.dshape('{a: {y: int64, x: int32}}'))",
     "ae(D.dshape('{a: {x: int32, y: int64}}'), D.dshape('{a: {y: int64, x: int32}}'), check_record_order=False)"],
    ["ae(D.dshape('3 * {a: (string[3], int8), b: {c: int8}}'), D.dshape('4 * {b: {c: int8}, a: (string, int8)}'), check_record_order=False, check_dim=False, check_str_fixlen=False)",
     "ae(D.dshape('3 * int8'), D.dshape('4 * int8'))", "ae(D.dshape('string[3]'), D.dshape('string'))", "ae(D.dshape('{c: int8, d: int8}'), D.dshape('{d: int8, c: int8}'))"],
    ["ae(D.dshape(\"{a: ?datetime[tz='UTC'], b: timedelta[unit='ms']}\"), D.dshape('{a: ?datetime, b: timedelta}'), check_tz=False, check_timedelta_unit=False)",
     "ae(D.dshape(\"{a: ?datetime[tz='UTC']}\"), D.dshape('{a: ?datetime}'))", "ae(D.dshape(\"timedelta[unit='ms']\"), D.dshape('timedelta'))",
     "ae(D.dshape(\"time[tz='UTC']\"), D.dshape('time'))"],
    ["ae(D.dshape(\"datetime[tz='UTC']\"), D.dshape('datetime'))", "ae(D.dshape(\"datetime[tz='UTC']\"), D.dshape('datetime'), check_tz=False)",
     "ae(D.dshape('string[3]'), D.dshape('string'))", "ae(D.dshape('string[3]'), D.dshape('string'), check_str_fixlen=False)",
     "ae(D.dshape(\"timedelta[unit='ms']\"), D.dshape('timedelta'))", "ae(D.dshape(\"timedelta[unit='ms']\"), D.dshape('timedelta'), check_timedelta_unit=False)"],
    ["str(D.DataShape(D.int32))", "repr(D.DataShape(3, D.int32))", "eqh(D.DataShape(D.int32), D.dshape('int32'))"],
    ["rt(D.dshape('3 * int32'))", "rt(D.dshape('3 * int64'))", "copy.deepcopy(D.dshape('3 * int32'))", "copy.copy(D.dshape('3 * int32'))", "rt(D.int32)", "rt(D.string)", "rt(D.null)"],
    ["D.DataShape(3, 'int32')", "D.DataShape(D.Fixed(3), D.int32)", "D.DataShape('3', 'int32')", "D.DataShape(True, 'int32')", "D.DataShape(D.var, 'int32')", "3 * D.dshape('int32')"],
    ["D.typesets.maxtype(D.int8)", "D.typesets.maxtype(D.Option(D.int8))", "D.typesets.maxtype(D.uint8)", "D.typesets.maxtype(D.bool_)", "D.typesets.maxtype(D.string)", "D.typesets.maxtype(D.Decimal(3))"],
]


def failing(r):
    """A call that (nearly always) raises."""
    k = r.random()
    if k < 0.3:
        return '%s(%r)' % (r.choice(['D.dshape', 'parse', 'lexall', 'D.isscalar', 'D.dshapes']), bad(r))
    if k < 0.5:
        return r.choice(BADBUILD)
    if k < 0.7:
        return _fmt(r, r.choice(NOPRINT))
    return r.choice(["D.discover(Opaque())", "D.discover([1, Opaque()])", "D.discover({'a': Opaque()})", "D.discover({1: 2, 'a': 3})",
                     "D.discover([{'a': Opaque()}, {'a': 1}])", "D.Categorical([Opaque()])", "D.cat_dshapes([])", "D.promote(D.string, D.date_)",
                     "D.promote(D.int32, D.dshape('{a: int32}'))", "D.to_numpy(D.dshape('var * int32'))", "D.to_numpy(D.dshape('3 * {a: ?int32}'))",
                     "ae(D.dshape('{a: int32, b: int8}'), D.dshape('{b: int8, a: int32}'))", "ae(D.dshape('{a: (int8, string)}'), D.dshape('{a: (int8, json)}'))",
                     "D.dshape('5 * int32').subshape['a']", "D.dshape('{a: int32}').subshape['b']", "D.dshape('3 * int32').subarray(5)",
                     "D.discovery.lowest_common_dshape([D.json, D.int8])", "D.discovery.deltaparse('3 parsecs')", "D.discovery.timeparse('x')",
                     "D.validate('nope', 1)", "D.validate('3 * int32', Opaque())", "D.from_numpy((3,), 'V4')", "D.typesets.supertype(D.string)",
                     "D.typesets.maxtype(D.string)", "D.TypeSet(D.int8, name='numeric')", "D.coretypes.normalize_time_unit('x')", "D.isfixed(3)",
                     "D.discover(OD([('a', Opaque())]))", "D.discover(np.array([(1,)], dtype=[('a', 'V3')]))", "hash(D.Record([('x', D.Categorical([[1], [2]]))]))"])


def big_group(r):
    """Calls on big things that are nearly the same."""
    k = r.random()
    e = 'D.discover(%s)' % big_value(r) if k < 0.5 else 'D.dshape(%r)' % big_ds(r) if k < 0.7 else '(lambda o: %s)(%s)' % (r.choice(SAME).replace('%s', 'o'), big_obj(r))
    return [e] + [perturb(r, e) or e for _ in range(3)] + [e, perturb(r, e, 2) or e]


def fresh(r, e):
    """The same call with a text, or a datashape, that was made for it."""
    return _FIRST.sub(lambda m: m.group(1) + (r.choice(('fr(%s)', 'D.dshape(fr(%s))')) if m.group(1)[2:4] in ('is', 'va') else 'fr(%s)') % m.group(2), e)


_FIRST = re.compile(r"(\bD\.[a-z]\w*\(|lexall\(|parse\()('[^'\\]*')")


def group(r, S=0):
    """A group of related operations."""
    g = _group(r, S) if r.random() > 0.06 else big_group(r)
    if r.random() < 0.15:
        g = [fresh(r, e) for e in g]
    return g


def _group(r, S=0):
    k = r.random()
    if k < 0.42:
        g = list(r.choice(TWINS))
        r.shuffle(g)
        return g[:r.randrange(2, 7)]
    if k < 0.6:
        s = ds(r, 2)
        return ['D.dshape(%r)' % s] + ['D.dshape(%r)' % noisy(r, s) for _ in range(3)] + \
            ['str(D.dshape(%r))' % s, 'lexall(%r)' % s]
    if k < 0.75:
        f = r.choice(NAMES_F)
        return [op(r, f, S) for _ in range(4)]
    if k < 0.93:
        return equiv(r)
    return [op(r, None, S) for _ in range(4)]


# What two clients do with one and the same object.
SAME = ['hash(%s)', 'hash(%s)', 'repr(%s)', 'repr(%s)', 'str(%s)', '[str(%s), repr(%s)]', 'D.pprint(%s)', 'D.pprint(%s, width=20)', '%s == %s',
        'eqh(%s, %s)', 'member(%s, [%s])', '%s.parameters', '%s.shape', '%s.measure', '%s.subshape[0]', '%s.subarray(0)', '%s.info()',
        'rt(%s)', 'copy.deepcopy(%s)', 'copy.copy(%s)', 'rt([%s, %s])', '3 * %s', 'D.dshape(%s)', 'D.Option(%s)', 'D.Tuple([%s, %s])',
        "D.Record([('a', %s), ('b', %s)])", 'D.to_numpy(%s)', 'D.to_numpy_dtype(%s)', 'D.isscalar(%s)', 'D.isrecord(%s)',
        'D.isfixed(%s)', 'D.ishomogeneous(%s)', 'D.isnumeric(%s)', 'D.has_var_dim(%s)', 'D.has_ellipsis(%s)', 'collect(isunit, %s)', 'ae(%s, %s)',
        'D.issubschema(%s, %s)', 'D.cat_dshapes([%s, %s])', 'hash((%s, 1))', 'set([%s])', '{%s: 1}', 'D.discovery.unite_identical([%s, %s])',
        'attr(%s, "names", "types", "fields", "dict", "ty", "itemsize")', 'attr(%s.measure, "names", "types", "fields", "dict", "ty")',
        'D.promote(%s, %s)', 'D.validation.validate(%s)', 'D.typesets.maxtype(%s)', 'D.optionify(%s, %s, D.int32)', 'D.istabular(%s)',
        '%s["a"]', '%s.measure["a"]', '[%s.measure[n] for n in %s.measure.names]', '%s.measure.dict', '[%s.measure[n] for n in %s.measure.names[::-1]]',
        'list(%s)', 'len(%s)', '%s[0]', '%s[-1]', '%s[1:]', '%s.subshape["a"]', '%s.subshape[["a"]]', '%s.subshape[:, "a"]', '%s.subshape[0:2]',
        '%s.measure.subshape["a"]', 'attr(%s.measure, "categories", "ordered", "type", "key", "value", "dshapes", "restype", "argtypes", "unit", "tz", "encoding")',
        '%s.__class__(*%s.parameters)', '%s != %s', '%s in [%s]', '%s.measure == %s.measure',
        'D.coretypes.Type.__repr__(%s)', '%s.to_numpy_dtype()', '%s.measure.to_numpy_dtype()',
        'D.matches_typeset(%s, %s)', 'known(%s)', 'list(%s.types)', '%s | %s', 'D.int32 in %s', 'D.dshape([D.var, %s])', 'D.DataShape(2, %s)']

# What two clients do with two objects, in either order.
PAIR = ['%a == %b', '%a == %b', '%a != %b', 'eqh(%a, %b)', 'member(%a, [%b])', '{%a: 1}.get(%b)', '%a in {%b}', 'ae(%a, %b)',
        'ae(%a, %b, check_record_order=False)', 'D.issubschema(%a, %b)', 'D.promote(%a, %b)', 'D.promote(%a, %b, promote_option=False)',
        'D.cat_dshapes([%a, %b])', 'D.discovery.unite_identical([%a, %b])', 'D.discovery.lowest_common_dshape([%a, %b])', '%a | %b',
        'D.matches_typeset(%a, %b)', '%a in %b', 'D.Tuple([%a, %b])', "D.Record([('a', %a), ('b', %b)])", 'D.Map(%a, %b)', 'D.Function(%a, %b)',
        'D.optionify(%a, %b, D.int32)', '[%a, %b] == [%b, %a]', '[%a, %b].index(%b)', 'rt([%a, %b])', 'hash((%a, %b))', 'D.TypeSet(%a, %b)',
        '(%a, 1) < (%b, 2)', 'D.discovery.unite_base([%a, %b])', 'D.discovery.unite_merge_dimensions([%a, %b])', 'D.discovery.do_one([])([%a, %b])', 'str([%a, %b])']

# Objects that are equal, or whose arguments are equal, without being the same
EQUIV = [['D.int32', 'D.DataShape(D.int32)', "D.dshape('int32')", "D.dshape('int')", 'D.Option(D.int32)', "D.dshape('?int32')", 'D.dshape(D.int32)'],
         ['D.Option(D.int64)', "D.Option('int64')", 'D.Option(D.DataShape(D.int64))', "D.dshape('?int64')", 'D.DataShape(D.Option(D.int64))'],
         ['D.string', 'D.String()', "D.dshape('string')", 'D.Option(D.string)', "D.String('U8')", 'D.DataShape(D.string)'],
         ['D.float64', "D.dshape('float64')", "D.dshape('real')", 'D.DataShape(D.float64)', 'D.Option(D.float64)', "D.dshape('?real')"],
         ['D.Fixed(1)', 'D.Fixed(True)', 'D.Fixed(np.int64(1))', 'D.Fixed(MyInt(1))', 'D.Fixed(np.uint8(1))'],
         ['D.Decimal(1, 1)', 'D.Decimal(True, 1)', 'D.Decimal(1.0, 1)', 'D.Decimal(1, True)', 'D.Decimal(np.int64(1), 1)', 'D.Decimal(1, 1.0)'],
         ['D.Categorical([1, 2])', 'D.Categorical([1.0, 2.0])', 'D.Categorical([True, 2])', 'D.Categorical((1, 2))', 'D.Categorical([1, 2], type=D.int64)',
          'D.Categorical([MyInt(1), 2])', 'D.Categorical([np.int64(1), 2])', 'D.Categorical([1, 2], ordered=0)'],
         ["D.Categorical(list('abcdefghijklm'))", "D.Categorical(list('abcdefghijkln'))", "D.Categorical(list('abcdefghijkmln'))", "D.Categorical(list('abcdefghijk'))"],
         ["D.DataShape(2, D.Categorical(list('abcdefghijklm')))", "D.DataShape(2, D.Categorical(list('abcdefghijkln')))", "D.Record([('a', D.Categorical(list('abcdefghijklm')))])", "D.Record([('a', D.Categorical(list('abcdefghijkln')))])"],
         ["D.Categorical(['a'])", "D.Categorical([MyStr('a')])", "D.Categorical([np.str_('a')])", "D.Categorical(('a',))", "D.Categorical('a')"],
         ["D.Record([('a', D.int32)])", "D.dshape('{a: int32}')", "D.Record([(MyStr('a'), D.int32)])", "D.Record([(np.str_('a'), 'int32')])",
          "D.DataShape(D.Record([('a', 'int32')]))", "D.Record([('a', D.dshape('int32'))])", "D.R['a':'int32']"],
         ["D.Record([('a', D.dshape('3 * int32')), ('b', 'int8')])", "D.dshape('{a: 3 * int32, b: int8}')", "D.Record((('a', '3*int32'), ('b', D.int8)))"],
         ["D.Tuple([D.int32, D.string])", "D.dshape('(int32, string)')", "D.Tuple([D.DataShape(D.int32), D.string])"],
         ['D.DataShape(3, D.int32)', "D.dshape('3 * int32')", 'D.DataShape(D.Fixed(3), D.int32)', '3 * D.int32',
          'D.DataShape(MyInt(3), D.int32)', 'D.Fixed(3) * D.int32'],
         ['D.DataShape(1, D.int32)', 'D.DataShape(True, D.int32)', "D.dshape('1 * int32')"],
         ["D.TypeVar('T')", "D.TypeVar(MyStr('T'))", "D.TypeVar(np.str_('T'))", "D.dshape('T')", "D.dshape('T * T')[0]"],
         ["D.Units('m')", "D.Units(MyStr('m'))", "D.Units('m', D.dshape('float64'))", "D.Units('m', D.DataShape(D.float64))"],
         ["D.DateTime('UTC')", "D.DateTime(MyStr('UTC'))", "D.dshape(\"datetime[tz='UTC']\")", "D.DateTime(tz='UTC')", "D.DateTime(np.str_('UTC'))"],
         ["D.String(10, 'A')", "D.String(10.0, 'A')", "D.String(10, 'ascii')", "D.String(MyInt(10), MyStr('A'))", "D.dshape(\"string[10, 'A']\")"],
         ['D.TypeSet(D.int32, D.int64)', 'D.TypeSet(D.int64, D.int32)', 'D.TypeSet(D.int32, D.int64, D.int32)', "D.TypeSet(*[D.int32, D.int64])"],
         ['D.TypeSet(D.int8, D.int16, D.int32, D.int64)', 'D.signed', 'D.TypeSet(*D.signed)', 'D.TypeSet(*list(D.signed)[::-1])'],
         ['D.Map(D.int32, D.string)', "D.Map('int32', 'string')", "D.dshape('map[int32, string]')", 'D.Map(D.DataShape(D.int32), D.string)'],
         ['D.Function(D.int32, D.string)', "D.dshape('(int32) -> string')", 'D.Function(D.int32, D.DataShape(D.string))'],
         ['D.Ellipsis()', 'D.Ellipsis(D.TypeVar("A"))', "D.dshape('... * int32')[0]", "D.dshape('A... * int32')[0]"],
         ["D.TimeDelta('us')", "D.TimeDelta('microseconds')", 'D.timedelta_', 'D.TimeDelta()', "D.TimeDelta(MyStr('us'))", "D.TimeDelta(unit='us')"]]
# argument values that are equal and are told apart by their types
EQARG = [['1', 'True', '1.0', 'np.int64(1)', 'MyInt(1)', 'np.float64(1)', 'Dec(1)', 'np.bool_(True)'], ['0', 'False', '0.0', '-0.0', 'np.int8(0)'],
         ["'a'", "MyStr('a')", "np.str_('a')"], ["'1'", "MyStr('1')", "np.str_('1')"], ['(1, 2)', 'NT(1, 2)', '(True, 2)', '(1.0, 2)', '(1, 2.0)'],
         ['[1, 2]', 'MyList([1, 2])', '[True, 2]', '[1.0, 2]', '[1, 2.0]', '[np.int64(1), 2]'], ["{'a': 1}", "MyDict(a=1)", "OD(a=1)", "{'a': True}", "{'a': 1.0}", "MP({'a': 1})"],
         ["'3 * int32'", "MyStr('3 * int32')", "np.str_('3 * int32')"], ["b'a'", "np.bytes_(b'a')"], ["'2014-01-01'", "MyStr('2014-01-01')", "np.str_('2014-01-01')"],
         ["'5 days'", "MyStr('5 days')", "np.str_('5 days')"], ['dt.date(2014, 1, 1)', 'dt.datetime(2014, 1, 1)'], ['dt.timedelta(1)', "np.timedelta64(1, 'D')"],
         ['2.5', 'np.float32(2.5)', 'MyFloat(2.5)', 'np.float64(2.5)'], ['None', "''", "'None'"], ["np.zeros(3)", "np.zeros(3, 'i4')", "np.zeros(3).view(SubArr)"],
         ["Opaque()", "Named('Opaque', shape=(3,), dtype=np.dtype('i4'))", "Named('Opaque', shape=())", "Named('Opaque')", "Named('Opaque', dtype=np.dtype('f8'), shape=(2, 2))"],
         ["ArrLike((3,), 'i4')", "Named('ArrLike')", "Named('ArrLike', shape=(2,), dtype=np.dtype('i8'))"], ["Named('int')", "Named('int', bases=(int,))", '0', "Named('int', shape=(1,), dtype=np.dtype('i2'))"],
         ["Named('X', bases=(list,))", "Named('X', bases=(dict,))", "Named('X', bases=(str,))", "Named('X', bases=(tuple,))", "Named('X', bases=(float,))", "Named('X')"],
         ["Named('MyStr', bases=(str,))", "MyStr('')", "Named('MyStr')", "Named('MyStr', shape=(), dtype=np.dtype('S3'))"],
         ["Named('ndarray')", "Named('ndarray', shape=(3,), dtype=np.dtype('f4'))", "np.zeros(3, 'f4')", "np.zeros(2).view(type(Named('ndarray', bases=(np.ndarray,), args=((0,),))))"]]
ARGT = ['D.discover(%s)', 'D.discover(%s)', 'D.discover([%s])', 'D.discover([%s, %s])', "D.discover({'k': %s})", 'D.discover((%s, 2))', 'D.discover([(%s, 1), (%s, 2)])',
        "D.discover([{'k': %s}])", 'D.validate(int, %s)', "D.validate('int64', %s)", "D.validate('string', %s)", "D.validate('3 * int32', %s)",
        'D.validate((int, str, float), %s)', 'D.dshape(%s)', 'D.Fixed(%s)', 'D.String(%s)', 'D.Categorical([%s])', 'D.Categorical([%s], ordered=True)', 'D.DataShape(%s, D.int32)',
        'D.TypeVar(%s)', 'D.Record([(%s, "int32")])', 'D.Units(%s)', 'D.Decimal(%s)', 'D.Decimal(3, %s)', '%s * D.int32', 'D.DateTime(%s)', 'D.TimeDelta(%s)',
        'D.isscalar(%s)', 'D.isfixed(%s)', 'D.Option(%s)', 'D.from_numpy((%s,), "i4")', "D.dshape('5 * int32').subshape[%s]", "D.dshape('{a: int32}').subshape[%s]", 'lexall(%s)',
        'D.dshape("{a: int32, b: int8}").measure[%s]', "D.dshape('3 * 4 * int32').subarray(%s)", 'D.discovery.string_coercions[0](%s)', 'D.int32 == %s', 'D.Fixed(1) == %s',
        "D.validate('{a: int64}', (%s,))", "D.validate('{a: int64}', {'a': %s})", "D.validate('var * int64', [%s])", "D.validate('var * {a: int64}', [(%s,)])", "D.validate(D.int64, %s)",
        "D.validate('bool', %s)", "D.validate(D.dshape('int64'), %s)", "D.validate('var * {a: int64}', [{'a': %s}])", "D.validate('var * string', [%s])", "D.validate(np.dtype('i8'), %s)",
        'D.validate((int, str), [%s])', "D.discover({%s: 1})", 'D.discover([[%s], [%s]])', 'D.discover((%s, %s, 1))', 'D.discover(iter([%s]))', 'D.discover({%s})', 'D.istabular(%s)', 'D.isnumeric(%s)',
        'D.dshape([%s])', "D.dshape((%s, 'int32'))", 'D.DataShape(D.var, %s)', "D.Map(%s, 'int8')", "D.Function(%s, 'int8')", 'D.TypeSet(%s)', 'D.promote(%s, D.int8)', 'D.to_numpy_dtype(%s)',
        'D.from_numpy((), %s)', 'D.from_numpy(%s, "i4")', 'D.CType.from_numpy_dtype(%s)', 'D.discovery.unite_identical([%s, %s])', 'D.typesets.maxtype(%s)', 'D.optionify(%s, %s, D.int8)',
        'D.Tuple([%s])', 'D.TypeSet(D.int32) == %s', 'D.coretypes.normalize_time_unit(%s)', 'D.validation.validate(D.int32, %s)', 'D.Ellipsis(%s)']


def equiv(r):
    """Calls on arguments that are equal without being the same."""
    if r.random() < 0.5:
        g = r.choice(EQARG) if r.random() < 0.7 else EQARG[0]
        ts = r.sample(ARGT, r.choice((1, 2, 3)))
        out = []
        for _ in range(r.choice((3, 5, 7))):
            t = r.choice(ts)
            while '%s' in t:
                t = t.replace('%s', r.choice(g), 1)
            out.append(t)
        return out
    g = r.choice(EQUIV)
    h = r.choice(EQUIV) if r.random() < 0.5 else g
    out = []
    ts = r.sample(SAME, r.choice((1, 2))) + r.sample(PAIR, r.choice((1, 2)))
    for _ in range(r.choice((3, 5, 7))):
        t = r.choice(ts)
        if '%s' in t:
            o = r.choice(g)
            out.append(t.replace('%s', _par(o)))
        else:
            out.append(pair(r, r.choice(g), r.choice(h), t))
    return out


def _par(o):
    return '(%s)' % o if ' * ' in o.split('(')[0] or o[0].isdigit() or ') * ' in o else o


def pair(r, a, b, t=None):
    t = t or r.choice(PAIR)
    if r.random() < 0.5:
        a, b = b, a
    return t.replace('%a', _par(a)).replace('%b', _par(b))


def same(r, o='S[0]', k=None):
    t = k or r.choice(SAME)
    return t.replace('%s', o)


BIG = ["D.dshape('var * {a: int32, b: {c: string, d: (int8, ?float64)}, e: 3 * datetime}')", "D.dshape('{a: {b: {c: {d: {e: int32}}}}}')",
       "D.dshape('(int32, (string, (bool, (int8, float32))))')", "D.Record([('f%d' % i, 'int32') for i in range(12)])",
       "D.dshape('2 * 3 * 4 * 5 * var * {x: int32, y: int32, z: string}')", "D.Function(D.int32, D.dshape('3 * {a: int8}'), D.Tuple([D.int32, D.string]))",
       "D.Tuple([D.Record([('a', D.Tuple([D.int32]))]), D.Option(D.Record([('b', D.string)]))])", "D.Categorical(list('abcdefghijklmnop'))",
       "D.Map(D.Record([('a', 'int32')]), D.Tuple([D.Option(D.string)]))", "D.TypeSet(D.int8, D.int16, D.int32, D.string)", "D.Units('m', D.dshape('3 * {a: int8}'))"]


# Objects with what their class offers
TYPED = [
    (["D.Record([('a', 'int32'), ('b', D.string), ('c', '3 * int8')])", "D.dshape('{a: int32, b: {a: int8, b: string, c: date}, c: (int8, string)}').measure",
      "D.R['a': 'int8', 'b': 'string', 'c': D.Record([('z', 'int8')])]", "D.Record([('f%d' % i, 'int32') for i in range(20)] + [('a', 'int8'), ('b', 'string'), ('c', 'date')])"],
     ["%s['a']", "%s['b']", "%s['c']", "[%s[n] for n in %s.names]", "[%s[n] for n in ('c', 'b', 'a')]", "%s.dict['b']", "%s.dict", "%s.names", "%s.types", "%s.fields",
      "list(%s.fields)", "%s.dict == dict(%s.fields)", "len(%s.dict)", "%s['nope']", "'a' in %s.dict", "%s.subshape['b']", "%s.subshape[['a', 'c']]", "%s.subshape[1]", "%s.to_numpy_dtype()",
      "%s.subshape[0:2]", "hash(%s)", "repr(%s)", "%s.parameters", "str(%s)"]),
    (["D.dshape('var * {a: int32, b: string, c: ?date}')", "D.dshape('5 * 3 * {a: int32, b: {x: int8}, c: 2 * int8}')", "D.dshape('{a: int32, b: string, c: 3 * {a: int8}}')"],
     ["%s.measure['a']", "%s.measure['c']", "%s.subshape[0]", "%s.subshape[:, 'a']", "%s.subshape[:, ['c', 'a']]", "%s.shape", "%s.measure", "%s[0]", "%s[-1]", "len(%s)", "list(%s)", "%s.subshape[1:3]",
      "%s.subarray(1)", "%s.subarray(0)", "%s.measure.names", "%s.measure.types", "%s.measure.dict", "hash(%s)", "repr(%s)", "str(%s)", "%s.parameters", "D.to_numpy_dtype(%s)", "has_ellipsis(%s)",
      "[x for x in %s]", "3 * %s", "%s.name", "%s.composite"]),
    (["D.Categorical(['a', 'b', 'c'], ordered=True)", "D.Categorical(list('abcdefghijklmnop'))", "D.Categorical([1, 2, 3])", "D.Option(D.Categorical(['x', 'y'])).ty"],
     ["%s.categories", "%s.type", "%s.ordered", "repr(%s)", "str(%s)", "hash(%s)", "%s.parameters", "%s == %s", "list(%s.categories)", "%s.categories.index(%s.categories[-1])", "D.isscalar(%s)",
      "D.Option(%s)", "3 * %s", "rt(%s)"]),
    (["D.Tuple([D.int32, D.string, D.dshape('3 * {a: int8}')])", "D.dshape('(int32, (string, bool), ?date)').measure", "D.Tuple([D.int8] * 30)"],
     ["%s.dshapes", "list(%s.dshapes)", "%s[0]", "%s[0:1]", "len(%s)", "repr(%s)", "str(%s)", "hash(%s)", "%s.parameters", "%s.subshape[0]", "%s.to_numpy_dtype()", "rt(%s)", "[x for x in %s]", "%s == %s"]),
    (["D.Function(D.int32, D.dshape('3 * {a: int8}'), D.Tuple([D.int32, D.string]))", "D.dshape('(int32, string) -> 3 * {a: int8}').measure"],
     ["%s.argtypes", "%s.restype", "repr(%s)", "str(%s)", "hash(%s)", "%s.parameters", "len(%s.argtypes)", "rt(%s)", "%s == %s"]),
    (["D.Map(D.string, D.dshape('3 * {a: int8}'))", "D.dshape('map[{a: int32}, (int8, string)]').measure"],
     ["%s.key", "%s.value", "repr(%s)", "str(%s)", "hash(%s)", "%s.parameters", "%s.to_numpy_dtype()", "rt(%s)", "%s == %s"]),
    (["D.Option(D.dshape('{a: int32, b: string}'))", "D.Option('int32')", "D.Option(D.String(10, 'A'))"],
     ["%s.ty", "%s.shape", "%s.itemsize", "repr(%s)", "str(%s)", "hash(%s)", "%s.parameters", "%s.to_numpy_dtype()", "rt(%s)", "D.promote(%s, D.int32)", "D.isnumeric(%s)", "%s == %s"]),
    (["D.TypeSet(D.int8, D.int16, D.string)", "D.numeric", "D.TypeSet(*[D.Decimal(i + 1) for i in range(20)])", "D.TypeSet(D.TypeSet(D.int8), D.int16)", "D.integral | D.boolean"],
     ["%s.types", "list(%s)", "len(%s)", "D.int8 in %s", "D.string in %s", "D.Decimal(3) in %s", "%s | D.boolean", "D.signed | %s", "repr(%s)", "str(%s)", "hash(%s)", "%s == %s", "D.matches_typeset(D.int8, %s)",
      "sorted(map(str, %s))", "copy.copy(%s)", "rt(%s)", "%s.name", "%s == D.TypeSet(D.int8, D.int16, D.string)", "D.TypeSet(D.int8, D.int16, D.string) == %s", "set(%s) == set(%s)"]),
    (["D.CType.from_numpy_dtype(np.dtype('i4'))", "D.int64", "D.string", "D.String(5, 'U16')", "D.DateTime('UTC')", "D.TimeDelta('ms')", "D.Units('m', D.dshape('3 * int8'))", "D.Decimal(7, 2)", "D.Fixed(7)", "D.var",
      "D.TypeVar('T')", "D.Ellipsis(D.TypeVar('A'))", "D.null", "D.json", "D.bytes_"],
     ["hash(%s)", "repr(%s)", "str(%s)", "%s.parameters", "%s.itemsize", "%s.alignment", "%s.to_numpy_dtype()", "attr(%s, 'encoding', 'fixlen', 'unit', 'tz', 'precision', 'scale', 'symbol', 'val', 'name', 'tp')",
      "%s == %s", "eqh(%s, %s)", "rt(%s)", "copy.copy(%s)", "3 * %s", "%s.shape", "%s.measure", "D.Option(%s)", "D.promote(%s, %s)", "%s.info()", "len(%s)", "%s.subshape[0]", "D.isscalar(%s)"])]


def typed(r):
    """(expression of an object, templates over it)"""
    objs, ts = r.choice(TYPED)
    return r.choice(objs), ts


def shared(r, n):
    """Expressions of n objects shared by the clients of a run."""
    return [obj(r, 2, 0) for _ in range(n)]


_WORDS = [('int32', 'int64'), ('int8', 'uint16'), ('string', 'bytes'), ('float64', 'float32'), ('date_', 'time_'), ('real', 'complex'), ('bool', 'int16'),
          ('datetime', 'date'), ('var', '7'), ('ordered=True', 'ordered=False'), ('True', 'False'), ('None', '1.5'), ('integral', 'floating')]
_PIECE = re.compile(r"(?<![A-Za-z_0-9.\[])\d+(?![A-Za-z_0-9.\]])|(?<=')[a-z](?=')|(?<=[{ ])[a-z](?=: )|\b(?:int32|int8|string|float64|real|date_|bool|integral|True|None|ordered=True)\b")
_SWAP = dict(_WORDS)


def perturb(r, e, n=1):
    """The same expression with another number, name or type in it, or None."""
    for _ in range(n):
        ms = list(_PIECE.finditer(e))
        if not ms:
            return None
        m = r.choice(ms)
        x = m.group()
        if x.isdigit():
            y = str(int(x) + r.choice((1, 2, 5)))
        elif x in _SWAP:
            y = _SWAP[x]
        else:
            y = r.choice([c for c in 'abcdexyz' if c != x])
        e = e[:m.start()] + y + e[m.end():]
    return e
