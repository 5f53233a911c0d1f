"""C17, part two: what a process holds on to does not grow with the number of calls."""
import gc
import types

GROW = [
    # values of every sort
    "D.discover('s%d' % i)", "D.discover('2%03d-01-02' % (i % 1000) + ' 10:%02d' % (i % 60))", "D.discover(str(i))", "D.discover('%d.5' % i)", "D.discover(b'b%d' % i)",
    "D.discover(i * 2 ** 30)", "D.discover(i + 0.5)", "D.discover(i * 1j)", "D.discover([i, i + 1])", "D.discover([i, 'x%d' % i])", "D.discover(('x%d' % i, i))",
    "D.discover(['a%d' % i] * 12)", "D.discover({'k%d' % i: i})", "D.discover([{'k%d' % i: 1}, {'k%d' % i: 2}])", "D.discover({i, -i})", "D.discover([(i, 'a'), (i, 'b')])",
    "D.discover([[i], [i, i]])", "D.discover(dt.timedelta(i))", "D.discover(dt.datetime(2000, 1, 1) + dt.timedelta(i))", "D.discover(dt.date(1900, 1, 1) + dt.timedelta(i))",
    "D.discover(np.zeros(i % 5000, 'i1'))", "D.discover(np.array(['x%d' % i], dtype=object))", "D.discover(np.float64(i))", "D.discover(ArrLike((i,), 'i4'))",
    "D.discover(NT(i, 'x%d' % i))", "D.discover(OD([('k%d' % i, 'v')]))", "D.discover(MP({'k%d' % i: 1}))", "D.discover(MyStr('s%d' % i))", "D.discover([None, i])", "D.discover([i] * (i % 50))",
    "D.discover(iter([i, i]))", "D.discover([i, Opaque()])", "D.discover(Opaque())", "D.discover([[i, [i, Opaque()]]])", "D.discover(MyDict(a=i))", "D.discover('%d days' % i)",
    # verdicts
    "D.validate('int32', i)", "D.validate('string', 's%d' % i)", "D.validate('var * {a: int32}', [{'a': i}])", "D.validate('%d * int32' % i, [i])", "D.validate(int, 'x%d' % i)",
    "D.validate('{a%d: int32}' % i, {'a': i})", "D.validate('?string', 's%d' % i)", "D.validate('int32', Opaque())",
    # texts
    "D.dshape('%d * int32' % i)", "D.dshape('{f%d: int32}' % i)", "D.dshape('{f%d: int32' % i)", "D.dshape('foo%d' % i)", "D.dshape('%d * {' % i)", "D.dshape('3 * string[%d]' % (i + 1))",
    "D.dshape('T%d * int8' % i)", "D.dshape('... * A%d' % i)", "D.dshape('(int8, %d * int8)' % i)", "D.dshape('%d * int8 -> %d * int8' % (i, i))", "D.dshape('datetime[tz=\"Z%d\"]' % i)",
    "D.dshape('units[\"u%d\"]' % i)", "D.dshape(MyStr('%d * int32' % i))", "lexall('%d * f%d' % (i, i))", "lexsome('%d * f%d' % (i, i), 2)", "lexall('%d * ^' % i)", "parse('%d * int8' % i, table())",
    "parse('x%d' % i, table(dtype={'x%d' % i: D.int8}))", "D.dshapes('%d * int32' % i, 'int8')", "D.dshape('?%d * ?int8' % i)", "D.dshape('categorical[[%d, %d], type=int64]' % (i, i + 1))",
    # building, printing, comparing
    "D.Fixed(i)", "D.Record([('n%d' % i, 'int8')])", "str(D.Record([('n%d' % i, D.int8)]))", "D.Tuple([D.Fixed(i) if 0 else D.String(i + 1), 'int8'])", "D.Option(D.String(i + 1))",
    "D.Categorical([i, 'x%d' % i])", "hash(D.DataShape(i, D.int32))", "D.DataShape(i, D.int32) == D.DataShape(i, D.int64)", "str(D.DataShape(i, 2, D.string))", "repr(D.String(i + 1))",
    "D.Function(D.String(i + 1), D.int8)", "D.Map(D.String(i + 1), D.int8)", "D.Decimal(i + 1, 0)", "D.Units('u%d' % i)", "D.DateTime('Z%d' % i)", "D.Time('Z%d' % i)", "D.TimeDelta('us')", "D.TypeVar('T%d' % i)",
    "D.TypeSet(D.String(i + 1), D.int8)", "str(D.TypeSet(D.String(i + 1), D.int8))", "D.String(i + 1) in D.numeric", "D.JSON()", "D.Ellipsis(D.TypeVar('A%d' % i))", "D.Bytes()",
    "D.dshape('{a: int8, b: %d * int8}' % i).measure['b']", "D.Record([('n%d' % i, D.int8)]).dict", "D.Record([('n%d' % i, D.int8)])['n%d' % i]", "D.dshape('%d * int8' % i).parameters",
    # the rest
    "D.dshape('%d * {a: int8}' % (i + 5)).subshape[2]", "D.dshape('9 * {a%d: int8}' % i).subshape['a%d' % i]", "D.dshape('9 * {a: int8}').subshape['a%d' % i]", "D.DataShape(i + 5, D.int8).subshape[1:i]",
    "D.from_numpy((i,), 'i4')", "D.from_numpy((2,), np.dtype([('f%d' % i, 'i4')]))", "D.to_numpy(D.DataShape(i, D.int8))", "D.to_numpy(D.Record([('f%d' % i, D.int8)]))", "D.to_numpy_dtype(D.String(i + 1))",
    "D.promote(D.String(i + 1), D.String(3))", "D.promote(D.Decimal(i + 3, 1), D.int8)", "D.cat_dshapes([D.DataShape(i, D.int8), D.DataShape(1, D.int8)])", "ae(D.Fixed(i), D.Fixed(i + 1))",
    "ae(D.Record([('f%d' % i, D.int8)]), D.Record([('f%d' % i, D.int8)]))", "collect(isdim, D.DataShape(i, D.int8))", "D.isnumeric(D.DataShape(i, D.int8))", "D.isscalar(D.String(i + 1))",
    "D.isfixed(D.DataShape(i, D.int8))", "D.coretypes._launder(D.DataShape(i, D.int8))", "D.isrecord('{a%d: int8}' % i)", "D.discovery.unite_identical([D.String(i + 1), D.int8])",
    "D.discovery.lowest_common_dshape([D.DataShape(i, D.int8), D.DataShape(i, D.int64)])", "D.internal_utils.remove(len, ['', 'x%d' % i])", "D.internal_utils.groupby(len, ['x%d' % i])",
    "rt(D.Fixed(i))", "rt(D.Record([('n%d' % i, D.int8)]))", "rtexc('%d * {' % i)", "copy.copy(D.String(i + 1))", "copy.deepcopy(D.Record([('n%d' % i, D.int8)]))", "table(dtype={'x%d' % i: D.int8})",
    "D.coretypes.Type.lookup_type('nothing%d' % i)", "D.coretypes.MONO if i < 0 else D.coretypes.int32.to_numpy_dtype()", "D.issubschema('{a%d: int32}' % i, '{a%d: int32}' % i)",
    "D.matches_typeset((D.String(i + 1),), (D.numeric,))", "D.typesets.maxtype(D.Decimal(i + 2, 1))", "D.typesets.supertype(D.Decimal(i + 3, 1))", "D.internal_utils.isidentifier('x%d' % i)",
]

STOP = (types.ModuleType, types.FrameType, types.CodeType)


def held(node_modules, skip=()):
    """How much the modules of the package hold on to: references, and bytes of text."""
    seen = set(map(id, skip))
    todo = [m.__dict__ for m in node_modules]
    edges = text = 0
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (str, bytes, bytearray)):
            text += len(x)
            continue
        if isinstance(x, STOP) or type(x).__module__.startswith('dsim'):
            continue
        if isinstance(x, type) and not getattr(x, '__module__', '').startswith('datashape'):
            continue
        if isinstance(x, types.FunctionType) and not (getattr(x, '__module__', None) or '').startswith(('datashape', 'multipledispatch')):
            continue
        kids = gc.get_referents(x)
        edges += len(kids)
        todo += kids
    return edges, text
