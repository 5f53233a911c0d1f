#!/usr/bin/env python3
"""Edits that keep the behaviour: every check has to stay quiet on them.

quiet.py [NAME...] [--checks C01,C02]    works on scratch copies (DS_REPO)
"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

D = 'datashape/'
R = {}
R['lexer-helper'] = [(D + 'lexer.py', '''    pos = 0
    # Skip whitespace
    m = _whitespace_re.match(ds_str, pos)
    if m:
        pos = m.end()
    while pos''', '''    pos = _skip(ds_str, 0)
    while pos'''), (D + 'lexer.py', '''        # Skip whitespace
        m = _whitespace_re.match(ds_str, pos)
        if m:
            pos = m.end()
''', '''        pos = _skip(ds_str, pos)
'''), (D + 'lexer.py', '''def lex(ds_str):''', '''def _skip(text, start):
    found = _whitespace_re.match(text, start)
    return found.end() if found else start


def lex(ds_str):''')]
R['no-hash-memo'] = [(D + 'coretypes.py', '''        try:
            h = self._hash
        except AttributeError:
            h = self._hash = hash(self.shape) ^ hash(self.measure.info())
        return h
''', '''        return hash(self.shape) ^ hash(self.measure.info())
''')]
R['subprocess-run'] = [(D + '_version.py', '''            p = subprocess.Popen([c] + args, cwd=cwd, stdout=subprocess.PIPE,
                                 stderr=(subprocess.PIPE if hide_stderr
                                         else None))
            break
''', '''            p = subprocess.run([c] + args, cwd=cwd, stdout=subprocess.PIPE,
                               stderr=(subprocess.PIPE if hide_stderr
                                       else None))
            break
'''), (D + '_version.py', '''    try:
        stdout = p.communicate()[0].strip()
    except EnvironmentError:
        if verbose:
            print("unable to read from %s" % dispcmd)
        return None
''', '''    stdout = p.stdout.strip()
''')]
R['check-output'] = [(D + '_version.py', '''            p = subprocess.Popen([c] + args, cwd=cwd, stdout=subprocess.PIPE,
                                 stderr=(subprocess.PIPE if hide_stderr
                                         else None))
            break
''', '''            stdout = subprocess.check_output([c] + args, cwd=cwd,
                                             stderr=(subprocess.PIPE if hide_stderr
                                                     else None)).strip()
            break
        except subprocess.CalledProcessError:
            return None
'''), (D + '_version.py', '''    try:
        stdout = p.communicate()[0].strip()
    except EnvironmentError:
        if verbose:
            print("unable to read from %s" % dispcmd)
        return None
    if p.returncode != 0:
        if verbose:
            print("unable to run %s (error)" % dispcmd)
        return None
''', '')]
R['rlock-acquire'] = [(D + 'coretypes.py', 'threading.Lock()', 'threading.RLock()'), (D + 'coretypes.py', '''        with cls._registry_lock:
            if name in cls._registry:
                raise TypeError('There is another type registered with name %s'
                                % name)

            cls._registry[name] = type
''', '''        cls._registry_lock.acquire()
        try:
            taken = name in cls._registry
            if not taken:
                cls._registry[name] = type
        finally:
            cls._registry_lock.release()
        if taken:
            raise TypeError('There is another type registered with name %s'
                            % name)
''')]
R['lru-strings'] = [(D + 'discovery.py', '''dateparser = parser(FixedParserInfo())


def dateparse(s):
''', '''dateparser = parser(FixedParserInfo())


@lru_cache(maxsize=64)
def dateparse(s):
'''), (D + 'discovery.py', 'from itertools import chain\n', 'from functools import lru_cache\nfrom itertools import chain\n')]
R['discover-string'] = [(D + 'discovery.py', '''    for f in string_coercions:
        try:
            value = f(s)
        except (ValueError, KeyError):
            continue
        return discover(value)
''', '''    ok, value = _coerce(s)
    if ok:
        return discover(value)
'''), (D + 'discovery.py', '''@dispatch(_strtypes)
def discover(s):''', '''def _coerce(text):
    for attempt in string_coercions:
        try:
            return True, attempt(text)
        except (ValueError, KeyError):
            pass
    return False, None


@dispatch(_strtypes)
def discover(s):''')]
R['parser-loop'] = [(D + 'parser.py', '''        items = []
        item = True
        while item is not None:
            # Parse the <item>
            item = parse_item()
            if item is not None:
                items.append(item)
                if self.tok.id == sep_tok_id:
                    # If a <SEP> is next, there are more items
                    self.advance_tok()
                else:
                    # Otherwise we've reached the end
                    return items
            else:
                if len(items) > 0:
                    if trailing_sep:
                        return items
                    else:
                        # If we already saw "<item> <SEP>" at least once,
                        # we can point at the more specific position within
                        # the list of <item>s where the error occurred
                        self.raise_error(errmsg)
                else:
                    self.pos = saved_pos
                    return None
''', '''        items = []
        while True:
            item = parse_item()
            if item is None:
                break
            items.append(item)
            if self.tok.id != sep_tok_id:
                return items
            self.advance_tok()
        if not items:
            self.pos = saved_pos
            return None
        if not trailing_sep:
            self.raise_error(errmsg)
        return items
''')]
R['typeset-frozen'] = [(D + 'typesets.py', "    __slots__ = '_order', 'name'\n", "    __slots__ = '_order', 'name'\n"), (D + 'typesets.py', '''        return val in self._set
''', '''        return any(val is t or val == t for t in self._order)
''')]
R['groupby-setdefault'] = [(D + 'internal_utils.py', '''        if key not in d:
            d[key] = list()
        d[key].append(item)
''', '''        d.setdefault(key, []).append(item)
''')]
R['rows'] = [(D + 'discovery.py', '''    if (all(isinstance(item, (tuple, list)) for item in seq) and
            len(set(map(len, seq))) == 1):
''', '''    if _is_rows(seq):
'''), (D + 'discovery.py', '''@dispatch((tuple, list, set, frozenset))
def discover(seq):''', '''def _is_rows(seq):
    """Sequences of one common length."""
    for item in seq:
        if not isinstance(item, (tuple, list)):
            return False
    return len(set(len(item) for item in seq)) == 1


@dispatch((tuple, list, set, frozenset))
def discover(seq):''')]
R['local-guard'] = [(D + 'coretypes.py', '''    result = ''

    if isinstance(ds, DataShape):
        if ds.shape:''', '''    _depth.n = getattr(_depth, 'n', 0) + 1
    try:
        return _pprint(ds, width)
    finally:
        _depth.n -= 1


_depth = threading.local()


def _pprint(ds, width):
    result = ''

    if isinstance(ds, DataShape):
        if ds.shape:''')]
R['error-reduce'] = [(D + 'error.py', '''    def __str__(self):''', '''    def __reduce__(self):
        return type(self), (self.lexpos, self.filename, self.text, self.msg)

    def __str__(self):''')]
R['validate-loop'] = [(D + 'validation.py', '''    return all(validate(sch, d.get(k)) for k, sch in schema.parameters[0])
''', '''    for name, sch in schema.fields:
        if not validate(sch, d.get(name)):
            return False
    return True
'''), (D + 'user.py', '''    return all(validate(sch, d.get(k)) for k, sch in schema.parameters[0])
''', '''    for name, sch in schema.fields:
        if not validate(sch, d.get(name)):
            return False
    return True
''')][1:]
R['symtab-copy'] = [(D + 'type_symbol_table.py', '''        self.dtype = {}
        self.dtype_constr = {}
        self.dim = {}
        self.dim_constr = {}
        if not bare:
            self.add_default_types()
''', '''        for table in self.__slots__:
            setattr(self, table, dict())
        if not bare:
            self.add_default_types()
'''), (D + 'type_symbol_table.py', '''        self.dtype.update(no_constructor_types)
''', '''        for key, value in no_constructor_types:
            self.dtype[key] = value
''')]
R['record-cache'] = [(D + 'coretypes.py', '''        self._parameters = tuple(zip(names, types)),

''', '''        self._parameters = tuple(zip(names, types)),
        self._dict = dict(zip(names, types))

'''), (D + 'coretypes.py', '''    def __getitem__(self, key):
        return self.dict[key]
''', '''    def __setstate__(self, state):
        super(Record, self).__setstate__(state)
        self._dict = dict(self.fields)

    def __getitem__(self, key):
        return self._dict[key]
''')]
R['mono-reduce'] = [(D + 'coretypes.py', '''    def to_numpy_dtype(self):
        raise TypeError('DataShape %s is not''', '''    def __copy__(self):
        cls = type(self)
        new = cls.__new__(cls)
        new.__setstate__(self.__getstate__())
        return new

    def to_numpy_dtype(self):
        raise TypeError('DataShape %s is not''')]
R['mapping'] = [(D + 'discovery.py', '''    return Record((k, discover(m[k])) for k in sorted(m))
''', '''    fields = []
    for k in sorted(m):
        fields.append((k, discover(m[k])))
    return Record(fields)
''')]
R['lazy-imports'] = [(D + 'promote.py', '''    if lhs == rhs:
        return lhs
''', '''    from .coretypes import CType, string, to_numpy_dtype
    if lhs == rhs:
        return lhs
'''), (D + 'promote.py', 'if left == right == datashape.string:', 'if left == right == string:'), (D + 'promote.py', 'dtype = datashape.string\n', 'dtype = string\n'),
    (D + 'promote.py', '''datashape.to_numpy_dtype(left),
                                     datashape.to_numpy_dtype(right)''', '''to_numpy_dtype(left),
                                     to_numpy_dtype(right)'''), (D + 'promote.py', 'datashape.CType.from', 'CType.from')]
R['token-pos'] = [(D + 'parser.py', '''        if self.pos != self.end_pos:
            self.pos = self.pos + 1
            try:
                # If self.pos has not been backtracked,
                # we need to request a new token from the lexer
                if self.pos >= len(self.tokens):
                    self.tokens.append(next(self.lex))
            except StopIteration:
''', '''        if self.pos == self.end_pos:
            return
        self.pos += 1
        if self.pos >= len(self.tokens):
            token = next(self.lex, None)
            if token is not None:
                self.tokens.append(token)
            else:
''')]
R['interned-parse'] = [(D + 'util/__init__.py', '''    if isinstance(o, py2help._strtypes):
        ds = parser.parse(o, type_symbol_table.sym)
''', '''    if isinstance(o, py2help._strtypes):
        text = o
        ds = parser.parse(text, type_symbol_table.sym)
''')]
R['safe-memo'] = [(D + 'coretypes.py', '''numpy_provides_missing = ''', '''_str_memo = {}


def _show(parameters):
    """Texts by identity of the immutable parameters, which the memo keeps alive."""
    key = id(parameters)
    hit = _str_memo.get(key)
    if hit is not None and hit[0] is parameters:
        return hit[1]
    text = ' * '.join(map(str, parameters))
    if len(_str_memo) > 500:
        _str_memo.clear()
    _str_memo[key] = parameters, text
    return text


numpy_provides_missing = '''), (D + 'coretypes.py', '''        return self.name or ' * '.join(map(str, self.parameters))
''', '''        return self.name or _show(self.parameters)
''')]
R['generator-fields'] = [(D + 'coretypes.py', '''        return [n for n, t in self.fields]
''', '''        return list(map(_first, self.fields))
'''), (D + 'coretypes.py', '''class Record(with_metaclass(''', '''def _first(pair):
    return pair[0]


class Record(with_metaclass(''')]
R['from-numpy-flat'] = [(D + 'coretypes.py', '''    if dtype.kind == 'S':
        measure = String(dtype.itemsize, 'A')
    elif dtype.kind == 'U':
        measure = String(dtype.itemsize // 4, 'U32')
    elif''', '''    if dtype.kind in 'SU':
        size, encoding = {'S': (1, 'A'), 'U': (4, 'U32')}[dtype.kind]
        measure = String(dtype.itemsize // size, encoding)
    elif''')]


def apply(d, edits):
    for f, a, b in edits:
        p = '%s/repo/%s' % (d, f)
        s = open(p).read()
        if s.count(a) < 1:
            return 'no match in %s: %r' % (f, a[:60])
        open(p, 'w').write(s.replace(a, b, 1))


def main():
    av = sys.argv[1:]
    checks = ['C%02d' % i for i in range(1, 18)]
    if '--checks' in av:
        i = av.index('--checks')
        checks = av[i + 1].split(',')
        del av[i:i + 2]
    for n in av or R:
        d = plant.copy()
        try:
            e = apply(d, R[n]) or plant.tests(d)
            if e:
                print(n, 'NOT A REFACTORING', e, flush=True)
                continue
            for c in checks:
                r = plant.sh('bin/check %s quick' % c, cwd=plant.V, env=dict(os.environ, DS_REPO=d + '/repo'))
                if r.returncode:
                    print(n, c, 'rc=%d' % r.returncode, r.stdout[-1500:], flush=True)
            print(n, 'done', flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
