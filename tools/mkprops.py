"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

D = 'datashape/'
p('C01', 'Concurrent calls do not affect each other',
  'When several threads use the library at once - parsing, printing, comparing, hashing, slicing, discovering, '
  'promoting, converting to and from NumPy, validating - on separate or on shared objects, every call returns '
  '(or raises) exactly what it would have if it had been the only call, whatever the interleaving. '
  'Every such call also finishes: threads never wait for each other forever.',
  ['schedules', 'inputs'], 'all interleavings, at bytecode granularity, of calls made by two to four threads',
  'The tests are single-threaded and call one function at a time; no schedule is ever varied.',
  [D + 'parser.py', D + 'lexer.py', D + 'coretypes.py', D + 'discovery.py', D + 'util/__init__.py', D + 'promote.py',
   D + 'predicates.py', D + 'validation.py', D + 'typesets.py', D + 'user.py', D + 'util/testing.py'],
  [('one parser object and one token list per parse', 'parser.py DataShapeParser.__init__ / parse'),
   ('idempotent lazily cached hash', 'coretypes.py Mono.__hash__'),
   ('module tables are read-only after import', 'discovery.py edges/toposorted, type_symbol_table.py sym')],
  [('cached hash', 'per-object memo of the hash', 'coretypes.py Mono._hash'),
   ('default symbol table', 'names the parser resolves', 'type_symbol_table.py sym')],
  ['return value or exception of every call'])
p('C02', 'Answers do not depend on what was called before',
  'The answer of a call (its value, its printed form, or its error) is determined by its arguments and by explicit '
  'registrations and table edits alone. No sequence of earlier calls - of any length, successful or failing, on equal, '
  'similar or unrelated arguments - changes the answer of a later one.',
  ['histories', 'inputs'], 'all finite call histories in one process, including failing calls and equal-but-distinct arguments',
  'Each test makes a handful of calls and compares one answer; none compares the same call after different histories.',
  [D + 'parser.py', D + 'coretypes.py', D + 'discovery.py', D + 'promote.py', D + 'typesets.py', D + 'predicates.py', D + 'user.py'],
  [('functions are pure apart from the registries', 'discovery.py, promote.py, util/__init__.py'),
   ('registrations are explicit', 'coretypes.py Type.register, typesets.py register_typeset')],
  [('type registry', 'name to type', 'coretypes.py Type._registry'), ('dispatch tables', 'signature to function', 'dispatch.py namespace')],
  ['return value or exception of every call'])
p('C03', 'An aborted call leaves no trace and never yields a wrong answer',
  'If a call is cut short at any point by memory exhaustion, an interrupt or stack overflow, its caller gets that error or the '
  'correct answer, never a different answer. Afterwards every existing datashape, symbol table and registry is unchanged, and '
  'the same call and every other call give the answers they would give in a fresh process.',
  ['fault_sequences', 'crash_points', 'inputs'], 'all points inside a call at which an allocation failure, an asynchronous interrupt or stack exhaustion can strike, and all sequences of such faults',
  'No test injects a failure inside a call; error tests only use invalid arguments.',
  [D + 'parser.py', D + 'coretypes.py', D + 'discovery.py', D + 'type_symbol_table.py', D + 'typesets.py', D + 'util/__init__.py'],
  [('state is published last', 'coretypes.py CType.__init__, DataShape.__init__, Mono.__hash__; typesets.py TypeSet.__init__'),
   ('narrow except clauses', 'discovery.py discover(str), coretypes.py Mono.__hash__')],
  [('type registry', 'name to type', 'coretypes.py Type._registry'), ('cached hash', 'memo', 'coretypes.py Mono._hash')],
  ['exception seen by the caller', 'answers of later calls'])
p('C04', 'A registered type name is claimed once, atomically',
  'Registering a type or a type set under a name that is already taken fails and leaves the earlier registration in place; of any '
  'number of threads registering the same name exactly one succeeds. A lookup sees either no entry or the complete registered type, '
  'always the same one from its first appearance on, and a registration that fails or is interrupted has no effect on the names of others.',
  ['schedules', 'fault_sequences', 'histories'], 'all interleavings of registrations and lookups by several threads, with interrupts inside registrations',
  'Two tests register one duplicate name from one thread; races and interrupted registrations are never exercised.',
  [D + 'coretypes.py', D + 'typesets.py'],
  [('duplicate check before insertion', 'coretypes.py Type.register; typesets.py TypesetRegistry.register_typeset'),
   ('registration is the last step of construction', 'coretypes.py CType.__init__, DataShape.__init__; typesets.py TypeSet.__init__')],
  [('type registry', 'name to type', 'coretypes.py Type._registry'), ('type set registry', 'name to type set', 'typesets.py registry')],
  ['outcome of each registration', 'answers of lookups and NumPy conversion'])
p('C05', 'Datashapes survive transport between processes',
  'A datashape, type set or syntax error that is pickled (any protocol) or copied in one process and restored in another - with '
  'other hash seeds, after any number of relays, duplicates, restarts and interrupted attempts - prints the same, equals and hashes '
  'the same as the one built natively there, and behaves the same in every operation, apart from a registered display name. '
  'A truncated pickle is rejected, never restored as something else.',
  ['crash_points', 'fault_sequences', 'inputs', 'histories'], 'all types, pickle protocols, relay paths between processes with different hash functions, and torn or interrupted transfers',
  'One test pickles one record inside one process, where a stale cached hash is invisible.',
  [D + 'coretypes.py', D + 'typesets.py', D + 'error.py'],
  [('state is the constructor parameters, not the caches', 'coretypes.py Mono.__getstate__/__setstate__, DataShape.__setstate__')],
  [('cached hash', 'process-specific memo that must not travel', 'coretypes.py Mono._hash')],
  ['equality, hash, text and operations in the receiving process'])
p('C06', 'Results do not depend on hash seeds or iteration order',
  'The answer of every call, including its printed form, is the same in every process whatever the hash seed and memory layout. '
  'Discovering or validating a set, or a plain dictionary, gives the same answer in whatever order it happens to be iterated.',
  ['configurations', 'inputs'], 'all hash functions (string hash seeds, type addresses) and all iteration orders of unordered inputs',
  'A test run samples one hash seed and one memory layout, and fixes the order of its inputs.',
  [D + 'discovery.py', D + 'internal_utils.py', D + 'coretypes.py', D + 'typesets.py', D + 'util/__init__.py'],
  [('keys are sorted', 'discovery.py discover(seq), _mapping_discover'), ('topological order of the type lattice', 'internal_utils.py _toposort; discovery.py lowest_common_dshape'),
   ('type sets keep declaration order', 'typesets.py TypeSet._order')],
  [('type lattice order', 'computed at import by popping from a set', 'discovery.py toposorted')],
  ['return value and text'])
p('C07', 'Discovery does not depend on the clock or the time zone',
  'What a value is discovered as depends on the value alone: the date and time at which the process started or the call is made, clock jumps '
  'during the call, and the local time zone never change the answer of any call.',
  ['configurations', 'inputs', 'schedules'], 'all clock readings (including leap days, month ends, century pivots, jumps between two readings) and local time zones',
  'The tests run at one moment in one zone; strings that are completed from today\'s date pass or fail by calendar luck.',
  [D + 'discovery.py'],
  [('string coercion through a date parser that fills missing fields', 'discovery.py discover(str)')], (),
  ['discover(), validate()'])
p('C08', 'Symbol tables are isolated from each other',
  'Parsing with a given symbol table resolves names by the current contents of that table only. Adding, replacing or removing entries of one '
  'table takes effect at once for that table and never affects parsing with another table or the default one, whatever the interleaving of '
  'edits and parses and whichever parses fail or are aborted; parsing never changes a table.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of edits and parses on several tables by several threads, with aborted parses',
  'The tests parse with one throw-away table in one thread and never edit a table between parses.',
  [D + 'type_symbol_table.py', D + 'parser.py', D + 'util/__init__.py'],
  [('per-instance dictionaries copied from the defaults', 'type_symbol_table.py TypeSymbolTable.__init__/add_default_types'),
   ('the parser only reads its own table', 'parser.py DataShapeParser')],
  [('default symbol table', 'used by dshape()', 'type_symbol_table.py sym')],
  ['parse results and errors'])
p('C09', 'Datashapes are values: nothing changes them or the arguments',
  'Once built, a datashape never changes: its printed form, parameters, equality, hash and dictionary membership stay the same whatever is done with it, '
  'with objects derived from it, or later to the lists, dictionaries and other containers it was built from or that it returned. '
  'No call changes the values it is given.',
  ['histories', 'schedules', 'inputs'], 'all histories of operations, derivations and caller-side mutations, by one or several threads',
  'Tests look at the result of one operation, not at what it did to its operands or to other live objects.',
  [D + 'coretypes.py', D + 'discovery.py', D + 'util/__init__.py', D + 'promote.py', D + 'typesets.py'],
  [('parameters are copied into tuples', 'coretypes.py constructors'), ('properties build fresh lists', 'coretypes.py Record.names/types/dict')],
  [('parameters', 'constructor arguments of a type', 'coretypes.py Mono._parameters and slots')],
  ['text, hash, equality and parameters of live objects; contents of arguments'])
p('C10', 'A failing data source is reported, never absorbed',
  'When a container, iterator, array-like object or user-registered discovery function fails while the library reads it, the caller gets that failure; '
  'the library never returns a datashape or verdict made up from the part it could read. Once the source works again the same call gives the answer it '
  'would have given without the failure, and a failure of one source does not affect calls on others.',
  ['fault_sequences', 'inputs'], 'all read points of the source and all error kinds, transient and permanent',
  'No test uses a source that fails.',
  [D + 'discovery.py', D + 'user.py', D + 'coretypes.py', D + 'util/__init__.py'],
  [('exceptions propagate except for narrow handlers', 'discovery.py discover(seq), discover(object)')], (),
  ['exception or result of discover(), validate(), constructors'])
p('C11', 'Importing the package survives any behaviour of git',
  'Importing the package succeeds and yields a non-empty version string whatever version control does: git missing, not executable, failing at any of '
  'its commands, killed, or printing nothing, truncated or undecodable output. The output of a failed command is never used; when all commands succeed the '
  'version is TAG[+DISTANCE.gHEX[.dirty]], or 0+untagged.DISTANCE.gHEX[.dirty] without tags, and without usable git it is 0+unknown or the version in the directory name.',
  ['fault_sequences', 'configurations'], 'all sequences of outcomes of the external commands and file system states',
  'One test checks that a version exists, in one healthy checkout.',
  [D + '_version.py', D + '__init__.py'],
  [('fallback chain keywords, git, parent directory, unknown', '_version.py get_versions'), ('exit status and errno handling', '_version.py run_command')], (),
  ['import outcome', '__version__ / get_versions()'])
p('C12', 'Lazy streams are independent of each other',
  'Token streams and other lazily produced sequences deliver the same items in the same order, and an invalid token raises the same error after the same valid '
  'prefix, however their consumption is interleaved with other streams and calls, paused, handed from thread to thread or abandoned.',
  ['schedules', 'histories', 'inputs'], 'all interleavings of consumption of several streams, with abandonment at any item',
  'Tests drain one stream completely at once.',
  [D + 'lexer.py', D + 'util/__init__.py', D + 'typesets.py'],
  [('generator-local position', 'lexer.py lex'), ('chained generators', 'util/__init__.py collect')], (),
  ['items and errors of each stream'])
p('C13', 'A registered discovery rule takes effect at once and only for its types',
  'After a user registers a discovery (or validation) rule for a type, every call that starts afterwards uses it for that type and for those of its subclasses that have no closer rule - '
  'alone or nested in containers - however often such values were discovered before; re-registering replaces the rule. (A tuple, list or dict inside a sequence is read as a '
  'row or a mapping, whatever its class.) All other types keep their rules, and a rule that itself calls the library gets correct answers.',
  ['histories', 'schedules'], 'all interleavings of registrations and discoveries over a class hierarchy',
  'Tests register nothing at run time; all rules exist before the first call.',
  [D + 'dispatch.py', D + 'discovery.py', D + 'user.py'],
  [('one shared dispatch namespace', 'dispatch.py'), ('recursive discovery goes through the dispatcher', 'discovery.py discover(seq), _mapping_discover')],
  [('dispatch tables', 'signature to function', 'dispatch.py namespace')],
  ['discover(), validate()'])
p('C14', 'An interrupted import can be retried',
  'If importing the package is cut short at any point by an interrupt or memory exhaustion, importing it again in the same process succeeds, and the package '
  'then behaves exactly as after a clean import. The import that was cut short leaves the settings of the process (recursion limit, warning filters, garbage collection, signal handlers, module path and the like) as they were.',
  ['crash_points'], 'all points of the package\'s import at which an interrupt or allocation failure can strike, and repeated failures',
  'The tests import once, successfully.',
  [D + '__init__.py', D + 'coretypes.py', D + 'promote.py', D + 'typesets.py', D + 'discovery.py', D + 'dispatch.py'],
  [('registries live in the modules that are re-executed', 'coretypes.py Type._registry, typesets.py registry'), ('module-level back references to the package', 'coretypes.py / promote.py import datashape')],
  [('back reference', 'module object of the package held by its submodules', 'coretypes.py datashape')],
  ['answers after the retried import'])

pure = 'a pure function of its input, with no schedule, clock, fault or history in it'
p('C15', 'A forked process can use the library',
  'When a process forks - as multiprocessing does by default - while other threads are anywhere inside the library, the child, in which only the forking thread goes on, '
  'can use the library at once: every call made there finishes and gives the answer it would give in a process of its own, names can be registered and looked up, and a call '
  'that was in progress when it forked itself goes on correctly. The parent and its threads go on undisturbed.',
  ['schedules', 'crash_points'], 'all moments of a fork relative to the calls of all threads, in the child and in the parent',
  'No test forks, let alone while another thread is inside the library.',
  [D + 'coretypes.py', D + 'typesets.py', D + 'parser.py', D + 'discovery.py', D + 'dispatch.py'],
  [('the registry lock is taken across a fork', 'coretypes.py after class Type'),
   ('calls other than registrations take no lock and keep no state of a call in progress in shared places', 'whole package')],
  [('registry lock', 'serialises registrations', 'coretypes.py Type._registry_lock')],
  ['whether each call of the child finishes', 'return value or exception of every call'])
p('C16', 'Calls made in the middle of other calls',
  'A call made by a signal handler, a finalizer or a weak reference callback that runs, on the same thread, in the middle of another call - at any point of it, registrations '
  'included - finishes and gives the answer it would give by itself, and so does the interrupted call when it goes on. (Python prints a container that the same thread is just '
  'printing as "(...)"; that is left aside.)',
  ['schedules', 'histories'], 'all pairs of an interrupting and an interrupted call and all points at which the second can be interrupted, by one or several threads',
  'No test calls the library from a handler or finalizer.',
  [D + 'coretypes.py', D + 'typesets.py', D + 'parser.py', D + 'lexer.py', D + 'discovery.py', D + 'validation.py', D + 'util/__init__.py'],
  [('one parser object per parse, no scratch space shared by calls', 'parser.py, lexer.py, coretypes.py pprint'),
   ('the registry lock is reentrant and a claim is re-checked when it is made', 'coretypes.py Type.register; typesets.py register_typeset')],
  [('registry lock', 'serialises registrations', 'coretypes.py Type._registry_lock')],
  ['whether both calls finish', 'return value or exception of both'])
p('C17', 'The library does not keep data alive',
  'Once a call has returned or failed - also when it was aborted in the middle or its data source failed - and its result or error has been dropped, nothing in the library refers to '
  'the containers, arrays, iterators and user objects that were passed to it: they can be reclaimed at once or by the next garbage collection. Data of earlier calls never piles up, '
  'however long the history of calls.',
  ['histories', 'fault_sequences', 'inputs'], 'all histories of calls with aborts and failing sources',
  'Tests look at the answers; none checks what is still referenced afterwards.',
  [D + 'discovery.py', D + 'user.py', D + 'coretypes.py', D + 'util/__init__.py', D + 'predicates.py'],
  [('no call keeps its arguments in module, class or function state', 'whole package')], [],
  ['weak references to the values passed in'])
p('N01', 'Printed datashapes parse back',
  'Parsing the printed form of any datashape gives an equal datashape, at every print width.',
  ['inputs'], 'all datashapes', 'Tests round-trip about a hundred texts.', [D + 'coretypes.py', D + 'parser.py', D + 'lexer.py'],
  [('printers mirror the grammar', 'coretypes.py __str__/pprint')])
p('N02', 'Equality and hashing are structural',
  'Datashapes are equal exactly when dimensions and measures are equal; equality is an equivalence and equal datashapes hash equal.',
  ['inputs'], 'all pairs and triples of datashapes', 'Tests compare chosen pairs.', [D + 'coretypes.py'], [('__eq__/__hash__ over shape and measure.info()', 'coretypes.py Mono')])
p('N03', 'Promotion is a commutative upper bound',
  'Promotion of scalar types is commutative and idempotent, agrees with NumPy for numeric types and is optional exactly when an operand is.',
  ['inputs'], 'all pairs of scalar types', 'Tests sample pairs.', [D + 'promote.py'], [('np.result_type + optionify', 'promote.py')])
p('N04', 'Discovery describes the data',
  'The datashape discovered for a value has the value\'s nesting, lengths and field names and a measure every element fits.',
  ['inputs'], 'all nested Python and NumPy values', 'Tests use fixed examples.', [D + 'discovery.py'], [('unite_* functions', 'discovery.py')])
p('N05', 'Indexing a datashape matches indexing the array',
  'The datashape of an indexed array equals the indexed datashape for every index that is valid for the array.',
  ['inputs'], 'all datashapes and indices', 'Tests index a few shapes.', [D + 'coretypes.py'], [('DataShape._subshape', 'coretypes.py')])
p('N06', 'NumPy conversion round-trips',
  'Converting a NumPy-compatible datashape to (shape, dtype) and back preserves it, and every supported dtype survives the reverse trip.',
  ['inputs'], 'all dtypes and shapes', 'Tests enumerate some dtypes.', [D + 'coretypes.py'], [('to_numpy/from_numpy', 'coretypes.py')])
p('N07', 'Every text parses or raises a located syntax error',
  'Any text either parses to a well-formed datashape (at most one ellipsis per datashape, never as measure) or raises an error whose line and column lie in the text.',
  ['inputs'], 'all strings', 'Tests use chosen bad texts.', [D + 'parser.py', D + 'lexer.py', D + 'error.py', D + 'validation.py'], [('raise_error', 'parser.py'), ('validate', 'validation.py')])
p('N08', 'assert_dshape_equal fails exactly on unequal datashapes',
  'With default options the assertion passes exactly when the two datashapes are equal, and each relaxing option ignores exactly the difference it names.',
  ['inputs'], 'all pairs of datashapes and options', 'Tests compare chosen pairs.', [D + 'util/testing.py'], [('dispatch on pairs of types', 'util/testing.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
import collections
assert len(set(x['id'] for x in P)) == len(P)
for x in P:
    assert len(x['title']) <= 80, x['title']
print(len(P))
