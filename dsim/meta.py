"""Static facts about each property's simulation (used in evidence and MANIFEST)."""

REAL = ['the whole datashape package, compiled from the working tree',
        'multipledispatch, numpy, dateutil, CPython (uninstrumented)']
STUB = ['thread scheduling (simulator)', 'git child process (subprocess.Popen)',
        'locks and sleeps created through threading/time',
        'hash() and id() of the package', 'clock (LD_PRELOAD shim)']
TRUST = ['multipledispatch, numpy and dateutil calls are atomic steps',
         'CPython executes one bytecode at a time (GIL build)']
ONE = ['the expected answer of a call is that of the same call made alone in a fresh simulated process of the same tree']

TECH = 'deterministic simulation with fault injection: '


def P(tech, rule, note, q, t=None, special=False, assumes=(), cap=400):
    return dict(technique=TECH + tech, rule=rule, note=note, quick_chunks=q, thorough_chunks=t or q * 25, cap_quick=cap,
                cap_thorough=3000, special=special, real=REAL, stub=STUB, assumes=TRUST + list(assumes))


PROPS = {
    'C01': P('seeded bytecode-level scheduling of caller threads, answers compared with a solo run',
             'a run is 2-4 caller threads x 1-3 calls on shared or separate objects under one seeded bytecode-level schedule; non-trivial when at least one '
             'preemption happened inside the run; distinct by the hash of the full (thread, instruction) sequence',
             'Seeded search over bytecode-granular interleavings: samples, does not enumerate. Expected answers come from the same call made alone in a fresh '
             'simulated process, so a defect that is wrong even alone is invisible here.', 160, assumes=ONE),
    'C02': P('seeded call histories in a simulated process, each answer compared with the same call in a fresh process',
             'a run is a history of 20-200 calls (similar, equal-but-distinct, failing, repeated, over colliding hashes and reused identities) in one simulated '
             'process; every answer is compared; non-trivial when a call repeats or resembles an earlier one; distinct by the hash of the history',
             'Samples histories; memory identity is reused as aggressively as possible by a simulated id(). Trusts that the fresh process is right.', 80, assumes=ONE),
    'C03': P('aborts (memory exhaustion, interrupt, stack overflow) injected at arbitrary instructions of calls, recovery compared with a fresh process',
             'a run is 1-3 threads of calls, most with one abort armed at a uniformly drawn call/iteration instruction (or a stack limit); afterwards all objects, '
             'registries and a battery of calls are compared with a fresh process; non-trivial when an abort fired; distinct by schedule and fired aborts',
             'Aborts strike at call and iteration instructions of the package code, not inside C code of dependencies and not inside clean-up code. An aborted call '
             'may only raise the abort or give the right answer.', 80, assumes=ONE),
    'C04': P('seeded interleavings of registrations and lookups with interrupts, recorded histories checked for linearizability',
             'a run is 2-4 threads registering and looking up a few contended names (types, type sets, display names), some interrupted; the recorded history is '
             'checked against write-once registers (Wing-Gong search) and against conversion to NumPy; non-trivial when two operations on one name overlap or one '
             'was interrupted; distinct by schedule',
             'Linearizability of every recorded history against a write-once register; samples schedules. Class statements that re-register a class name are outside the claim.', 600),
    'C05': P('torn, duplicated, relayed and interrupted byte transport between simulated processes with other hash functions',
             'a run moves pickles or copies of generated values along 1-4 simulated processes with different hash functions and layouts, truncating, duplicating, '
             'reordering, interrupting and retrying transfers; a second stage moves them between real processes; non-trivial when a value changed process; distinct by plan',
             'Receiving processes are fresh imports with other salts, and in the second stage real processes with other PYTHONHASHSEED. Flipped bits are not injected '
             '(pickle has no checksum); truncation is.', 240, special=True, assumes=ONE),
    'C06': P('the same call histories in processes with different hash seeds, hash salts, memory layouts and iteration orders, event logs diffed',
             'a run is a list of calls executed in 8 processes with different PYTHONHASHSEED, simulated hash salt and heap layout; logs are diffed; within a process sets '
             'and dicts are also permuted by a seeded order; non-trivial when the call involves a set, dict or hash; distinct by call list',
             'Samples seeds and permutations; divergence between any two processes is a violation.', 160, special=True),
    'C07': P('simulated wall clock and time zone under processes started and called at adversarial moments, with jumps between two clock readings',
             'a run is a sequence of process starts, clock settings, zone changes, jumps armed at the n-th clock reading, and discoveries of date-like strings; every '
             'answer is compared with that at a fixed reference moment; non-trivial when at least one clock or zone fault precedes a call; distinct by plan',
             'The clock is a shim below libc, so every reading by Python or C code is simulated. Samples moments with a bias to leap days, month ends and century pivots.', 400),
    'C08': P('seeded interleavings of table edits and parses on several symbol tables with aborted parses, against a per-table model',
             'a run is 1-3 threads editing and parsing with 2-4 tables (bare, default, copied); each parse is checked against a model of its table, overlapping edits '
             'may be seen or not; non-trivial when an edit precedes or overlaps a parse; distinct by schedule and plan',
             'The model resolves names by the recorded edits of that table; parses of the default table are also compared with a fresh process.', 500),
    'C09': P('invariants on all live objects checked after every step of seeded histories, schedules and aborts',
             'a run builds objects and then applies operations, derivations, caller-side mutations of inputs and outputs, threads and aborts, re-checking the text, '
             'parameters, hash, equality and membership of all live objects and the contents of arguments; non-trivial when an object was used after being built; distinct by plan and schedule',
             'Samples histories. Direct assignment to attributes of a datashape by the caller is outside the claim.', 120),
    'C10': P('data sources failing at any touch with any error, transiently or for good, then healing',
             'a run is 1-3 threads of discover/validate/constructor calls over sources (lists, sets, dicts, arrays, generators, registered rules) one of whose touches, '
             'drawn uniformly from those a healthy call makes, raises one of 27 errors; non-trivial when a failure fired; distinct by plan and schedule',
             'StopIteration and MDNotImplementedError are excluded (they are protocol, not failures); a TypeError from a length hint and an AttributeError of a shape/dtype '
             'probe may surface as Python defines.', 160, assumes=ONE),
    'C11': P('a simulated git child process that is missing, fails, dies, truncates or garbles at each command, against a reference model of the version scheme',
             'a run is 1-4 imports in scratch trees, each with an independently drawn outcome of the three git commands (spawn errors, exit codes, signals, read errors, '
             'truncation, garbage) and directory layout; non-trivial when git is consulted; distinct by plan',
             'Output that is malformed though the command claimed success only has to give a non-empty version; all other cases must match the model exactly.', 240,
             assumes=['git is run through subprocess.Popen (any wrapper of it)']),
    'C12': P('seeded interleaving, abandonment, hand-over and interruption of lazy streams, item by item against a reader that drains alone',
             'a run advances 1-5 streams from 1-3 threads in small steps mixed with close, throw, drop, abandonment in bulk, aborts and other calls; non-trivial when '
             'items were delivered; distinct by schedule',
             'A stream whose advance was cut short by an injected abort is not judged further.', 500, assumes=ONE),
    'C13': P('seeded histories and schedules of rule registrations and discoveries over a class hierarchy, against a method-resolution model',
             'a run is 1-3 threads registering rules (constant, recursive, parsing, raising) for user classes and discovering or validating values of them alone or nested; '
             'calls overlapping a registration may see either rule; non-trivial when a registration and a judged call occur; distinct by schedule',
             'The dispatcher of multipledispatch itself is trusted to be atomic. Ambiguity between two unrelated bases may be resolved either way.', 800),
    'C15': P('simulated fork() at seeded moments of seeded bytecode-level schedules: all other threads vanish, locks they hold stay held',
             'a run is a C01 run, half of the time with registrations, in which one thread forks between or in the middle of its calls and goes on as the child (the '
             'other threads cease to exist where they are) or as the parent; at-fork handlers run as Python would run them; every finished call is compared with a solo '
             'run; non-trivial when a fork happened after a thread had run; distinct by the hash of the full (thread, instruction, fork) sequence',
             'The child is simulated in place: memory as it was, only the forking thread goes on. Locks of dependencies are trusted.', 330, assumes=ONE),
    'C16': P('calls injected into the middle of other calls at arbitrary instructions (signal handlers, finalizers), single- and multi-threaded',
             'a run is 1-3 threads of calls, most with 1-3 other calls injected on the same thread before a uniformly drawn schedule point or write; every interrupting '
             'and interrupted call is compared with a solo run; non-trivial when a call was injected; distinct by the hash of the full (thread, instruction, injection) sequence',
             'The injected call itself is not preempted or interrupted (except where it has to wait for a lock).', 100, assumes=ONE),
    'C17': P('seeded call histories with aborts and failing sources, after which every value handed in must be reclaimable',
             'a run is 1-20 calls (discover, validate, constructors, set operations, indexing) over containers, arrays, array-likes, iterators and objects with rules, some '
             'aborted at a drawn instruction, some with sources that fail; afterwards results and errors are dropped and every value is checked through a weak reference, '
             'after a collection; other runs flood the library with calls that differ in one number, aborted or not, and measure what its modules hold; non-trivial when a value was watched; distinct by plan',
             'Watches containers, arrays, iterators and user objects; strings and numbers through subclasses that can be; datashapes are not watched one by one, but floods of thousands of different calls must not make what the modules hold grow.', 100),
    'C14': P('interrupts and memory exhaustion injected at arbitrary instructions and module boundaries of the import, then retried',
             'a run interrupts 1-3 imports (at a uniformly drawn call/iteration instruction executed during the import, or around the execution of a module), retries and '
             'compares wiring, registries and sampled calls with a clean process; non-trivial when an interrupt fired; distinct by fault sequence',
             'Imports of the dependencies are never interrupted.', 160, assumes=ONE),
}

NA = {
    'N01': 'a pure function of its input: no schedule, clock, fault, history or second party enters, so there is nothing for a simulator to decide',
    'N02': 'a pure algebraic law of values; what histories, threads, hash seeds and transport do to equality and hashing is decided under C01, C02, C05, C06 and C09',
    'N03': 'a pure algebraic law of a table-driven function; no nondeterminism or fault enters',
    'N04': 'a pure relation between one input and one output; how failing sources, clocks, orders and rules affect discovery is decided under C06, C07, C10 and C13',
    'N05': 'a pure function of datashape and index',
    'N06': 'a pure function of a datashape or dtype',
    'N07': 'a pure function of the text; interleaving, history and aborts of parses are decided under C01, C02, C03, C08 and C12',
    'N08': 'a pure function of its two arguments and options',
}
