DF = 'path-sensitive abstract interpretation (typestate dataflow) over the clang-resolved program'
TRUST = 'Sound up to the engine: clang 18 AST resolution, models of the std library calls, loops by fixpoint with widening; callbacks are arbitrary. '

prop('C01', 'A run contains exceptions and reports them in its status',
     '''Whatever standard exception is raised while a run is preparing, parsing, loading external sources or invoking handlers, the
     run does not let it escape: it returns a non-zero status instead. The one exception is a library business error in an
     application that has opted out of catching them, which must then escape. Every exception the library itself raises while running is a standard exception.''',
     ['inputs', 'fault_sequences'], 'every command line, every registered callback, and every point at which a callback or a library check throws',
     'tests throw from one or two handlers; the guarantee is about every throwing point on every path through a run',
     ['cmdr_impl.hh', 'cmdr_defs.hh', 'cmdr_app_inl.h', 'cmdr_dbg.hh'],
     [('the two catch clauses around the body of run and the -1 behind them', 'cmdr_impl.hh: app::run'), ('exception classes derive from std::exception', 'cmdr_dbg.hh')],
     technique=DF + ' with every callback call forked into return / throw std / throw business error',
     note=TRUST + 'Exceptions are injected at every user callback and at every throw statement of the repository; std-library failures (bad_alloc) are not enumerated.')

prop('C02', 'A stop request ends parsing at once and is never turned into a command run',
     '''When a command-hit, flag-hit or unknown-input callback asks to stop (or an unrecognised input aborts), no later argument is consumed, no further callback of
     the parse and no command handler is invoked, no internal action runs, and the run returns status 0. When a callback asks to continue, parsing continues. A callback result that names a built-in internal action is
     dispatched to exactly that action after parsing when it is the answer to the last argument processed (a later command or flag token may replace it), and every built-in action has one registered handler.''',
     ['inputs', 'histories'], 'every token sequence, at every position a callback may answer, with every answer a callback can give',
     'tests never return most of the answers; the guarantee ranges over all answers at all positions',
     ['cmdr_impl.hh', 'cmdr_app_inl.h', 'cmdr_defs.hh'],
     [('stop test after each token handler', 'cmdr_impl.hh: app::run'), ('stop test after the flag-hit callback', 'cmdr_impl.hh: app::process_flag'), ('handler table', 'cmdr_app_inl.h: app::initialize_internal_commands'), ('dispatch', 'cmdr_impl.hh: app::after_run, internal_action')],
     technique=DF + ' with every action-typed callback result forked into stop / continue', note=TRUST)

prop('C03', 'No command runs while a required flag of it or of an ancestor is missing',
     '''A command's handlers are invoked only if every flag marked required on that command or on any of its ancestors up to the application was supplied;
     otherwise the run reports the missing flag as a business error and invokes no handler. A run in which all required flags were supplied is not rejected by this check.''',
     ['inputs', 'programs'], 'every command tree, every depth of nesting, every subset of required flags supplied',
     'tests have one tree with one or two required flags; the guarantee ranges over every ancestor chain and every flag position',
     ['cmdr_impl.hh'], [('the ancestor walk that throws', 'cmdr_impl.hh: app::check_required_flags'), ('the call ahead of invocation', 'cmdr_impl.hh: app::after_run')],
     technique=DF + ' with the required/hit state of each visited flag forked', note=TRUST + 'The ancestor chain is analysed at three levels plus an arbitrary remainder.')

prop('C04', 'Invocation hooks fire in order, once, and cleanup hooks always fire',
     '''Invoking a command calls the global pre-hook, then the command's pre-hook, then its handler (or the not-hooked fallback when it has none), then the command's
     post-hook, then the global post-hook, each at most once and only if set. A pre-hook returning non-zero skips the later pre-hook and the handler, and that value is the result.
     The post-hooks run exactly once whether the handler returned or threw, and a thrown exception is passed on, not swallowed.''',
     ['inputs', 'fault_sequences', 'configurations'], 'every combination of hooks set, every return value, every throwing hook',
     'tests set one or two hooks that return 0; the ordering must hold for all 2^6 configurations and all outcomes',
     ['cmdr_impl.hh', 'cmdr_app.hh', 'cmdr_cmd.hh'], [('hook sequence and catch-all', 'cmdr_impl.hh: app::invoke_command')],
     technique=DF + ' with a hook-order automaton, forking each hook into unset / zero / non-zero / throw', note=TRUST)

prop('C05', 'Value precedence: default, external source, environment, command line',
     '''The stored value of an option is its default at registration, may then be overridden by external loaders, then by its environment variables, then by the command line,
     and never by a lower-priority source after a higher one. Every environment variable bound to an option that is set reaches that option's own stored value, a text option getting the whole text of the variable, and counts as a hit; an unset one changes nothing.''',
     ['inputs', 'configurations', 'histories'], 'every option, every environment, every external loader, every command line',
     'tests exercise two layers at a time; the ordering must hold whichever sources are present',
     ['cmdr_impl.hh', 'cmdr_cmd_inl.h'], [('phase order', 'cmdr_impl.hh: app::prepare, app::run'), ('environment application', 'cmdr_impl.hh: app::apply_env_vars'), ('default registration', 'cmdr_impl.hh: app::on_arg_added'), ('command-line application', 'cmdr_impl.hh: app::on_arg_matched')],
     technique='effect-ordering dataflow over the run phases plus must-write analysis of each source', note=TRUST + 'Text-to-value conversion is not judged.')

prop('C06', 'Each command-line token is handled by exactly the class its spelling selects',
     '''A token starting with two tildes is looked up as a special long flag, exactly two dashes stop option parsing, two dashes followed by text is a long flag, a single dash or slash a short flag,
     an empty token is skipped, and anything else is a command name, or a positional argument once the current command has no sub-commands. Everything after the lone double dash is left untouched as
     positional input for the handler.''',
     ['inputs'], 'every token spelling at every position of every command line',
     'tests use a few dozen command lines; the classification must hold for every string, including empty, one-character and boundary spellings',
     ['cmdr_impl.hh'], [('token classification', 'cmdr_impl.hh: app::run'), ('prefix stripping', 'cmdr_impl.hh: process_special_flag / process_long_flag / process_short_flag')],
     technique='constant propagation of symbolic token prefixes through the parse loop (abstract interpretation)', note=TRUST + 'Spellings are partitioned by length (0, 1, 2, 3+) and first two characters (dash, slash, tilde, other): 37 blocks that cover every string; each is run as the first argument, and one per kind behind an arbitrary argument.')

prop('C07', 'Unrecognised input is always recorded and always reported, unless told otherwise',
     '''Every flag or command name that matches nothing is added to the list of unknown inputs. While unknown input is treated as an error the run then stops, unless the user's unknown-input callback
     takes it over; only that callback or the corresponding switch being off may let the run go on. The two switches (commands, flags) act independently.''',
     ['inputs', 'configurations'], 'every unmatched token, each of the two switches on or off, callback present or absent and every answer it gives',
     'tests feed one unknown flag; the guarantee covers every token class and configuration',
     ['cmdr_impl.hh', 'cmdr_common.hh'], [('recording and dispatch', 'cmdr_impl.hh: process_command, process_flag'), ('answers', 'cmdr_impl.hh: unknown_*_found')],
     technique=DF, note=TRUST + 'The nearest-match auto-pick (feel-like) is an explicit user request and accepted as handling.')

prop('C08', 'Looking up, matching and running never alter the registered command set',
     '''Parsing a command line, looking names up, printing help and invoking handlers leave the registered commands, their arguments and the name-to-object tables
     exactly as registration built them; only registration and reset change them. In particular a lookup that fails or succeeds by one kind of name never changes what another kind of name resolves to.''',
     ['histories', 'inputs'], 'every sequence of lookups and runs on every command tree',
     'a test sees the tables after one or two lookups; corruption shows only for particular name combinations in later lookups',
     ['cmdr_impl.hh', 'cmdr_cmd.hh', 'cmdr_cmd_inl.h', 'cmdr_if.hh'], [('lookup tables', 'cmdr_cmd.hh: cmd::_long_commands and siblings'), ('lookup paths', 'cmdr_impl.hh: matching_command, matching_flag_on')],
     technique='interprocedural write-effect analysis with reference aliasing plus call-graph reachability', note='Every write to a registration table or name field is attributed to functions; none may be reachable from the run/lookup/print entry points. Alias analysis is flow-insensitive; writes through casts to unrelated types are not seen.')

prop('C09', 'Registration refuses duplicate names and indexes every name',
     '''Registering a command or flag whose long name, short name or alias is already taken among its siblings is refused with the error for that kind of name, and no existing entry is replaced.
     A successful registration makes the item findable by every one of its names, in the table of its kind, and records its owner.''',
     ['programs', 'histories'], 'every sequence of registrations, any combination of long, short and alias names present',
     'tests register mostly distinct names; a silent overwrite shows only when a specific pair of names collides',
     ['cmdr_cmd_inl.h', 'cmdr_defs.hh'], [('duplicate checks and index insertion', 'cmdr_cmd_inl.h: cmd::add (arg and cmd)')],
     technique=DF + ' with a found / not-found fork per lookup table', note=TRUST)

prop('C10', 'Copying and assigning objects carries over every part of their state',
     '''Copying, moving or assigning any of the library's value types (commands, flags, builders, variables, tree nodes, and the rest of the user-visible classes) transfers every data member from the source to the same member of the target,
     on every path, whatever the source contains; the operation that copying selects is the copy operation, and copying from an lvalue leaves the source alone.''',
     ['inputs', 'histories'], 'every source object and target object, for every user-written copy, move and assignment operation',
     'tests copy a few objects and look at a few members; a forgotten or crossed member shows only where that member is later used on a copy',
     ['cmdr_cmd.hh', 'cmdr_arg.hh', 'cmdr_opts.hh', 'cmdr_var_t.hh', 'cmdr_small_string.hh'], [('user-written copy operations', 'cmdr_arg.hh, cmdr_cmd.hh, cmdr_opts.hh, cmdr_var_t.hh')],
     technique=DF + ' of every user-provided copy/move operation with per-member provenance', note=TRUST + 'Move-only OS-handle classes are judged by the ownership property instead.')

prop('C11', 'Resetting an application returns it to a freshly created state',
     '''After a reset no command, flag, name table, toggle group, callback, hook or stored option from before it is reachable, the policy switches are back to their defaults,
     and the built-in commands and flags are registered again. Everything old is gone before the built-ins are added back.''',
     ['histories'], 'every history of registrations, runs and settings before the reset',
     'the tests reset an application that used few features; a member that is not cleared shows only if it had been used before',
     ['cmdr_impl.hh', 'cmdr_cmd.hh', 'cmdr_app.hh'], [('member-by-member clearing', 'cmdr_impl.hh: app::reset')],
     technique='write-effect inference of registration state + ' + DF + ' of reset', note=TRUST + 'The obligations (which members) are inferred from the program, not listed.')

prop('C12', 'Option-store accesses are serialised by the store lock',
     '''While the option store may be used by several threads, every modification of its tree happens under its exclusive lock and every lookup under at least its shared lock, on every path; a lock taken is always released,
     and no operation re-acquires a lock its caller already holds exclusively.''',
     ['schedules'], 'every interleaving of any number of threads calling public store operations',
     'tests are single threaded; data races need a specific interleaving',
     ['cmdr_var_t.hh', 'cmdr_var_t_inl.h'], [('reader/writer lock', 'cmdr_var_t.hh: nodeT::_set, get, has; treeT')],
     technique='lockset dataflow over every public store operation', note=TRUST)

prop('C13', 'Store lookups by full key find exactly the leaf the tree holds',
     '''Setting a dotted key makes the full key, and each enclosing sub-key from each level, resolve to the newly stored leaf through the index, and creates or reuses exactly one child per path component;
     no set through one key changes which leaf an unrelated key resolves to, and removing everything empties both tree and index together. A lookup or membership test for a prefix and a key answers from exactly the entry prefix.key (key alone when the prefix is empty), and get, has and set of the application use one and the same prefix.''',
     ['histories', 'inputs'], 'every sequence of sets, merges and clears with any keys',
     'tests set a handful of keys; index and tree can diverge only for particular nestings and orders',
     ['cmdr_var_t.hh', 'cmdr_var_t_inl.h'], [('recursive set with index callback', 'cmdr_var_t.hh: nodeT::_set'), ('lookup', 'cmdr_var_t.hh: nodeT::get, has')],
     technique=DF, note=TRUST)

prop('C14', 'What a builder sets is what the built option or command reports',
     '''Every fluent setter of an option, flag, command or application stores its argument, unchanged, where the corresponding reader finds it, touching no other attribute, and every forwarding builder passes its argument to
     the same-named setter of the object it builds and returns itself.''',
     ['inputs', 'programs'], 'every setter, every argument value, every builder layer',
     'tests look at a few attributes of a few options; a crossed or dropped attribute shows only where that attribute is used',
     ['cmdr_arg.hh', 'cmdr_cmd.hh', 'cmdr_opts.hh', 'cmdr_if.hh', 'cmdr_app.hh'], [('attribute setters', 'cmdr_arg.hh, cmdr_cmd.hh'), ('builder forwarders', 'cmdr_opts.hh')],
     technique=DF + ' of each setter composed with its reader', note=TRUST)

prop('C15', 'Task queues, pools and condition waits share state only under their lock',
     '''Every read and write of the shared state of a message queue, task pool or condition-wait object happens while its own mutex is held; a waiter always waits on a predicate re-checked under that mutex; every state change that can make
     a waiter's predicate true is followed by a notification (to all waiters when the change is a shutdown); a task is taken only from a queue that has one, is run exactly once by the worker that took it, with no pool lock held; and a pool that is destroyed tells its workers to stop and waits for every one.''',
     ['schedules'], 'every interleaving of producers, workers and the destructor',
     'tests run one schedule of a small pool; lost wake-ups and races need specific interleavings',
     ['cmdr_pool.hh'], [('queue mutex and condition variable', 'cmdr_pool.hh: threaded_message_queue'), ('condition waits', 'cmdr_pool.hh: conditional_wait'), ('workers', 'cmdr_pool.hh: thread_pool, thread_pool_lite')],
     technique='lockset and notify-obligation dataflow over every public operation and worker body', note=TRUST)

prop('C16', 'Runs are serialised and always finalised exactly once',
     '''From before the first piece of work of a run until after its last, one per-application lock is held, so two threads running the same application never interleave. Every run, however it ends
     (early stop, help, handler return, caught or escaping exception), calls each registered post-run callback exactly once, in order, after all other work of the run.''',
     ['schedules', 'inputs', 'fault_sequences'], 'every schedule of concurrent runs and every way a run can end',
     'tests run an application from one thread and end it normally',
     ['cmdr_impl.hh'], [('run lock', 'cmdr_impl.hh: app::run'), ('scope-exit object', 'cmdr_impl.hh: post_runner in app::run')],
     technique='lockset + exactly-once typestate dataflow over all exits of run', note=TRUST)

prop('C17', 'Operating-system handles and mappings are released exactly once',
     '''Every file descriptor, file handle, pipe, process stream and memory mapping the library acquires is released exactly once on every path, including failure paths and after a move, and is not used after release or when its acquisition failed.''',
     ['inputs', 'fault_sequences'], 'every acquisition site, every failure of a later system call, every move and destruction order',
     'tests never make a system call fail',
     ['cmdr_mmap.hh', 'cmdr_process.hh', 'cmdr_os_io_redirect.hh', 'cmdr_ios.hh', 'cmdr_utils.hh', 'cmdr_if.hh'], [('mapping class', 'cmdr_mmap.hh'), ('process pipes', 'cmdr_process.hh'), ('output redirection', 'cmdr_os_io_redirect.hh')],
     technique='resource typestate dataflow, each system call forked into success / failure', note=TRUST)

prop('C18', 'Writes into fixed-size storage stay inside it',
     '''Every write, copy or formatted print into a fixed-size buffer of the library is bounded by that buffer's size for every input, including inputs exactly as long as the buffer, and the terminating zero is inside it.''',
     ['inputs'], 'every input length and content at every fixed-size buffer',
     'tests use short inputs; an overrun needs an input at or past the boundary',
     ['cmdr_small_string.hh', 'cmdr_string.hh', 'cmdr_utils.hh', 'cmdr_impl.hh', 'cmdr_log.hh', 'cmdr_chrono.hh', 'cmdr_terminal.hh'], [('inline buffer', 'cmdr_small_string.hh'), ('stack buffers', 'cmdr_string.hh, cmdr_impl.hh')],
     technique='interval analysis of every buffer write against its declared extent', note=TRUST)

prop('C19', 'Optional results are tested before they are used',
     '''The result of an operation that can report absence (a map or string search, an environment lookup, an allocation or open that may fail, a parent link, a cast that may fail) is dereferenced or indexed only on paths where it was found present.''',
     ['inputs', 'programs'], 'every call site of a may-be-absent operation, on every path',
     'tests exercise the present case; the absent case needs inputs nobody wrote',
     ['cmdr_impl.hh', 'cmdr_var_t.hh', 'cmdr_utils.hh', 'cmdr_path.hh', 'cmdr_string.hh', 'cmdr_process.hh'], [('found tests', 'all lookup sites')],
     technique='nullness / end-iterator dataflow at every dereference', note=TRUST)

prop('C20', 'Every object is born with all its scalar state defined',
     '''Every constructor of every class of the library leaves each of its scalar, pointer and enumeration members with a defined value, so no behaviour depends on the previous contents of memory.''',
     ['inputs', 'histories'], 'every class, every constructor, every path through it',
     'uninitialised members usually hold zero in tests; the failure depends on memory history',
     ['cmdr_arg.hh', 'cmdr_cmd.hh', 'cmdr_app.hh', 'cmdr_common.hh', 'cmdr_pool.hh', 'cmdr_mmap.hh', 'cmdr_process.hh', 'cmdr_terminal.hh', 'cmdr_log.hh', 'cmdr_dbg.hh'], [('constructors and default member initialisers', 'all classes')],
     technique='definite-initialisation dataflow over every constructor', note=TRUST)

prop('C21', 'Switching colour off removes every escape sequence from coloured text',
     '''When colour output is disabled or unsupported, text passed through the colouriser comes out unchanged, for every style and colour, and when it is enabled every emitted start sequence is followed by the reset sequence after the text, unless the automatic reset was switched off. Colour switched off for the process stays off for colourisers created later, and the help screen honours the no-colour flag.''',
     ['inputs', 'configurations'], 'every style, colour, nesting and text, with colour on and off',
     'tests print to a terminal-less stream and do not look at the bytes',
     ['cmdr_terminal.hh'], [('gated emission', 'cmdr_terminal.hh: colorize')],
     technique=DF + ' of every emission, guarded by the enable flag', note=TRUST)

prop('C22', 'Observers and slots are notified once each, in order, and never after removal',
     '''Emitting an event or signal delivers the unmodified event to every registered observer or slot, once each and in registration order; a removed one is not called; a value delivered to one is not consumed so that the next one sees it empty;
     and the list of observers is read and changed only under its lock where one is provided.''',
     ['schedules', 'histories'], 'every sequence of connect, disconnect and emit, from any thread where the class is the locked variant',
     'tests connect one or two slots and emit once from one thread',
     ['cmdr_common.hh'], [('observer lists', 'cmdr_common.hh: observable, observable_bindable'), ('signal slots', 'cmdr_common.hh: signal')],
     technique='lockset and delivery dataflow', note=TRUST)

prop('C23', 'Callbacks kept beyond a call capture nothing that dies with the call',
     '''A function object the library stores, hands to another thread or returns does not refer to local variables or parameters of the function that created it.''',
     ['histories', 'schedules'], 'every closure creation site and every way its lifetime can exceed the creating call',
     'a dangling capture usually still reads the right stack bytes in a short test',
     ['cmdr_app_inl.h', 'cmdr_impl.hh', 'cmdr_pool.hh', 'cmdr_common.hh', 'cmdr_var_t.hh', 'cmdr_utils.hh'], [('closures stored in std::function members, threads and returns', 'all lambda sites')],
     technique='escape analysis of closure captures', note='Flow-insensitive escape: a closure escapes when stored in a member/global/container, returned, or given to a thread. Captured this is judged only for locals.')

prop('C24', 'Choosing one member of a toggle group switches exactly the others off',
     '''Matching a flag that belongs to a toggle group records it as the chosen member of exactly that group under its owning command, sets every other member of that group in the option store to false while the matched flag keeps the value just given, and touches no other group; registering a flag puts it in its own group only and changes the recorded choice only for the first member or one whose default is true.''',
     ['inputs', 'histories'], 'every group, every member, every sequence of choices',
     'tests pick one member of one group once',
     ['cmdr_impl.hh', 'cmdr_cmd.hh', 'cmdr_cmd_inl.h'], [('toggle handling', 'cmdr_impl.hh: app::on_arg_matched'), ('group registration', 'cmdr_cmd_inl.h: cmd::add')],
     technique=DF, note=TRUST)

prop('C25', 'Detected failures are raised, not dropped',
     '''Wherever the library detects a failure and builds an error object for it, that error is thrown (or returned, or stored for the caller), never discarded; and the result of every system call whose failure changes what follows is examined.''',
     ['fault_sequences', 'inputs'], 'every construction of an error object and every system call that can fail',
     'tests never make the system calls fail',
     ['cmdr_mmap.hh', 'cmdr_process.hh', 'cmdr_dbg.hh', 'cmdr_path.hh', 'cmdr_utils.hh', 'cmdr_var_t.hh'], [('throw sites', 'all')],
     technique='use analysis of error objects and system-call results on the typed syntax tree', note='Exact on the syntax tree: an expression statement whose value is an exception object, or a frozen table of must-check calls.')

prop('C26', 'Process-wide mutable state is safe to use from several threads',
     '''Every function-local, class-level or namespace-level variable of the library that is modified after start-up is atomic, thread-local, or only modified with a lock held.''',
     ['schedules'], 'every pair of threads using any parts of the library',
     'tests are single threaded',
     ['cmdr_path.hh', 'cmdr_log.hh', 'cmdr_dbg.hh', 'cmdr_terminal.hh', 'cmdr_utils.hh', 'cmdr_string.hh'], [('static variables', 'all')],
     technique='global write-effect analysis with locksets', note='Every write to a non-const static-duration variable is attributed; reads are not judged.')

prop('C27', 'Hidden commands and flags never appear in help output',
     '''A command or flag marked hidden is not printed in any help or usage listing unless the user asked for hidden items, and every visible one is listed once under its group.''',
     ['inputs', 'configurations', 'programs'], 'every command tree, every combination of hidden marks and of the reveal switches',
     'tests print one help screen and do not compare it',
     ['cmdr_impl.hh', 'cmdr_cmd_inl.h'], [('listing loops', 'cmdr_cmd_inl.h: cmd::print_commands, print_flags')],
     technique=DF + ' of the listing loops with hidden/group state forked', note=TRUST)

prop('C28', 'Every loop ends: parsing, expansion and printing always make progress',
     '''Whatever the arguments, texts, files and registered options, every loop in parsing, value conversion, text utilities, help and diagnostic output makes progress on each repetition (consumes a character, an argument, an element or a level) and so ends; only the service loops that wait for work run until they are told to stop. Reading from a stream ends when the stream does.''',
     ['inputs', 'configurations'], 'every argument vector, input text, stream state and set of registered flags',
     'a hang needs a particular text, flag set or stream state that a finite test list does not contain',
     ['cmdr_impl.hh', 'cmdr_string.hh', 'cmdr_cmd_inl.h', 'cmdr_var_t.hh', 'cmdr_os_io_redirect.hh'], [('combined-flag loop', 'cmdr_impl.hh: app::process_flag'), ('token loop', 'cmdr_impl.hh: app::run'), ('text loops', 'cmdr_string.hh: read_until, expand_env')],
     technique=DF + ' with ranking-function search over the ways back of each loop', note=TRUST)

prop('C29', 'A flag takes exactly the word given for it as its value',
     '''The value of a matched flag comes from the whole text behind its name in the same argument (less one "=" and enclosing quotes) or, if there is none, from the next argument as a whole; a text option keeps blanks and every other character of it.
     The text used is consumed: no part of it is parsed again as a flag, command or positional, and nothing that was not used is skipped. A word that cannot be converted is reported, stays available as an argument and leaves the option as it was. A boolean flag is on, and off exactly if a "-" follows its name.''',
     ['inputs', 'configurations'], 'every option type, spelling and following argument',
     'tests use short values without blanks, attached or separate, of a few types',
     ['cmdr_impl.hh'], [('value taking', 'cmdr_impl.hh: app::process_flag')],
     technique=DF + ' with symbolic texts and scan positions, once per kind of option', note=TRUST)

prop('C30', 'The longest registered flag name wins, and only the flag given is counted',
     '''Of all names in the tables of the matched commands and their ancestors that the text at the scan position starts with, the longest is chosen, the innermost command winning ties, whatever order the tables are walked in; the chosen option, its text and its length belong to one entry. Exactly the chosen flag is counted as given: names that were only candidates, and flags that do not match, never satisfy a required flag or show up as hit.''',
     ['inputs', 'configurations'], 'every set of registered names, every table order, every spelling',
     'table order is unspecified and tests use names that are not prefixes of each other',
     ['cmdr_impl.hh', 'cmdr_arg.hh'], [('search', 'cmdr_impl.hh: app::matching_flag_on')],
     technique=DF + ' of the search loop from an arbitrary best match so far', note=TRUST)

NA = [
 ('C40', 'Option values survive a text round trip', 'Parsing the text a stored value prints as yields an equal value, for every supported type and value.', ['cmdr_var_t.hh'], 'variable stream operators', 'cmdr_var_t.hh: operator>>, operator<<',
  'round-trip equality of runtime values over all types: numeric and text conversion results are not visible in the shape of the code; no structural clause is a faithful part of it'),
 ('C41', 'Durations and dates format and parse consistently', 'Formatting a duration or timestamp and parsing it back yields the same value up to the printed precision, for every value and locale.', ['cmdr_chrono.hh'], 'format and parse routines', 'cmdr_chrono.hh',
  'numerical results of calendar and unit arithmetic; the truth is in values, not in paths'),
 ('C42', 'Suggestions are ordered by similarity', 'The similarity score of two strings is symmetric, between zero and one, one exactly for equal strings, and suggestions come out ordered by it.', ['cmdr_string.hh'], 'distance computation', 'cmdr_string.hh: jaro_winkler_distance',
  'floating-point results of a quadratic matching loop; no sound static argument in reach bounds them'),
 ('C43', 'The priority queue pops the least element', 'Popping yields the least stored element under the ordering, every pushed element exactly once, for every sequence of pushes and pops.', ['cmdr_priority_queue.hh'], 'heap maintenance', 'cmdr_priority_queue.hh',
  'ordering of histories in a heap/skip structure: a shape and ordering invariant over unbounded arrays, which needs inductive proof with quantified array invariants rather than dataflow'),
 ('C44', 'Timers fire on time', 'Timed waits return within the scheduler tolerance of the requested time and never early.', ['cmdr_pool.hh', 'cmdr_chrono.hh'], 'timed waits', 'cmdr_pool.hh',
  'a timing property of runs, not of the source'),
 ('C45', 'Help text is aligned whatever the names', 'In every help screen the description column starts at the same display column for all rows, for every name length and terminal width.', ['cmdr_cmd_inl.h', 'cmdr_terminal.hh'], 'column padding', 'cmdr_cmd_inl.h',
  'depends on runtime display widths of strings accumulated through stream state; not derivable from paths'),
 ('C46', 'Concurrent option-store histories are linearizable', 'Every concurrent history of store gets and sets is equivalent to some sequential one respecting real time.', ['cmdr_var_t.hh'], 'store lock', 'cmdr_var_t.hh',
  'linearizability of histories; its structural necessary part (lock discipline) is claimed separately as C12'),
]
for i, t, s, f, mn, mw, why in NA:
    prop(i, t, s, ['inputs'] if i not in ('C44', 'C46') else ['schedules'], 'all values / histories', 'tests sample a few values', f, [(mn, mw)], na=why)
