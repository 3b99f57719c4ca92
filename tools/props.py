"""The properties (source of properties.jsonl and of MANIFEST.json)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), na=None,
         technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, state=state, observe=observe, na=na,
                  technique=technique, note=note))


prop("C01", "Published data replaces its prepared copy before the copy is deleted",
     "When a commit, merge or checkpoint publishes a prepared file under its final name, the prepared copy is deleted only after the publishing step is known to have succeeded, so no crash or failure leaves the data under neither name. Every persistent action (link, rename, truncate, remove, commit, roll back) and every initialisation happens in all supported build configurations, with debug assertions compiled in or out.",
     ["crash_points", "configurations", "fault_sequences"],
     "every path of every operation that links or renames a file and deletes its source; every assertion in the library, in both the assert-enabled and the NDEBUG build",
     "Tests run one build configuration (assertions on) on a file system where link never fails; the optimised build the Makefile ships and a failing link are never exercised.",
     ["src/fiver.cc", "src/bigwig.cc", "src/hazel.cc", "src/simple_txt_io.cc", "src/stats.cc"],
     [("commit links the ready file to its final name, then removes the ready file", "src/fiver.cc Fiver::commit_"),
      ("pickling to a temporary, then link, then remove", "src/fiver.cc Fiver::pickle"),
      ("rollback truncates the text files to their checkpoint", "src/simple_txt_io.cc SimpleTxtIO::restore")],
     [("kitten.* / fiver.* / hazel.* files", "prepared and published shards", "src/fiver.cc")],
     ["files in the burrow after commit() returns"],
     technique="path-sensitive ordering dataflow (link checked before remove) over Clang CFGs, plus an effect lint over assert() operands",
     note="Holds for every CFG path of the analysed functions; assumes link/rename/remove behave as POSIX documents and paths are identified by the symbolic value of the name.")

prop("C02", "A failed write is never reported as success",
     "If writing, flushing, closing, linking, renaming or truncating a file that holds index data or metadata fails, the operation that issued it reports failure: it never returns success, never votes ready, and never puts the incomplete file in place under its final name, while such a failure has gone unexamined.",
     ["fault_sequences", "inputs"],
     "every output stream and file-system call in the library that produces persistent data, on every path to a success return, ready vote or publication",
     "No test injects an I/O failure (full disk, failed rename); every existing test sees only successful writes.",
     ["src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc", "src/simple_txt_io.cc", "src/simple_annotator.cc", "src/simple_appender.cc", "src/simple_builder.cc", "src/dna.cc", "src/bigwig.cc"],
     [("stream state tested after the last write or close", "src/fiver.cc Fiver::pickle"),
      ("results of pickle/link/rename propagated", "src/fiver.cc, src/hazel.cc, src/dna.cc")],
     observe=["return value of ready(), append(), annotate(), finalize(), write_dna(), merge"],
     technique="typestate dataflow on output streams and file-system call results (dirty / checked), interprocedural",
     note="Decides that each failure is examined and leads to a failing result on every path, not that the device reports failures truthfully.")

prop("C03", "Multi-index commit is all-or-nothing across a crash",
     "When several indexes are committed together, a complete recovery record is in place under its recovery-visible name before the first of them commits and is removed only after all of them have committed; until the record is in place nothing has been committed and any failure reports failure. When a burrow is opened, every pending recovery record is replayed, and removed only after it succeeded, before any prepared-but-uncommitted data is deleted and before shards are inventoried.",
     ["crash_points", "histories"],
     "every path through the joint commit and through opening a burrow",
     "Tests commit jointly and re-open without crashing between the steps; the ordering of link, commits and removal is visible only at a crash point in between.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc"],
     [("commit script written to a temporary, checked, made executable and linked before any commit", "src/bigwig.cc Bigwig::commit_all"),
      ("scripts replayed before kittens are removed", "src/bigwig.cc finalize_commits, sanitize")],
     observe=["burrow contents and query results after re-open"],
     technique="path-sensitive event-order automaton over the inlined call graph",
     note="Ordering on every path; the shell script's own effect is outside the analysis apart from its per-member construction.")

prop("C04", "A started reader keeps one consistent snapshot",
     "A reader that has been started sees one fixed set of committed shards until it is ended: the shard set and the cache of derived posting lists it uses are captured together in a single atomic step, prepared, aborted or discarded shards are never included, and later commits, merges or aborts by anyone never change the captured set. Whenever a commit changes what is visible, the shared cache is replaced in the same atomic step, and a clone of a started reader shares its snapshot and cache.",
     ["schedules", "histories"],
     "every interleaving of readers starting with commits and merges, and every function that touches the shared shard list, the shared cache or a captured view",
     "The window between capturing the shard list and the cache is a few instructions; tests would need to schedule a commit exactly there.",
     ["src/bigwig.cc", "src/fluffle.h", "src/bigwig.h"],
     [("shard list and cache copied under one hold of the shared lock", "src/bigwig.cc Bigwig::start_"),
      ("commit replaces the cache before releasing the lock", "src/bigwig.cc Bigwig::commit_")],
     [("shard list", "published shards shared by all clones", "src/fluffle.h"), ("cache", "posting lists merged across the shard list", "src/fluffle.h")],
     ["query results of a started reader"],
     technique="atomic-section (critical-section grouping) analysis and who-may-write query over resolved fields",
     note="Decides the capture/replace structure; that equal shard sets give equal answers is not decided here.")

prop("C05", "Background merging never loses or duplicates shards",
     "Merging replaces shards only with an output that is non-null, was stored successfully and has been started, and the sources are discarded only after the replacement is in the shared shard list; a merge that fails, or whose sources are no longer where they were, leaves every source in place and undiscarded. Every shard claimed for merging is released, and the worker is un-counted exactly once, on every way out of the merge worker.",
     ["schedules", "fault_sequences", "histories"],
     "every path through the background merge worker and every function that discards a shard",
     "Merge failures are not injected by any test, and the interleavings that make a merge find its sources gone do not occur in single-writer tests.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc"],
     [("claims inserted and erased in the merging set, worker count retired", "src/bigwig.cc merge_worker"),
      ("discard after the new list is installed", "src/bigwig.cc merge_worker")],
     [("merging set", "shards claimed by a worker", "src/fluffle.h"), ("workers", "live worker count", "src/fluffle.h")],
     technique="typestate dataflow (claim/publish/discard/retire) over the merge worker's CFG with helpers inlined",
     note="Decides protocol order on every path; equality of merged content with its sources is not decided.")

prop("C06", "Shared state is accessed only under the lock that guards it",
     "Every mutable datum that several threads can reach (the shared shard list, address and sequence counters, merge bookkeeping, worker count, index parameters, posting-list caches, text memos, decoded-chunk caches, directory state, write buffers and their failure flags) is read or written only while holding the mutex that guards it, unless it is atomic, or its object has not yet been shared, so that no concurrent use of the library has a data race.",
     ["schedules"],
     "every access to every guarded datum in the library, along every call path from an entry point or thread start",
     "Races need a particular interleaving; the tests' few threads rarely hit the windows and are not run under a race detector.",
     ["src/bigwig.cc", "src/fluffle.h", "src/fiver.cc", "src/hazel.cc", "src/owsla.cc", "src/owsla.h", "src/working.cc", "src/simple_txt.cc", "src/simple_idx.cc", "src/simple_annotator.cc", "src/simple_appender.cc", "src/read_gate.h", "src/safe_map.h", "src/committable.h", "src/simple_posting.cc"],
     [("mutex members and scoped guards around every access", "see files")],
     technique="interprocedural lockset analysis with a guarded-by table confirmed against the code",
     note="Lock identity is the symbolic path of the mutex; objects still private to their creator are exempt by an escape analysis of the creating path.")

prop("C07", "Locks are always released and never deadlock",
     "Every lock that an operation acquires is released on every way out of it, including every early return and error path; no operation acquires a lock it already holds or releases one it does not hold; and any two locks that are ever held together are always acquired in the same order.",
     ["schedules", "inputs", "fault_sequences"],
     "every acquisition and release of every mutex in the library and applications, on every path, across calls",
     "Leaked locks sit on error paths tests do not take, and lock-order inversions need two threads at the right moment.",
     ["src/committable.h", "src/bigwig.cc", "src/simple_txt.cc", "src/simple_idx.cc", "src/simple_annotator.cc", "src/simple_appender.cc", "src/working.cc", "src/owsla.cc", "src/hazel.cc", "src/fiver.cc", "src/read_gate.h", "src/safe_map.h"],
     [("lock/unlock pairs and scoped guards", "see files")],
     technique="lock typestate dataflow with inlined callees; global lock-order graph checked for cycles",
     note="Interprocedural along resolved calls (virtual calls to every override); the order graph is per mutex member.")

prop("C08", "Whoever waits for another thread's result is always released",
     "A thread that waits for a posting list, a text chunk or a turn to read, produced or given back by another thread, is always eventually released: whoever took on producing a result announces it on every way out, including when decoding or reading fails; a reader slot that is taken is given back; whatever can satisfy a wait is changed under the waiter's mutex (or atomically, with ordering) and followed by a wake-up of everyone it releases; and every wait re-checks its condition after waking. Nobody uses a result produced elsewhere before waiting for it, and nothing changes it once it was announced.",
     ["schedules", "fault_sequences"],
     "every condition variable wait and every write to the state its predicate reads, and every obligation to fill a shared cache entry",
     "A lost wake-up or an unfilled entry hangs only when the producer fails or loses a race; tests do not make producers fail.",
     ["src/read_gate.h", "src/owsla.cc", "src/hazel.cc", "src/simple_posting.cc", "src/array_hopper.cc", "src/bigwig.cc", "src/simple_idx.cc"],
     [("gate opened after the fill; notify_all after the state change", "src/read_gate.h, src/simple_posting.cc")],
     technique="must-notify dataflow on predicate state; fill-obligation typestate followed into the started threads; use-before-wait and change-after-announce checks",
     note="Decides signalling on every path of the producer; fairness of the scheduler is assumed.")

prop("C09", "Every transaction that is opened is closed correctly",
     "The transaction protocol is enforced and followed: a second transaction, or a ready without a transaction, is refused with a message; commit happens only after a successful ready vote; abort after any failure. Every library operation and application that opens a transaction ends it on every path, including every error path, by committing after a successful ready or by aborting, unless it hands the open transaction to its caller by contract.",
     ["histories", "inputs", "fault_sequences"],
     "every path from a successful transaction open in the library (scribes, builders, appenders of corpora, foragers) to each return",
     "The leaks are on error paths (unreadable file, failed append, failed ready) that tests rarely drive to the end and then reuse.",
     ["src/committable.h", "src/scribe.cc", "src/fiver.cc", "src/bigwig.cc", "src/simple_warren.cc", "meadowlark/meadowlark.cc", "meadowlark/forager.cc", "meadowlark/tf-idf_forager.cc"],
     [("transaction/ready/commit/abort state machine", "src/committable.h")],
     technique="typestate dataflow (open/readied/closed) over CFGs with inlined helpers",
     note="Each opened object is tracked by symbolic identity on every path.")

prop("C10", "Failure and error message go together",
     "A library operation that takes an error-message argument sets it whenever it reports failure (false or null) and reports failure whenever it sets it: no failing path returns without a message, and no path that has recorded an error goes on to report success or to carry on working with the bad input.",
     ["inputs", "fault_sequences"],
     "every function with an error out-parameter, every path to each return",
     "There are hundreds of error paths; tests assert messages on a handful.",
     ["src/*.cc", "gcl/*.cc", "meadowlark/*.cc"],
     [("safe_error(error) = ... immediately before a failing return", "src/core.h")],
     technique="path-sensitive error-state dataflow with callee contracts (assume-guarantee)",
     note="Contracts are assumed at call sites and proved for every definition, so the result is inductive.")

prop("C11", "A result that can be null or a lookup that can miss is never used unchecked",
     "Where the library can return no object (unknown component, unreadable file, failed conversion) or a lookup can find nothing, the code that receives the result tests it before using it on every path, so that malformed names, recipes, files or options produce an error and never a crash.",
     ["inputs", "configurations"],
     "every use of a possibly-null factory or lookup result and of every iterator returned by a find, on every path",
     "Each needs a specific malformed component name, recipe or file; tests use well-formed ones.",
     ["src/*.cc", "gcl/*.cc", "meadowlark/*.cc"],
     [("nullptr and end() tests after each factory or find", "see files")],
     technique="nullness dataflow with context-sensitive may-answer-null summaries; iterator typestate",
     note="May-answer-null is computed from the callee's own paths, given what the call passes; pointers kept in fields are followed to the end of the operation that sets them, not between operations.")

prop("C12", "The component registry agrees with itself",
     "For every family of components chosen by name (compressors, featurizers, stemmers, tokenizers, texts, indexes, annotators, appenders, statistics, foragers, readers and writers), the checking and recovering operations accept exactly the names that the making operation accepts and refer each to the same component; the name a component is given is one its family's factory knows and stands for that component; and a name nobody knows is refused.",
     ["inputs", "configurations"],
     "every name known to any factory, checking or recovering operation, plus a name known to none, on every path",
     "Tests exercise a few names; adding or renaming a component in one table and not in the other passes them.",
     ["src/compressor.cc", "src/featurizer.cc", "src/stemmer.cc", "src/tokenizer.cc", "src/txt.cc", "src/idx.cc", "src/stats.cc", "src/annotator.cc", "src/appender.cc", "src/working.cc", "meadowlark/forager.cc"],
     [("string comparisons in static make and check", "see files")],
     technique="path-sensitive extraction of name tables (branch facts on the name) and cross-checking of siblings",
     note="Names are compared with literals; construction from a recipe string is C13.")

prop("C13", "What a recipe writes, the factory reads back",
     "Each key that a component writes into its recipe (and that the index writes into its metadata record) is a key that the corresponding factory reads, and each key the factory requires is one the recipe writes, so that an index re-opened or cloned from its recorded recipe has the same configuration.",
     ["configurations", "histories"],
     "every recipe-producing function paired with its recipe-consuming factory",
     "Tests re-open indexes in one or two configurations; a misspelt key only matters for the non-default ones.",
     ["src/bigwig.cc", "src/simple_warren.cc", "src/simple_idx.cc", "src/simple_txt.cc", "src/json_txt.cc", "src/fastid_txt.cc", "src/hazel.cc", "src/fiver.cc", "src/txt.cc"],
     [("freeze of a key map in recipe_(), cook plus find in make()", "see files")],
     na='Whether two key sets must agree is a matter of values, not of shape: recipes are text built from maps that pass through several components, a missing key means its default, and some keys are read without ever being written on purpose; key-set equality is therefore neither necessary nor sufficient, and what matters (the re-opened configuration behaves as the written one) is equality of run-time values. What reading the code showed is recorded in DESIGN.md.')

prop("C14", "On-disk layouts are written and read identically",
     "Each binary layout (shard file, posting record, text directory, posting directory, compressed actions, hazel header) is written and read with the same sequence of fields of the same widths and the same identifying marks, so data written by the library is always readable by it.",
     ["inputs", "programs"],
     "each writer/reader pair of a binary layout, along their straight-line field sequences",
     "Round-trip tests on one compiler and small data do not see a width or order mismatch that cancels out or only matters for rare records.",
     ["src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc", "src/simple_txt_io.cc", "src/owsla.h"],
     [("read/write pairs with matching sizeof", "see files")],
     na='Agreement of two layouts as written (field by field, width by width) is only sufficient, not necessary: equivalent code may write one structure in one call and read it in pieces, and lengths depend on counts read at run time; a comparison of the field sequences would be a comparison of how the code is written, and raise alarms on code where the property holds. What is decided instead: that every failing read or write is noticed (C02) and that nothing read is left unassigned (C15).')

prop("C15", "Every query step delivers a complete result",
     "Every evaluation step of every query operator, and every other operation that delivers numbers through its arguments, assigns all of its outputs (start, end and, where the caller has not preset it, value) on every path that does not report failure, including past-the-end and empty inputs; no operation reads a local variable that may not have been assigned. Results and stored bytes therefore never depend on uninitialised memory held in outputs and locals.",
     ["inputs", "histories"],
     "every override of the four positional access operations, their cached public forms, and every other operation with numeric outputs, on every path; every read of a scalar local",
     "Uninitialised reads usually see a benign value in a test process.",
     ["gcl/gcl.cc", "src/hopper.cc", "src/hopper.h", "src/array_hopper.cc", "src/hazel.cc", "src/fiver.cc", "src/bigwig.cc"],
     [("assignments through the output pointers on each branch; value preset by the caching wrapper", "src/hopper.h Hopper::tau")],
     technique="interprocedural definite-assignment dataflow for output parameters and locals (fixed point over the call graph, all overrides of virtual calls)",
     note="Inductive over calls between operators; virtual dispatch is resolved to all overrides. Assignments inside loops are assumed to have run where the value is used.")

prop("C16", "A query expression is understood everywhere or rejected",
     "Every operator the query parser accepts has an evaluator, a printable form that parses back to the same operator, and is handled by every pass that rewrites or inspects expression trees; malformed input (unknown operator, missing or surplus operands, unbalanced brackets, text left over after the expression) is rejected with an error rather than evaluated.",
     ["inputs", "programs"],
     "every operator spelling and node kind, across parser, printer, optimiser and evaluator",
     "Tests cover the common operators; an operator missing from one of the tables surfaces only when it is used there.",
     ["gcl/parse.cc", "gcl/gcl.cc", "gcl/optimizer.cc", "gcl/mt.cc"],
     [("operator tables in parser, to_string and to_hopper", "gcl/parse.cc")],
     technique="cross-checking of the operator tables read from their initialisers, symbolic path walk of the evaluator per operator and operand count, must-check dataflow in the parser and in the makers of expression nodes",
     note="Table agreement and arity; the meaning of an operator is C30 (not applicable).")

prop("C17", "Reading changes nothing, and what is closed refuses changes",
     "Querying, translating, cloning and opening a published shard never create, modify, rename or delete a stored file. A component that was opened read-only, or that is finished (its only transaction committed, its build finalized), refuses every further change - transaction, annotate, append, erase, added text or annotations - with an error and changes nothing; a commit closes what takes only one transaction; a component whose stream could only be opened for reading is marked read-only; and whatever accepts a transaction can be asked to be ready.",
     ["histories", "inputs"],
     "every reading operation with everything it reaches through calls, every class that takes transactions or builds, and every factory of a component with a read-only state",
     "Tests do not attempt each change on each kind of finished or read-only component, and do not watch files while querying.",
     ["src/hazel.cc", "src/fiver.cc", "src/simple_txt_io.cc", "src/simple_txt_io.h", "src/builder.h", "src/scribe.cc", "src/null_annotator.h", "src/null_appender.h", "src/read_gate.h", "src/simple_idx.cc"],
     [("read_only_, built_, finalized_ and null members are tested before every change", "src/simple_txt_io.cc, src/fiver.cc, src/builder.h, src/scribe.cc"),
      ("shards are opened with ios::in / O_RDONLY", "src/hazel.cc, src/read_gate.h")],
     technique="who-may-write effect analysis over the call graph; path-sensitive refusal analysis from discovered closing states",
     note="Closing states are those the code itself tests to refuse; a null annotator or appender, which by design accepts and drops, is outside.")

prop("C18", "A clone is a complete copy",
     "Cloning an index or component yields one that behaves the same: every configuration field of the original that a factory, a setter or a constructor argument gives a value (components, compressors, recipes, stemmer, default container, shared state) is carried to the clone or re-created from it, and the only fields reset are per-transaction or per-view state.",
     ["histories", "configurations"],
     "every clone operation and every field of the cloned class and its bases",
     "Tests clone default-configured indexes; a field that is not copied shows only in other configurations.",
     ["src/bigwig.cc", "src/simple_warren.cc", "src/hazel.cc", "src/fiver.cc", "src/warren.cc", "src/warren.h"],
     [("field-by-field copying in clone_", "see files")],
     technique="field-coverage dataflow on every path returning the clone",
     note="A reset field must be in a table of per-transaction/per-view state, one reason each.")

prop("C19", "Names and paths never reach a shell unquoted",
     "Every string from outside (file, directory or index names, corpus paths) that becomes part of a command run by a shell is quoted by the library's quoting function, so that no name can change what is executed.",
     ["inputs"],
     "every call that runs a shell command (and every file made executable as a script) and every path of data into it",
     "Tests use plain names.",
     ["src/working.cc", "src/bigwig.cc", "src/fiver.cc", "src/builder.cc", "meadowlark/meadowlark.cc", "apps/walk.cc"],
     [("shell_quote", "src/bigwig.cc, src/fiver.cc, src/builder.cc")],
     technique="taint dataflow from non-constant strings to system/popen with the quoting function as sanitizer",
     note="The quoting function is decided on its own paths: every byte it emits is one of its constants or an input byte shown not to be a quote.")

prop("C20", "Operating-system resources and threads are always given back",
     "Every file descriptor, pipe and socket that is opened is closed exactly once on every path, including errors, or handed to an owner that closes it; every thread that is started is joined or detached on every path; and every block allocated with new is owned by something that frees it with the matching form.",
     ["inputs", "fault_sequences", "histories"],
     "every open/popen/socket/accept and every thread object and raw allocation, on every path",
     "Leaks sit on error paths and do not fail a short-lived test.",
     ["src/working.cc", "src/hazel.cc", "src/builder.cc", "apps/ssr-server.cc", "apps/ssr-client.cc", "src/simple_posting.cc", "src/zlib_compressor.cc", "meadowlark/*.cc"],
     [("close/pclose/join on each path; smart-pointer ownership", "see files")],
     technique="resource typestate dataflow",
     note="Escaping resources are tracked to their owner's release function.")

prop("C21", "Sizes and offsets read from a file are validated before use",
     "A length, count or offset that comes from a shard file or from the network is checked against the available data before it is used to allocate, seek, index or copy, so that a truncated or damaged input is rejected with an error and never causes an out-of-bounds access or unbounded allocation.",
     ["inputs", "fault_sequences"],
     "every use of a value decoded from a hazel file or request header as a size, index or offset",
     "Tests feed a few damaged files; each field needs its own.",
     ["src/hazel.cc", "src/owsla.cc", "apps/ssr-server.cc"],
     [("range checks while opening and decoding", "src/hazel.cc")],
     na='Whether a comparison bounds an offset sufficiently is arithmetic over run-time quantities (file sizes, counts times record widths, overflow); presence of some comparison is not the property, and its absence is deliberate for trusted local files in a large part of the readers, so neither direction of a structural rule is sound here.')

prop("C22", "Compression never overruns its buffers or corrupts shared data",
     "Every buffer handed to a compressor or decompressor is at least the data length plus the slack that compressor demands, the produced length is checked or bounded before it is used, and a compressor that destroys its input is never given data that is used afterwards or shared.",
     ["inputs", "configurations"],
     "every call of a compress or decompress operation",
     "An undersized buffer overruns silently for a particular data pattern and compressor.",
     ["src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc", "src/simple_txt_io.cc", "src/simple_builder.cc", "src/fastid_txt.cc"],
     [("n + extra(n) sized buffers; destructive() guarded copies", "see files")],
     na="Whether a buffer is large enough is arithmetic over run-time lengths (posting counts times widths plus a compressor's slack, maxima over chunks); the sizes at the call sites are related through loops and stored fields that no static argument in reach bounds without freezing the present expressions textually.")

prop("C23", "Corpus ingestion is atomic and accounts for every worker",
     "Adding a corpus file to a store either makes all of it visible or none of it: every worker's success is examined, all workers are committed together only if all succeeded, and otherwise every one of them is aborted and the failure is reported.",
     ["fault_sequences", "inputs", "schedules"],
     "every path through multi-worker ingestion",
     "Tests ingest well-formed files; a worker failing late needs a bad line in the last chunk.",
     ["meadowlark/meadowlark.cc", "src/scribe.cc", "meadowlark/forager.cc"],
     [("joint commit of all workers, abort of all on failure", "meadowlark/meadowlark.cc append_jsonl")],
     na='Several entry points (forage, append of tab-separated files) commit in steps, and nothing says that they should not, so the statement is stronger than what the library promises; the parts with an atomic contract (all committed only if all are ready, all aborted otherwise) are decided under C03, C04 and C09, where the joint commit of several indexes is followed.')

NA = [
    ("C30", "Query operators return exactly the intervals the algebra defines",
     "For every expression and index, evaluating a query returns exactly the minimal intervals that the region algebra defines, whichever access order is used.",
     ["inputs", "programs"],
     "Equality of computed interval sequences is a value-level functional property over unbounded inputs; no structural rule in reach is both necessary and sufficient, and fragments of the comparison code could only be frozen textually. Totality of outputs (C15) and table agreement (C16) are the structural clauses and are claimed there.",
     ["gcl/gcl.cc", "gcl/vector_hopper.cc"]),
    ("C31", "Decompression restores exactly what was compressed",
     "For every compressor and every input, decompressing the compressed form gives back the input.",
     ["inputs"],
     "Round-trip equality over all byte strings is a value property of bit-level loops; static shape cannot decide it. Buffer discipline (C22) and layout agreement (C14) are claimed instead.",
     ["src/zlib_compressor.cc", "src/post_compressor.cc", "src/tfdf_compressor.cc", "src/bits.cc"]),
    ("C32", "Merged shards answer queries exactly as their sources did",
     "After any sequence of merges and conversions, every query and translation gives the result it gave before.",
     ["histories", "inputs"],
     "Equivalence of merged content is a relation between computed data structures; only the publication protocol around it (C05) has a static shape.",
     ["src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc"]),
    ("C33", "Stored text translates back exactly",
     "Translating any address range gives exactly the text that was appended there, for every tokenizer and chunking.",
     ["inputs"],
     "Depends on tokenizer offsets and chunk arithmetic for every input text; a numerical relation no sound static rule here bounds.",
     ["src/utf8_tokenizer.cc", "src/ascii_tokenizer.cc", "src/simple_txt.cc", "src/fiver.cc"]),
    ("C34", "Ranking scores follow their formulas",
     "Each ranking function returns the documents in order of the score its formula defines.",
     ["inputs"],
     "Floating-point results; static analysis can only freeze the formula's text.",
     ["src/ranking.cc", "src/ranker.cc", "src/field_stats.cc"]),
    ("C35", "Optimised queries are equivalent to the originals",
     "The optimiser never changes the result of a query.",
     ["programs", "inputs"],
     "Semantic equivalence of rewritten expression trees; needs reasoning about operator meaning, not code shape.",
     ["gcl/optimizer.cc"]),
]
