#!/usr/bin/env python3
"""Generates properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "observe_at": observe,
            "hook_needed": None}})

S, I, H, F, C, CP, PR = ("schedules", "inputs", "histories", "fault_sequences",
                         "configurations", "crash_points", "programs")

p("C01", "A filter call moves every byte exactly once, in order",
  """When a buffer is run through an external filter command, the command receives exactly the
  caller's input bytes in order followed by end of file, and a normal return gives exactly the bytes the
  command wrote to its standard output, in order, with their exact count. This holds however the kernel
  splits the transfers, whatever the pipe capacities and process speeds, and when calls are interrupted by
  signals. Nothing is ever written outside the caller's output buffer, and output longer than the buffer
  yields a prefix that fits or a reported fatal error, never anything else.""",
  [S, I, F, C],
  """All input sizes including zero and sizes beyond any pipe capacity, all filter programs (echoing,
  expanding, collecting, discarding), all interleavings of parent and filter, partial reads and writes,
  EAGAIN, EINTR, pipe capacities.""",
  """The only test of this code runs one cat-like command on a fixed buffer on an idle machine: one schedule,
  one pipe capacity, no short transfer and no signal.""",
  ["maa/pr.c"], [("bidirectional copy loop", "pr_readwrite"), ("start and copy", "pr_filter")],
  ["return value and output buffer of pr_filter/pr_readwrite", "bytes the filter read from its standard input"])

p("C02", "A filter call always makes progress and ends",
  """Running a buffer through an external filter command ends within a bounded number of steps after the
  filter itself has finished its work: the caller never deadlocks with the filter, never waits for an event
  that cannot come, never sits out a time limit while output can be read or input be given, and never spins without
  moving data. This includes empty input, filters that read
  everything before writing, filters that write before reading, filters that stop reading or writing early,
  and signals delivered to the caller while it waits. An early end of the filter makes the call
  return or report a fatal error, but not hang.""",
  [S, I, F],
  """All filter behaviours, input/output volumes relative to pipe capacity, all interleavings, signals at any
  blocking point; progress is counted in simulated steps once the filter is done.""",
  """Deadlock needs both pipes full or a particular early close; the single test never fills a pipe, never sends
  empty input and never delivers a signal.""",
  ["maa/pr.c"], [("non-blocking descriptors and select loop", "pr_readwrite"), ("end of input closes the pipe", "pr_readwrite")],
  ["whether the call returns", "number of system calls without progress"])

p("C03", "Coprocesses get exactly the requested streams and arguments",
  """A coprocess started with given flags runs the command with exactly the parsed argument vector, once, and
  each of its three standard streams is what the flags request: a fresh pipe whose other end the caller
  gets, the caller's supplied descriptor, the null device, standard error joined to standard output, or
  inherited. The optional callback runs exactly once, in the child, before the command, and data written on one end
  is what the other end reads. A command that cannot be executed leaves no trace but its status: the caller's exit
  handlers and pending output are not run or written a second time. This holds whichever descriptors the caller has open or closed when the call
  is made, including its own standard streams. Unknown or contradictory flags are refused with an internal error before anything is made or started. With its debugging flags off the library prints
  nothing of its own on the caller's standard output.""",
  [I, C, H, S],
  """All valid flag combinations, all subsets of open/closed caller descriptors, chained pipelines of several
  coprocesses, callbacks that perform I/O.""",
  """Tests use one or two flag combinations with all three standard descriptors open.""",
  ["maa/pr.c", "maa/arg.c"], [("child side descriptor set-up", "pr_open2 CHILD"), ("parent side bookkeeping", "pr_open2 PARENT")],
  ["descriptor table and argv of each started program", "descriptors returned to the caller"])

p("C04", "Pipe ends do not leak between processes",
  """After any sequence of coprocess operations, the only pipe ends the library created that remain open in
  the caller are those it handed out and that are not closed yet, and a started program
  holds no end of any such pipe, apart from its own standard streams, whether or not the coprocess at its other end
  still runs; a descriptor the caller supplied for a standard stream is open in it as that stream only. Therefore closing a
  coprocess's input always delivers end of file to it, and a failed or finished operation leaves no extra
  descriptor behind.""",
  [H, S, C],
  """All histories of opening, closing, waiting, filtering and spawning with several coprocesses alive at once,
  all initial descriptor tables.""",
  """Tests never hold two coprocesses open at once while a third is started, and never look at descriptor
  tables.""",
  ["maa/pr.c"], [("close of managed descriptors in the child", "pr_open2"), ("close of the far pipe ends in the parent", "pr_open2 PARENT")],
  ["simulated descriptor tables of parent and every started program", "end of file observed by coprocesses"],
  [("_pr_objects", "which descriptors belong to which child", "maa/pr.c")])

p("C05", "Exit statuses are exact and each child is reaped once",
  """Closing, waiting for or spawning a command reports the command's own exit code, 128 plus the signal number
  if a signal killed it, 0 if that signal was a broken pipe, and 127 if it could not be executed. The report is the
  same however the child's end interleaves with the call and however often signals interrupt the wait,
  and after the call the child is no longer a zombie. A filter whose command ends
  with a non-zero status still returns its output and issues a warning.""",
  [S, I, F, H],
  """All exit codes and terminating signals, death before, during or after the wait, several children ending in
  any order, EINTR at every wait.""",
  """Tests see a couple of statuses from children that end undisturbed; nothing interrupts the wait or
  checks for zombies.""",
  ["maa/pr.c"], [("wait loop and status decoding", "pr_wait, pr_spawn, pr_close")],
  ["return values", "zombie table of the simulated kernel", "warning on stderr"])

p("C06", "Shutdown kills exactly the managed children that remain",
  """Library shutdown kills and reaps every coprocess that is still managed, whether it runs or has already ended,
  and leaves no zombie of them. At no time does the library signal or wait for a process it did not start or one it
  has already reaped or found to be gone, even when the system reuses process numbers, and children the caller has detached by
  closing without waiting are left alone. After shutdown the process facilities can be used again.""",
  [H, S],
  """All histories of open/close/wait/shutdown over several coprocesses with several descriptors each, immediate
  process-number reuse, children that ignore end of file.""",
  """Process-number reuse and zombies are invisible to the tests, and no test leaves a coprocess open at
  shutdown.""",
  ["maa/pr.c", "maa/maa.c"], [("kill and wait for tracked children", "_pr_shutdown"), ("tracking table", "_pr_objects")],
  ["kill and wait calls seen by the simulated kernel", "process table after shutdown"])

p("C07", "Operating-system failures are reported, never ignored",
  """If the system refuses a pipe, a process, a wait for readiness, a read or a write needed by a coprocess or filter
  operation, or the opening of a log file, the program ends through the normal exit path with status 1 and a
  standard-error message that names the system error that actually occurred. The library does not crash, report a different
  error, hang, or carry on as if the operation had succeeded.""",
  [F, H],
  """Every failure point (any call, any error code the system may return) in every operation, with any log
  destinations active and stdio state at the time.""",
  """No test makes a system call fail.""",
  ["maa/pr.c", "maa/log.c", "maa/error.c"], [("fatal errno reports", "err_fatal_errno and its callers")],
  ["exit status", "stderr text", "errno that the simulated kernel injected"])

p("C08", "Every log message reaches its destinations whole, once, in order",
  """When a logging call returns, its formatted message is in every open destination (file, stream, system log)
  exactly once, as one whole line after all earlier messages and with the documented preamble (unless switched off), and nothing
  sits in a buffer. Interrupted or short writes do not lose, duplicate or reorder bytes; a write refused by the system (full disk,
  I/O error) loses at most that one message in that one destination. Messages of several processes
  appending to the same log file never overwrite each other.""",
  [I, H, F, S],
  """All message sequences and lengths, all combinations of destinations, EINTR and short writes at every write,
  ENOSPC/EIO bursts, other writers appending at any moment.""",
  """Tests compare a handful of messages on a healthy disk; no short write, signal, disk error or second
  writer occurs.""",
  ["maa/log.c"], [("formatting and single append write", "_log_base_va"), ("O_APPEND open", "_log_check_filename")],
  ["simulated file contents after every call", "stream bytes that reached the kernel", "syslog records"])

p("C09", "Time-named log files rotate correctly",
  """Each message goes to the file named by expanding the log-name pattern with the local time at which it was logged;
  when that name changes, missing directories are created, the new file is opened, and the old one is closed.
  Existing files are always appended to and never truncated, whichever way the clock moves, and at most one log file
  is open at a time.""",
  [H, S, I],
  """All sequences of logging calls and clock movements (forward, backward, jumps, between any two clock reads),
  all patterns, pre-existing files and directories.""",
  """Tests cannot move the clock; no test crosses a rotation boundary.""",
  ["maa/log.c"], [("name check before each write", "_log_check_filename"), ("directory creation", "log_mkpath")],
  ["simulated file tree and descriptor table after every call"])

p("C10", "Log destinations open, close and reopen independently",
  """After any sequence of opening, closing, reopening and reconfiguring the log file, stream and system log, exactly the
  open destinations receive messages, in the configured form (identity, facility, full or short preamble), and closed ones receive
  nothing. Closing one destination does not disturb another, closing twice is harmless,
  standard streams handed in are never closed, other streams and descriptors are closed exactly once, and
  destroying other library facilities does not corrupt logging.""",
  [H, I, F],
  """All histories of the logging API interleaved with string-pool destruction, library shutdown, rotation and
  faults.""",
  """Tests exercise one fixed order of opens and closes.""",
  ["maa/log.c", "maa/string.c"], [("destination flags and counters", "log_file, log_stream, log_syslog, log_close")],
  ["destinations' contents", "descriptor table", "openlog/closelog calls"],
  [("logOpen/logFd/logUserStream/logSyslog", "which destinations are active", "maa/log.c")])

p("C11", "Error routines deliver the report and end the program as promised",
  """The fatal, fatal-with-errno, warning and internal-error routines first flush pending standard output, then print program
  name, routine and formatted message to standard error, and send the same message to the log. The errno form reports the
  error current at the moment of the call. The fatal ones flush both streams and end the program by exit with status 1 (internal
  errors by abort), running exit handlers exactly as exit would, while warnings return; this holds
  even when the error streams or log destinations themselves fail (a log file that cannot be opened is itself a fatal error, reported as such).""",
  [F, H, I],
  """All pending stdout states, program-name settings, messages, log destination combinations, failing stdout, stderr, log
  writes and interrupted calls during the report.""",
  """Tests check the text on healthy streams only; ordering against buffered stdout and errno clobbering by a failing
  flush are invisible.""",
  ["maa/error.c", "maa/log.c"], [("report and exit", "err_fatal, err_fatal_errno, err_warning, err_internal")],
  ["global order of bytes reaching stdout and stderr", "exit status", "errno text", "log contents"])

p("C12", "Timers report exactly the clock differences",
  """A stopped timer reports, for wall, user and system time separately and to the microsecond, the difference between the clock
  readings at its most recent start and at its stop, with children's CPU time included in user and system time. Restarting, resetting
  and any number of other named timers do not affect it, printing shows the same values, stopping or reading an
  unknown timer is an internal error, and clock jumps show up as the plain difference.""",
  [S, H, I],
  """All interleavings of start/stop/reset/read over several names, all clock advances and jumps, all
  sub-second carries.""",
  """Tests print timers but cannot control the clocks, so no exact value is ever checked.""",
  ["maa/timer.c", "maa/maa.c"], [("marks and differences", "tim_start, tim_stop")],
  ["tim_get_* values against the simulated clocks"])

p("C13", "Running out of memory is always a clean fatal error",
  """If any memory allocation made by any library operation is refused, the program ends through exit with status 1
  after printing an out-of-memory message on standard error. It never crashes, never returns a null or partially built result,
  never continues silently.""",
  [F, H, I],
  """Every allocation made by every public operation, in every container state, as the single failing allocation or
  the first of many, with any log destination active.""",
  """No test makes an allocation fail.""",
  ["maa/xmalloc.c", "maa/stack.c", "maa/hash.c", "maa/set.c", "maa/list.c", "maa/sl.c", "maa/memory.c", "maa/string.c",
   "maa/arg.c", "maa/source.c", "maa/log.c", "maa/pr.c", "maa/timer.c", "maa/flags.c", "maa/debug.c"],
  [("checked allocation", "xmalloc, xcalloc, xrealloc, xstrdup")],
  ["exit status and stderr at every failing allocation"])

p("C14", "Exit handlers still see consistent data after out-of-memory",
  """When an operation is cut short by the fatal out-of-memory exit, exit handlers of the program can still use every library container:
  each one has either its contents before the interrupted operation or those after it, never anything else (a bulk in-place set addition or deletion
  may have been carried out for some of its elements, and a container that was being traversed may still be read-only). Destroying
  containers, closing logs and shutting the library down from an exit handler then completes normally.""",
  [CP, H, F],
  """Every allocation inside every mutating operation as the crash point, with every container state, followed by inspection and teardown in
  an exit handler.""",
  """No test reaches an exit handler after a failed allocation.""",
  ["maa/hash.c", "maa/set.c", "maa/list.c", "maa/stack.c", "maa/sl.c", "maa/string.c", "maa/memory.c", "maa/source.c", "maa/log.c", "maa/pr.c"],
  [("allocation before mutation", "insert/append/push paths"), ("exit handlers", "err_fatal")],
  ["contents read back in an atexit handler", "completion of maa_shutdown"])

p("C15", "Every block the library allocates is freed exactly once",
  """After every object created through the API is destroyed and the library facilities used are shut down, all memory the library allocated has been
  released, each block exactly once and through the allocator it came from. During use, memory held is bounded by the live contents: repeated
  insert/delete, open/close or start/stop cycles do not accumulate memory, and released memory is never touched again.""",
  [H, I],
  """All histories over all facilities, all allocator placement and reuse behaviours (immediate reuse, moved or in-place
  reallocation, arbitrary initial garbage).""",
  """Tests end without checking for leaks and the system allocator hides most use-after-free.""",
  ["maa/hash.c", "maa/set.c", "maa/list.c", "maa/stack.c", "maa/sl.c", "maa/string.c", "maa/memory.c", "maa/source.c",
   "maa/arg.c", "maa/log.c", "maa/pr.c", "maa/timer.c", "maa/flags.c", "maa/debug.c", "maa/parse-concrete.c", "maa/maa.c"],
  [("destroy functions", "all *_destroy and _*_shutdown"), ("shutdown", "maa_shutdown")],
  ["live-block table of the simulated allocator", "poisoned freed memory"])

p("C16", "The library can be shut down and started again",
  """After library shutdown and destruction of the facilities in use, a new initialisation behaves exactly like the first one in a fresh process: the same operations give
  the same results and output, independently of anything done before the shutdown (logging options and unique-string numbering, which no shutdown covers, aside). Repeated shutdown, shutdown without initialisation and shutdown of unused
  facilities are harmless.""",
  [H, I],
  """All sequences of sessions (initialise, arbitrary use of any facility, shutdown), compared with the same session in a fresh
  process.""",
  """Tests initialise once per process.""",
  ["maa/maa.c", "maa/pr.c", "maa/string.c", "maa/list.c", "maa/sl.c", "maa/timer.c", "maa/flags.c", "maa/debug.c", "maa/source.c", "maa/parse-concrete.c", "maa/log.c"],
  [("global state reset", "_pr_shutdown, str_destroy, _lst_shutdown, _sl_shutdown, _tim_shutdown, flg_destroy, dbg_destroy, src_destroy")],
  ["results and output of a session after restart versus in a fresh process"])

p("C17", "Hash tables stay exact maps under reentrant and shared use",
  """At every point of any history a hash table holds exactly the pairs inserted and not deleted, under any hash and comparison functions, and lookup, duplicate
  insertion, deletion and statistics agree with that, and a table that has grown has (within a small constant) at least as many places as pairs. Every traversal, by callback or by position, visits each pair present exactly once, even when code running during the traversal looks up
  keys, traverses the table itself (traversals by position nested in each other aside) or a callback deletes the pair it was given, and stops when the callback asks. A table that is read-only (by request or because a positional traversal
  is in progress) rejects modification and destruction with a fatal error and stays unchanged; finishing or abandoning the traversal makes it modifiable again.""",
  [H, I, S],
  """All operation histories including operations issued from inside iteration callbacks and between cursor steps, all hash functions from perfect to
  constant, any number of growths.""",
  """Tests traverse tables without touching them meanwhile, using the built-in hash functions.""",
  ["maa/hash.c", "maa/prime.c"], [("bucket chains with self-organising lookup", "hsh_retrieve"), ("growth", "hsh_insert"), ("read-only cursors", "hsh_init_position, hsh_next_position")],
  ["lookups, traversals, statistics versus a reference map"])

p("C18", "Sets and set algebra are exact and leave operands intact",
  """At every point of any history a set holds exactly the elements added and not deleted; membership, count, statistics and every
  traversal (with lookups and other traversals interleaved, by position nested in each other aside) agree with that, and a set that has grown has (within a small constant) at least as many places as elements. Union, intersection, difference, in-place add and delete, and equality give
  the mathematical result for all operands, including a set combined with itself, without changing operands they must not change or leaving them locked.
  Read-only sets reject modification and destruction with a fatal error and stay unchanged.""",
  [H, I, S],
  """All operation histories over several sets with interleaved traversals, aliasing operands, all hash functions.""",
  """Tests cover a fixed sequence of operations on distinct sets.""",
  ["maa/set.c", "maa/prime.c"], [("bucket chains with self-organising lookup", "set_member"), ("algebra", "set_union, set_inter, set_diff, set_add, set_del, set_equal")],
  ["membership, traversal and algebra results versus reference sets"])

p("C19", "String pools intern each string once with stable pointers",
  """In a string pool, interning equal strings any number of times and by any of the interning routes (whole string, counted prefix, grown in pieces) yields one and the same pointer; that pointer
  stays valid, unmoved and unchanged until the pool is destroyed, and different strings get different pointers. Existence tests, statistics and traversals agree with the set of
  interned strings. Private copies are always distinct from each other and from interned strings, generated unique strings are never repeated, and all this holds for the global pool before
  first use and after its destruction.""",
  [H, I, F],
  """All histories over several pools, with traversals stopped early and interleaved operations, any allocator placement and initial memory contents.""",
  """Tests intern a few strings and print them; pointer identity across routes and growth is not examined.""",
  ["maa/string.c", "maa/hash.c", "maa/memory.c"], [("intern table", "str_pool_find, str_pool_finish"), ("global pool", "str_find, str_destroy")],
  ["pointer identity and contents versus a reference map"])

p("C20", "Lists and stacks keep exact order through any operation mix",
  """Under any mix of operations a list is exactly the sequence implied by its appends, pushes, pops, replacements and truncations; indexed access, length, membership, cursors and callback traversals agree with
  that sequence, and traversals stop when asked. Cursors to retained elements stay valid while other elements are added or removed. A stack returns exactly what was pushed in reverse order,
  and yields nothing when empty; many lists and stacks alive at once never affect each other.""",
  [H, I],
  """All histories over several lists and stacks, including operations during traversal, reuse of freed cells and truncation at every length.""",
  """Tests run one short script per container.""",
  ["maa/list.c", "maa/stack.c", "maa/memory.c"], [("linked cells from a shared object pool", "lst_*"), ("chunked stack", "stk_*")],
  ["contents versus reference sequences after every operation"])

p("C21", "Skip lists stay sorted and complete whatever the random levels",
  """Whatever level the random source picks for each node, a skip list contains exactly the data inserted and not deleted; lookup finds an entry exactly when its key is present, iteration
  visits every datum once in key order, stops when the callback asks and returns its answer. Iteration tolerates insertions and deletions made by the callback, including deletion of the current datum. Inserting a key already present
  or deleting an absent one is an internal error.""",
  [S, H, I],
  """All sequences of random draws (including all-minimal, all-maximal and alternating), all operation histories, including modifications from the callback.""",
  """Tests use the system random source, so extreme level sequences never occur.""",
  ["maa/sl.c"], [("random levels", "_sl_rand_level"), ("search path update", "_sl_locate, sl_insert, sl_delete"), ("snapshot iteration", "sl_iterate")],
  ["find and iterate results versus a reference sorted map"])

p("C22", "Object pools, string stores and argument lists hand out sound memory",
  """Objects handed out by an object pool are pairwise disjoint while in use, large enough, zeroed when requested empty, and keep their contents until freed whatever else is allocated or freed. Stored
  strings and argument vectors (whole, counted or grown piecewise) are exact, terminated copies independent of the caller's buffers, stay in order and keep
  their contents while more are added; statistics match. Nothing depends on what the memory contained before or whether the allocator moves, reuses or pads blocks.""",
  [H, I, S],
  """All histories over several pools and lists, all allocator behaviours and initial memory contents, all counted-prefix lengths.""",
  """Tests see one allocator whose fresh memory is usually zero.""",
  ["maa/memory.c", "maa/arg.c", "maa/stack.c", "maa/xmalloc.c"], [("free stack and allocated stack", "mem_get_object, mem_free_object"), ("string copies", "mem_strcpy, mem_strncpy, mem_grow, mem_finish"), ("argument vector growth", "arg_finish")],
  ["contents and overlap of handed-out blocks versus a reference model"])

p("C23", "Source positions always describe the text that was read",
  """A source token reports the file name, line number, offset, length and line text that were current when it was taken, for any sequence of new files, new lines, preprocessor line directives,
  advances and text lines, and stays valid until the source manager is destroyed, whatever is added later. Error and message printing shows that line and marks the token, and after the manager is destroyed it can be created and used
  again from scratch with the same results.""",
  [H, I, F],
  """All histories of positions and tokens over any number of lines (crossing every internal growth), several create/destroy cycles, any allocator behaviour.""",
  """The only test reads one small file in one session.""",
  ["maa/source.c"], [("line table growth", "src_line"), ("position bookkeeping", "src_get, src_advance, src_new_line, src_cpp_line")],
  ["token accessors and printed text versus a reference model"])

p("C24", "Command strings parse into the documented argument vectors",
  """Parsing a command string splits it at unquoted, unescaped white space, honours quotes and backslash escapes exactly as documented unless switched off, and yields the words in order; every input terminates.""",
  [I], "All command strings and quoting modes.",
  "Tests cover listed example strings.",
  ["maa/arg.c", "maa/arggram.txt"], [("state machine", "arg_argify")], ["argument vector"])

p("C25", "Number and text codecs are exact inverses and correct",
  """Base-64 and base-26 encodings decode back to the same value for every number; bit-array operations change only the addressed bit and count correctly; the prime functions are right for every argument whose result fits; and
  phonetic codes follow the published table.""",
  [I], "All argument values.",
  "Tests check selected values.",
  ["maa/base64.c", "maa/base26.c", "maa/bit.c", "maa/prime.c", "maa/text.c"], [("codecs", "b64_*, b26_*, bit_*, prm_*, txt_soundex")], ["return values"])

p("C26", "Debug and user flag registries map names to bits exactly",
  """At every moment of a program, testing a debug or a user flag answers whether exactly that bit of exactly that of the four sets was
  last set or cleared: by its registered name (plain or after + to set, after - to clear), by bit, by all or none. Registering a well-formed
  flag changes no setting, the two registries do not influence each other, and each lists and finds every registered name exactly once.
  An unknown name, whatever it looks like, is a fatal error that lists the valid names and changes nothing; malformed flags and, for user
  code, reserved ones are refused. A listing that cannot be written and a registration that runs out of memory change no setting, and after
  the registry is destroyed or the library shut down and started again nothing of the old names and settings is left.""",
  [I, H, F],
  """All sequences of registration, setting, clearing, testing, listing, destruction and restart, over all bits of all sets, all names not
  starting with a sign, refused allocations and failing output at any point. Registering the same bit or the same name twice is left open.""",
  "The tests set and print a few fixed flags of one set and never clear, restart, misspell or exhaust anything.",
  ["maa/debug.c", "maa/flags.c", "maa/maa.c"], [("bit sets", "dbg_set, dbg_test, flg_set, flg_test (TEST)"), ("names", "_dbg_register, flg_register"), ("restart", "maa_shutdown, dbg_destroy, flg_destroy")],
  ["dbg_test and flg_test over every bit after every operation", "dbg_list, flg_list, flg_name", "standard error and termination on bad names"])

p("C27", "Handles are checked at every access",
  """Every operation on a hash table, set, list, skip list, object pool, string store or argument list checks its handle before it uses it:
  given no object, a live object of another kind, or other memory of the caller, it ends the program with an internal error (message and
  abort), for each of its handle arguments, without calling anything found through it and without changing any object. Appending to a
  null list and iterating a null skip list do nothing. String-keyed tables and sets refuse a null string in the same way. Nothing else is
  refused: valid handles keep working, before and after such mistakes, whatever the allocator puts where.""",
  [I, H],
  """All documented operations that take such a handle, at every point of histories over several live objects of all kinds, every kind of
  wrong handle, every allocator placement. Handles of destroyed objects (which point to freed memory), and stacks, string pools and
  positions, which carry no mark, are outside.""",
  "The tests never pass a wrong handle, and nothing in them ends in an internal error.",
  ["maa/hash.c", "maa/set.c", "maa/list.c", "maa/sl.c", "maa/memory.c", "maa/arg.c"], [("magic numbers", "_hsh_check, _set_check, _lst_check, _sl_check_list, _mem_magic_strings, _mem_magic_objects, _arg_check"), ("string keys", "hsh_string_hash, hsh_string_compare")],
  ["termination of the guarded call", "standard error", "models of all live objects"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
