CP = "cpp_utils/"


def P(id, title, statement, over, quant, why, files, mech, note, **kw):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}, note=note, **kw)


STD = ("Proof for all inputs over the real function bodies as clang parses them on every run; assumes the std library "
       "contracts listed in the evidence, clang's AST, the obligation generator in vc/, and z3/cvc5. ")

PROPS = [
    P("C01", "Base64 encoding follows RFC 4648 and decoding inverts it",
      "For every byte string, encoding yields exactly its RFC 4648 Base64 text (standard alphabet, padded with '=' to a "
      "multiple of four characters). Decoding any text returns the bytes encoded by its longest prefix made of alphabet "
      "characters, so decoding an encoded string gives back the original bytes. Neither operation ever reads outside its "
      "input or tables.",
      ["inputs"], "all byte strings, of any length and content, including NUL and bytes above 127",
      "Tests encode and decode a handful of literals; the accumulator arithmetic depends on length modulo 3 and on byte "
      "values above 127.",
      [CP + "src/cpp/utils.cpp", CP + "include/cpp_utils/utils.hpp"],
      [("base64_encode / base64_decode", "utils.cpp"), ("base64_alphabet", "utils.hpp")],
      STD + "Left shift of a signed int is taken to wrap, as GCC and clang implement it."),
    P("C02", "Integer math helpers are exact for every argument",
      "For all unsigned 32-bit arguments, the parity and power-of-two predicates are true exactly for even numbers and "
      "powers of two, and the fast division and fast module return the quotient and the remainder for every non-zero "
      "divisor. The fast power returns base^exponent modulo 2^32, and the arithmetic progression sum returns the sum of "
      "its terms modulo 2^32 (so it is exact whenever the sum fits).",
      ["inputs"], "all pairs/triples of 32-bit unsigned arguments (non-zero divisor)",
      "Tests sample small numbers; the fast paths differ by bit pattern and wrap-around.",
      [CP + "src/cpp/math/math_extension.cpp", CP + "include/cpp_utils/math/math_extension.hpp"],
      [("special-cased fast paths and recursion", "math_extension.cpp")],
      STD + "Bit-vector semantics; the power and the sum use lemmas proved by induction."),
    P("C03", "Substring replacement and stripping replace exactly the occurrences",
      "Replacing the first occurrence changes the leftmost occurrence only and reports whether there was one; replacing "
      "all replaces every non-overlapping occurrence found from left to right (the inserted text is not searched again), "
      "returns how many it replaced, and always ends, also when the replacement contains the searched text or the "
      "searched text is empty (nothing to replace). Stripping replaces all occurrences of each undesired string in turn, in "
      "the order of the set, and returns the total.",
      ["inputs"], "all source, searched and replacement strings, all sets of undesired strings",
      "The functions have no direct tests; overlap, empty strings and self-containing replacements are never sampled.",
      [CP + "src/cpp/utils.cpp"], [("replace_first, replace_all, strip_str", "utils.cpp")],
      STD + "Termination is proved with a decreasing measure."),
    P("C04", "Splitting a string loses nothing and leaves no delimiter",
      "Splitting a string by a non-empty delimiter gives at least one token; joining the tokens with the delimiter gives "
      "back the source, and the tokens are those found from left to right, so none contains the delimiter. An "
      "empty delimiter gives the source alone. Splitting a list of strings, or splitting by several delimiters, gives the "
      "concatenation of the single splits in order.",
      ["inputs"], "all source strings and delimiters, all lists of strings and sets of delimiters",
      "Tests split six short literals; empty tokens, delimiters at the ends and self-overlapping delimiters depend on "
      "positions no test samples.",
      [CP + "src/cpp/utils.cpp"], [("split_string (three overloads)", "utils.cpp")],
      STD + "A ghost join of the tokens pushed so far is maintained at every push; termination by a decreasing measure."),
    P("C05", "ROS 2 topic and service names are mangled and demangled exactly",
      "A name starting with '/' is mangled by putting the ROS prefix (rt for topics, rq or rr for service requests and "
      "replies) before it and, for services, the suffix Request or Reply after it; any other name is returned unchanged "
      "(topics) or gives an empty string (services). Demangling removes exactly that prefix and suffix when both are "
      "there, and otherwise returns the name unchanged or an empty string, as documented. Hence demangling a mangled name "
      "gives back the name, for every name starting with '/'.",
      ["inputs"], "all strings as names, prefixes and suffixes",
      "Tests try about ten literals per function; nested namespaces, names containing prefixes or suffixes and short "
      "strings are not sampled.",
      [CP + "src/cpp/ros2_mangling.cpp", CP + "include/cpp_utils/ros2_mangling.hpp"],
      [("prefix and suffix helpers, (de)mangling functions", "ros2_mangling.cpp")],
      STD + "Logging is a stand-in with no effect."),
    P("C06", "ROS 2 type names are mangled and demangled exactly",
      "A ROS message type 'a/msg/N' is mangled to 'a::msg::dds_::N_' and the DDS type is demangled back (for a package name "
      "without ':' or '/' that does not end in 'dds_'), and any name not of the expected form is returned unchanged. A ROS service type, given with a request or response prefix, is mangled to the DDS name with "
      "_Request_ or _Response_ at its end, and demangling a DDS service type name returns namespace and "
      "name with '::' turned into '/', or an empty string unless the name contains 'dds_::' and ends with one of the two "
      "suffixes. None of these reads outside its argument, whatever it is.",
      ["inputs"], "all strings as type names, well formed or not",
      "Tests try a few literals; malformed names (empty, suffix in the middle, separators at the ends) are not sampled.",
      [CP + "src/cpp/ros2_mangling.cpp", CP + "src/cpp/utils.cpp"],
      [("mangle/demangle_if_ros_type, mangle/demangle_service_type_only", "ros2_mangling.cpp")],
      STD),
    P("C07", "Byte quantities are parsed and printed faithfully",
      "Parsing accepts exactly a decimal number, optional white space and one of the units B, KB, MB, GB, TB, PB, KiB, MiB, "
      "GiB, TiB, PiB in any letter case; it returns the number (as a double) times the unit truncated to an integer, and "
      "reports an invalid argument for anything else, including products of 2^64 or more. Printing a quantity uses the largest "
      "decimal unit not above it, with no decimals when the fraction is below 0.01 and two decimals otherwise, and 0B for zero.",
      ["inputs"], "all input strings, all 64-bit quantities",
      "Tests sample a dozen quantities; the overflow boundary and the double rounding around it are not sampled.",
      [CP + "src/cpp/utils.cpp"], [("to_bytes: regular expression, unit table, overflow check", "utils.cpp"),
                                   ("from_bytes: unit table, formatting", "utils.cpp")],
      STD + "Regular-expression matching is an assumed contract; floating point is IEEE in the solver."),
    P("C08", "Zero-padded numbers have the requested width or are refused",
      "Formatting a non-negative number gives its decimal digits preceded by as many zeros as needed to reach the requested "
      "width, and never fewer characters than the number has. When more characters than the width are "
      "not allowed, the call fails exactly when the number does not fit in the width, whatever the width.",
      ["inputs"], "all non-negative int values, all widths below 2^31, both modes",
      "Only used through time formatting tests with widths 2 and 4.",
      [CP + "src/cpp/utils.cpp"], [("number_trailing_zeros_format", "utils.cpp")],
      STD + "The stream's setw/setfill behaviour is an assumed library contract."),
    P("C09", "The concurrent database behaves as an atomic map",
      "Under any interleaving of calls, adding inserts only when the key is absent and reports whether it did, updating and erasing "
      "change only an existing key and report whether it existed, lookups and size report the state at one moment, and "
      "any number of mixed calls leaves a content equal to some sequential order of them. No call touches the "
      "stored map without holding the database lock, in exclusive mode when it changes it.",
      ["schedules", "inputs"], "all contents and keys, all interleavings of concurrent calls",
      "Tests run a few threads on disjoint keys; a missing lock or check-then-act window shows only in rare interleavings.",
      [CP + "include/cpp_utils/collection/database/impl/SafeDatabase.ipp",
       CP + "include/cpp_utils/collection/database/SafeDatabase.hpp"],
      [("shared_timed_mutex around every access", "SafeDatabase.ipp")],
      STD + "Each method is proved against the map contract and the lock discipline (monitor rule); instantiated on opaque "
      "key and value types."),
    P("C10", "The pool never hands out a loaned element nor loses one",
      "A pool reserves its initial elements up front and grows by its batch size when it runs out, so a loan always succeeds with an "
      "element that is not on loan, prepared by the reset hook when it was returned before. Returning an element that is on loan makes it available again and returning "
      "when nothing is on loan is reported as an error. Every element ever created is either "
      "free or on loan, also when creating one fails in the middle of a batch, and those that are free are destroyed exactly once with the pool.",
      ["histories"], "all sequences of loans and returns, all initial and batch sizes, a failure of any creation",
      "Tests run one short sequence per configuration.",
      [CP + "include/cpp_utils/pool/impl/UnboundedPool.ipp", CP + "include/cpp_utils/pool/UnboundedPool.hpp",
       CP + "include/cpp_utils/pool/IPool.hpp"],
      [("reserved_ stack, elements_loaned_ and reserved counters", "UnboundedPool.ipp")], STD),
    P("C11", "Owned data stays valid while leased and locked, and dies once",
      "A lessee reaches the data only while the owner keeps it: after the owner resets, is overwritten or is destroyed, every lessee reports "
      "it is no longer valid and locking it gives nothing. While a lessee's guard is held the "
      "data is not destroyed, and dereferencing an invalid lessee is reported by an exception. Each "
      "datum is destroyed exactly once, by the deleter given, even if references survive the owner.",
      ["schedules", "histories"], "all sequences of operations on owners, lessees and guards, and their interleavings",
      "Tests exercise one order of operations per case, mostly single-threaded.",
      [CP + "include/cpp_utils/memory/impl/InternalPtrData.ipp", CP + "include/cpp_utils/memory/impl/OwnerPtr.ipp",
       CP + "include/cpp_utils/memory/impl/LesseePtr.ipp", CP + "include/cpp_utils/memory/impl/GuardedPtr.ipp"],
      [("shared mutex in the shared control block", "InternalPtrData.ipp")], STD),
    P("C12", "Fuzzy values keep value and certainty level together",
      "A fuzzy value built from nothing has the default level, one built from a value alone is set, and one given a level has that level. "
      "Copying, moving and assigning carry value and level together; assigning a plain value marks it set; unset and set_level change "
      "only the level. Two fuzzies are equal exactly when both are below the fuzzy level, or level and value are equal; a fuzzy equals a "
      "plain value exactly when it is valid and has that value. Validity, being set and the level's name follow from the level alone.",
      ["inputs"], "all stored types and values, all levels",
      "Tests sample a few ints and levels.",
      [CP + "include/cpp_utils/types/impl/Fuzzy.ipp", CP + "include/cpp_utils/types/Fuzzy.hpp"],
      [("fuzzy_level_ kept beside value", "Fuzzy.ipp")], STD),
    P("C13", "Enumeration builders and generated enumerations are consistent",
      "Looking a name up in an enumeration builder finds the enumerator registered for it, or reports its absence, for every string; "
      "the names generated for an enumeration convert to text and back to the same enumerator, and any other "
      "text is refused.",
      ["inputs", "configurations"], "all strings, all enumerators of an enumeration",
      "Tests use three enumerations and a few strings.",
      [CP + "include/cpp_utils/types/impl/Builder.ipp", CP + "include/cpp_utils/enum/impl/EnumBuilder.ipp",
       CP + "include/cpp_utils/macros/custom_enumeration.hpp"],
      [("builder map; macro-generated switch and table", "Builder.ipp, custom_enumeration.hpp")], STD),
    P("C14", "Waiters wake exactly when their condition, disabling or timeout occurs",
      "A thread waiting on a value returns with 'condition met' only if the value satisfied its condition while waiting was enabled, with 'disabled' only "
      "if waiting was disabled, and with 'timeout' only if its time ran out. Every change of the value, and every disabling, wakes "
      "the waiting threads, so none stays blocked while its condition holds or waiting is disabled, and a blocking disable returns "
      "only when no thread is waiting. Value and enablement are only accessed under the handler's lock.",
      ["schedules", "histories"], "all interleavings of waits, value changes, enables and disables; all values",
      "Tests use sleeps and a few threads; a lost wake-up needs a specific interleaving.",
      [CP + "include/cpp_utils/wait/impl/WaitHandler.ipp", CP + "src/cpp/wait/CounterWaitHandler.cpp",
       CP + "src/cpp/wait/IntWaitHandler.cpp", CP + "src/cpp/wait/BooleanWaitHandler.cpp"],
      [("mutex, condition variable and predicate loop", "WaitHandler.ipp")], STD),
    P("C15", "A consumer queue delivers every produced element once, in order",
      "Every element produced in a consumer queue is consumed at most once, in the order of production by each producer, and a consumer blocks "
      "only while no element is pending and the queue is enabled. A consumer that gets no element is told why: disabled or timed out. "
      "The double-buffered queue preserves order across its swaps and never loses or repeats an element.",
      ["schedules", "histories"], "all interleavings of producers and consumers",
      "Tests use one producer and one consumer with small counts.",
      [CP + "include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp", CP + "include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp",
       CP + "include/cpp_utils/queue/DBQueue.hpp"],
      [("counter handler plus queue under its mutex", "ConsumerWaitHandler.ipp")], STD),
    P("C16", "Event handlers call back once per event, and never after unset",
      "A callback is called only while it is set, with the event's arguments, one call at a time, and never after unset_callback has "
      "returned. Each event that occurs while a callback is set calls it exactly once and is counted exactly once; without a callback "
      "it does neither. wait_for_event returns once the requested number of events has been counted or the callback has been "
      "unset, and unset_callback returns only when the waiting threads have left, so a handler can then be destroyed. A "
      "periodic handler has its thread exactly while its callback is set, which raises one event per elapsed period; a multiple handler "
      "raises one event for each event of each handler registered in it.",
      ["schedules", "histories"], "all interleavings of events, waits, set and unset",
      "The event module is not even built by the project's test run; races between an event and unset need a specific interleaving.",
      [CP + "include/cpp_utils/event/impl/EventHandler.ipp", CP + "src/cpp/event/PeriodicEventHandler.cpp",
       CP + "src/cpp/event/MultipleEventHandler.cpp", CP + "include/cpp_utils/event/impl/MultipleEventHandler.ipp"],
      [("event, callback and wait mutexes", "EventHandler.ipp"), ("period thread", "PeriodicEventHandler.cpp")],
      STD + "Mutexes and condition variables by their monitor contracts, fair scheduling assumed."),
    P("C17", "The slot thread pool runs every emitted task exactly once",
      "Emitting the id of a registered task queues it once, and some thread of the pool then runs exactly the task registered with that "
      "id, once, without holding a lock; an id that is not registered and a second registration of an id are refused "
      "with ValueNotAllowedException and change nothing. An enabled pool has exactly the number of threads asked for and a disabled one "
      "none: disable returns only when every thread has ended, keeps the queued tasks, and enabling again executes them. "
      "Task ids are never repeated, whichever threads ask for them.",
      ["schedules", "histories"], "all interleavings of emit, slot and the threads of the pool; all sequences of enable and disable",
      "The pool is not built by the project's test run; its tests emit a few tasks and sleep.",
      [CP + "src/cpp/thread_pool/pool/SlotThreadPool.cpp", CP + "include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp",
       CP + "src/cpp/thread_pool/task/TaskId.cpp"],
      [("slots under a mutex, consumer queue, threads", "SlotThreadPool.cpp"), ("atomic counter", "TaskId.cpp")],
      STD + "The queue by its contract (C14, C15)."),
    P("C18", "A singleton is one instance for all its users",
      "Every call of get_instance and get_shared_instance of a Singleton gives the same instance, made once, at the first call; another "
      "type or index has another instance. An InitializableSingleton gives nothing until it is initialized, and each initialize "
      "makes an instance of exactly its arguments that replaces the previous one. A SafeInitializableSingleton gets its instance once, from "
      "the first initialize or the first get that asks for its creation, whichever threads race: initialize says yes exactly when it made "
      "the instance, from its arguments, and the instance is never replaced; a get without creation makes nothing.",
      ["schedules", "histories"], "all sequences of calls, all interleavings of the thread-safe one, all constructor arguments",
      "Tests use a few instances from a single thread.",
      [CP + "include/cpp_utils/types/impl/Singleton.ipp", CP + "include/cpp_utils/types/impl/InitializableSingleton.ipp",
       CP + "include/cpp_utils/types/impl/SafeInitializableSingleton.ipp"],
      [("static pointer, and a static mutex", "*Singleton.ipp")], STD),
    P("C19", "Random managers give reproducible, independent sequences",
      "The sequence of a random manager depends only on its last seed (that of its construction, 1 by default): each "
      "sequence_rand gives the next number of it and advances it by one. The number of a seed is always the same, for every seed, and asking for it, "
      "or for a pure random number, does not disturb the sequence. In the thread-safe manager the same holds whichever threads call: no number "
      "of the sequence is given twice or skipped, and each generator is used by one thread at a time.",
      ["inputs", "histories", "schedules"], "all seeds, all histories of calls, all interleavings of the thread-safe manager",
      "Tests compare a hundred numbers from a single thread; the threaded test only looks for crashes.",
      [CP + "src/cpp/math/random/RandomManager.cpp", CP + "src/cpp/math/random/TSafeRandomManager.cpp",
       CP + "include/cpp_utils/types/Atomicable.hpp"],
      [("one generator per feature, each with its lock", "TSafeRandomManager.cpp")], STD),
    P("C20", "Timers count exactly the time they play",
      "A timer gives the time since its construction or last reset, in milliseconds and in whole milliseconds. A pausable timer gives the sum "
      "of the times it has been playing since its construction or last reset, the current one included: pausing stops the count, playing "
      "resumes it, pausing a paused timer or playing a playing one changes nothing, resetting starts from zero without changing the "
      "state, and asking changes nothing.",
      ["inputs", "histories"], "all sequences of play, pause, reset and elapsed, all readings of a clock that does not go back",
      "Tests sleep a few times with a tolerance of milliseconds; lost or doubled intervals smaller than it, or long sequences, are not seen.",
      [CP + "src/cpp/time/Timer.cpp", CP + "src/cpp/time/PausableTimer.cpp"],
      [("start time and accumulated time", "PausableTimer.cpp")],
      STD + "Time points are integers; the milliseconds of an interval are an uninterpreted double."),
    P("C21", "Reading the console gives the lines that the keys make",
      "A StdinEventHandler reads from the standard input as many lines as it was asked for, no key more, and gives each to its callback once and "
      "in order. A line is what its keys make, whichever they are: characters go in at the cursor, Backspace and Delete take one out, the "
      "arrows, Home and End move the cursor inside the line, Up, Down and the page keys take the line from the history; Enter or the end of "
      "the input ends it, Ctrl+C gives an empty one. Lines that are not empty, ended by Enter and read while input is not "
      "ignored are in the history, once. The history goes back and forth one entry at a time and is never read out of its bounds. "
      "Any width of the terminal, or no terminal, is the same.",
      ["inputs", "histories"], "all sequences of keys (bytes) and ends of input, all histories, all terminal widths",
      "Tests feed a few plain words; no editing key, history or end of input is tested.",
      [CP + "src/cpp/event/StdinEventHandler.cpp", CP + "src/cpp/history/CommandHistoryHandler.cpp"],
      [("reading thread and keys", "StdinEventHandler.cpp"), ("entries and position", "CommandHistoryHandler.cpp")],
      STD + "What is drawn on the terminal is not specified; the source and read_lines arguments of the constructor are not used by the code."),
    P("C22", "A command typed on the console is read with its quoted arguments",
      "Reading a command with a CommandReader asks the console for exactly one more line, and gives the arguments of that line in order: the words "
      "between single spaces (two spaces in a row make an empty word), and, where a word starts with a double quote, the text from "
      "there up to the first word that ends with another double quote (up to the end of the line if none does), spaces included and "
      "without the quotes. The result is whether the first argument is the name of a command, and the command set is that one. "
      "No line makes it read out of bounds, and a reader being destroyed stops its reading thread before the queue of "
      "commands it fills goes away.",
      ["inputs"], "all lines, all tables of commands",
      "Tests type a few well-formed commands; quotes that touch spaces, single quotes and unfinished quotations are not tested.",
      [CP + "include/cpp_utils/user_interface/impl/CommandReader.ipp", CP + "include/cpp_utils/user_interface/CommandReader.hpp"],
      [("joining the quotations", "CommandReader.ipp join_quoted_strings"), ("order of the members", "CommandReader.hpp")],
      STD + "Lines come by the contract of StdinEventHandler (C21), the split by that of split_string (C04), the table by that of EnumBuilder (C13)."),
    P("C23", "A tree has the branches added to it, its depth and all its nodes",
      "A TreeNode has the information it was made with and the branches added to it, in order: adding a branch, a copy of a node or the node itself "
      "moved, puts it after those that were there, which stay, and changes nothing else. Its depth is 0 for a leaf and otherwise one more "
      "than that of its deepest branch; a node is a leaf exactly when it has no branches. All the nodes of a tree are the nodes under it, each one "
      "once.",
      ["inputs", "histories"], "all finite trees, any type of information",
      "Tests use no tree at all.",
      [CP + "include/cpp_utils/types/impl/Tree.ipp", CP + "include/cpp_utils/types/Tree.hpp"],
      [("branches", "Tree.ipp add_branch"), ("recursive depth and all_nodes", "Tree.ipp")], STD + "Nodes below the one in question go by the contract of the same functions (induction on the tree)."),
    P("C24", "A heritable object keeps its object and its class",
      "A Heritable owns the object it was given, of the class or of a child of it. Copies own the very same object, moving one hands it over, and "
      "assigning, also to itself, leaves the assigned with the object of the other; the object lives while some Heritable owns it and is destroyed "
      "once. Its operators and comparison are those of the object, printed between braces. can_cast says whether the "
      "object is of the class asked for, and dyn_cast gives that same object, or throws bad_cast exactly when it is not.",
      ["inputs", "histories"], "all objects of a class and of its children, all histories of construction, copies, moves and assignments",
      "Tests compare a few objects; ownership, copies of children and failed casts are sampled.",
      [CP + "include/cpp_utils/memory/Heritable.hpp", CP + "include/cpp_utils/memory/impl/Heritable.ipp"],
      [("pointer to the object", "Heritable.hpp")], STD),
    P("C25", "Containers, pointers and letters are compared and converted exactly",
      "A set of pointers contains a pointer exactly when it has it or one to an equal object (null only equals null), and two sets are equal exactly when they "
      "have as many elements and each contains those of the other. A set of objects becomes a set with one pointer to a copy of each, of its class. The keys of a map "
      "are exactly its keys. A container prints its elements between braces, in order, with the separator between them and nowhere else. "
      "Copying to raw memory gives a new block with exactly the bytes asked for; casting keeps the address; can_cast is the dynamic type. "
      "Changing case changes the letters only. Access modes compose bitwise, and a file is accessible exactly when the system says so for that mode.",
      ["inputs"], "all containers, elements, separators and texts",
      "Tests do not print, compare or convert containers with null pointers, repeated or empty elements.",
      [CP + "include/cpp_utils/impl/utils.ipp", CP + "src/cpp/utils.cpp", CP + "include/cpp_utils/types/impl/cast.ipp"],
      [("loops over the containers", "utils.ipp"), ("case and access", "utils.cpp")], STD),
    P("C26", "A moment and its date in text say the same, in every thread",
      "The text of a moment is its date, UTC or local as asked, in the format asked, whatever other threads do; the moment read from a text is the one of the date "
      "written in it, so that reading what was written with all its fields gives the moment to the second, 1969-12-31 23:59:59 included. A text that is not in the "
      "format is refused with PreconditionNotMet and a date that no Timestamp can represent with ValueNotAllowedException; no other text is refused. Making a "
      "moment from a date gives that date in UTC, and from a time that time of the current date. Durations and sleeps are that number of milliseconds; the "
      "beginning and the end of time are the first and the last moments that can be represented.",
      ["inputs", "schedules"], "all moments, texts, formats and dates; threads that convert dates at the same time",
      "Tests convert a few dates of this century, from one thread.",
      [CP + "src/cpp/time/time_utils.cpp", CP + "include/cpp_utils/time/time_utils.hpp"],
      [("conversions", "time_utils.cpp")], STD),
    P("C27", "Every signal is handled once, by every handler that is set",
      "Once a manager of a signal exists, each time the signal arrives, in whatever thread and at whatever moment (also just before the thread that handles it "
      "waits), every callback registered for it is called exactly once, in the thread of the manager and never in the signal handler itself, without waiting for "
      "another signal; other signals call none of them. Every callback gets an id that no other has; it is called until it is unregistered by that id and never "
      "after, and unregistering an id that is not registered throws InconsistencyException and changes nothing. A handler with a callback is registered exactly "
      "once, and one without, or destroyed, is not registered. The thread ends when the manager is destroyed.",
      ["inputs", "schedules", "histories"], "any number of signals, callbacks and handlers, threads that raise signals and that set and unset handlers",
      "Tests raise a few signals with a couple of handlers; a signal that comes a moment before the wait is never sampled.",
      [CP + "include/cpp_utils/event/impl/SignalManager.ipp", CP + "include/cpp_utils/event/SignalManager.hpp",
       CP + "include/cpp_utils/event/impl/SignalEventHandler.ipp"],
      [("registration", "SignalManager.ipp"), ("wake-up", "SignalManager.ipp"), ("handlers", "SignalEventHandler.ipp")], STD),
    P("C28", "Log entries reach exactly the handlers and streams they are for",
      "Each log entry that Fast DDS hands over is given exactly once to every living log handler whose callback is set, and to a severe one only if it is at least as "
      "severe as its threshold, also while other handlers are being made or destroyed; none is given to a handler once its callback is unset or it is destroyed. "
      "Making a severe handler lets the entries up to its threshold through and never hides what was let through before. A consumer prints an entry "
      "(its message and its context, in one line) exactly when it is at least as severe as the verbosity and its category or its message matches the filter "
      "of its kind: Info on the standard output, the others on the error output. Setting a verbosity, or the filters of a configuration, replaces each exactly "
      "when its own level is not above that of the new one; by default the verbosity is Warning and the filters accept everything, and anything replaces them. "
      "A LogChecker is valid exactly when the entries as severe as its threshold that arrived since it was made are at least those expected and at most the maximum (never below those expected).",
      ["inputs", "schedules", "histories"], "all entries, filters, levels and verbosities; handlers made, set, unset and destroyed in any order while the Log thread hands entries over",
      "Nothing tests the consumers, and the handlers are tested with a few entries and no other handler.",
      [CP + "src/cpp/logging/BaseLogConfiguration.cpp", CP + "src/cpp/logging/BaseLogConsumer.cpp", CP + "src/cpp/logging/StdLogConsumer.cpp",
       CP + "src/cpp/event/logging/LogEventHandler.cpp", CP + "src/cpp/event/logging/LogSevereEventHandler.cpp", CP + "src/cpp/event/logging/LogConsumerConnection.cpp",
       CP + "src/cpp/testing/LogChecker.cpp"],
      [("levels", "BaseLogConfiguration.cpp"), ("accept_entry_", "BaseLogConsumer.cpp"), ("streams", "StdLogConsumer.cpp"),
       ("connection to the Log", "LogConsumerConnection.cpp"), ("threshold", "LogSevereEventHandler.cpp")],
      STD + "Fast DDS is not in the sandbox: its Log is assumed as a contract, and a small stand-in compiles the code."),
    P("C29", "Return codes, QoS policies and error messages say exactly what happened",
      "A return code made of a Fast DDS code stands for that code if it is Ok, No data, Not enabled or Precondition not met, for Error if it is any other code of Fast DDS, and "
      "for Unknown otherwise. Codes are equal exactly when their values are, in every mixed comparison, are ordered by value, are negated (!) exactly when they "
      "are not Ok, and are printed as their name in braces. Each QoS policy has its own name, any other number is Invalid, and a mask of policies is the names of "
      "those in it, by number, separated by ', ', or Invalid if there is none. A Formatter holds exactly the texts put in it, one after the other, "
      "whatever their characters. An exception of every kind made of a text or a Formatter tells that message, and so do its copies, and is caught as an Exception and as a std::exception.",
      ["inputs"], "all 32-bit codes, pairs of codes, policy numbers and masks; all sequences of texts and all messages",
      "Tests look at a few codes and masks, and at no code that Fast DDS does not have, no mixed comparison of all values and no null character.",
      [CP + "src/cpp/ReturnCode.cpp", CP + "src/cpp/qos/qos_utils.cpp", CP + "src/cpp/Formatter.cpp", CP + "include/cpp_utils/impl/Formatter.ipp",
       CP + "src/cpp/exception/Exception.cpp", CP + "include/cpp_utils/exception/Exception.hpp"],
      [("ReturnCode", "ReturnCode.cpp"), ("names of policies", "qos_utils.cpp"), ("Formatter", "Formatter.cpp"), ("message", "Exception.cpp")],
      STD + "The values of the codes and policies are those of Fast DDS 3 (stub/fastdds)."),
    P("C30", "Files are read whole, and every change of what is watched is told once, in order",
      "file_to_strings gives every line of the file, in order, each without its ends of line and carriage returns if it was asked to strip them, and leaving out those that are "
      "then empty if it was asked to; file_to_string gives those lines (empty ones too), each followed by one end of line. A file that cannot be opened or whose reading fails is refused with "
      "PreconditionNotMet, never taken for a shorter file. A FileWatch of a directory tells its callback every file added, removed or modified in it, with its name, once and in the order of the changes, "
      "whether or not the callback throws; with a pattern, only the names that match it, and a FileWatch of a file only that file. It tells nothing once destroyed, and its destruction ends whatever "
      "the changes, even if what it watched is no longer there; one that cannot be made throws and leaves nothing open. A FileWatcherHandler calls its callback with each modification of its file, and with nothing else, while a callback is set.",
      ["inputs", "schedules", "histories"], "all contents and names of files; all sequences of changes, however the system batches them; destruction at any point of the two threads of a watch",
      "A test reads and changes a few files with the watcher left alone in between; the batches of changes, the wake-up lost at destruction and the removed directory depend on the schedule.",
      [CP + "src/cpp/file/file_utils.cpp", "thirdparty/filewatch/FileWatch.hpp", CP + "src/cpp/event/FileWatcherHandler.cpp"],
      [("lines", "file_utils.cpp"), ("monitor_directory, callback_thread, destroy", "FileWatch.hpp"), ("FileWatcherHandler", "FileWatcherHandler.cpp")],
      STD + "inotify is assumed as a contract: whole events one after another, equal consecutive ones possibly merged, IN_IGNORED when the watch ends."),
]
CLAIMED = ["C%02d" % i for i in range(1, 31)]
NA = [(p["id"], "machinery not built yet") for p in PROPS if p["id"] not in CLAIMED]
