"""The properties, as data. tools/mkmeta.py writes properties.jsonl and MANIFEST.json from it."""
A = "pythagoras/"
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=[A + f for f in files],
                               mechanism=[dict(name=n, where=A + w) for n, w in mech])))


p("P01", "Active portals form a stack; the innermost entered one is current",
  "Entering a portal makes it the current one and leaving it restores exactly the portals that were active before, however often the same portal is entered. At any moment the current, the active, the non-current and the best-to-use portals are those the sequence of entries and exits implies. Leaving all portals at once leaves none entered. Leaving a portal that is not the innermost one is refused and changes nothing.",
  "histories", "every sequence of creating, entering and leaving up to three portals, to a bounded depth",
  "The tests walk a few fixed nestings; entry counters go wrong only on particular repetitions of enter/leave.",
  ["_010_basic_portals/foundation.py"],
  [("the entered-portals stack and its counters", "_010_basic_portals/foundation.py"), ("choice of the best portal", "_010_basic_portals/foundation.py")])

p("P02", "Portals are never serialised; portal-aware objects rebind where loaded",
  "Pickling, copying or deep-copying a portal is refused for every kind of portal. A portal-aware object (address, function, call signature) that is pickled carries nothing of its portal, and once unpickled, in this or another session, it belongs to the innermost portal active at that moment and still works there. A typed-view container of stores cannot be pickled either.",
  "histories configurations", "every portal class, every portal-aware object, every nesting of up to three active portals at load time",
  "The tests load one object under one portal; binding to the wrong portal shows only with several of them active.",
  ["_010_basic_portals/portal_aware_classes.py", "_030_data_portals/value_addresses.py", "_060_autonomous_functions/autonomous_core_classes.py", "_070_pure_functions/pure_core_classes.py"],
  [("__getstate__/__setstate__ of portal-aware classes", "_010_basic_portals/portal_aware_classes.py"), ("capture_portal", "_010_basic_portals/portal_aware_classes.py")])

p("P03", "Each exception is logged exactly once, in every active portal",
  "An exception that leaves a function call or a portal's 'with' block, or that nobody catches, is recorded once in the general crash log of every portal active where it was first noticed, under the day it happened, and never again while it propagates. A different exception raised while handling it is recorded separately, and an exception caught before it leaves any function or portal block is not recorded. One that left a function first is also filed once under that function's own heading. The exception itself propagates unchanged.",
  "programs histories", "every nesting, up to a bound, of portal blocks, function calls of each kind and handlers, with the exception caught at every possible level or not at all",
  "The tests count log entries for a handful of nestings; double or missing entries need particular combinations.",
  ["_020_logging_portals/logging_portals.py", "_040_ordinary_functions/ordinary_core_classes.py", "_060_autonomous_functions/autonomous_core_classes.py", "_070_pure_functions/pure_core_classes.py"],
  [("marking exceptions as processed", "_020_logging_portals/logging_portals.py"), ("the except clause of function execution", "_040_ordinary_functions/ordinary_core_classes.py")])

p("P04", "A logged event reaches every active portal exactly once, complete",
  "Logging an event adds exactly one record to the event log of every portal active at that moment, under the current day and the given (or a fresh) identifier, and touches no other portal. The record contains every keyword argument under its own name, all positional arguments, and the environment summary, even when the user's argument names collide with the summary's.",
  "histories inputs", "every nesting of up to three portals (with repetition) times every combination of arguments, names and identifiers from a small alphabet",
  "The tests log a few events into one portal.",
  ["_020_logging_portals/logging_portals.py"],
  [("log_event", "_020_logging_portals/logging_portals.py"), ("make_unique_name", "_020_logging_portals/logging_portals.py")])

p("P05", "Value addresses depend only on type and value, and tell values apart",
  "Two objects of the same type and value get the same address, in whatever session, portal, process or order of construction they are created; values of different type or content get different addresses. An address is a name-safe pair of a readable prefix and a signature, can be rebuilt from these two strings or from a pickle, and equal addresses are interchangeable in comparisons, sets and dictionaries.",
  "inputs configurations", "all pairs from a family of values (scalars, containers nested to depth two, arrays, tables, callables), evaluated afresh, under several hash seeds and portals",
  "The tests address a few values in one process; collisions and instabilities are properties of pairs and of sessions.",
  ["_030_data_portals/hash_addresses.py", "_030_data_portals/value_addresses.py", "_820_strings_signatures_converters/hash_signatures.py"],
  [("prefix, descriptor and hash of an address", "_030_data_portals/hash_addresses.py"), ("signature", "_820_strings_signatures_converters/hash_signatures.py")])

p("P06", "Stored values can be retrieved from any portal, unchanged",
  "A value stored through one portal can be retrieved, equal to the original, by its address in any later session, and under any other portal as long as some known portal has it; retrieving it copies it into the address's own portal. An address is reported ready exactly when some known portal has the value, and asking for a value nobody has raises KeyError. No operation changes or removes a stored value.",
  "histories", "every sequence, up to a bound, of storing, checking, retrieving, session restarts and entering portals, over two or three portals and two values",
  "The tests store and fetch in one order; cross-portal search depends on which portal is active and on who has the value.",
  ["_030_data_portals/value_addresses.py", "_030_data_portals/data_portals.py"],
  [("search of current, then other portals", "_030_data_portals/value_addresses.py"), ("value store", "_030_data_portals/data_portals.py")])

p("P07", "In a write-once store the first value wins, for ever",
  "Once a key has a value, no later write, deletion or reopening changes what readers see, and among concurrent writers exactly one value is ever observed by everybody. With checks switched off a later write is ignored, with checks always on a later write of an equal value succeeds and of a different value fails loudly. Deleting is always refused.",
  "histories schedules", "every history over two keys and four values to a bounded depth; every interleaving of two to three writers and readers up to a preemption bound",
  "Tests write sequentially; the race between checking and creating an entry needs a schedule.",
  ["_800_persidict_extensions/first_entry_dict.py"],
  [("set_if_absent logic", "_800_persidict_extensions/first_entry_dict.py")])

p("P08", "Source normalisation keeps behaviour and ignores only cosmetics",
  "The normalised source of a function behaves exactly as the original, normalising it again changes nothing, and two sources that differ only in comments, blank lines, docstrings, annotations of variables, parameters and results, formatting, indentation or the framework's decorator have the same normal form. Sources that differ in anything else, string literals included, have different normal forms.",
  "programs", "every combination of up to four constructs from a grammar of function bodies, times every cosmetic variation",
  "The tests compare a few hand-written pairs.",
  ["_040_ordinary_functions/code_normalizer_implementation.py", "_040_ordinary_functions/code_normalizer.py"],
  [("AST rewriting", "_040_ordinary_functions/code_normalizer_implementation.py")])

p("P09", "A decorated function computes what the plain one does, by keyword only",
  "Calling a decorated function (ordinary, safe, autonomous, strictly autonomous or pure) with keyword arguments returns the value, or raises the exception, that the plain Python function would, including recursion, defaults, nested definitions and arguments that share the function's own name; keywords it gathers keep the order of the call (except for pure functions, which always get them sorted), and what other functions defined is not in its scope. Calling it with a positional argument is refused before anything runs. Wrapping an already wrapped function changes nothing.",
  "programs inputs", "every function from a grammar of signatures and bodies, every decorator, every way of supplying its arguments",
  "The tests call a few functions; name rewriting and argument passing fail only for particular names and signatures.",
  ["_040_ordinary_functions/ordinary_core_classes.py", "_050_safe_functions/safe_core_classes.py", "_060_autonomous_functions/autonomous_core_classes.py", "_070_pure_functions/pure_core_classes.py"],
  [("compiling the call wrapper", "_040_ordinary_functions/ordinary_core_classes.py")])

p("P10", "Exactly the ordinary functions are accepted as ordinary",
  "A callable is accepted as ordinary if and only if it is a plain Python function that is not a method bound to an object or class, not a lambda, not a closure, not asynchronous (coroutine or asynchronous generator), and takes no unlimited positional arguments. The same answer follows from its signature alone for every mix of parameter kinds, and everything else, built-ins, classes, callable objects and non-callables included, is rejected with an error.",
  "inputs programs", "every signature of up to four parameters over all parameter kinds, times every kind of callable",
  "The tests try one instance of some kinds.",
  ["_040_ordinary_functions/assert_ordinarity.py", "_040_ordinary_functions/check_n_positional_args.py"],
  [("assert_ordinarity", "_040_ordinary_functions/assert_ordinarity.py"), ("accepts_unlimited_positional_args", "_040_ordinary_functions/check_n_positional_args.py")])

p("P11", "Autonomy analysis finds exactly the names a function takes from outside",
  "The analysis of a function reports as taken from outside exactly the names that Python's own scoping rules resolve to globals or enclosing scopes; a name is taken as bound only below its first binding in the text. It tells whether the function itself yields, and lists the packages it imports and the names explicitly declared global or nonlocal. A function needing anything but built-ins, the framework and the functions of its own island is refused at the latest when called, before its body runs, and an accepted one finds every name it needs.",
  "programs", "every nesting, up to depth two or three, of name-binding and name-using constructs over a small set of names",
  "The tests analyse about twenty fixed functions; scoping bugs live in combinations of constructs.",
  ["_060_autonomous_functions/names_usage_analyzer.py"],
  [("the analysing AST visitor", "_060_autonomous_functions/names_usage_analyzer.py")])

p("P12", "Reported dependencies are exactly the functions reachable by reference",
  "Given the sources of the functions of an island, the deep dependencies of each are itself and every other one reachable through a chain of references, and the shallow ones itself and those it references directly. This does not depend on the order in which the sources are presented, on cycles, on the way a function is referred to, or on references to names that are merely local.",
  "programs inputs", "all reference graphs of up to four functions, bounded families of larger ones, in both orders, times all forms of reference",
  "The tests check about ten fixed graphs.",
  ["_060_autonomous_functions/call_graph_explorer.py", "_060_autonomous_functions/names_usage_analyzer.py"],
  [("transitive closure", "_060_autonomous_functions/call_graph_explorer.py")])

p("P13", "A name means one function per island and session",
  "Within a session an island holds at most one definition per function name: redefining it with the same normalised source and decorator yields the same function, and with a different source, decorator or kind is refused and leaves the first definition in force. Islands are separate, and a function sees exactly its own island's functions it depends on, never another island's.",
  "histories", "every sequence of up to four definitions and calls over two names, two sources, two islands and the decorators",
  "The tests redefine one function once.",
  ["_060_autonomous_functions/autonomous_core_classes.py"],
  [("registration in an island", "_060_autonomous_functions/autonomous_core_classes.py")])

p("P14", "A pure function's body runs once per distinct arguments",
  "Once a call of a pure function with given arguments has succeeded through some known portal, no later call with equal arguments, in any session or portal, by any way of invoking it (call, run, address, list or grid) and in any keyword order, runs the body again; it returns an equal value that callers cannot spoil by modifying what they got. A call that failed is not remembered and runs again. With consistency checks always on the body reruns, and a differing result is refused while the first one stays.",
  "histories", "every sequence, up to a bound, of calls by every route, restarts and portal switches, for two functions and two or three arguments",
  "The tests count runs for a few sequences in one session.",
  ["_070_pure_functions/pure_core_classes.py", "_070_pure_functions/kw_args.py"],
  [("execute: look up, run, store", "_070_pure_functions/pure_core_classes.py"), ("argument packing", "_070_pure_functions/kw_args.py")])

p("P15", "A change of code anywhere among the dependencies invalidates results",
  "If in a later session the source of a pure function, or of any function it depends on directly or indirectly, differs in anything but cosmetics, its earlier results are not reused; if only cosmetics, or functions it does not depend on, changed, they are. Results of the earlier version stay available when that version returns.",
  "histories programs", "every dependency graph of three functions, every subset of them changed (really or cosmetically), every order of definition, over two to three sessions",
  "The tests change one function; which changes matter is a property of graphs and orders.",
  ["_070_pure_functions/pure_core_classes.py", "_060_autonomous_functions/autonomous_core_classes.py"],
  [("augmented source code in the function's state", "_070_pure_functions/pure_core_classes.py")])

p("P16", "A crash or storage fault at any moment leaves the store usable",
  "If the process is killed, a storage operation fails, or the user interrupts, at any point while a pure function is executed, a later session that repeats the call gets the correct value, and no observer ever finds a wrong or partial value or result. A request for execution that was registered is not lost before a result exists. Values and results recorded before the crash stay as they were. A storage fault or an interrupt shows as an exception, leaves no portal entered and no output captured, and the same session can go on.",
  "crash_points fault_sequences histories", "every storage operation of short histories as the point of a kill or of a fault, followed by recovery in a new session",
  "No test injects a crash.",
  ["_070_pure_functions/pure_core_classes.py", "_030_data_portals/value_addresses.py", "_800_persidict_extensions/first_entry_dict.py"],
  [("order of writes: value, result, request removal", "_070_pure_functions/pure_core_classes.py")])

p("P17", "Swarmed calls get executed, whichever worker acts when",
  "Every call requested for background execution, whose function can run, ends with its correct result available and its request gone, for every interleaving of the requester and the workers, even if a worker is killed midway and another takes over later. No interleaving produces a wrong result, a second differing result, or a worker that dies of another's actions. Workers stop once the session that started them is gone.",
  "schedules crash_points", "every interleaving up to a preemption bound of a requester and one or two workers at storage operations, with and without a kill",
  "The swarming tests wait for one real schedule.",
  ["_090_swarming_portals/swarming_portals.py", "_070_pure_functions/pure_core_classes.py"],
  [("worker loop", "_090_swarming_portals/swarming_portals.py"), ("needs_execution", "_070_pure_functions/pure_core_classes.py")])

p("P18", "Concurrent executions of the same call agree",
  "When several processes run the same pure call at the same time, all of them, and every later reader, get the same correct result, nobody fails because of the others, and afterwards no request is left pending. The same holds when they store equal or different values concurrently.",
  "schedules", "every interleaving of two or three processes at storage operations up to a preemption bound",
  "No test runs two processes against one portal under control.",
  ["_070_pure_functions/pure_core_classes.py", "_800_persidict_extensions/first_entry_dict.py"],
  [("write-once results", "_800_persidict_extensions/first_entry_dict.py")])

p("P19", "Execution records tell what happened in each run, and only that",
  "Every actual run of a pure function leaves one record with its environment, everything it printed to standard output and error, its result if it succeeded and the exception that arose in it if it failed, and calls answered from memory leave none. Records of different runs, arguments and functions never mix, and the source and the augmented source of the function are kept with them.",
  "histories", "every sequence, up to a bound, of succeeding, failing and memoised runs of two functions with printing",
  "The tests look at one run at a time.",
  ["_070_pure_functions/pure_core_classes.py"],
  [("execution frame", "_070_pure_functions/pure_core_classes.py"), ("execution record", "_070_pure_functions/pure_core_classes.py")])

p("P20", "Guards decide whether a pure function may run",
  "A pure function runs only if each of its guards accepts the call's arguments; otherwise the call fails, nothing is remembered as its result, and it runs later once the guards accept. Guards must be strictly autonomous functions of the same island, are part of the function's identity (in whatever order they are listed), and travel with it to other sessions.",
  "histories inputs", "every set of up to two guards with every pattern of acceptance, over sequences of calls and session restarts",
  "The tests use one guard that always passes or always fails.",
  ["_070_pure_functions/pure_core_classes.py"],
  [("can_be_executed", "_070_pure_functions/pure_core_classes.py"), ("guard preprocessing", "_070_pure_functions/pure_core_classes.py")])

p("P21", "A stored call can be executed elsewhere from its address alone",
  "A session that knows nothing but the two strings of a call's address and the portal can recover the function with all its dependencies and guards, its name, source, island and arguments, and execute it with the same outcome as the session that made the call. Doing so registers these functions exactly as their own session did.",
  "programs histories", "every dependency graph of up to three functions, mixes of autonomous and pure functions, argument kinds, guards and islands",
  "The tests restore one function in the same session.",
  ["_070_pure_functions/pure_core_classes.py", "_070_pure_functions/process_augmented_func_src.py"],
  [("PureFn state", "_070_pure_functions/pure_core_classes.py"), ("processing of the augmented source", "_070_pure_functions/process_augmented_func_src.py")])

p("P22", "Failed calls are retried with exponential backoff, then given up",
  "A call without a result is a candidate for execution if it was never attempted, or if it was attempted n times, n at most five, and more than 10*2^n seconds have passed since the latest attempt; after more than five attempts it is not. A call with a result never is.",
  "histories inputs", "every history of up to seven attempts at chosen times, checked around every threshold, with and without a result",
  "The tests never wait for a backoff period.",
  ["_070_pure_functions/pure_core_classes.py"],
  [("needs_execution", "_070_pure_functions/pure_core_classes.py")])

p("P23", "Waiting for a result returns it once there, or times out, never early",
  "Waiting for a result returns the correct value if it is available, or becomes available while waiting, registers a request for it meanwhile, and removes that request when it got the value. With a timeout, if no result arrives it raises a timeout error not before the timeout has elapsed and at most about a second (plus storage time) after it; without one it keeps waiting.",
  "schedules inputs", "every arrival time of the result on a grid, every timeout on a grid, every extreme of the random jitter",
  "The tests use real time, one or two arrival times, and generous limits.",
  ["_070_pure_functions/pure_core_classes.py"],
  [("get with backoff", "_070_pure_functions/pure_core_classes.py")])

p("P24", "Captured output is complete, in order, and still shown",
  "While capturing, everything written to standard output, standard error and the root logger's records is collected, in the order written, and also reaches where it would have gone. After the block, normal or by exception, output and logging go exactly where they went before, an escaping exception's traceback is part of the capture, the exception propagates, and nothing written later is captured. Nested captures each get everything written inside them.",
  "histories", "every sequence, up to a bound, of writes, flushes, log records at all levels, nested captures, and exits with or without an exception, for several handler set-ups",
  "The tests capture one line each.",
  ["_810_output_manipulators/output_capturer.py"],
  [("tee streams and capture handler", "_810_output_manipulators/output_capturer.py")])

p("P25", "Suppressed output disappears and the streams come back",
  "Inside a suppression block nothing written to standard output or error reaches the streams that were in place before, and after the block, however it ended and however blocks were nested or repeated, exactly those streams are back and everything written goes there. Exceptions pass through.",
  "histories", "every sequence, up to a bound, of entering, leaving (normally or by exception), nesting and writing",
  "The tests suppress one print.",
  ["_810_output_manipulators/output_suppressor.py"],
  [("stream replacement", "_810_output_manipulators/output_suppressor.py")])

p("P26", "Base-32 conversions are exact inverses; signatures are fixed-length base 32",
  "Every non-negative integer, and every hexadecimal string, converts to its unique shortest base-32 form over 0-9a-v, and back to the same number, whatever the letter case. Hash and random signatures consist of these characters only, never exceed 22 of them, and equal values give equal hash signatures.",
  "inputs", "all integers below a bound and around every power of two up to 300 bits, all short strings, both cases",
  "The tests convert a few numbers.",
  ["_820_strings_signatures_converters/base_16_32_convertors.py", "_820_strings_signatures_converters/hash_signatures.py", "_820_strings_signatures_converters/random_signatures.py"],
  [("converters", "_820_strings_signatures_converters/base_16_32_convertors.py")])

p("P27", "The date label is the current UTC day, in sortable form",
  "The date label has the form 2024_12Dec_22_utc, denotes the current day in UTC whatever the local time zone, and labels of different days differ and sort in the order of the days. ",
  "inputs", "every day of several years, moments around midnight, several local time zones",
  "The tests look at today only.",
  ["_820_strings_signatures_converters/current_date_gmt_str.py"],
  [("current_date_gmt_string", "_820_strings_signatures_converters/current_date_gmt_str.py")])

p("P28", "Workers know whether the session that started them is still there",
  "A portal that owns its runtime identity publishes it when created, and one created with a given identity publishes nothing; the parent counts as alive exactly while the published identity of this node is the one the worker was given. Normal termination and clearing of the parent withdraw the identity, another session's start replaces it, and no other portal's or node's entry is affected.",
  "histories", "every sequence, up to a bound, of starting, clearing, restarting and terminating sessions, over two portals, observed by workers of each",
  "The tests check liveness in one session.",
  ["_090_swarming_portals/swarming_portals.py"],
  [("runtime_id in the compute-nodes store", "_090_swarming_portals/swarming_portals.py")])

p("P29", "Portals can be rebuilt from their parameters; the default one is single",
  "The parameters a portal reports rebuild, in this or another process, a portal of the same class with the same parameters that works on the same stored data. Invalid parameters are refused. The default portal is created at most once per session, where it is needed and no other portal is known, in its fixed place.",
  "configurations histories", "every portal class times every combination of parameters from a small alphabet; every order of creating and needing portals",
  "The tests rebuild one or two portals.",
  ["_010_basic_portals/foundation.py", "_090_swarming_portals/swarming_portals.py", "_100_default_local_portals/default_local_portal.py"],
  [("get_params", "_010_basic_portals/foundation.py"), ("singleton", "_100_default_local_portals/default_local_portal.py")])

p("P30", "A portal's description reports the true numbers",
  "The numbers a portal's description gives, stored values, exceptions in total and today, islands and functions in each, cached results, length of the execution queue and workers, are those its history implies. Describing changes nothing, and the description of several portals has each portal's rows under its own number.",
  "histories", "every sequence, up to a bound, of storing, failing, calling, requesting, defining functions and letting days pass, over one to two portals",
  "The tests check a few counts after one operation.",
  ["_010_basic_portals/foundation.py", "_020_logging_portals/logging_portals.py", "_030_data_portals/data_portals.py", "_060_autonomous_functions/autonomous_core_classes.py", "_070_pure_functions/pure_core_classes.py", "_090_swarming_portals/swarming_portals.py", "_110_top_level_API/top_level_API.py"],
  [("describe", "_070_pure_functions/pure_core_classes.py")])

p("P31", "Typed views of one store never mix and cannot be bypassed",
  "A container of several typed views over one location keeps, per view, an independent map from keys to values: an operation through one view is never visible in another one. Direct item access, assignment or deletion on the container and pickling it are refused, and each view honours its own parameters (file type, immutability, value class) on top of the shared ones.",
  "histories", "every sequence, up to a bound, of operations on two views with the same keys, plus every forbidden operation in every state",
  "The tests write one item per view.",
  ["_800_persidict_extensions/overlapping_multi_dict.py"],
  [("views by file type", "_800_persidict_extensions/overlapping_multi_dict.py")])

p("P32", "Package commands act on exactly the package asked for, and verify it",
  "Installing a package runs this interpreter's pip once, to install the named package (pinned to the version if one is given, upgraded only if asked), then imports it; uninstalling runs it once, non-interactively, for the named package, and fails unless the package has become unimportable. A failing pip command is reported to the caller, and nothing else is then done.",
  "inputs fault_sequences", "every combination of name, version and upgrade flag, times every outcome of the pip command and of the import afterwards",
  "The tests need the network and try one package.",
  ["_050_safe_functions/package_manager.py"],
  [("pip command lines", "_050_safe_functions/package_manager.py")])

p("P33", "Argument packs do not depend on order and unpack to the same values",
  "Packing the keyword arguments of a call gives equal packs, with equal addresses, for every order of the same arguments, and different ones for different names or values. Unpacking a pack, in any session and under any portal that has the values, gives back equal arguments; packing a pack again, or arguments given as addresses, changes nothing.",
  "inputs histories", "all subsets and orders of four arguments over a family of values, packed zero to three times, unpacked under each portal",
  "The tests pack one or two argument lists.",
  ["_070_pure_functions/kw_args.py"],
  [("sorting, pack and unpack", "_070_pure_functions/kw_args.py")])

p("P34", "Literal keyword arguments survive the trip through syntax trees",
  "Converting a dictionary of literal values to syntax-tree keywords and back gives an equal dictionary with the same types and order of keys, directly as well as through source text. Converting the keywords of any call with literal arguments gives their values, and a non-literal argument is refused.",
  "inputs", "all dictionaries of up to three keys over a family of literals nested to depth two",
  "The tests convert two dictionaries.",
  ["_070_pure_functions/astkeywords_dict_convertors.py"],
  [("converters", "_070_pure_functions/astkeywords_dict_convertors.py")])

p("P35", "Generated names are unique where required, and safe",
  "A name made unique is the desired one if that is free, otherwise it starts with the desired one and is free, whatever the names taken and the random numbers drawn. The information name of an object identifies its type's module and qualified name and the object's own name if it can tell one, contains only characters safe for file names unless asked otherwise, and is computed for every object without failing.",
  "inputs", "every subset of taken names times every short sequence of random draws; a family of objects covering every way of being named",
  "The tests name a few objects.",
  ["_020_logging_portals/logging_portals.py", "_040_ordinary_functions/long_infoname.py"],
  [("make_unique_name", "_020_logging_portals/logging_portals.py"), ("get_long_infoname", "_040_ordinary_functions/long_infoname.py")])

p("P36", "The name read from a function's source is the name it defines",
  "For every source text of a single function, possibly decorated, commented, indented, with unusual spacing or with further definitions inside, the extracted name is the one the outermost definition binds; a text without a function definition is rejected with an error.",
  "inputs programs", "every combination of decorators, comments, indentation, spacing, signature and body from a small grammar",
  "The tests extract from about five sources.",
  ["_040_ordinary_functions/function_name.py"],
  [("get_function_name_from_source", "_040_ordinary_functions/function_name.py")])

p("P37", "Environment summaries tell the truth of the moment they are taken",
  "A summary of the execution environment has the documented entries and tells the host, user, process, platform, interpreter, number of CPUs and GPUs, sizes of disk and memory, working directory, time zone and whether there is a notebook, all as they are at that moment: also after they have changed, after the process was forked, and after an earlier summary was spoilt. The summaries stored with events, exceptions and runs do the same. Whether there is a notebook is found out safely, whatever the IPython module offers, and only once.",
  "histories inputs", "every history, up to a bound, of changes of directory, time zone, user, GPUs and process, and of spoiling a summary; every kind of interactive shell",
  "The tests only look for the presence of entries.",
  ["_020_logging_portals/execution_environment_summary.py", "_020_logging_portals/notebook_checker.py", "_020_logging_portals/logging_portals.py", "_070_pure_functions/pure_core_classes.py"],
  [("build_execution_environment_summary", "_020_logging_portals/execution_environment_summary.py"), ("is_executed_in_notebook", "_020_logging_portals/notebook_checker.py")])

p("P38", "Kinds of functions are told apart",
  "For every callable the questions whether it is autonomous, loosely autonomous, strictly autonomous and pure are answered according to how it was made: autonomous means exactly one of loosely and strictly; a function declared strictly autonomous is one; a function once executed is strictly autonomous exactly if it uses no other function of its island; pure functions are autonomous. Copies and pickled forms answer the same. Plain, ordinary and safe functions, classes and other callables are none of these; what cannot be called is refused. A strict function that refers to others never runs.",
  "programs histories", "every reference graph over three functions times all their kinds, orders of definition and several sequences of calls; a family of other objects",
  "The tests classify a few single functions.",
  ["_060_autonomous_functions/autonomicity_checks.py", "_060_autonomous_functions/autonomous_core_classes.py", "_070_pure_functions/purity_checks.py"],
  [("is_strictly_autonomous", "_060_autonomous_functions/autonomicity_checks.py"), ("is_pure", "_070_pure_functions/purity_checks.py")])

p("P39", "The top-level commands connect to the portals they name",
  "initialize forgets everything the session knew and connects to exactly one portal at the given place; connect_to_local_portal adds one, connect_to_default_portal adds the default one unless it is there. Each starts as many background workers as asked for (three if not told) for the portal it made and no others, and returns that portal's description. describe reports every known portal, in order, changes nothing and starts nothing. Values and functions go on working on the portal that is current, and the default portal appears by itself only when there is none.",
  "histories", "every sequence, up to a bound, of the top-level commands mixed with entering and leaving portals, storing values and defining functions, over four places",
  "The tests call each command once.",
  ["_110_top_level_API/top_level_API.py", "_090_swarming_portals/swarming_portals.py", "_100_default_local_portals/default_local_portal.py", "_010_basic_portals/foundation.py"],
  [("initialize, connect_to_..., describe", "_110_top_level_API/top_level_API.py")])

p("P40", "A computing node is identified by its own facts",
  "Every session of one user on one machine computes the same node signature, whatever its hash seed, time zone, working directory, environment or process. Machines or users that differ in any identifying fact, the hardware address, operating system, its release or version, machine, processor or user name, as real systems report them, have different signatures. A signature is a short text that can be used as a key.",
  "configurations", "several machines, each with every bit of its hardware address and a family of other values of each fact, each shown to a session of its own",
  "The tests run on one machine and can only see that the signature is a string.",
  ["_820_strings_signatures_converters/node_signatures.py", "_820_strings_signatures_converters/hash_signatures.py"],
  [("get_node_signature", "_820_strings_signatures_converters/node_signatures.py")])

p("P41", "A portal tester starts and ends with no portal known",
  "Within a portal tester exactly one portal is known and entered, one of the class and place asked for, or none if no class was given, whatever was known or entered before; when it ends, normally or by an exception, which it lets pass, no portal is known or entered any more. Two testers are never in force together: making or starting a second one is refused and changes nothing. Afterwards testers can be made and started again, and what is stored in the portals' places is kept.",
  "histories", "every sequence, up to a bound, of making, starting and ending three testers, mixed with making, entering, leaving and filling portals",
  "The tests use a tester around each of them, but never look at what it leaves behind, or at two of them.",
  ["_010_basic_portals/portal_tester.py", "_010_basic_portals/foundation.py"],
  [("_PortalTester", "_010_basic_portals/portal_tester.py"), ("forgetting all portals", "_010_basic_portals/foundation.py")])

p("P42", "Uncaught exceptions are taken over once, and given back",
  "Making the first logging portal takes over the handling of uncaught exceptions, once, however many portals follow: sys.excepthook in a script, the shell's handler in a notebook, or sys.excepthook again if the shell refuses. An exception that nobody catches is then recorded once in every active portal and still reported to the user, interrupts and exits included; the same one delivered again is not recorded again. When the logging portals are forgotten, the hook that was there before is back and the shell has no handler; later portals take over anew. In a notebook sys.excepthook is never touched; basic portals take over nothing.",
  "histories configurations", "every sequence, up to a bound, of making, entering, leaving and forgetting portals and of uncaught exceptions, in scripts and in notebooks",
  "The tests run where no exception can be uncaught and no notebook exists.",
  ["_020_logging_portals/logging_portals.py", "_020_logging_portals/notebook_checker.py"],
  [("register_systemwide_uncaught_exception_handlers", "_020_logging_portals/logging_portals.py"), ("pth_excepthandler", "_020_logging_portals/logging_portals.py")])
