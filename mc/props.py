"""the properties and their checks; `python -m mc.props` writes the lists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B -m mc.run"

H, I, S, F, C = ("histories", "inputs", "schedules", "fault_sequences",
                 "configurations")
IMPL, COD, MEM = ("dustgoggles/codex/implements.py",
                  "dustgoggles/codex/codecs.py",
                  "dustgoggles/codex/memutilz.py")
STRUCT, COMP, TRK, DYN, FUN, PIV, MOS, SCR = (
    f"dustgoggles/{n}.py" for n in
    ("structures", "composition", "tracker", "dynamic", "func", "pivot",
     "mosaic", "scrape"))

NO_TESTS = ("nothing under dustgoggles/tests exercises codex at all; a fixed "
            "sequence of calls could not cover every history anyway")

P = []


def prop(id, title, statement, over, text, why, files, mechanism, level,
         technique, note, state=()):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mechanism=mechanism, level=level,
        technique=technique, note=note, state=state))


SIM = ("bounded-exhaustive over the stated alphabet and depth, on the real "
       "code over a simulated shared-memory file system under CPython's real "
       "SharedMemory class; a share of the histories is replayed in lockstep "
       "on the real /dev/shm")
ENUM = "bounded-exhaustive over the stated finite case space, on the real code"

prop("C01", "A Notepad behaves as one dictionary shared by all its handles",
     "After any history of stores, overwrites, deletions, lookups, clears and "
     "key listings made one at a time through any number of Notepad handles "
     "opened on the same prefix, every handle observes exactly what one plain "
     "dictionary would hold: each live key reads back an object equal to the "
     "one last stored there, whatever the sizes of old and new values, and "
     "every live key is listed exactly once, as a string. Looking up or "
     "deleting a key that is not there raises KeyError, and get() returns its "
     "default; with fetch=False both give the block that holds the value. "
     "Iterating keys, values or items agrees with lookups.",
     [H, I], "all histories up to depth 4-7 of set/get/del/clear/reopen "
     "through two handles over 3 keys and values of differing size, from the "
     "empty and from populated namespaces",
     NO_TESTS, [IMPL, COD, MEM],
     [("Notepad.__setitem__/__getitem__/__delitem__", IMPL),
      ("generic_mnemonic_factory", COD), ("TagIndex", IMPL)],
     "model_checking", "explicit-state search over operation histories "
     "against a dict model", SIM,
     [("index blocks", "key list and reverse hash map", IMPL)])

prop("C02", "A GridPaper behaves as one dictionary of arrays",
     "After any history of stores, overwrites (also with other shapes, sizes "
     "or dtypes), deletions, lookups, clears and key listings made one at a "
     "time through any number of GridPaper handles on the same prefix, every "
     "handle reads back for each live key an array of the same shape, dtype "
     "and contents as the one last stored, and lists each live key exactly "
     "once. Missing keys raise KeyError, and get() returns its default; with "
     "fetch=False both give the block that holds the array.",
     [H, I], "all histories up to depth 4-5 over 2-3 keys and arrays of "
     "several shapes, dtypes and memory layouts; two handles",
     NO_TESTS, [IMPL, COD],
     [("GridPaper", IMPL), ("numpy_mnemonic_factory", COD),
      ("MetaTagIndex", IMPL)],
     "model_checking", "explicit-state search over operation histories "
     "against a dict-of-arrays model", SIM,
     [("metadata", "dtype and shape of every stored array", IMPL)])

prop("C03", "Shared indexes list exactly the keys added and not removed",
     "After any history of additions and removals through any number of "
     "handles, a TagIndex lists exactly the keys that were added and not "
     "removed since, each once; a MetaTagIndex also returns for each key the "
     "metadata last given with it, by lookup and in its values and items. "
     "Adding a key that is present changes nothing (or raises "
     "FileExistsError if exists_ok is False), removing one that is absent "
     "raises KeyError and changes nothing.",
     [H], "all histories up to depth 6-8 over 3-4 keys; two handles",
     NO_TESTS, [IMPL],
     [("TagIndex._add/_delitem/update", IMPL), ("MetaTagIndex", IMPL)],
     "model_checking", "explicit-state search over operation histories "
     "against a set / dict model", SIM,
     [("index slots", "swap-with-last removal keeps the slots dense", IMPL)])

prop("C04", "The shared lock excludes, and never gets stuck",
     "At most one process at a time is between entering and leaving a "
     "SlidingLock of a given name, under every interleaving of the processes' "
     "shared-memory operations. Some waiting process always gets the lock "
     "once it is free: there is no deadlock, also when critical sections "
     "raise, or when other waiters give up by timeout or interrupt. After all "
     "processes are done the lock can be taken at once. A lock with a limit "
     "on its waits (max_spins) gives up, with TimeoutError, once it has waited "
     "that often since it was last taken, and not before.",
     [S, F], "all interleavings of 2 processes, and of 2-4 processes up to a "
     "preemption bound, at the granularity of single shared-memory system "
     "calls and buffer accesses",
     "no test runs two processes on a lock, and the operating system picks "
     "one interleaving out of millions", [IMPL, MEM],
     [("SlidingLock", IMPL), ("open_block", MEM)],
     "model_checking", "stateless preemption-bounded exploration of thread "
     "schedules with state matching",
     "all schedules up to the stated preemption bounds, with each "
     "shared-memory system call and buffer access atomic; a sample of the "
     "explored schedules is replayed on the real /dev/shm")

prop("C05", "Concurrent operations on shared stores are atomic",
     "When several processes at once add, remove, list or look up entries of "
     "one index, Notepad or GridPaper (each key's value being written by at "
     "most one of them at a time, and not while another reads that value), "
     "no operation on a live key fails or hangs, every listing and metadata "
     "lookup shows a state between operations, and the final contents are "
     "those of some order of the completed operations. Of several processes "
     "that store the same new key with exists_ok=False, exactly one "
     "succeeds.",
     [S], "all schedules of 2-3 processes with 1-2 operations each up to a "
     "preemption bound",
     "no test runs two processes on one store", [IMPL, COD, MEM],
     [("ShareableIndex.lock_class critical sections", IMPL),
      ("open_block / delete_block", MEM)],
     "model_checking", "stateless preemption-bounded exploration of thread "
     "schedules; linearizability against the sequential model",
     "all schedules up to the stated preemption bounds; readers of a value "
     "that is being rewritten are outside the claim")

prop("C06", "A Sticky shows the object last stuck at its address",
     "Whatever the history of sticking, reading, re-reading and pulling at an "
     "address through any number of Sticky handles, a re-read returns an "
     "object equal to the last one stuck there and None once it was pulled; "
     "a plain read may only differ by returning what the same handle last "
     "read or stuck. New values may have any size; pulling removes exactly "
     "that address. A note without an address gets one that is free.",
     [H], "all histories up to depth 5-6 with two handles and values of "
     "differing size", NO_TESTS, [IMPL],
     [("Sticky", IMPL)], "model_checking",
     "explicit-state search over operation histories against a cell model",
     SIM)

prop("C07", "Closing a store leaves nothing behind and harms nobody else",
     "After close() -- or at process exit for a store made with "
     "cleanup_on_exit -- no shared-memory block of a Notepad, GridPaper, "
     "index or Sticky remains, whatever was stored, deleted or overwritten "
     "before and however often it is closed, and its name can be used again "
     "from scratch. No operation on one store ever creates, changes or "
     "removes a block of another; opening a name that exists never destroys "
     "its contents, and opening one that doesn't with create=False raises "
     "FileNotFoundError and creates nothing.",
     [H, C], "all histories up to depth 3-4 of several kinds of store, each "
     "followed by every way of closing",
     NO_TESTS, [IMPL, MEM],
     [("close() methods", IMPL), ("atexit registration", IMPL),
      ("delete_block", MEM)], "model_checking",
     "explicit-state search over operation histories with a block-listing "
     "invariant", SIM)

prop("C08", "What is memorized is what is remembered",
     "For the JSON, literal and pickle codecs, decoding an encoded object of "
     "the codec's domain gives an equal object of the same type, and "
     "remembering what was memorized at an address -- whatever was there "
     "before -- does too. The numpy mnemonic preserves shape, dtype and every "
     "element for any memory layout, and refuses arrays it could not restore. "
     "With exists_ok=False an existing block is refused with FileExistsError "
     "and left as it was; a new one is accepted.",
     [I, H], "all structured values up to a size, all arrays of a shape / "
     "dtype / layout grid, all ordered pairs of them at one address",
     NO_TESTS, [COD, MEM],
     [("codec and mnemonic factories", COD)], "exploration",
     "exhaustive enumeration of bounded values and overwrite pairs", ENUM)

prop("C09", "A refused operation changes nothing and frees the lock",
     "If storing, deleting, looking up or adding is refused -- the value "
     "can't be encoded, the key is reserved, unusable as an address, already "
     "there (exists_ok=False) or absent -- the contents and key lists of the "
     "store are what they were before, for every handle and other store. "
     "Every later operation works, and none waits for a lock.",
     [H, F], "every refused operation after every history up to depth 2-3, "
     "followed by every operation",
     NO_TESTS, [IMPL, COD],
     [("Notepad.__setitem__ / GridPaper.__setitem__", IMPL),
      ("TagIndex._add", IMPL)], "model_checking",
     "explicit-state search over operation histories with refused operations "
     "at every point", SIM)

prop("C10", "Block primitives and resource-tracker switch do what they say",
     "Opening, fetching, testing and deleting blocks by address behaves like "
     "a table of named byte strings: fetch returns the block's bytes, exists "
     "tells if it is there, delete removes exactly it (a missing one raises "
     "FileNotFoundError unless missing_ok), open attaches to an existing "
     "block unless asked to overwrite it, and creates only if asked to. Once "
     "deactivated, the resource tracker no longer hears of shared memory, "
     "and hears of everything else as before.",
     [H], "all operation sequences up to depth 4-5 over two addresses",
     NO_TESTS, [MEM],
     [("open_block, fetch_block_bytes, exists_block, delete_block", MEM),
      ("deactivate_shared_memory_resource_tracker", MEM)],
     "model_checking", "explicit-state search over operation histories "
     "against a table of byte strings", SIM)

prop("C11", "Raw reads and dumps hold exactly the stored bytes",
     "After any history of stores, overwrites and deletions, get_raw() of a "
     "Notepad key is exactly what the codec makes of the last value stored "
     "there, and dump() of a key of a Notepad or GridPaper writes exactly the "
     "last value's bytes (in C order for arrays) to the file it is given, or "
     "to one named after the store and the key, appending if asked to. Dumps "
     "change nothing in the store and no other file; a dump that fails "
     "because there is no such key creates or changes no file. "
     "close(dump=True) dumps every key.",
     [H, C], "all histories up to depth 4 of two handles, several codecs, "
     "files and modes", NO_TESTS, [IMPL, COD],
     [("Notepad.dump / get_raw", IMPL), ("GridPaper.dump", IMPL)],
     "model_checking", "explicit-state search over operation histories "
     "against a table of byte strings", SIM)

prop("C12", "Debugging changes nothing but the log",
     "A Notepad, GridPaper, index or SlidingLock made with debug=True gives, "
     "operation by operation and under every interleaving, the results one "
     "made without it gives, whatever is stored and also beside handles made "
     "without it: it excludes, never gets stuck, and leaves the same blocks. It "
     "only adds messages to the log file (whose folder exists), each beginning "
     "a line with a time and the process id, and creates no other file.",
     [H, S], "all histories up to depth 3-4 of two handles with every mix of "
     "debugging; all schedules of 2-3 processes and a debugging lock",
     NO_TESTS, [IMPL], [("log / here", IMPL), ("SlidingLock", IMPL)],
     "model_checking", "explicit-state search over operation histories, and "
     "exploration of all schedules up to a preemption bound", SIM)

prop("M01", "A Composition computes its steps in order with their inserts",
     "Executing a Composition returns what calling its steps one after "
     "another would, each on the previous result: string-keyed inserts are "
     "passed as keyword arguments, integer-keyed inserts and a partial's own "
     "arguments fill those positions, the signal goes to the first open "
     "position, and inserts win over arguments baked into the step. Iterating "
     "yields every intermediate result, repeated executions agree, executions "
     "that are interleaved with or started within another do not affect it, "
     "and steps added later run last, or in place of the step they replace.",
     [I, H, C], "all compositions of up to 3 steps from a menu of plain "
     "functions and partials, with all insert sets of a menu; all histories "
     "of add_step / add_insert / execute up to depth 4; all interleavings of "
     "two iterations and an execution",
     "one test builds two pipelines", [COMP],
     [("Composition.call_step / itercall / add_step", COMP)],
     "model_checking", "explicit-state search over configuration histories "
     "against a fold over (function, arguments) terms", ENUM)

prop("M02", "Sends deliver every intermediate result to their targets",
     "On each execution every send of a step gets that step's result exactly "
     "once, in the order the sends were added and before the next step runs: "
     "passed through its pipe if it has one, appended to or placed at the "
     "given position of a list, set in a dict, written to a stream, or put "
     "into another step's inserts, where a later step of the same execution "
     "sees it. Sends never change the result of the pipeline otherwise, and "
     "captures hold the last result of their step.",
     [I, H, C], "all send configurations of a menu (pipe x target kind x "
     "pointer) on up to 3 steps, two executions each",
     "tests use one capture and one send", [COMP],
     [("Composition._perform_sends / place_into / add_capture", COMP)],
     "model_checking", "explicit-state search over configuration histories "
     "against a reference interpreter", ENUM)

prop("M03", "Failing steps stop the pipeline, are recorded, and surface",
     "If a step (or send) raises, no later step runs, the exception surfaces "
     "unchanged -- or the result is None if the Composition is optional -- "
     "and a tracked Composition records every completed step once, in order, "
     "and then the failing one with its exception (in the tracker it was given, "
     "under its own name). Interrupts are never "
     "swallowed, and the Composition can be executed again.",
     [F, H], "every step or send of every small pipeline failing with every "
     "exception kind, tracked or not, optional or not, executed repeatedly",
     "tests run one failing pipeline", [COMP, TRK],
     [("Composition.execute", COMP), ("Tracker.track", TRK)],
     "model_checking", "exhaustive fault enumeration over histories of "
     "executions", ENUM)

prop("M04", "A dumped tracker log is always a valid list of all logs",
     "After any history of tracking, setting metadata, pausing, clearing, "
     "dumping and failed dumps by one or more trackers of the same name, the "
     "log file is either absent or a valid JSON list with one entry per "
     "successful dump since it was last cleared, in order, each holding the "
     "name and the history at that time; trackers of another name or "
     "identifier do not share it. The history holds one record per call, "
     "naming who called it where, with consecutive counts and the metadata "
     "in force. A dump whose writing fails, or whose process dies, at any "
     "point leaves the file as it was or with the new log added.",
     [H, F], "all histories up to depth 4-6 of two trackers on one file; "
     "every byte and file operation at which a dump can fail or be killed",
     "one test dumps twice", [TRK],
     [("Tracker.dump / track / clear", TRK)], "model_checking",
     "explicit-state search over operation histories against a list model",
     ENUM)

prop("M05", "A Composition keeps to itself",
     "Building, changing and executing a Composition changes neither the "
     "mappings and sequences it was built from nor any other Composition built "
     "from them: each gives the results, and lists the steps, sends and "
     "inserts, that it would with arguments of its own.",
     [H], "all histories up to depth 3 of two Compositions over a menu of "
     "shared arguments", NO_TESTS, [COMP],
     [("Composition.__init__ / add_insert / add_send / add_step", COMP)],
     "model_checking", "enumeration of all operation histories of two "
     "objects against each object alone", ENUM)

prop("D01", "A Dynamic runs its source, and its life cycle is consistent",
     "A Dynamic called in any order with loading, compiling, reloading and "
     "unloading returns (or raises) what the function its source defines "
     "would, with the given globals; with optional calls the exception is "
     "recorded once in errors instead and None is returned. Loading twice "
     "without reload raises AlreadyLoadedError, calling an unloaded one that "
     "must not load itself raises UnreadyError, unloading clears errors and "
     "failure flags, and after it the object can be loaded again from its "
     "source.",
     [H, I], "all histories up to depth 4-5 over a menu of sources, for "
     "every constructor setting; from_function included",
     "one test calls one Dynamic twice", [DYN],
     [("Dynamic", DYN)], "model_checking",
     "explicit-state search over life-cycle histories against a state "
     "machine", ENUM)

prop("D02", "Optional functions swallow and report exactly the exceptions",
     "optionalize and dontcare return the function's result unchanged, or "
     "None after handing exactly the raised exception to the callback (a "
     "report with one line, name and file per traceback level) -- never for "
     "KeyboardInterrupt, which passes. The same holds for pooled calls: each "
     "call's result or exception appears under its key.",
     [F, I], "every function outcome of a menu at every call depth up to 3",
     "tests cover one TypeError", [DYN, FUN],
     [("optionalize", FUN), ("exc_report / dontcare", DYN)], "exploration",
     "exhaustive enumeration of call outcomes and depths", ENUM)

prop("D03", "digsource finds the text that defines what it is given",
     "digsource returns the source text of every function and method and of "
     "every Dynamic, at every stage of the Dynamic's life cycle (for one made "
     "from text, that text), also through any stack of partials and other "
     "objects that hold a func; for what has no source it raises rather than "
     "return something else.",
     [I], "every object of a menu in every stack of up to 3 wrappers",
     NO_TESTS, [DYN], [("digsource", DYN)], "exploration",
     "exhaustive enumeration of objects and wrappers against the known text",
     ENUM)

prop("S01", "Digging finds exactly the matching items, shallowest first",
     "For every nested mapping, digging for all keys, values or items returns "
     "exactly those at any depth (inside nested mappings of the given types "
     "only) whose key, value or item matches the reference or predicate, each "
     "occurrence once, or None if there is none. Digging for one returns a "
     "match of the least depth, the first there. The mapping is not "
     "changed.",
     [I], "all nested dicts up to 3 levels and a bounded number of entries "
     "over 2-3 keys and values, every match mode",
     "one document is dug in tests", [STRUCT],
     [("dig_for, dig_for_all, dig_wrapper", STRUCT)], "exploration",
     "exhaustive enumeration of bounded nested mappings against a flat "
     "reference traversal", ENUM)

prop("S02", "Nested editing changes exactly the matching entries",
     "dig_and_edit replaces the value of exactly those entries, at any depth, "
     "that satisfy the filter by the setter's result -- also inside newly set "
     "mappings -- and leaves keys, order and everything else alone. A "
     "NestingDict accepts any sequence of nested assignments, reads back "
     "each, and todict() gives plain dicts with the same contents at every "
     "level.",
     [I, H], "all nested dicts up to 3 levels; all assignment histories up to "
     "depth 4 over paths of length 1-3",
     "not tested", [STRUCT],
     [("dig_and_edit", STRUCT), ("NestingDict", STRUCT)], "exploration",
     "exhaustive enumeration of bounded nested mappings and assignment "
     "histories", ENUM)

prop("S03", "Flattening nested mappings keeps every value under its path",
     "to_records gives one record per innermost mapping, in order, holding "
     "its entries and the keys that lead to it under the given (or numbered) "
     "level names. unnest gives one flat mapping with exactly one entry per "
     "leaf, keyed by the keys on its path joined with underscores, so that "
     "leaves with distinct joined paths are all kept.",
     [I], "all nested dicts up to 3 levels with a bounded number of entries",
     "one document is flattened in tests", [STRUCT],
     [("to_records", STRUCT), ("unnest", STRUCT)], "exploration",
     "exhaustive enumeration of bounded nested mappings", ENUM)

prop("S04", "rmerge is a recursive right-biased union",
     "rmerge(a, b) has exactly the keys of a and b, a's first and in their "
     "order; a key in one of them has its value, a key whose values are "
     "mappings of the given types in both has their recursive merge, and any "
     "other key has b's value, at every depth. Neither argument is changed.",
     [I], "all ordered pairs of nested dicts up to 3 levels over 2 keys",
     "not tested", [STRUCT], [("rmerge", STRUCT)], "exploration",
     "exhaustive enumeration of pairs of bounded nested mappings", ENUM)

prop("S05", "Mapping and sequence helpers return exactly what they promise",
     "get_from and getitemattr follow keys, indices and attributes through "
     "any nesting and get_from returns the default as soon as one is missing; "
     "get_from_all collects one value or default per mapping; insert_after "
     "puts the new entry right after the given key and keeps all others in "
     "order; reindex_mapping and enumerate_as_mapping number values from 0 in "
     "order; listify always gives a list; separate_by splits into two "
     "complementary ordered parts. None of them changes its arguments.",
     [I], "all small collections, key paths and mappings",
     "one lookup path is tested", [STRUCT],
     [("get_from, getitemattr, insert_after, ...", STRUCT)], "exploration",
     "exhaustive enumeration of small inputs against direct definitions",
     ENUM)

prop("S06", "A HashDict returns, per key, an equivalent of the last value",
     "After any history of assignments, looking a key up in a HashDict "
     "returns an object equivalent (by its equivalence function) to the one "
     "last assigned to that key, and the very object first seen of that "
     "class; missing keys raise KeyError. Keys with equivalent values share "
     "one stored object, and it never stores more objects than classes seen.",
     [H], "all assignment histories up to depth 5-6 over 3 keys and 5 values, "
     "for several equivalences", "not tested", [STRUCT],
     [("HashDict", STRUCT)], "model_checking",
     "explicit-state search over assignment histories against two dicts",
     ENUM)

prop("S07", "A pool returns every call's result or exception under its key",
     "Whatever mix of succeeding and failing calls is mapped, with or without "
     "worker processes and chunking, and whatever was mapped before, the "
     "results hold exactly one entry per record under its key (its position "
     "if none is given): the call's return value, or its exception, and one "
     "failing call never affects another's entry. With exceptions filtered "
     "out exactly the failures are missing, and with raise_exc the first "
     "failure is raised.",
     [I, H, C, S], "all outcome patterns of up to 4 calls, x no pool / "
     "simulated pool of 1-3 workers with all completion orders, x chunking, "
     "x histories of two maps; a share on real worker processes",
     "not tested", [STRUCT],
     [("MaybePool", STRUCT), ("map_into_pool", STRUCT)], "model_checking",
     "explicit-state exploration of call outcomes, chunkings and completion "
     "orders; validated on a real pool", ENUM)

prop("F01", "Functional helpers agree with their definitions",
     "For all arguments: are_in tells whether all (or any) items are in the "
     "container, intersection and disjoint agree with set algebra and keep "
     "order, splat, gmap, argstop, pass_parameters, constant, zero, "
     "triggerize and filtern call the wrapped function exactly as described "
     "and no more often, naturals counts from 1, and catch_interaction calls "
     "the function only if interactive.",
     [I], "all small collections and argument lists",
     "single examples are tested", [FUN], [("all functions", FUN)],
     "exploration", "exhaustive enumeration of small inputs against direct "
     "definitions", ENUM)

prop("V01", "downcast keeps every value within tolerance",
     "Recasting a numeric array returns one of the same length, order and "
     "(for pandas) name in which every finite value is within both the "
     "absolute and the relative tolerance of the original, and every NaN and "
     "infinity is kept (NaN as missing in a nillable integer type); integer "
     "arrays are cast without error to the smallest integer type that holds "
     "all their values, unsigned if none is negative. The reported errors are "
     "those committed, the input is not changed, and complex, datetime and "
     "object types raise TypeError.",
     [I, C], "all arrays up to length 3 over boundary values of every integer "
     "and float type, non-finite values, every input dtype, both libraries",
     "not tested", [PIV], [("downcast", PIV)], "exploration",
     "exhaustive enumeration of arrays over boundary values", ENUM)

prop("V02", "downcast_df changes nothing but the width of numeric columns",
     "Downcasting a dataframe keeps its shape, index, column labels and "
     "order, and all non-numeric columns; every numeric column holds the same "
     "values within tolerance in its row. The original dataframe is not "
     "changed, and with copying on, changing the result later does not "
     "change it either.",
     [I, C], "all dataframes up to 3 columns from a menu of columns, x every "
     "kind of index and every setting", "not tested", [PIV],
     [("downcast_df", PIV)], "exploration",
     "exhaustive enumeration of small dataframes", ENUM)

prop("V03", "extract_constants finds exactly the constants and their values",
     "For every dataframe, the constants extracted are exactly the columns "
     "(or rows) all of whose values -- missing ones aside, unless dropna is "
     "off -- are equal, given as a mapping to that value or as the matching "
     "part of the dataframe; dropping them leaves exactly the rest, in order. "
     "Columns of lists work too, and the dataframe is not changed.",
     [I, C], "all dataframes up to 3x3 over 3 cell values incl. missing and "
     "lists, every setting", "one document is tested", [PIV],
     [("extract_constants", PIV)], "exploration",
     "exhaustive enumeration of small dataframes", ENUM)

prop("V04", "Dataframe helpers agree with row-by-row definitions",
     "split_on partitions the rows in order; check_and_drop_duplicate_columns "
     "drops exactly the repeated columns, and raises ValueError if equally "
     "named columns differ; junction applies the set operation to the key "
     "tuples; unique_to_records lists each distinct tuple once; squeeze keeps "
     "one (first, any, or aggregated) value per label; unpack and "
     "unpack_column spread listlikes into numbered columns row by row; smash, "
     "dupe_df_block, typed_columns and numeric_columns keep exactly the "
     "described data.",
     [I], "all dataframes / series up to 3 rows over small alphabets",
     "split_on and pdstr have one example each", [PIV],
     [("split_on, junction, squeeze, unpack, ...", PIV)], "exploration",
     "exhaustive enumeration of small dataframes against row-by-row "
     "definitions", ENUM)

prop("Q01", "Chunked sorting writes a sorted permutation of the input",
     "Sorting a parquet file in chunks writes exactly the rows of the input, "
     "each once, ordered by the sort column in the given direction (rows "
     "whose value is missing last), whatever the number of row groups, "
     "chunks, duplicates and value distribution. An inline processor sees "
     "every row exactly once.",
     [I, C], "all columns up to 4-5 rows over a small alphabet with nulls and "
     "extremes, x row-group sizes x chunk counts x directions",
     "not tested", [MOS], [("sort_chunked / read_between", MOS)],
     "exploration", "exhaustive enumeration of small tables, layouts and "
     "settings", ENUM)

prop("Q02", "Reading between bounds and metadata tables match the file",
     "Reading between bounds returns exactly the rows whose value is at least "
     "the lower and below the upper bound (if any), once each, in file order "
     "(nothing if no row group can hold one), restricted to the columns asked "
     "for, also if the metadata records of all columns are given; a column that "
     "the file does not have is refused. The metadata tables have one record "
     "per column and row group, and per column totals equal to the sums over "
     "its row groups; brief ones leave out statistics and offsets.",
     [I, C], "all columns up to 4 rows over a small alphabet x row-group "
     "sizes x all bounds", "not tested", [MOS],
     [("read_between", MOS), ("parquet_metadata_records, meta_record_df",
                              MOS)],
     "exploration", "exhaustive enumeration of small tables, layouts and "
     "bounds", ENUM)

prop("R01", "Scraping returns the first match, as a literal if it is one",
     "For every text and pattern, a scraped field is None without a match, "
     "else the first match's (first) group as the Python literal it denotes or else "
     "as text; scraping several patterns, from files or in bulk, gives each "
     "field what it gives alone, with supplemental results on top. Labels "
     "are cut after the first known ending within the size limit (raising "
     "ValueError if asked to when there is none), and loaders return the "
     "first bytes of the file.",
     [I], "all texts over a small alphabet of label fragments up to length "
     "5, every pattern of a menu, every size limit", "not tested", [SCR],
     [("make_scraper, scrape_patterns, trim_label", SCR)], "exploration",
     "exhaustive enumeration of short texts, patterns and limits", ENUM)

T = "dustgoggles/test_utils/core.py"
prop("T01", "Calls made in child processes come back",
     "A function wrapped by wrap_piped, called with any arguments, runs in a "
     "child process with just those arguments, and what it returns there is "
     "returned; if it raises an Exception there, that exception is returned. "
     "This holds whatever the size of the result and however parent and child "
     "are scheduled; the call always ends, and the child is gone then. "
     "Successive and simultaneous calls do not get each other's results. With "
     "block=False the process is returned.",
     [S, F], "all schedules of the calling process and its children, for a "
     "menu of functions, and pairs of them",
     "tests call functions with tiny results, under the one schedule that the "
     "operating system chooses", [T],
     [("wrap_piped", T), ("piped", T)],
     "model_checking", "stateless exploration of all schedules of simulated "
     "processes and pipes of bounded capacity",
     "all schedules; every single call is also made with real processes")
prop("T02", "Generated nested mappings are what was asked for",
     "random_nested_dict returns a plain dictionary of plain dictionaries (no "
     "NestingDicts), not deeper than maxdepth, whose keys are of the key types "
     "and whose values are of the types asked for, with at least one and at "
     "most as many values as asked for; it does so whatever is drawn at "
     "random.",
     [I], "every outcome of the random choices that are made",
     "a test sees one outcome of the random choices per run", [T],
     [("random_nested_dict", T), ("pick_key_at_level", T), ("randval", T)],
     "exploration", "exhaustive exploration of the tree of random choices",
     ENUM)



def claimed():
    have = os.listdir(os.path.join(HERE, "mc", "checks"))
    return [p for p in P if f"{p['id'].lower()}.py" in have]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"],
                statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(
                    files=p["files"],
                    state=[dict(name=n, meaning=m, where=w)
                           for n, m, w in p["state"]],
                    mechanism=[dict(name=n, where=w)
                               for n, w in p["mechanism"]],
                    observe_at=["public API results",
                                "names and contents of shared-memory blocks"]
                    if p["id"].startswith("C") else ["public API results"],
                    hook_needed=None),
            )) + "\n")
    ok = claimed()
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B -c 'import mc.core, mc.loader'",
        checks=[dict(
            property=p["id"],
            quick_cmd=f"{PY} {p['id']} --tier quick",
            thorough_cmd=f"{PY} {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"], level=p["level"],
            level_note=p["note"]) for p in ok],
        not_applicable=[dict(
            property=p["id"], reason="no check has been built yet")
            for p in P if p not in ok],
        notes="no hooks in /repo: the shared-memory system calls are "
              "substituted under CPython's SharedMemory class",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
