#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["include/pluto/"+f for f in files],
            state=[dict(name=a, meaning=b, where="include/pluto/"+c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where="include/pluto/"+b) for a,b in mech],
            observe_at=observe, hook_needed=None)))

U=["unicode.hpp"]
p("P01","Unicode conversion is exact on well-formed text",
  "For every well-formed UTF-8, UTF-16 or UTF-32 text, each of the six converters (UTF-8/16/32 to UTF-8/16/32) returns exactly the standard encoding of the same sequence of code points in the target form, with nothing lost, added or reordered, whatever neighbours a code point has and including U+0000, the non-characters and the whole U+0000..U+10FFFF range. Converting to another form and back therefore reproduces the original text.",
  ["inputs"],"every well-formed sequence of code points, at every position and length within the bound",
  "The Unicode suite needs a CSV that is not in the tree, so no test converts even one code point; 1.1 million code points times their neighbours cannot be sampled.",
  U,[("utf_8_to_utf_16 ... utf_32_to_utf_16","unicode.hpp")],["return values of the six pluto::utf_X_to_utf_Y functions"])
p("P02","Ill-formed Unicode becomes U+FFFD and never spreads",
  "For every sequence of code units, well-formed or not, each converter decodes left to right: a code unit that starts a well-formed sequence (per the Unicode standard: no overlong forms, no surrogate code points, nothing above U+10FFFF, complete within the given size) contributes that code point and consumes the whole sequence, and any other code unit contributes exactly one U+FFFD and is skipped on its own. The output is therefore always well-formed, well-formed neighbours of a broken unit survive unchanged, and no unit outside the given range is read.",
  ["inputs"],"every array of code units (all 2^8, 2^16 or 2^32 values per unit) up to the length bound",
  "Ill-formed input is the space between the samples: truncated tails, overlong forms, lone surrogates and their combinations with valid neighbours; the tests contain none.",
  U,[("decoding loops and their range checks","unicode.hpp")],["return values of the six converters","memory accesses outside [data, data+size)"])
p("P03","String-type conversions agree with the converters",
  "str, wstr, u8str, u16str and u32str applied to text of any character type return the text re-encoded in the target type exactly as the corresponding Unicode converter does (an unchanged copy for the same encoding). The pointer-and-size form and the string form of one conversion give the same result for the same units, embedded NUL units are converted like any other, and the wide-character forms behave as the UTF-32 (or, where wchar_t is 16 bits, UTF-16) forms.",
  ["inputs","configurations"],"every string content within the bound, embedded NULs included, every source/target pair, both overload forms, both wchar_t widths",
  "The overload set is a 5x5 matrix in two forms and two wchar_t widths; the tests that touch it are disabled for want of their data file.",
  ["unicode.hpp","string.hpp"],[("str/wstr/u8str/u16str/u32str overloads","unicode.hpp"),("identity overloads","string.hpp")],["return values of the conversion overloads"])
S=["string.hpp"]
p("P04","bin, oct and hex print the exact value",
  "For every value of every built-in integer type (bool and character types included), bin, oct and hex return the prefix 0b, 0o or 0x followed by the digits of the value's two's-complement bit pattern in the width of its type in base 2, 8 or 16 - most significant digit first, digits 0-9 then a-f, without leading zeros (a single 0 for zero). Reading the digits back yields the value modulo 2^bits.",
  ["inputs"],"all 2^8..2^64 values of each integer type",
  "Tests check a handful of constants; 2^64 values per type are out of reach of sampling, and digit-position mistakes show only for particular bit patterns.",
  S,[("bin","string.hpp"),("oct","string.hpp"),("hex","string.hpp")],["returned strings"])
p("P05","split and join are exact inverses",
  "split(s, sep) with a non-empty separator returns the pieces between the left-to-right non-overlapping occurrences of sep (always one more piece than occurrences, empty pieces kept), so no piece contains sep and join(split(s, sep), sep) == s; with an empty separator it returns the single elements of s. join concatenates the given pieces in order with the separator strictly between neighbours, and map_join does the same with the function applied to each element exactly once and in order.",
  ["inputs"],"every string, separator and list of pieces within the length bounds, every overload and character type",
  "Overlapping self-similar separators (aba in ababa), empty pieces and separators at the edges combine in ways the few literal examples never do.",
  S,[("split by separator","string.hpp"),("join / map_join","string.hpp")],["returned vectors and strings"])
p("P06","Whitespace and any-of splitting return maximal runs",
  "split(s) returns, in order, exactly the maximal non-empty runs of elements that the given locale does not classify as space; split_any_of(s, set) returns, in order, exactly the maximal non-empty runs of elements that are not in set. No returned piece is empty or contains a separating element, and nothing else of s is lost.",
  ["inputs","configurations"],"every string and element set within the bound, every locale classification",
  "Tests use ASCII words and the default locale; positions of runs at both ends, empty sets, all-separator strings and unusual locale classifications are not covered.",
  S,[("split by whitespace","string.hpp"),("split_any_of","string.hpp")],["returned vectors"])
p("P07","replace substitutes every occurrence exactly once",
  "replace(s, find, repl) with non-empty find substitutes every left-to-right non-overlapping occurrence of find in the original text by repl in one pass: inserted text is never searched again and everything outside the occurrences is unchanged; with an empty find it inserts repl before every element and at the end. replace_any_of(s, set, repl) substitutes each element of s that is in set by repl and leaves the others unchanged, again without re-examining inserted text.",
  ["inputs"],"every text, pattern and replacement (distinct objects) within the length bounds, including replacements that contain the pattern",
  "Replacement containing the pattern, shorter/longer replacement, adjacent and overlapping occurrences and empty arguments interact; the tests have one or two literals per overload.",
  S,[("replace","string.hpp"),("replace_any_of","string.hpp")],["the string after the call"])
p("P08","strip removes exactly the outer whitespace",
  "lstrip removes exactly the longest prefix, rstrip exactly the longest suffix and strip both, of elements that the given locale classifies as space; every other element, interior whitespace included, is kept unchanged and in order.",
  ["inputs","configurations"],"every string within the bound, every locale classification",
  "Tests use a few literals in the default locale; all-space and empty strings, one-sided cases and custom classifications are unexplored.",
  S,[("lstrip/rstrip/strip","string.hpp")],["the string after the call"])
p("P09","Comparators give consistent orderings",
  "For every locale and character type the case-insensitive element comparators (equal, not equal, less, greater, less-or-equal, greater-or-equal) compare the case-folded (upper-cased by the locale) elements and are mutually consistent: exactly one of a<b, a==b, b<a holds, <= and >= are the negations of > and <, != negates ==, equality is an equivalence relation and less is a strict weak ordering. The plain comparators and is_true/is_false return exactly what their names say for every value.",
  ["inputs","configurations"],"all triples of elements, all case mappings a locale can define",
  "Ordering laws quantify over pairs and triples; tests check a few ASCII pairs in one locale.",
  ["compare.hpp","locale.hpp"],[("is_iequal, is_iless ... function objects","compare.hpp"),("use_facet","locale.hpp")],["results of the function objects","order of std::map / sort using them"])
p("P10","lower, upper, is_lower, is_upper act per element",
  "lower and upper change every element of the text exactly as the given locale maps that element, change nothing else and keep the length; is_lower is true exactly when no element is classified as upper case by the locale and is_upper exactly when none is classified as lower case. The string, pointer-and-size and single-element forms agree, and nothing outside the text is touched.",
  ["inputs","configurations"],"every text within the bound, every case mapping and classification a locale can define",
  "Tests use one ASCII literal per overload in one locale.",
  S,[("lower/upper","string.hpp"),("is_lower/is_upper","string.hpp")],["text after the call, returned flags"])
IT=["iterator.hpp","container.hpp","string.hpp"]
p("P11","equals, starts_with, ends_with, contains are exact",
  "equals, starts_with, ends_with and contains are true exactly when the right sequence equals the left one, is its prefix, its suffix, or occurs in it as a contiguous subsequence (the empty sequence always being a prefix, suffix and subsequence), for every iterator category, container and string overload, and the i-versions likewise after the locale's case folding. A given predicate is always called with an element of the left sequence first and one of the right second, and no element outside either sequence is read.",
  ["inputs","configurations"],"all pairs of sequences within the bound, all predicates (also asymmetric), random-access and non-random-access iterators, each language standard",
  "Lengths off by one, right longer than left, partial repeated matches and asymmetric predicates are not in the example-based tests, and only the C++20 branch is compiled by them.",
  IT,[("equals/starts_with/ends_with/contains","iterator.hpp"),("string overloads and i-versions","string.hpp")],["returned flags","arguments the predicate receives"])
p("P12","find and rfind return the first and last match",
  "find, find_elem, find_if, find_if_not and find_sequence return the position of the first match and rfind, rfind_elem, rfind_if, rfind_if_not and rfind_sequence that of the last one, or the end position when nothing matches, for iterator ranges, containers, strings and the case-insensitive versions; an empty sequence is found at the begin by find and at the end by rfind.",
  ["inputs","configurations"],"all sequences, needles and predicates within the bound, every iterator category",
  "First/last differ only on repeated or overlapping matches and at the edges; the tests have a few fixed sequences.",
  IT,[("find*/rfind*","iterator.hpp"),("ifind/irfind","string.hpp")],["returned iterators"])
p("P13","slice follows Python semantics for every index",
  "slice(c, start, stop) returns exactly the elements c[i] with start <= i < stop after adding the size to a negative bound and clamping both to the sequence, in order, for every container and every pair of 64-bit indices, extreme values included; slice(c, stop) equals slice(c, 0, stop). It never fails, reads nothing outside the container and leaves the source unchanged.",
  ["inputs"],"all 2^128 index pairs, all contents and sizes within the bound, random-access and list containers",
  "Index clamping must be right for all pairs of signed 64-bit values; tests use a few small ones.",
  ["container.hpp"],[("slice","container.hpp")],["returned container"])
p("P14","Reductions give the exact fold",
  "any, all, count, count_if, sum, min, max (container and two-value forms, with or without predicate) and abs return the value their definition gives for every content: any/all are the disjunction/conjunction (false/true on empty), counts equal the number of matching elements, sum is the initial value plus all elements in order, min/max return a reference to the first least/greatest element under the ordering used, and predicates are called with (candidate, current) in the order that makes ties keep the first.",
  ["inputs"],"every content within the bound, every predicate",
  "Ties, empty containers and reference identity are not checked by value-based examples.",
  ["container.hpp","value.hpp"],[("any/all/count/count_if/sum/min/max","container.hpp"),("abs/min/max","value.hpp")],["returned values and references"])
p("P15","sort, reverse, filter, map, for_each transform exactly",
  "sort orders the range by the predicate and only permutes it, reverse reverses it, filter keeps exactly the elements satisfying the predicate in their original order and removes the rest, map appends function(element) for each source element in order to the destination and leaves its existing content, and for_each visits every element once in order.",
  ["inputs"],"every content, size and predicate within the bound (sizes past the library's insertion-sort threshold included)",
  "Permutation and stability claims quantify over all contents; tests use one example each.",
  ["iterator.hpp","container.hpp"],[("sort/reverse/filter/map/for_each","container.hpp")],["container after the call"])
p("P16","Range comparison and overlap obey their laws",
  "For all ranges with begin <= end, equality is equality of both ends, the ordering operators form one consistent total order (begin first, then end), overlap is symmetric, ranges with one begin overlap, and size is end minus begin. For non-empty ranges (begin < end) two ranges overlap exactly when they share an element, a precedes b without overlap exactly when a lies entirely before b, and exactly one of 'a before b', 'b before a', 'overlap' holds.",
  ["inputs"],"all pairs and triples of ranges over every supported value type",
  "Order laws quantify over triples of 64-bit pairs; adjacency, emptiness and extreme values are unsampled.",
  ["range.hpp"],[("range operators","range.hpp")],["results of the operators"])
p("P17","Stopwatch time is the sum of its running intervals",
  "For every sequence of start, stop, restart, reset and stop_and_time and every behaviour of the clock, time() equals the sum of (stop instant - start instant) over the completed running intervals since the last reset or restart plus, while running, now minus the current start; starting a running or stopping a stopped watch changes nothing, and is_running reflects the last effective operation.",
  ["histories","inputs"],"all operation sequences within the bound, all clock readings",
  "Tests sleep in real time and check rough magnitudes; the exact accounting over histories and clock values is unobservable to them.",
  ["stopwatch.hpp"],[("stopwatch::start/stop/restart/reset/time","stopwatch.hpp")],["time(), is_running(), stop_and_time()"],
  [("m_time","accumulated duration","stopwatch.hpp"),("m_start","start of current interval","stopwatch.hpp")])
p("P18","Stopwatch units and parts are exact",
  "For every elapsed duration d >= 0, in_nanoseconds ... in_hours return d truncated to that unit, and the parts recompose it exactly: hours_part*3600e9 + minutes_part*60e9 + seconds_part*1e9 + milliseconds_part*1e6 + microseconds_part*1e3 + nanoseconds_part == d in nanoseconds, with every part but hours below its unit's rollover (60, 60, 1000, 1000, 1000). count<D>(r) equals count<D>() modulo r.",
  ["inputs"],"all non-negative 64-bit nanosecond durations",
  "A wrong rollover or unit is visible only for durations of minutes to hours, which real-time tests cannot wait for.",
  ["stopwatch.hpp"],[("count<Duration>(rollover), *_part","stopwatch.hpp")],["returned counts"])
p("P19","LRU cache behaves as the LRU reference model",
  "For every sequence of operations, the cache agrees with a list of (key, value) ordered by use: insert adds a missing key as most recently used (evicting the least recently used entry if full) and returns true, or returns false and changes nothing, not even recency, for a present key; insert_or_assign additionally overwrites and refreshes a present key, returning false; get returns the value and refreshes, remove deletes exactly that key, contains/size/empty/capacity never change anything, clear empties, and capacity(n) evicts least recently used entries until n remain. The size never exceeds the capacity; with capacity 0 nothing is stored while insertion still returns true. A copied or moved-to cache is a cache of its own with the same entries, order and capacity.",
  ["histories","inputs"],"all operation histories within the bound over all keys, values and capacities",
  "Recency bugs need a particular history (touch, shrink, re-insert) before an eviction reveals them; tests run a few fixed histories.",
  ["lru_cache.hpp"],[("insert/get/remove/capacity/move_to_front/evict_lru","lru_cache.hpp")],["return values, later hits and misses"],
  [("m_list","keys from most to least recently used","lru_cache.hpp"),("m_map","key to value and list position","lru_cache.hpp")])
p("P20","The safe LRU cache is atomic under concurrency",
  "When several threads use one safe cache, every operation takes effect atomically: the results of all concurrent calls and the final content equal those of the plain LRU cache executing the same calls in some order consistent with each thread's own order. No schedule produces a data race, corruption, deadlock, or a self-deadlock in a single call.",
  ["schedules","histories"],"all interleavings of a bounded number of threads and operations",
  "Tests call it from one thread; a missing lock shows only under particular interleavings.",
  ["safe_lru_cache.hpp","lru_cache.hpp"],[("mutex around every operation","safe_lru_cache.hpp")],["return values per thread, final content"])
p("P21","Scope guards run their tasks exactly when due",
  "A scope-exit guard runs each of its tasks exactly once, in reverse order of adding, when it is destroyed; a success guard runs them exactly if its scope is left without an exception and a failure guard exactly if it is left by an exception, also when the guard itself lives in code that runs during another exception's unwinding (where the language standard lets a guard tell, C++17 and later). A task that throws or is empty neither stops the remaining tasks nor lets an exception escape, and a task added by a running task is still run exactly once. When copying a task throws while it is being added, the caller gets the exception, that task is not run and the others are; leaving a scope copies no task.",
  ["histories","fault_sequences"],"every number and order of tasks within the bound, every subset of tasks that throws, normal and exceptional exits, nesting inside unwinding",
  "Tests exercise single tasks and one exception; combinations of throwing tasks and nested unwinding are not reached.",
  ["scope.hpp"],[("destructors of on_scope_exit/success/fail","scope.hpp")],["order and number of task executions"])
TP=["thread_pool.hpp"]
p("P22","Thread pool runs each task exactly once, or drops by policy",
  "Every task handed to the pool is executed exactly once by a pool worker under every schedule, and never more than once. On destruction each task that already started is completed first; with complete_tasks all still-waiting tasks are executed too (if there are workers), with join_all the waiting ones are not started once the pool sees the stop, and after the destructor returns no task runs any more.",
  ["schedules","histories"],"all interleavings of a bounded number of clients, workers and tasks, both stop policies",
  "Stress tests sample a few schedules of one machine; lost wake-ups and double execution live in rare interleavings.",
  TP,[("run_async, start_working, destructor","thread_pool.hpp")],["execution counters of tasks at quiescence"],
  [("m_waitingTasks","tasks not yet started","thread_pool.hpp"),("m_isStopping","destructor entered","thread_pool.hpp")])
p("P23","Thread pool honours priority, then submission order",
  "Whenever a worker takes a task it takes one of the highest priority among those waiting (all 256 priority values and the named levels), and among equal priorities the earliest submitted. At every quiescent moment the reported sizes agree with reality: tasks = active + waiting, workers = active + waiting, and the active count never exceeds the number of workers or the number of started, unfinished tasks.",
  ["schedules","inputs"],"all assignments of priorities to a bounded number of tasks, all interleavings",
  "Tests check a few named priorities in one order on one worker.",
  TP,[("waiting_task_map ordered by is_greater","thread_pool.hpp")],["execution order, size accessors"])
p("P24","Thread pool waits and run_sync always return, on time",
  "wait_until_all_tasks_complete returns only when no task is waiting or active and always returns once that is so; wait_until_no_tasks_waiting likewise for waiting tasks; run_sync returns after its task has run and not before. This stays true when target_workers_size is changed concurrently, after which the number of workers converges to the last target as workers become free, running tasks not being interrupted and waiting tasks not lost.",
  ["schedules","histories"],"all interleavings of submissions, waits and resizes within the bound",
  "A missing notification blocks only if the last event happens in one specific place; tests that hang once in a million runs look green.",
  TP,[("wait_until_*, target_workers_size, run_sync","thread_pool.hpp")],["returning of the waits, workers_size"])
p("P25","Scheduled tasks run once, never early, in time order",
  "A task given to run_at or run_after is never started before its time on the pool's clock and, if the pool lives on and has a worker, is started exactly once after it, whatever other tasks are scheduled before or after, concurrently or earlier in time; due tasks enter the queue in the order of their times. Concurrent scheduling calls are safe, and destroying the pool with tasks pending neither runs them nor blocks.",
  ["schedules","histories"],"all interleavings of schedulers, clock advances and a bounded number of scheduled tasks with arbitrary times",
  "Real-time tests wait tens of milliseconds in one order; races between a schedule call and the scheduler's exit or sleep are not reachable by them.",
  TP,[("run_at, start_scheduling","thread_pool.hpp")],["virtual time and count of executions"])
L=["logger.hpp"]
p("P26","Every accepted log line is written exactly once, in order",
  "Every message logged at an enabled level while the logger is alive and its file's buffer has room appears in its own log file exactly once, complete and on its own line, messages of one thread to one file in that thread's order; messages below the current level produce nothing. A file whose buffer has reached the flush size is written without any further call, everything else at the latest by the destructor, which always returns; a file that cannot be opened for a while before the destructor runs loses and duplicates nothing. Missing directories of a file are created when it is written with create_dirs on and never with it off. This holds under every interleaving of logging threads, setters and the background writer.",
  ["schedules","histories","fault_sequences"],"all interleavings of a bounded number of logging threads with the writer thread, all level and flush-size settings, failing opens",
  "Tests log from one thread and read the file back; a lost line or a shutdown hang needs one particular interleaving.",
  L,[("write, add_log_to_buffer, start_logging, destructor","logger.hpp")],["bytes of the log files"],
  [("log_file::buffer","lines not yet written","logger.hpp")])
p("P27","The log buffer is bounded and losses are accounted",
  "With a maximum buffer size n > 0 a file never has more than n lines buffered: a message that finds its file's buffer full is dropped and increases the discard counter by exactly one, any other is kept, so for every history and schedule written lines plus discarded equals logged. With maximum 0 nothing is ever discarded; resetting the counter affects nothing else, and other files' buffers do not matter.",
  ["schedules","configurations"],"all buffer sizes within the bound, several files, all interleavings of loggers and writer",
  "Overflow happens in tests only by luck of timing.",
  L,[("buffer max size handling in add_log_to_buffer","logger.hpp")],["number of lines written vs logged, num_discarded_logs()"])
p("P28","Log rotation keeps every line within the configured files",
  "With a rotation size s > 0 and rotation limit n, a record is never appended to a file that has already reached s bytes: the file first becomes name_1, each name_i becomes name_(i+1), and only what would get an index above n is deleted, so there are never more than n+1 files numbered without a gap from the current one. Every line not in a deleted file is present exactly once, reading the files from the highest index down to the current one gives the lines in logging order, each new file starts with the header when headers are on, and with s = 0 nothing is ever rotated.",
  ["histories","inputs"],"all sequences of message lengths within the bound, all rotation sizes and limits, pre-existing files",
  "Tests rotate a couple of times with fixed sizes.",
  L,[("write_buffer_to_file, rotate_file","logger.hpp")],["names and contents of the files"])
p("P29","A log record carries exactly the given data",
  "The record handed to the log writer carries exactly what the caller supplied for every interface (write, printf-style writef, stream, format): the message text whatever its length and content, the empty message included, the level, the source information, the calling thread and a time between call and return. If the formatter reports failure the scheme itself is logged instead; formatting never drops the record, truncates it or reads or writes outside its buffers. Level names, titles, short forms and characters map each level to its own documented name.",
  ["inputs"],"all message contents and lengths within the bound, all levels, all results the formatter can return",
  "Tests log short ASCII constants; empty results, long messages and formatter failures are not exercised.",
  L,[("write/writef/stream/format","logger.hpp"),("log_level_to_*","logger.hpp")],["log_entry received by the log writer"])
p("P30","file_name returns the part after the last separator",
  "file_name returns a pointer into the given path to exactly the part after its last separator (slash or backslash) - the whole path if there is none, the empty string if a separator is last - for every content and length, and reads nothing past the terminator.",
  ["inputs"],"every path within the length bound",
  "Tests use a few literals.",
  ["platform.hpp"],[("file_name","platform.hpp")],["returned string"])
p("P31","str and str_to convert values and text faithfully",
  "str(v) and wstr(v) are the canonical decimal text of every integer, 0 or 1 for a bool, the character itself for a character and the given text for a text or character array, and str_to/wstr_to give the value back; for any other text they skip leading blanks and convert the longest number at the start, give the nearest limit of the type when it is out of range, and a value-initialised result when the text does not start with a value, whatever its length; for strings they give the first blank-separated word, for user types what their stream operators do.",
  ["inputs"],"all values of all integer types, every text within the length bound",
  "Tests convert a few constants.",
  S,[("str(value), str_to","string.hpp")],["returned strings and values"])
p("P32","Local and UTC time conversion is exact and thread-safe",
  "local_time(t) and gm_time(t) give exactly the calendar fields of t in the local zone and in UTC - date, time of day, day of the week and of the year, daylight-saving flag and offset, in the conventions of std::tm - for every representable time, whatever the zone's rules; the result depends on t alone, not on earlier calls, and calls from several threads neither race nor disturb each other.",
  ["inputs","schedules"],"all times whose year fits std::tm, arbitrary zone offsets, all interleavings of two threads",
  "Tests only look at two fields of one time; a shared buffer shows only in particular interleavings.",
  ["platform.hpp"],[("local_time","platform.hpp"),("gm_time","platform.hpp")],["tm fields"])
p("P33","pow and round are the library's, for every type",
  "pow returns what the standard library's power function of its own floating-point type (float, double, long double) returns for the arguments unchanged; for integral arguments it is the double function of both values converted to double. round returns the nearest whole number with halves away from zero, in the argument's own floating-point type (double for integral arguments), for every value including signed zeros, infinities and NaN. abs, min, max and copy keep their definitions on floating-point values.",
  ["inputs"],"all values of every floating-point and integral type","Tests check a few small values, where shortcuts (adding one half, narrowing to float, going through an integer) give the same answer.",
  ["value.hpp"],[("pow/round/abs/min/max/copy","value.hpp")],["returned values"])
p("P34","The default log line shows the record in the documented columns",
  "Without a custom writer, a line shows exactly the record's local date and time with six digits of microseconds, the thread number right-aligned in 7 places, the level's title in 8, the file name without its directories in 20, the line number right-aligned in 5, the function in 20 (names that are longer are cut), and the message unchanged, separated by bars as in the documented sample, under the documented header; numbers and messages that are wider than their column are shown in full. With source information hidden the three source columns are left out of lines and header. Each line depends on its record alone.",
  ["inputs","configurations"],"all values of each field of the record within the bound, both source-information settings",
  "Tests print a handful of lines, with short names and whatever time it is.",
  L,[("default_log_writer, default_header_writer","logger.hpp"),("file_name, local_time","platform.hpp")],["bytes written to the log stream"])
p("P35","process_id and thread_id identify the caller",
  "process_id() is the id the operating system gives the calling process and thread_id() the one it gives the calling thread, at the time of the call and in full: different running threads get different thread ids, all threads of a process the same process id, and after a fork the child and the thread that goes on in it get their own. Calls from several threads do not race.",
  ["inputs","histories","schedules"],"all ids, histories of calls and forks within the bound, all interleavings of up to three threads",
  "Tests only check that the ids are positive, in one thread of one process.",
  ["platform.hpp"],[("process_id","platform.hpp"),("thread_id","platform.hpp")],["returned ids"])
p("P36","The locale accessors give the locales they are named for",
  "c_locale() is the classic locale, system_locale() the one the environment asks for, default_locale() the one of PLUTO_LOCALE_DEFAULT_LOCALE, whatever the global locale is; a locale that is not installed is reported with std::locale's exception, and the next call tries again. Normally the first successful use fixes the locale: every later call, from any thread, returns the same object; with PLUTO_LOCALE_NO_STATIC each call looks the locale up anew. use_facet gives the locale's own facet.",
  ["configurations","histories","schedules"],"all environments and their changes within the bound, both settings, all interleavings of the first use",
  "Tests only call each accessor once in one environment.",
  ["locale.hpp"],[("c_locale/system_locale/default_locale","locale.hpp"),("use_facet","locale.hpp")],["returned locale, its address, exceptions"])
p("P37","Logger settings hold what was set and take effect",
  "Every setting of a logger - level, creating directories, writing headers, buffer maximum and flush size, rotation size and limit, log writer, header writer - starts as its PLUTO_LOGGER_INITIAL macro says and always reads back the value set last; setting one changes no other one and no other logger, whichever threads set and read them at the same time. A line is written by the log writer in use when it is written, so every line logged after a writer was set goes through it (or a later one), and a new file starts with the header of the header writer in use then if headers are on.",
  ["histories","schedules","configurations"],"all setter histories within the bound with arbitrary values, all interleavings of two threads, three initial configurations",
  "Tests set each setting once, in one thread, on one logger, with the default configuration.",
  L,[("setters and getters, write_buffer_to_file","logger.hpp")],["values read back, bytes written"])
p("P38","A failing copy leaves the caches consistent",
  "When copying a key or value throws (or memory runs out) inside any operation of lru_cache or safe_lru_cache, the exception reaches the caller and the cache stays usable and consistent: the operation has not happened - entries, values, order of use and capacity are as before, except that an insertion into a full cache may already have evicted the least recently used entry - and every later operation behaves as the LRU reference model says; a safe cache is not left locked. A copy or assignment that fails leaves both caches as they were.",
  ["fault_sequences","histories"],"every position of the failing copy in every operation, on all small caches, with later operations",
  "Tests use keys and values that never throw.",
  ["lru_cache.hpp","safe_lru_cache.hpp"],[("insert/get/move_to_front","lru_cache.hpp"),("copy and assignment","lru_cache.hpp"),("locking","safe_lru_cache.hpp")],["exceptions, return values, later hits and misses"])
p("P39","A failing call leaves the thread pool usable",
  "When a thread cannot be started, or copying a task throws, inside any operation of thread_pool, the failure is reported to the caller as that exception and ends nothing else. A pool whose creation fails leaves no thread behind and a new one can be created; a resize that fails leaves the workers that were or could be started at work, and a later resize reaches its target; a run_async, run_sync, run_at or run_after that fails has not taken its task - it is never executed, not counted and not left scheduled, so that making the same call again executes it once - while every accepted task is still executed exactly once, as are later ones, whichever pool thread handles it, and the destructor returns.",
  ["fault_sequences","schedules"],"every position of the failing thread start or task copy in every operation, under every schedule of small pools",
  "Tests never make a thread start or a copy fail.",
  ["thread_pool.hpp"],[("constructor, target_workers_size","thread_pool.hpp"),("run_async/run_sync/run_at/run_after","thread_pool.hpp"),("start_scheduling/start_working","thread_pool.hpp")],["exceptions, executed tasks, counts"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
