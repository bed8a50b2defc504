# The property table: source of properties.jsonl and MANIFEST.json (tools/gen.py).
ABS = ("Sound for the analysed instantiation under the stated assumptions: abstract interpretation of the real template code over all inputs "
       "with opaque elements; a report needs a join-free abstract path that fails. Trusts clang's front end and the preparation passes, the "
       "interpreter in /verif/engine and its library contracts.")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, level="proof", note=ABS, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, state=state or [], observe=observe or [], na=None))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=reason,
                  state=[], observe=[]))


I = "include/utl/"
prop("A01", "sorted_diff reports exactly the difference of two sorted ranges",
     "For two ranges sorted by the comparator, sorted_diff walks both in order and accounts for every element exactly once: a first-range element smaller than everything left in the second is reported as deleted, a second-range element smaller than everything left in the first as added, and elements with equivalent keys are paired and reported as changed exactly when the deep-equality callback says they differ. "
     "Only elements inside the ranges are touched, the caller's comparator and equality are the ones used, and the iterator and container overloads agree.",
     ["inputs"], "all pairs of sorted ranges of any length, all comparators that are strict weak orders, all deep-equality outcomes",
     "One test runs a single pair of fixed vectors; run lengths, tails on either side and equal keys with unequal payloads are unbounded.",
     [I + "sorted_diff.h"], [("merge loop", I + "sorted_diff.h:25")],
     "abstract interpretation of the merge loop with a trace automaton over callbacks")
prop("A02", "Joins emit every key group exactly once, matched or one-sided",
     "For sorted inputs, inner_join, left_join and full_join partition both ranges into maximal groups of equivalent keys, visit the groups in ascending key order, call the match callback with exactly the two groups whose keys are equivalent and the left/right callback with exactly the groups present on one side only (inner_join: matches only, left_join: matches and left groups). "
     "No element is lost, repeated or reported in a group it does not belong to, no position outside the ranges is dereferenced, and a comparator that was passed is the one used.",
     ["inputs"], "all pairs of sorted ranges (lengths and duplicate runs unbounded), all strict weak orders, all 12 overloads",
     "The tests join a handful of fixed lists; duplicate runs at the ends of either side and interleavings of one-sided groups are not enumerable.",
     [I + "join.h"], [("join_impl", I + "join.h:11"), ("overloads", I + "join.h:63")],
     "abstract interpretation with a group-partition automaton over the join callbacks")
prop("A03", "equal_ranges callbacks partition the sequence into maximal runs",
     "equal_ranges_linear calls its function with consecutive, non-empty runs that together cover the whole sequence in order, each run consisting of elements equal to its first element and ending only where the next element differs from it; equal_ranges does the same for the sorted permutation of the container under the ordering in use. "
     "The equality or comparator passed by the caller is the one that decides, and nothing outside the sequence is touched.",
     ["inputs"], "all sequences of any length; any reflexive symmetric equality (linear), any strict weak order (sorted)",
     "Tests cover one or two fixed vectors; the single-run, all-distinct, trailing-run and empty cases for every overload are unbounded.",
     [I + "equal_ranges.h", I + "equal_ranges_linear.h"], [("run loop", I + "equal_ranges_linear.h:12"), ("sort and walk", I + "equal_ranges.h:10")],
     "abstract interpretation with a run-partition automaton; std::sort by contract")
prop("A04", "nwise and pairwise yield every window of adjacent elements in order",
     "Iterating nwise<N>(c) or pairwise(c) yields, in order, the windows of N consecutive elements of c, max(0, size-N+1) of them, each tuple component referring to the element of the container itself; size() of the view is that number and equality comparison of view iterators agrees with inequality. "
     "A container shorter than N yields no window and is never read out of bounds, and a temporary container lives inside the view.",
     ["inputs"], "all container lengths, window widths 1 to 4, lvalue/const/temporary containers",
     "The tests iterate one short vector; containers shorter than the window and lifetime of temporaries are not exercised.",
     [I + "nwise.h", I + "pairwise.h"], [("window iterator", I + "nwise.h:15"), ("owning view", I + "nwise.h:83")],
     "abstract interpretation of the iteration with a window automaton and use-after-scope tracking")
prop("A07", "power_set_intersection reports every equal pair exactly once",
     "For sorted inputs, power_set_intersection calls its function exactly once for every pair of one element from each range with equivalent keys, first-range element first, and for no other pair, including when both sides contain runs of duplicates. "
     "Elements outside the ranges are never touched and a comparator that was passed is the one used.",
     ["inputs"], "all pairs of sorted ranges with duplicate runs of any length on both sides",
     "The test has two fixed vectors; the cross product over duplicate runs at either end is unbounded.",
     [I + "power_set_intersection.h"], [("for_each_equal", I + "power_set_intersection.h:9"), ("walk", I + "power_set_intersection.h:20")],
     "abstract interpretation with a covered-pairs invariant over both cursors")
prop("A05", "zip walks all containers in lockstep and rejects different sizes",
     "Iterating zip/czip (and the unchecked variants, for equal sizes) yields as k-th tuple references to the k-th elements of all containers, for every k below the common size; size(), operator[], decrementing and comparing iterators agree with that, czip and const views give read-only access, and temporaries live inside the view. "
     "The size-checked variants throw before producing any tuple exactly when the container sizes are not all equal.",
     ["inputs"], "all container sizes (equal or not), two and three containers, lvalue/const/temporary containers",
     "Tests zip short literals of equal size; size mismatches in any position and lifetime of temporaries are not enumerable.",
     [I + "zip.h"], [("check_dimensions", I + "zip.h:205"), ("zip_iterator", I + "zip.h:45"), ("zip_range", I + "zip.h:143")],
     "abstract interpretation with a lockstep automaton; type-level obligations for constness")
prop("A06", "enumerate keeps index and element in step",
     "Iterating enumerate(c) yields (0, c[0]), (1, c[1]), ... for every element of c by reference; advancing, retreating and jumping an iterator keeps index and element in step, the distance between two iterators is the number of positions between them, and a temporary container lives inside the view.",
     ["inputs"], "all container lengths and positions, lvalue/const/temporary containers, containers of pointers",
     "Tests walk one short vector forwards; jumps, distances and lifetimes are not exercised.",
     [I + "enumerate.h"], [("iterator", I + "enumerate.h:15"), ("iterable_wrapper", I + "enumerate.h:96")],
     "abstract interpretation with a position automaton and use-after-scope tracking; type-level obligations")
prop("A12", "is_uniform is true exactly when all elements are equal",
     "is_uniform returns true if every element equals the first (compared directly or through the passed function) and false if two elements differ; the empty and one-element sequences are uniform. "
     "No element is modified and nothing outside the sequence is touched.",
     ["inputs"], "all sequences of any length, all equality outcomes, iterator and container overloads",
     "The test has two three-element vectors.",
     [I + "is_uniform.h"], [("is_uniform", I + "is_uniform.h:9")],
     "abstract interpretation with a result automaton (witness obligations on true and false)")
prop("A14", "for_each_set_bit visits exactly the set bits in ascending order",
     "for_each_set_bit calls its function once for every set bit of an unsigned value, in ascending order and for no other bit, for every unsigned width including the highest bit; has_bit_set tests exactly the given bit. No shift leaves the width of the type.",
     ["inputs"], "all values of the 8, 16, 32 and 64 bit unsigned types",
     "No test exists; 2^64 values cannot be sampled.",
     [I + "for_each_bit_set.h"], [("for_each_set_bit", I + "for_each_bit_set.h:11")],
     "abstract interpretation over a symbolic bit domain with one loop state per bit")
CONC = ("Thread-modular and sound for any number of threads and every interleaving under the stated assumptions (sequentially consistent atomics, as the code uses them). "
        "The standard library's vector and function are replaced by transparent equivalents in the analysed module; mutex, condition variable and thread primitives are contracts. A report needs a join-free abstract path (or an access pair without a common lock).")
prop("T01", "thread_pool runs every job exactly once and execute waits for all of them",
     "execute(n, fn) runs fn exactly once for every index in [0, n) on the pool's worker threads, with the function passed to this call, and returns only after all n calls have returned; it never sleeps forever, for any number of earlier executes and any number of hardware threads (also when that number is unknown). "
     "Each worker runs the initializer once before its first job and the finalizer once at its end; the destructor stops and joins all workers. A worker is only counted as active while it works on posted jobs, so a later execute is not refused, and all shared state is accessed without data races.",
     ["inputs", "schedules", "histories"], "all interleavings of any number of workers with one caller, all job counts, all sequences of executes followed by destruction",
     "No test exists; lost wake-ups, early returns and stale functions depend on the schedule.",
     [I + "thread_pool.h"], [("worker loop", I + "thread_pool.h:26"), ("execute", I + "thread_pool.h:72"), ("destructor", I + "thread_pool.h:58")],
     "thread-modular abstract interpretation with a monitor automaton, inferred lock guards and a lockset race rule", note=CONC)
prop("T02", "parallel_for runs every job once, joins all threads and reports failures",
     "parallel_for, parallel_for_run and parallel_for_run_threadlocal call the job function at most once per index and, if no job fails or the strategy is CONTINUE_EXEC, exactly once for every index, for any job count and number of threads (also when hardware_concurrency is 0); the container overloads pass the element at that index and the thread-local overload passes an object owned by the calling thread. "
     "The progress function is called once after each successful job, and exceptions of the job or progress function never escape a thread: under CONTINUE_EXEC all failures are returned and no job is left out, under QUIT_EXEC workers stop taking jobs once a failure has been flagged and a recorded failure is rethrown. All threads are joined before the call returns or throws, and shared state is accessed without data races.",
     ["inputs", "schedules"], "all interleavings of any number of threads, all job counts, all patterns of failing jobs, both strategies",
     "No test exists; double or lost jobs, races on the failure list and unjoined threads depend on the schedule.",
     [I + "parallel_for.h"], [("parallel_for_run_threadlocal", I + "parallel_for.h:27"), ("parallel_for_run", I + "parallel_for.h:71")],
     "thread-modular abstract interpretation with a job automaton and a lockset race rule", note=CONC)
prop("T03", "Progress trackers publish the right progress and notify every change",
     "After update, increment and the update functions the count has its new value (increments are never lost, a monotonic update never lowers it), and the published progress is out_low + the scaled count rounded to multiples of out_mod, limited to [out_low, out_high] (out_high if in_high is zero), of a count at least as new as the call's. "
     "The setters set exactly what they are given, refuse inverted bounds and steps that are not positive, and restart count and progress iff a bound changes; the callback runs exactly once per call that changes something, never otherwise and never with the tracker locked, and the bounds and the status are only touched under the tracker's lock. "
     "The registry keeps one tracker per name, activation and clearing have their effect, and everything in it is only touched under its lock.",
     ["inputs", "schedules"], "all counts, bounds, steps and earlier states of a tracker, all interleavings with other threads' calls",
     "The tests run one thread and a few round numbers; lost increments, stale progress published last, callbacks under the lock and unlocked reads of the bounds depend on the schedule.",
     ["src/progress_tracker.cc", I + "progress_tracker.h"], [("update_out", "src/progress_tracker.cc:121"), ("tracker_update", "src/progress_tracker.cc:14"), ("registry", "src/progress_tracker.cc:145")],
     "lockset over the members, critical sections with the progress as a rational function, callback automaton",
     note="Abstract interpretation over sums; a critical section starts from any state the invariant allows. Floats as exact reals, strict comparisons as steps of one; std::map, shared_ptr, streams and the callback by contract; clang 18 -O0 IR as reference semantics.")
prop("R02", "A generator hands out every value once and destroys its coroutine once",
     "A generator hands out the values its coroutine yields in order, each exactly once, no matter how often its end test is asked in between and whether the values are taken one by one, without the end test or by to_vec; the end test is false exactly when the coroutine has ended, and an exception of the coroutine reaches the caller at the call that ran into it. "
     "The coroutine never runs ahead of the value asked for, is never resumed after its end, and is destroyed exactly once, also if the generator is moved, assigned over, abandoned half-way or left by an exception; generators cannot be copied. "
     "Yielding an lvalue leaves the coroutine's own variable intact, and values that can only be moved work everywhere.",
     ["programs", "histories"], "all coroutines (any number of values, an end or an exception anywhere) and all orders of end tests, value calls, moves and abandonment",
     "No test exists; repeated end tests, exceptions, moves and early abandonment are not sampled.",
     [I + "generator.h"], [("fill", I + "generator.h:75"), ("operator bool", I + "generator.h:52"), ("yield_value", I + "generator.h:20")],
     "typestate of the coroutine handle with the value in flight; type-level obligations and compile witnesses",
     note="Abstract interpretation, coroutine intrinsics by contract. The bool test or exception precedes operator() at the end; the coroutine does not resume itself; values are integers or move-tracked boxes.")
prop("M03", "verify and match: the condition and the dynamic type decide",
     "verify, verify_silent, verify_ex and utl_verify return normally iff the condition holds and otherwise throw: std::runtime_error with the text formatted with all arguments in order, or (verify_ex) exactly the exception given, in its own type; utl_verify evaluates its condition once, as a whole, and the message arguments only on failure. "
     "match runs exactly one function, the first whose parameter type the object has, with the object cast to that type, returns its result and lets its exceptions through; if there is none it throws std::runtime_error and runs nothing. "
     "overloaded calls the function for the argument's type and nothing for arguments of other types.",
     ["inputs", "programs"], "all conditions, arguments and dynamic types, any list of functions (checked for up to three)",
     "The tests call a few matching handlers; the order of overlapping types, lvalue functions, macro expressions and exception types are not sampled.",
     [I + "verify.h", I + "match.h", I + "overloaded.h"], [("utl_verify", I + "verify.h:20"), ("match", I + "match.h:10"), ("overloaded", I + "overloaded.h:22")],
     "dispatch automaton over dynamic_cast answers; condition, message and exception of every verify form",
     note="Abstract interpretation. dynamic_cast and fmt by contract (formatting a fitting text does not throw); clang 18 -O0 IR as reference semantics.")
TXT = ABS.replace("with opaque elements", "(text of any length and content, one symbolic byte sequence with scanner automata)")
prop("M04", "iterator_facade adds exactly the operators the primitives allow, all agreeing",
     "For an iterator built on iterator_facade or iterator_wrapper_facade every operator, at every position and for every offset of any integer type, does what its primitives say: steps, jumps, distances, indexing, comparisons in both directions and sentinel comparisons on both sides agree with the position, -> and * designate the element. "
     "Operators, category and member types exist exactly as documented for the primitives given (single-pass, forward, bidirectional, random access, sentinel), and every documented combination is accepted. advance() is asked for single steps only unless there is random access, and not at all where increment() or decrement() exists.",
     ["inputs", "programs"], "all positions and offsets; iterators with each documented set of primitives, wrappers around random access and bidirectional iterators",
     "No test uses the header.",
     [I + "iterator_facade.h"], [("operator-", I + "iterator_facade.h:260"), ("operator==", I + "iterator_facade.h:362"), ("iterator_category", I + "iterator_facade.h:512")],
     "symbolic positions through every added operator; type-level obligations and compile witnesses (clang and gcc)",
     note="Abstract interpretation and type checking. Positions within 2^40 (2^29 for int distances), so that offsets do not overflow; primitives do not throw.")
prop("M05", "Names and compile-time texts come out exactly as written",
     "as_string and operator<< of a PRINTABLE_ENUM give exactly the enumerator's identifier for every value, however the list is spaced. STRING_LITERAL of a text of up to 30 characters (any bytes but NUL) is that text, terminated, one object per text; forward_type_t and clear_t yield the documented types. "
     "set_thread_name and set_current_thread_name pass the whole name to the thread meant, once.",
     ["inputs", "programs"], "all enumerators of lists of every layout, texts of all lengths up to 30, all bytes, all names",
     "No test uses these headers.",
     [I + "printable_enum.h", I + "const_str.h", I + "forward_type.h", I + "clear_t.h", I + "set_thread_name.h"], [("PRINTABLE_ENUM", I + "printable_enum.h:7"), ("STRING_LITERAL", I + "const_str.h:76"), ("forward_type_t", I + "forward_type.h:29"), ("set_thread_name", I + "set_thread_name.h:46")],
     "constant propagation through the name functions; type-level obligations for texts of every length",
     note="Abstract interpretation (constants) and type checking. Enumerators without initialisers, at most 12 per list analysed; the POSIX variant of the thread functions; whether the system accepts a name is not judged.")
prop("P01", "Text views stay inside their text and have the documented extent",
     "Every cstr operation yields a view inside the text it was taken from, with the documented extent: substr by size, end or field clamps to the text for every offset, trim and the skip functions drop exactly the leading and trailing spaces and newlines, get_until and get_line end at the first delimiter or at the end of the text, strip_cr drops at most one trailing carriage return. "
     "Comparison and search (==, !=, <, starts_with, contains, substr_offset) decide on exactly the bytes of the two texts, including embedded NULs. No byte outside the text is read: views are not assumed to be NUL-terminated.",
     ["inputs"], "all texts of any length and content (also empty and with NUL bytes), all offsets and sizes",
     "The tests view a few NUL-terminated literals with in-range offsets; out-of-range offsets, unterminated views and embedded NULs are not sampled.",
     [I + "parser/cstr.h"], [("substr", I + "parser/cstr.h:79"), ("whitespace", I + "parser/cstr.h:108"), ("get_until", I + "parser/cstr.h:140"), ("equality", I + "parser/cstr.h:52")],
     "abstract interpretation of every cstr operation over a symbolic text with scanner ghosts and in-bounds obligations", note=TXT)
prop("P02", "Tokens and lines partition the text",
     "for_each_token and for_each_line hand out, in order, exactly the pieces between separators: no byte is lost, repeated or given to two pieces, no piece contains a separator, the numbered variants count every piece from one, and a break stops the iteration at once. "
     "The line iterator, skip_lines and buf_reader agree on what a line is: they advance by whole lines including the line ending, and (except for the raw lines of buf_reader) one trailing carriage return is not part of the line. No byte outside the text is read.",
     ["inputs"], "all texts of any length and content, all separators, every position at which the callback breaks",
     "The tests split two or three short literals; empty pieces at either end, missing final newlines, CR placement and text ends are unbounded.",
     [I + "parser/cstr.h", I + "parser/buf_reader.h"], [("for_each_token", I + "parser/cstr.h:176"), ("get_line", I + "parser/cstr.h:154"), ("buf_reader", I + "parser/buf_reader.h:10")],
     "abstract interpretation with a piece-partition automaton over a symbolic text", note=TXT)
prop("P03", "CSV fields, rows and headers are mapped exactly",
     "parse_column splits off exactly the next field: an unquoted field ends at the first separator or line end, a quoted one at the first quote that is not doubled (or at the end of the text), and the rest continues there. "
     "read_header maps each column of the first line to the requested field of that name (utl::csv also skips a byte order mark), read_row gives every mapped column the content of its position, leaves absent ones empty and consumes exactly its line, and read_rows yields one row for each remaining line. "
     "unescape_quoted_string drops exactly the first quote of each pair of quotes, utl::split and utl::csv follow the same rules, and no byte outside the text is read.",
     ["inputs"], "all texts of any length and content (carriage returns only in front of line feeds), separators comma and semicolon, column maps of up to three columns, and wide ones (up to 66 short columns, the map's limit of 64)",
     "The csv tests parse some well-formed literals; unterminated and doubled quotes, short and long rows, missing final line ends and field ends at the end of the text are unbounded.",
     [I + "parser/csv.h", I + "parser/csv_range.h", I + "parser/split.h"], [("parse_column", I + "parser/csv.h:18"), ("read_header", I + "parser/csv.h:123"), ("read_row", I + "parser/csv.h:155"), ("csv_range", I + "parser/csv_range.h:76")],
     "abstract interpretation of the field scanner with a field automaton; rows and headers modularly on the proved field contract", note=TXT)
prop("P04", "parse_arg reads numbers and flags exactly",
     "parse_arg on an integer or floating point type skips an optional sign (minus only for signed types), consumes the maximal run of digits (and, for floating point, a decimal point with its digits), yields the value of exactly this number (the default value if an integer has no digits), leaves the rest of the text and reports success exactly if the whole text was the number. "
     "For bool it accepts exactly the words true and false in any letter case and yields the default for texts that begin like neither; texts, views and paths get the whole text. "
     "parse, parse_verify and operator>> agree with it, parse_verify throws exactly for texts that are not accepted, and no byte outside the text is read.",
     ["inputs"], "all texts of any length and content (with one sign at most), numbers that fit the type (for 8 and 16 bit unsigned types and unsigned long: its lower half), all default values; floating point as exact reals",
     "The tests parse a few literals; text ends after a sign or digit, default values, values near the limits and unterminated texts are unbounded.",
     [I + "parser/arg_parser.h"], [("integers", I + "parser/arg_parser.h:16"), ("parse_fp", I + "parser/arg_parser.h:56"), ("bool", I + "parser/arg_parser.h:104"), ("parse_verify", I + "parser/arg_parser.h:151")],
     "abstract interpretation with a Horner-sum ghost over a symbolic text and overflow obligations", note=TXT)
prop("P05", "Files are read and written completely, or the call fails",
     "file::content, content_str and read_file return exactly the bytes of the file, whatever was read before, file::size its size, file::write writes exactly the given bytes, and each throws (read_file: returns nothing) exactly if an underlying operation fails. "
     "mmap_reader::read and read_line and for_each_line_in_file hand out consecutive pieces that cover the whole file: read(n) the next n bytes or the rest, a line everything up to the next newline or the end. "
     "No byte outside the file or the destination is touched, and no size is cut to 32 bits.",
     ["inputs", "fault_sequences"], "all file sizes and contents, all file positions before the call, all sequences of read and read_line, each of fopen/fseek/ftell/fread/fwrite/open/fstat/mmap/malloc/stream operation failing or transferring only a part",
     "The tests read one small file successfully; short reads, failing system calls, files without a final newline, read position left behind and sizes beyond 4 GiB are out of their reach.",
     [I + "parser/file.h", I + "parser/mmap_reader_unix.h", I + "read_file.h", I + "for_each_line_in_file.h"],
     [("size/content/write", I + "parser/file.h:129"), ("read/read_line", I + "parser/mmap_reader_unix.h:119"), ("read_file", I + "read_file.h:8"), ("line loop", I + "for_each_line_in_file.h:10")],
     "abstract interpretation with a file model whose every operation may fail, and a piece automaton over the mapped text", note=TXT)
TOK = ABS.replace("with opaque elements", "with opaque element values (identity tokens), uninterpreted functions and predicates")
prop("A08", "Pipes hand on exactly the specified elements in order",
     "A pipeline of all, range, iterable or generate with transform, remove_if, take_while and unique calls its sink with exactly the elements the stages select, transformed, in source order, each once, and never looks at an element outside the source. "
     "The sinks do what they are named for with these elements: for_each, accumulate (each step gets the previous result), count, find (the first match), sum, avg, max, vec, emplace_back, insert. "
     "The source is not modified, a temporary source lives inside the pipeline, and container and range sources agree.",
     ["inputs"], "all sources of any length, all outcomes of the predicates, combinations of up to three stages with every sink (sums in the range of the type, non-negative for sum)",
     "The tests run a dozen pipelines on short literals; ends of the source, empty selections, stage order and temporaries are unbounded.",
     [I + "pipes/"], [("transform", I + "pipes/transform.h:8"), ("remove_if", I + "pipes/remove_if.h:8"), ("take_while", I + "pipes/take_while.h:8"), ("unique", I + "pipes/unique.h:8"), ("avg", I + "pipes/avg.h:8"), ("find", I + "pipes/find.h:8")],
     "abstract interpretation with a pipeline automaton over identity tokens", note=TOK)
prop("A09", "to_vec, to_set, transform_to, concat and repeat_n keep every element",
     "to_vec, to_set and transform_to (container, iterator and output overloads) yield the function's result for each element of the input exactly once and in order, concat appends exactly the elements of its second argument and returns the first, and repeat_n yields n copies of the value. "
     "Nothing outside the input is read and an input that is not an rvalue is not modified.",
     ["inputs"], "all inputs of any length, all numbers of repetitions",
     "The tests convert a few short literals; empty inputs, sizes and constness are not exercised.",
     [I + "to_vec.h", I + "to_set.h", I + "concat.h", I + "repeat_n.h"], [("to_vec", I + "to_vec.h:11"), ("to_set", I + "to_set.h:9"), ("concat", I + "concat.h:9"), ("repeat_n", I + "repeat_n.h:7")],
     "abstract interpretation with an output automaton over identity tokens", note=TOK)
prop("A10", "erase helpers remove exactly the matching elements and keep the rest in order",
     "erase and erase_if remove exactly the elements that equal the value or satisfy the predicate and keep all others once and in their order; on a set, erase removes exactly the given key. "
     "erase_duplicates sorts (with the comparator and equality passed, if any) the container or the given part of it and keeps exactly one of each run of equal elements; elements outside that part stay. No position outside the container is touched.",
     ["inputs"], "all containers of any length, all predicate and equality outcomes, all subranges",
     "The tests erase from three short vectors; nothing-to-erase, everything-erased and boundary positions are unbounded.",
     [I + "erase.h", I + "erase_if.h", I + "erase_duplicates.h"], [("erase", I + "erase.h:10"), ("erase_if", I + "erase_if.h:8"), ("erase_duplicates", I + "erase_duplicates.h:10")],
     "abstract interpretation with a compaction automaton; std::sort by contract", note=TOK)
prop("A11", "get_or_create, get_or_create_index and insert_sorted keep keys unique",
     "get_or_create returns the entry of the key: the existing one unchanged and without calling the factory, or a new one holding the factory's single result. get_or_create_index gives a new key the number of keys seen before and an old key its number. "
     "insert_sorted inserts at the position that keeps the sequence sorted, exactly if no equal element exists, and returns the position of the element and whether it was inserted.",
     ["inputs", "histories"], "all map states and keys; all sorted sequences of any length, comparators that agree with equality",
     "The tests insert a few literals; positions at either end, empty sequences and repeated keys are unbounded.",
     [I + "get_or_create.h", I + "get_or_create_index.h", I + "insert_sorted.h"], [("get_or_create", I + "get_or_create.h:9"), ("get_or_create_index", I + "get_or_create_index.h:6"), ("insert_sorted", I + "insert_sorted.h:9")],
     "abstract interpretation against an abstract map / sorted sequence", note=TOK)
prop("A13", "Container algorithms decide on the whole container with the caller's predicate",
     "all_of, any_of, none_of, find, find_if, count_if, equal, is_sorted, max_element and min_element yield what the standard algorithm specifies for all elements of the container with the predicate or comparator passed, reading nothing outside it. "
     "sort and nth_element get the whole container and the caller's comparator, fill sets every element, and every kind of container the standard's begin and end accept (also built-in arrays) is accepted.",
     ["inputs"], "all containers of any length, all outcomes of predicates and comparators",
     "No test covers most of these wrappers.",
     [I + "helpers/algorithm.h"], [("all_of", I + "helpers/algorithm.h:9"), ("nth_element", I + "helpers/algorithm.h:64"), ("equal", I + "helpers/algorithm.h:84")],
     "abstract interpretation with decision automata, compile witnesses for the accepted containers", note=TOK)
prop("R01", "Owned memory, files, mappings and pending actions are released exactly once",
     "Whatever sequence of moves, self-moves, swaps, resizes, reads and failures an owning object goes through, each memory block, file handle, descriptor and mapping it acquired is released exactly once, at the latest when its last owner dies, also when a constructor or a later step fails, and is not used afterwards. "
     "The memory an object hands out is as large as it says. A scope guard runs its action exactly once at the end of its scope, also on exceptions, unless it was called off or handed over by a move.",
     ["histories", "fault_sequences"], "all sequences of operations on two objects of each owning type, each system call failing or not, user code throwing anywhere in between",
     "The tests never move an owner, make no system call fail and do not resize to zero.",
     [I + "parser/buffer.h", I + "parser/file.h", I + "parser/mmap_reader_unix.h", I + "raii.h"],
     [("buffer", I + "parser/buffer.h:11"), ("file", I + "parser/file.h:144"), ("mmap_reader", I + "parser/mmap_reader_unix.h:18"), ("finally", I + "raii.h:45"), ("raii", I + "raii.h:12")],
     "typestate analysis (abstract interpretation) over arbitrary operation histories",
     note=ABS.replace("with opaque elements", "(real code of the owning types, all call histories)"))
prop("A15", "sort_by applies one sorting permutation to all containers",
     "sort_by(first, rest...) returns copies of all its containers, permuted by one permutation that puts the first into ascending order: position i of every result is the element its input has where the i-th smallest element of the first container stood. The inputs, which may be lvalues, const or temporary, stay unchanged; empty companion containers stay empty, and nothing outside a container is accessed.",
     ["inputs"], "all element values and all lengths up to 2^31, one to three containers, empty companions",
     "The test sorts one fixed pair of vectors.",
     [I + "sort_by.h"], [("sort_by", I + "sort_by.h:25"), ("apply_permutation", I + "sort_by.h:12")],
     "abstract interpretation: index-permutation automaton over identity tokens, std::sort as a contract on the comparator, compile witnesses for const and temporary containers", note=TOK)
prop("B01", "Every header can be used by any program, alone and in any of its files",
     "Each public header compiles as the first and only header of a file, compiles again when it is included twice or together with all the others in any order, and what it offers can be instantiated from it alone. "
     "A program may include it in any number of files: it defines nothing outright that would clash when they are linked. "
     "Everything a header only declares is defined exactly once by the library's sources.",
     ["programs"], "all programs: any header first, any combination and order, any number of files, every public template instantiated",
     "The tests include the headers behind others in few files and never instantiate many of the templates; what no test file includes or calls is not even compiled.",
     [I.rstrip("/"), "src"], [("mmap_reader", I + "parser/mmap_reader_unix.h:3"), ("set_thread_name", I + "set_thread_name.h:44"), ("timer definitions", "src/timer.cc:7")],
     "type checking of each header alone, doubled and together; compile witnesses per header; symbol analysis of declared, defined and undefined names",
     note="clang 18 and gcc 13 with libstdc++ as reference type checkers, the platform of this sandbox only (no Windows or macOS branches); cista headers replaced by a minimal stub.")
prop("L01", "One complete log line per statement, with true stamps and time spans",
     "Every log statement writes to std::clog exactly one line: level, UTC time of the statement, base name and line of the source position and all parts in order, and the line is ended even if a part or the surrounding code throws. "
     "A scoped timer logs its start once and its end once on every way out of the scope, a manual timer its start and each print or stop, always with its own name and the milliseconds since the start to the microsecond; the timing macros give the span between their marks in their unit. "
     "utl::time never reads beyond the text of the stamp, whatever time is given.",
     ["inputs", "histories"], "all levels, parts, names (any bytes), clock readings and times, with an exception at any point",
     "No test looks at the log; exceptions in timed scopes, unusual times and the amounts printed are not sampled.",
     [I + "logging.h", I + "timer.h", I + "timing.h", "src/timer.cc"], [("~log", I + "logging.h:46"), ("time", I + "logging.h:54"), ("~scoped_timer", "src/timer.cc:12"), ("UTL_TIMING_US", I + "timing.h:12")],
     "line automaton over everything written to the log stream; clock readings and stamps as symbols with linear constraints",
     note="Abstract interpretation. Stream, string and calendar functions by contract; writing to std::clog does not throw, the steady clock does not go back; lines of concurrent threads may interleave.")
prop("M01", "parse_flags gives every flag exactly what the command line says",
     "For every argument array, a switch is true exactly if one of its names occurs, a value flag is parsed from exactly the whole argument after its last occurrence, and a flag that does not occur keeps its default. parse_flags throws exactly if a required flag has no (non-empty) value; it reads argv[0..argc) only and never modifies it.",
     ["inputs"], "all argument counts and strings; flags with short, long or both names, required or not, switches and values, one or two flags per configuration",
     "Two fixed command lines are tested.",
     [I + "cmd_line_parser.h"], [("parse_flags", I + "cmd_line_parser.h:66")],
     "abstract interpretation: each argument is one of the names or none, decided lazily; per-flag automaton with the index of the last occurrence")
prop("M02", "init_from builds each member from the first matching member of the source",
     "init_from<T>(s) fills each member of T from the first member of s with the same type or a (smart) pointer to it: references and pointers of T designate that very object, for all structs of up to 31 members. A pointer member of T becomes null if its source is null; the result is empty exactly if a reference member of T would need a null pointer, which is never dereferenced.",
     ["inputs", "programs"], "target and source structs of 0 to 31 members; value, raw, owning and user-defined pointer sources; reference and pointer targets; every combination of null pointers",
     "One source struct with two null patterns is tested (the test is not built here).",
     [I + "init_from.h"], [("init_from", I + "init_from.h:334"), ("c", I + "init_from.h:295"), ("m", I + "init_from.h:316"), ("to_tuple", I + "init_from.h:119")],
     "symbolic interpretation of the instantiated code per struct shape and null pattern: addresses of result members; compile witnesses for all arities")
