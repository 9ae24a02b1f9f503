PROPS = []
LANGNOTE = ("Held on the random programs run: every observable event of each program (and how it ends) equals what an independent "
            "reference interpreter predicts, with no sanitizer report, assertion or crash. Trusts lib/kref.py as the statement of the semantics; "
            "says nothing about programs the generator does not produce.")
def P(id, title, statement, over, quant, why, files, mech, tech, note, level="exploration"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, level=level))

P("C01", "Operators give the exact documented result for every operand",
  "Every arithmetic, bitwise, shift, comparison and logical operator yields the exact result (64-bit wrapping integers, IEEE doubles, documented conversions and orderings), or throws where the operands have no result, for all operand values and types. The result is the same whether operands are constants, variables, or targets of compound assignment.",
  ["inputs"], "all pairs of operand values of all types, in every syntactic position",
  "Tests sample a few dozen operand pairs; 2^128 pairs exist, and several implementations (constant folding, instruction variants, small and boxed integers) must agree on all of them.",
  ["core/kos_vm.c", "core/kos_compiler_optim.c", "core/kos_utils.c"],
  [("arithmetic instructions", "core/kos_vm.c add_integer/mul/div/shift cases of the interpreter loop"), ("constant folding", "core/kos_compiler_optim.c"), ("comparison", "core/kos_utils.c KOS_compare")],
  "reference-model monitor over executions under ASan/UBSan",
  "Held on the operand values tried; results compared bit for bit with independent integer and IEEE arithmetic.")
P("C02", "Optimization never changes what a program does",
  "A program whose constants and conditions are known at compile time does exactly what the same program does when they are hidden from the compiler: same outputs, same side effects in the same order, same exceptions. Code is removed or folded only when that cannot be observed (the compiler may only, in addition, reject an operation certain to fail).",
  ["programs"], "all programs, compiled with any subset of values visible to the optimizer",
  "The optimizer rewrites programs by combinations of folding, dead-code removal and constant propagation; tests check single constructs, not their combinations.",
  ["core/kos_compiler_optim.c", "core/kos_compiler.c", "core/kos_compiler_vars.c"],
  [("optimization passes", "core/kos_compiler_optim.c kos_optimize"), ("dead code and terminal statements", "core/kos_compiler_optim.c process_scope")],
  "differential trace monitor: two renderings of random programs against a reference interpreter, under ASan/UBSan", LANGNOTE)
P("C03", "Control flow executes exactly the statements the program dictates",
  "Conditions, loops, switches with fallthrough, break, continue, return and short-circuit expressions execute exactly the statements the source dictates, in source order, at any nesting depth and any code size.",
  ["programs"], "all programs combining control-flow constructs, of any size",
  "Jump generation depends on nesting, on what is terminal and on encoded distances; tests contain small hand-written combinations.",
  ["core/kos_compiler.c", "core/kos_parser.c", "core/kos_vm.c"],
  [("jump generation and patching", "core/kos_compiler.c gen_jump/update_jump_offs"), ("statements", "core/kos_compiler.c if_stmt, while_stmt, switch_stmt")],
  "trace monitor: event traces of random programs against a reference interpreter, under ASan/UBSan", LANGNOTE)
P("C04", "Cleanup code runs exactly once on every way out",
  "On every exit from a block (falling off its end, return, break, continue, exception, at any depth), each pending defer body and each release of a with statement runs exactly once, in reverse order of entry, before control leaves, and an exception is caught by the innermost active catch only. The returned value or propagating exception is the one the program dictates even if the cleanup itself returns, breaks or throws.",
  ["programs", "fault_sequences"], "all programs mixing try, defer, with, throw and non-local exits",
  "Tests exercise each exit through at most two nested constructs; correctness depends on how finally-code is duplicated or shared for each combination of exits.",
  ["core/kos_compiler.c", "core/kos_parser.c", "core/kos_vm.c"],
  [("try/defer code generation", "core/kos_compiler.c try_stmt, finally handling and catch offsets"), ("exception dispatch", "core/kos_vm.c handle exception, catch register")],
  "trace monitor: event traces of random programs against a reference interpreter, under ASan/UBSan", LANGNOTE)
P("C05", "Calls bind arguments and evaluate operands correctly and in order",
  "For every mix of positional, default, named, rest and spread arguments, with any argument count and any callee, parameters receive the documented values, a call missing a required argument throws, and operands are evaluated exactly once, left to right; default values are evaluated once, at the declaration.",
  ["programs", "inputs"], "all functions and call sites, including large argument counts, apply and the stream operator",
  "There are several call instructions and argument-passing paths chosen by count and callee kind; tests cover few shapes per path.",
  ["core/kos_vm.c", "core/kos_compiler.c", "core/kos_compiler_args.c"],
  [("argument binding", "core/kos_vm.c prepare_call, init_registers"), ("named arguments", "core/kos_compiler_args.c")],
  "trace monitor: event traces of random programs against a reference interpreter, under ASan/UBSan", LANGNOTE)
P("C06", "Generators resume exactly where they stopped, once per request",
  "A generator produces exactly the sequence of values its body yields, each computed only when requested, with all its local state kept between requests and the value passed in becoming the result of the yield. It ends once and for all when its body ends or throws, and re-entering a running generator is an exception.",
  ["programs", "histories"], "all generator bodies and all interleavings of requests to several generators",
  "State saved at suspension depends on where in nested loops, try and calls the yield is; tests sample a few bodies.",
  ["core/kos_vm.c", "core/kos_stack.c"],
  [("generator frames", "core/kos_stack.c kos_stack_push, unchain"), ("yield and resume", "core/kos_vm.c YIELD, prepare_call")],
  "trace monitor: event traces of random programs against a reference interpreter, under ASan/UBSan", LANGNOTE)
P("C07", "Objects, classes and inheritance follow prototype semantics",
  "Property reads find the nearest definition along the prototype chain, writes and deletes affect the object itself only, and constructors, base constructors, overridden methods and super calls run in the documented order on the same object. Enumeration and membership tests agree with what reads return.",
  ["programs", "histories"], "all class hierarchies and all sequences of property operations",
  "Property tables grow, rehash and delete; tests follow short fixed sequences.",
  ["core/kos_object.c", "core/kos_vm.c", "core/kos_compiler.c"],
  [("property tables", "core/kos_object.c"), ("class construction", "core/kos_compiler.c class_literal; core/kos_vm.c constructor calls")],
  "trace monitor: event traces of random programs against a reference interpreter, under ASan/UBSan", LANGNOTE)
P("C08", "Variables and closures keep their identity and last value",
  "Every read of a variable yields the value last assigned to that variable, whether it is accessed locally, from nested closures, or after its defining function returned; two activations of a function never share variables and an assignment that throws leaves its target unchanged.",
  ["programs"], "all programs with nested scopes, shadowing and escaping closures",
  "Where a variable lives (register, closure, constant) is decided by whole-program analysis; tests reach few configurations.",
  ["core/kos_compiler_vars.c", "core/kos_compiler.c", "core/kos_vm.c"],
  [("variable analysis", "core/kos_compiler_vars.c"), ("closure binding", "core/kos_vm.c BIND instructions; core/kos_compiler.c gen_closure"), ("register allocation", "core/kos_compiler.c gen_reg, free_reg")],
  "trace monitor: event traces of random programs against a reference interpreter, under ASan/UBSan", LANGNOTE)
P("C09", "Arrays behave as sequences under every history of operations",
  "After any sequence of operations (push, pop, insert, slice, resize, fill, cas, sort, spread, indexing, including inserting an array into itself), an array holds exactly the elements the operations dictate and each operation returns its documented result or throws, leaving nothing lost, duplicated or uninitialized. Indexes outside the array (also huge or negative ones) are clamped or rejected exactly as documented; sort orders by key and is stable.",
  ["histories", "inputs"], "all histories of array operations with all arguments",
  "Tests call each function on a few small arrays; correctness depends on combinations of sizes, overlaps, capacity boundaries and previous operations.",
  ["core/kos_array.c", "modules/kos_mod_base.c", "modules/base.kos"],
  [("array storage", "core/kos_array.c resize, insert, slice, push, pop"), ("array methods", "modules/kos_mod_base.c sort, resize, fill, cas; modules/base.kos insert")],
  "model-based monitor: every result and the final state of random histories against a list model, under ASan/UBSan",
  "Held on the histories run; the list model and the documented index rules are the oracle.")
P("C10", "Strings act as code-point sequences whatever their representation",
  "Every string operation (comparison, search, scan, slice, concatenation, repetition, splitting, stripping, justification, use as property key) gives the result defined by the sequence of code points alone, independent of how the string was produced or stored, including at the maximum length, where a too long result is refused.",
  ["inputs"], "all strings over all of Unicode, produced in any way, and all positions",
  "Strings are stored as 8-, 16- or 32-bit data, inline, as references or as slices of others, with separate code per combination and alignment; tests use short literals.",
  ["core/kos_string.c", "modules/kos_mod_base.c", "modules/base.kos"],
  [("representations", "core/kos_string.c compare_slice, KOS_string_slice, KOS_string_scan, KOS_string_add_n"), ("string methods", "modules/base.kos split, strip, justify")],
  "model-based monitor: results of operations on strings built in different ways against Python str, under ASan/UBSan",
  "Held on the strings tried. Case mapping outside ASCII and empty search patterns are not covered.")

P("C11", "Buffers hold exactly the bytes written to them",
  "Every buffer operation (construction, element access, slicing, resizing, reserving, filling, copying also onto itself, inserting, packing and unpacking of integers, floats, strings and sub-buffers in either byte order) has the result defined on the plain sequence of bytes; packing followed by unpacking with the same format returns the values, and an operation that fails reports an exception and corrupts nothing.",
  ["inputs"], "all buffers, positions, sizes, values and pack formats, and all sequences of operations on a buffer",
  "Buffers share, grow and move their storage and pack formats are an embedded little language with size arithmetic; tests use a handful of small buffers.",
  ["core/kos_buffer.c", "modules/kos_mod_base.c"],
  [("storage", "core/kos_buffer.c KOS_buffer_copy, KOS_buffer_make_room, KOS_buffer_slice"), ("pack", "modules/kos_mod_base.c pack_format, unpack_format, process_pack_format")],
  "model-based monitor: random operation sequences against Python bytearray/struct, under ASan/UBSan",
  "Held on the operations tried; buffers over a few MB are not exercised.")

P("C14", "Garbage collection never changes or frees reachable values",
  "Whenever a garbage collection happens, requested or automatic, at any allocation and with any number of running threads, every value that the program can still reach (through variables, containers, closures, generators, slices, prototypes, pending exceptions or the temporaries of a running built-in) keeps its contents and identity, so that a program's results do not depend on when collections happen.",
  ["inputs", "schedules"], "all object graphs, all programs and all moments of collection",
  "The collector moves objects, so one unregistered reference or one child pointer not followed corrupts data only when a collection hits that window; tests collect at few moments.",
  ["core/kos_heap.c", "core/kos_object.c", "core/kos_array.c", "core/kos_string.c", "core/kos_buffer.c", "core/kos_vm.c", "modules"],
  [("marking and moving", "core/kos_heap.c mark_children_gray, update_child_ptrs, evacuate"), ("references held by built-ins", "modules/kos_mod_base.c KOS_init_local users")],
  "state monitor: object graphs compared with an integer mirror after collections, and differential runs with a collection at every allocation under page protection",
  "Held on the graphs, cases and programs tried; the collection-at-every-allocation workloads are small because each allocation costs a full collection.")
P("C15", "Unreachable objects are reclaimed and their resources released",
  "Values that the program can no longer reach, including cyclic structures, closures, abandoned generators and wrappers of files, sockets, processes, threads, locks, regular expressions or lexers, are reclaimed by garbage collection and the memory and descriptors they own are released, so that a program with a bounded live set runs in bounded memory for ever; at exit nothing is leaked.",
  ["histories"], "all kinds of garbage, any amount, over any run length",
  "Leaks only show over long runs and depend on reachability of internal tables; unit tests exit early.",
  ["core/kos_heap.c", "modules"],
  [("finalizers", "core/kos_heap.c finalize_object"), ("triggering", "core/kos_heap.c try_collect_garbage, update_gc_threshold")],
  "resource monitor: heap, malloc and descriptor counts before and after rounds of garbage, peak memory of short and long runs, LeakSanitizer at exit",
  "Held for the kinds of garbage tried; growth below a few KB per run is not distinguished from noise.")

P("C16", "Built-ins survive any arguments",
  "Every public function, constructor, method, operator and statement form, applied to any values (wrong types, extreme numbers, empty, huge, cyclic or very deeply nested structures, exhausted or misbehaving iterators), ends with a value or an exception that the program can catch; it never crashes, corrupts memory or leaves the interpreter unable to continue.",
  ["inputs"], "all built-ins with all argument combinations",
  "Argument handling is spread over hundreds of native functions, and tests call each with a few plausible arguments.",
  ["modules", "core/kos_utils.c", "core/kos_vm.c"],
  [("argument conversion", "core/kos_utils.c KOS_extract_native_*"), ("native functions", "modules/kos_mod_*.c"), ("value printing", "core/kos_utils.c object_to_string_or_cstr_vec")],
  "fuzzing of the reflected API under ASan/UBSan with debug assertions; health probe after each call",
  "Held on the calls tried, except for the listed finding on comparing extremely deep arrays. Functions that block, spawn processes or reach the network are exercised by other checks.")

P("C17", "A failing allocation or system call surfaces as an error and damages nothing",
  "When memory cannot be allocated or a system call fails at any point while a program is loaded, compiled or run, the failure reaches the program as a catchable exception or ends it with an error report; it never crashes, leaks, silently changes a result or leaves a value, thread or module half made, and the failed operation succeeds when it is repeated after the shortage is over.",
  ["faults"], "every allocation and system call failing, once or repeatedly",
  "Each of thousands of failure points has its own recovery path, which no test run without faults executes.",
  ["core/kos_malloc.c", "core/kos_heap.c", "core/kos_compiler.c", "core/kos_module.c", "core/kos_vm.c", "modules"],
  [("fault points", "core/kos_misc.c kos_seq_fail callers"), ("allocation", "core/kos_heap.c kos_alloc_object, core/kos_malloc.c")],
  "fault injection at each of the program's fault points in turn under ASan/UBSan/LeakSanitizer with debug assertions; recovery monitor in the workload",
  "Held at the fault points of one workload of about 40 features; failures inside third-party libraries and in array element reads (which cannot fail in reality) are not injected.")

P("C12", "Conversions between text and values are faithful",
  "Text written and read as UTF-8 keeps every code point and malformed UTF-8 is rejected; integers print and parse exactly in every radix with out-of-range values rejected, floats parse to within one unit in the last place and print to 15 decimals (or 17 digits when large), and a printed array or object, pasted into a program, is an equal value.",
  ["inputs"], "all strings, byte sequences, numbers and nested values",
  "Encoding and digit boundaries make the interesting inputs rare; tests fix a few.",
  ["core/kos_utf8.c", "core/kos_misc.c", "core/kos_utils.c", "modules/kos_mod_base.c"],
  [("UTF-8", "core/kos_utf8.c"), ("numbers", "core/kos_misc.c kos_parse_int, kos_parse_double, kos_print_float"), ("printing", "core/kos_utils.c vector_append_str, array_to_str")],
  "differential monitor: independent codec and exact arithmetic on the same inputs, and printed text read back as source, under ASan/UBSan",
  "Held on the generated inputs. Correct rounding of float texts is not promised by the implementation and not required.")

P("C13", "Any bytes given as a program are rejected with a located error or run",
  "Whatever bytes are given as a program, including malformed text, any nesting and any size, the front end either accepts them or reports an error at a position inside the text, and never crashes or hangs; spaces, comments and the kind of line ends between tokens never change what a program does, the size of a body never changes its meaning, and the tokens of the lexer module join to the original text at the positions they report.",
  ["inputs"], "all byte sequences as programs",
  "The input space is all texts; tests contain well-formed programs and a few errors.",
  ["core/kos_lexer.c", "core/kos_parser.c", "core/kos_compiler.c", "core/kos_compiler_vars.c", "core/kos_compiler_optim.c", "modules/kos_mod_kos.c", "modules/kos.kos"],
  [("lexer", "core/kos_lexer.c"), ("depth limits", "core/kos_parser.c increase_ast_depth"), ("jump sizes", "core/kos_compiler.c update_jump_offs, finish_jumps")],
  "coverage-guided fuzzing and grammar-aware mutation under ASan/UBSan with debug assertions; metamorphic monitors for layout, body size and token streams",
  "Held on the inputs tried; programs that do not end in time are not judged.")

P("C18", "Properties of an object shared by threads behave as atomic registers",
  "When threads set, read and delete properties of one object at once, while the object grows and garbage is collected, each operation takes effect at a single moment between its start and its end: a read returns the last value written, a property once set is never lost, duplicated or torn, and a deleted one does not come back.",
  ["schedules", "histories"], "every interleaving of operations on a shared object",
  "The object's table is resized without locks; the harmful interleavings are a few instructions wide and a test run meets none of them.",
  ["core/kos_object.c", "inc/kos_atomic.h", "core/kos_heap.c"],
  [("property table", "core/kos_object.c KOS_set_property, KOS_get_property, salvage_item, copy_table, resize_prop_table"), ("evacuation of tables", "core/kos_heap.c")],
  "controlled-schedule execution of the real code with a preemption at any atomic operation; recorded histories checked for linearizability; ThreadSanitizer and AddressSanitizer on free-running threads",
  "Held on the interleavings run (thousands of distinct schedules per quick run). Schedules are sequentially consistent; ordering of plain accesses is covered by ThreadSanitizer's happens-before analysis.")

P("C19", "Elements of arrays and buffers shared by threads are neither lost nor torn",
  "When threads read, write and compare-and-swap elements of one array or bytes of one buffer at once, each operation is atomic; when threads push to one array at once, every element pushed ends up in it exactly once, at the index its push returned and in each thread's order, whatever growth of the storage or garbage collection happens in between.",
  ["schedules", "histories"], "every interleaving of element reads, writes, swaps and pushes",
  "Storage is grown and elements are copied without locks; a lost or duplicated element needs a preemption inside the copy.",
  ["core/kos_array.c", "core/kos_buffer.c", "inc/kos_atomic.h"],
  [("array storage", "core/kos_array.c kos_array_push_expand, copy_buf, resize_storage, KOS_array_push, KOS_array_cas"), ("buffer storage", "core/kos_buffer.c KOS_buffer_resize, get_data")],
  "controlled-schedule execution of the real code with a preemption at any atomic operation; recorded histories checked for linearizability and conservation; ThreadSanitizer and AddressSanitizer on free-running threads",
  "Held on the interleavings run. Pop, insert, resize and slices concurrent with other operations are not atomic by design and not claimed.")

P("C20", "Threads, locks and queues give every result once and exclude as promised",
  "Each thread's result or exception reaches exactly one waiter, unchanged; a mutex is held by one thread at a time, a semaphore never lets more threads through than it was given, a queue and a stack hand every item to one consumer in their order, a generator shared by threads yields every value once, captured variables are never torn, and no such program deadlocks or loses a wake-up.",
  ["schedules", "histories"], "every interleaving of programs that synchronize by these means",
  "Lost wake-ups and double deliveries need particular preemptions between threads and the garbage collector's own stop requests.",
  ["core/kos_threads.c", "core/kos_vm.c", "core/kos_heap.c", "modules/kos_mod_threads.c", "modules/threads.kos", "modules/kos_mod_base.c"],
  [("threads", "core/kos_instance.c, modules/kos_mod_base.c wait, async, core/kos_vm.c KOS_thread_join"), ("synchronization objects", "modules/kos_mod_threads.c, modules/threads.kos"), ("closure variables", "core/kos_vm.c")],
  "controlled-schedule execution of scripts which monitor exclusion, conservation, order and delivery; deadlock detection by the scheduler; ThreadSanitizer and AddressSanitizer on free-running threads",
  "Held on the interleavings run. Loading modules from several threads at once is not claimed.")

P("C21", "Regular expressions find the match their pattern defines",
  "For every pattern and string, a search returns the leftmost match, chosen among the possible ones by the order of alternatives and the greediness of repetitions, with the bounds of every group it passed through last; a pattern that is not well formed is rejected when the expression is created. A search never reads outside of the string and always ends.",
  ["inputs"], "all patterns and all strings, with any begin and end positions",
  "Matching combines backtracking, counters, groups and classes; their interactions with empty matches and string limits are too many to sample by hand.",
  ["modules/kos_mod_re.c", "modules/re.kos"],
  [("pattern parser", "modules/kos_mod_re.c parse_re, parse_alternative_match_seq, parse_multiplicity"), ("matcher", "modules/kos_mod_re.c find")],
  "differential monitor against an independent backtracking matcher, under ASan/UBSan",
  "Held on the generated patterns and strings; searches whose number of steps grows exponentially are not run.")
P("C22", "JSON texts and values correspond exactly",
  "Parsing a JSON text returns exactly the value it denotes and parsing anything else throws; dumping a value gives a valid JSON text that denotes that value again, whatever characters its strings contain and however it is nested.",
  ["inputs"], "all JSON texts, all other texts, all values made of void, booleans, numbers, strings, arrays and objects",
  "The parser reuses the tokens of the language, which differ from those of JSON in escapes, numbers and comments; tests use a few well-formed texts.",
  ["modules/json.kos", "core/kos_lexer.c", "modules/kos_mod_kos.c"],
  [("parser", "modules/json.kos parse"), ("writer", "modules/json.kos dump, write")],
  "reference-model monitor (an independent JSON codec) over generated, respelled, truncated and mutated texts",
  "Held on the values and texts tried.")
P("C23", "Each module runs once, in import order, and all importers share its globals",
  "For every graph of modules, importing runs each module exactly once, dependencies first and in the order of the import statements, from the first search path that has it; all importers see the same globals, and only the public ones. Circular imports, missing modules and modules that do not compile or throw are reported to the importer, which may catch it when loading at run time and try again.",
  ["programs"], "all import graphs over any directories and search paths, with imports failing anywhere",
  "Tests import a handful of modules; name clashes across directories, retries after failures and loads during execution of the importer are combinations they do not reach.",
  ["core/kos_module.c", "core/kos_compiler_vars.c", "modules/kos_mod_base.c", "core/kos_instance.c"],
  [("module loading", "core/kos_module.c import_module, find_module, kos_comp_import_module"), ("import statements", "core/kos_compiler_vars.c import"), ("dynamic loading", "modules/kos_mod_base.c module_load")],
  "reference-model monitor of module execution events over random import graphs, under ASan/UBSan and forced garbage collection",
  "Held on the graphs run, apart from the known finding about paths with equal last names. Loading from several threads at once is not claimed.")
P("C24", "Lazy sequence functions yield the right elements and pull no more than needed",
  "Ranges, map, filter, enumerate, zip, product, cycle, repeats, reverse, slices and the reducing functions, composed in any way over any sequences, give exactly the elements their definitions say, calling each given function once per element in order, pulling elements from their sources only when needed and in order, passing on exceptions, and ending whenever the defined sequence is finite.",
  ["inputs", "programs"], "all compositions of sequence functions over all finite sequences",
  "Laziness, order of evaluation and early termination only show in side effects of composed pipelines; tests look at results of single functions.",
  ["modules/base.kos", "modules/iter.kos", "core/kos_vm.c", "core/kos_compiler.c"],
  [("sequence functions", "modules/base.kos range, map, filter, reduce, zip, generator.prototype.slice"), ("iterators", "modules/iter.kos"), ("loops over ranges", "core/kos_compiler.c for_range")],
  "reference-model monitor of results and of a log of every element pulled and function called, under ASan/UBSan and forced garbage collection",
  "Held on the pipelines run, apart from the known finding about loops over ranges with a constant step next to the limits of integers.")
P("C25", "Mathematical functions and random generators return the values defined",
  "For every number, each mathematical function returns its exact or correctly computed value of the documented type, or throws outside of its domain. A random generator with a given seed always gives the same numbers, however many threads share it, those requested from a range never leave it, all of them can occur, and a shuffle is always a permutation.",
  ["inputs"], "all numeric arguments, all seeds, all ranges of 64-bit integers",
  "Extreme ranges and special floats are not sampled; a wrong range width only shows in optimized builds.",
  ["modules/kos_mod_math.c", "modules/math.kos", "modules/kos_mod_random.c", "modules/random.kos", "core/kos_misc.c"],
  [("random ranges", "core/kos_misc.c kos_rng_random_range; modules/kos_mod_random.c rand_integer"), ("mathematical functions", "modules/kos_mod_math.c")],
  "reference-model monitor (independent PCG and IEEE arithmetic) under ASan/UBSan and in the optimized build",
  "Held on the arguments tried; transcendental functions are compared within 1e-15; 0 raised to a negative power is not judged.")
P("C26", "Files, pipes and streams hold exactly the bytes which were written to them",
  "After any history of writes, reads, seeks, resizes and closing on a file or a pipe, every read returns exactly the bytes the history put there, in order and once, and size and position agree with them. Lines are read exactly as the text contains them, wherever a character or an end of line is split. Threads sharing a file, its lock or a buffer lose, repeat or mix no transfer and never block the others for good.",
  ["inputs", "histories", "interleavings"], "all sequences of operations, all contents and split points, all schedules of threads sharing a file or buffer",
  "Losses need particular orders of operations, positions of multi-byte characters at read boundaries, or another thread collecting garbage or resizing a buffer during a transfer.",
  ["modules/kos_mod_io.c", "modules/io.kos", "core/kos_buffer.c"],
  [("reading lines and buffers", "modules/kos_mod_io.c read_line, read_some, begin_file_op"), ("writing", "modules/kos_mod_io.c kos_write"), ("buffers in transfers", "core/kos_buffer.c")],
  "reference-model monitor over recorded file histories, conservation and ordering checks over shared streams, under ASan/UBSan",
  "Held on the histories and schedules which occurred in the run.")
P("C27", "File system functions do to the file system exactly what they name",
  "Creating, removing, listing and inspecting files and directories changes exactly the object named, relative to the current directory, and nothing else; the result says what happened (created, absent, type, size, times, links), whatever the names contain and however the path is spelled. An operation that cannot be done throws or returns the documented value and leaves the tree as it was.",
  ["inputs", "histories"], "all histories of operations on trees of directories, files and links, with all names and spellings of paths",
  "Results depend on the state of the tree, on path spelling (repeated, trailing and reversed separators, dots) and on kinds of files tests do not create.",
  ["modules/kos_mod_fs.c"],
  [("directory operations", "modules/kos_mod_fs.c mkdir, rmdir, remove, chdir, cwd, listdir"), ("inspection", "modules/kos_mod_fs.c stat, file_exists")],
  "twin-tree monitor: the operating system's own calls on a second tree, results and final trees compared, as an unprivileged user in a scratch directory",
  "Held on the histories run; names are valid UTF-8 without backslashes; permission failures are not explored.")
P("C28", "Calendar dates and timestamps correspond exactly; invalid dates are refused",
  "For every timestamp, the date and time computed from it are those of the proleptic Gregorian calendar, and for every valid date and time the timestamp is its exact inverse. Every combination which is not a date, such as the day after the last one of a month, throws.",
  ["inputs"], "all 64-bit timestamps, all combinations of date and time numbers",
  "Leap years, centuries, ends of months and years estimated from days go wrong only near particular boundaries.",
  ["modules/datetime.kos", "modules/kos_mod_datetime.c"],
  [("calendar computations", "modules/datetime.kos first_day_from_year, get_month, datetime"), ("clock", "modules/kos_mod_datetime.c now")],
  "reference-model monitor (independent civil calendar) over boundaries and blocks of consecutive days",
  "Held on the dates and timestamps tried; timestamps given as floats are not judged.")
P("C29", "Spawned processes get what was asked for, results are exact, nothing is left",
  "A spawned process receives exactly the arguments, environment, directory and redirected streams given, and no other open file. Waiting for it returns its exact status exactly once, whatever other processes, failing attempts, threads and collections do meanwhile. A failing attempt throws and has no other effect, and no process remains a zombie once nobody can wait for it.",
  ["inputs", "histories", "interleavings"], "all arguments and redirections, all histories of spawning, waiting, dropping and collecting",
  "Lost results, duplicated output and zombies need a failing attempt, a collection or another child finishing at the right moment.",
  ["modules/kos_mod_os.c"],
  [("spawning", "modules/kos_mod_os.c spawn, find_program, redirect_io"), ("waiting and reaping", "modules/kos_mod_os.c wait_for_child, release_pid, destroy_zombies")],
  "runtime monitor inside the spawned program plus exactly-once checks of statuses over process histories, zombies counted from /proc, under ASan/UBSan",
  "Held on the histories which occurred in the run; processes of other operating systems are not covered.")
P("C30", "Sockets deliver the bytes sent, in order and once, and report ends exactly",
  "Over a connection, the receiver gets exactly the bytes sent, in order, however both sides cut them, blocking or not, and then the end; peeking leaves them. A datagram arrives whole (cut at the requested size) with its sender's address and port. Waiting, options, addresses and failures are reported as documented, and sockets which are closed or no longer referenced are released.",
  ["inputs", "histories", "interleavings"], "all divisions of streams into sends and receives, all histories of datagrams and options, from several threads",
  "Tests send one short message per kind of socket; partial transfers, non-blocking modes, peeking, ends and concurrent connections are not sampled.",
  ["modules/kos_mod_net.c"],
  [("transfers", "modules/kos_mod_net.c kos_recv, kos_recvfrom, send_loop, send_one_object, kos_wait"), ("connections", "modules/kos_mod_net.c kos_accept, kos_connect, kos_close"), ("addresses", "modules/kos_mod_net.c get_address, address_to_string, kos_getaddrinfo")],
  "byte-stream and datagram monitors over the loopback interface, with threads and with an independent peer, under ASan/UBSan",
  "Held on the transfers run over loopback; out-of-band data, SO_REUSEPORT (ignored by design on Linux) and descriptors beyond FD_SETSIZE are not judged.")
P("C31", "Backtraces name the function, file and line of every active call",
  "For every exception, thrown by a statement or by a failing operation, the backtrace lists every active call from the innermost to the start of the program or thread: the function's name, its file, and the line of the statement being executed. Caught, uncaught and rethrown exceptions and debug.backtrace() report the same frames.",
  ["programs"], "all chains of calls of all kinds of functions over several files, with any statements before and after the calls",
  "Tests look at a few short functions; lines after long or unusual statements, jumps and deferred code, and nested frames of generators, constructors and natives are combinations they do not reach.",
  ["core/kos_compiler.c", "core/kos_module.c", "core/kos_stack.c", "core/kos_utils.c", "modules/debug.kos"],
  [("line table", "core/kos_compiler.c add_addr2line, append_frame"), ("lookup", "core/kos_module.c KOS_module_addr_to_line, KOS_module_addr_to_func"), ("frames", "core/kos_stack.c wrap_exception"), ("printing", "core/kos_utils.c KOS_format_exception")],
  "reference-model monitor: frames of real backtraces against the lines at which the generator put the calls, under ASan/UBSan and forced garbage collection",
  "Held on the programs run; within a statement of several lines any line from its first to the call's is accepted, and frames of native functions and of the base module are not judged.")
