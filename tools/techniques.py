# per property: (technique, level note) for the MANIFEST, HOW for DESIGN.md
MB = 'model-based runtime monitoring of generated programs under ASan+UBSan'
NOTE = 'Held on the executions explored (counts in the evidence). Trusts the Python model of the documented behaviour, the sanitizers and clang -fwrapv.'
T = {
 'C12': ('runtime monitoring of the compiler under ASan+UBSan on mutated, limit and random sources, outcome and recovery checked by an online session monitor', 'Held on the sources explored (counts in the evidence). Positions are checked to lie in the source, not to be the best ones.'),
 'C08': ('sanitizer monitoring (ASan+UBSan) of hostile generated programs in long sessions with a canary', 'Held on the executions explored (counts in the evidence). Native stack exhaustion by very long linked lists is out of the explored range.'),
 'C11': ('runtime monitoring of the compiler under ASan+UBSan: verdict and message position of every compilation compared with a model of the typing rules', 'Held on the programs judged (counts in the evidence). Trusts the Python model of the documented rules.'),
 'C04': ('differential runtime monitoring: the same generated programs on the interpreter and as precompiled code, event logs compared, under ASan+UBSan', NOTE),
 'C05': ('runtime monitoring of object lifetimes: event log of DESTROY and live-block counter against an ownership model, under ASan+UBSan', NOTE),
 'C06': ('runtime monitoring of weak references against a model heap, under ASan+UBSan', NOTE),
}
T['S02'] = ('runtime monitoring of native code: random native-API scripts in lock step with a model of values, reference counts and mortal scopes, under ASan+UBSan', NOTE)
T['S05'] = ('runtime monitoring of compile sessions: worlds of compilers, failing and succeeding compiles, event log and reflection dumps against a model, under ASan+UBSan', NOTE)
T['S01'] = ('thread stress with delay injection at the locks of the runtime, under ThreadSanitizer and under ASan, with exactly-once, exclusion and count monitors', 'Held on the schedules explored (counts in the evidence); reading a weak reference while another thread destroys its target is not judged (nothing documents it). One known finding.')
T['S03'] = ('model-based runtime monitoring of random histories over the exchange API in the real perl, SPVM.xs and the core under ASan+UBSan', 'Held on the histories explored (counts in the evidence). Trusts the Perl-side model of the documented conversions; on the Perl side only SPVM objects are watched for leaks, not Perl scalars.')
T['S04'] = ('differential monitoring: generated programs built by the real spvmcc (a part of the executables under ASan+UBSan) against the direct run and the values the generator knows', 'Held on the programs explored (counts in the evidence). Only zero and non-zero exit status are told apart; the last stack-trace lines (the bootstrap, Perl) differ by nature and are not compared.')
T['S07'] = ('monitoring of random build histories with fault injection at the compiler and linker: the values a program prints and the log of compiler runs against the versions of its inputs', 'Held on the histories explored (counts in the evidence). Headers outside the native folders (system headers) and a power loss in the middle of a file being written by the compiler itself are not judged.')
T['S08'] = ('monitoring of real spvmdist, make and perl runs in random worlds against a model of the file set, of file ownership and of the values the installed class gives; stand-ins for the compilers record any run of theirs', 'Held on the worlds explored (counts in the evidence). Class names and options are sampled; an edit within the same second as the previous build is not judged (MakeMaker copies file times in whole seconds); --no-pm-file and --only-lib-files give no distribution that can be made and are judged by their files only.')
T['C14'] = (MB, NOTE)
NA = {}
FINDINGS = ''
HOW = {
 'S08': 'Each world draws a class name of one to three parts, every option of spvmdist, a user name and email (quotes, backslashes, sigils) and an output folder. The real command runs in a scratch folder; the tree it leaves is compared with a model of the file set and the places names must appear in. The user then changes, empties, deletes and adds files: a second run must keep every existing file bit for bit and make only the missing ones, a run with --force restores exactly the first tree and touches nothing else, --quiet prints nothing, illegal arguments leave an empty folder. In development worlds plain, precompiled (with anonymous methods) and native methods with a header, an extra source and a config flag - or a resource used by the test class - are added; Makefile.PL, make, make test and make install run, the distribution is hidden, and a process in another folder whose PATH begins with stand-ins that record and fail every compiler call prints the version and values of the installed class. Then one input at a time is edited, made, tested, installed and run again; make clean must leave no product. Reach: option sets times prior contents times edits, where the tests look at a dozen fixed sets and never install. Found: --quiet ignored; a quote in the user name or email gave a Makefile.PL that does not parse (both fixed).',
 'S04': 'Each generated program (1 to 5 modules with dependencies, inheritance, interfaces, multi-numeric types, INIT blocks, destructors that may die, precompiled methods and anonymous methods, native classes with config, header and extra source, string literals, comments and POD made of every kind of character that C, Perl or printf could misread, odd script and folder names, #lib directives, program, mode and exe configs, --optimize) is run by `spvm` and built by the real `spvmcc` from a scratch build of the distribution; the executable then runs from another folder, half of the time after the sources and the build folder are removed, with odd arguments. Output, error report and success must be the same, and arguments, program name, literals, INIT counts and native results must be what the generator computed. A quarter of the executables is compiled with ASan+UBSan. A second probe throws errors of 80 different error IDs. `drv/ccw/ccw` stands in for the compiler to cache equal compilations.',
 'S07': 'A small project (class with native source, headers, sub-folder header, extra source files, config that loads another file, a resource with its own config, headers and arguments, a precompiled class that depends on another class, exe configs with modes) whose every input carries a version number that the program prints. A history is a random series of edits (also within one second, with equal length, files added and removed, renamed methods, options), broken edits, injected compiler and linker failures, kills of the build at a random compiler run, full disks (file size limit) and removed outputs, each followed by a build by `spvm` (JIT) or `spvmcc`: a build that succeeds must print the current version of everything, one that must fail has to fail, and after a build of an unchanged project no compiler run may appear in the log kept by the stand-in `drv/ccw/ccw`.',
 'C14': 'Random worlds of numeric variables, class variables, fields of every numeric type, multi-numeric variables and arrays of 36 types (1 to 8 fields of each numeric type), numeric arrays of one to three dimensions with aliased rows, and references to them; each step copies, exchanges, passes (by value among mixed arguments, by reference, through recursion), returns, re-aims a reference, replaces, copies or aliases an array, or accesses out of range; the whole state is printed every few steps and compared with a Python model, so a write to a neighbour, a lost field or a shared copy shows. Float and double values are compared as bit patterns. Interpreter and precompiled code.',
 'S03': 'The module is built in a scratch folder as `perl Makefile.PL && make` does, plus a second SPVM.so (SPVM.xs and the core) with ASan+UBSan. `drv/xs/run.pl` runs random histories: class and instance calls over methods of every parameter and return type (numbers of all widths at and beyond the limits, strings with NUL and UTF-8, nested and multi-dimensional arrays, multi-numeric values and references, boxed objects, class and interface objects, Perl array references and blessed ones, undef, optional arguments, too few/many/wrong arguments, dying methods), the array constructors and accessors of SPVM::BlessedObject::Array and ::String, new_*_array, class variables and nested calls; a model on the Perl side gives the expected value or message, the identity of objects, which are held from Perl and from SPVM, and the number of live objects; DESTROY of each object is awaited exactly when the last holder goes, and all are gone at the end.',
 'S01': 'Rounds of 2 to 8 native threads with a stack each on one environment run a random mix of twelve operations (`drv/thr`): create, link, destroy, hold shared objects, weaken/unweaken many fields to one shared target, pass and return, exceptions, Sync::Mutex writers and readers, exchanging objects through guarded slots, strings, standard classes, and several threads dropping the last references of the same objects. The runtime runs once under ThreadSanitizer and once under ASan+UBSan; the locks (linked with --wrap) and the entries assign_object, inc/dec_ref_count, weaken and calls are delayed at random with a seeded generator. Monitors: DESTROY exactly once per object and never for a held one, weak references of destroyed objects undef after the join, reference counts of shared objects and the number of live blocks as computed, writers alone / readers together (all readers must be able to meet inside) / no lost update, every thread ends. Distinct schedules (order of lock acquisitions) are counted in the evidence. A directed probe holds a returning method in the window of the known finding.',
 'S02': 'Two workloads. (1) Random scripts of native-API operations run by a native method (`drv/nat/nat.c`) in lock step with a Python model (`lib/natmodel.py`): creating, copying, reading and writing fields, class variables, elements, strings, weak references, exceptions, nested scopes, nested calls native to SPVM to native, new stacks; after each step the result, after each script the reference count of every object and the number of live blocks are compared. (2) Calls through Native::MethodCall generated by `lib/mcall.py`: every parameter type, boxed values per the documented conversions, wrong types, undef, lengths, too few/many arguments, wrong names, references written back, other environments and stacks. ASan+UBSan watch both.',
 'S05': 'Random worlds of one to three compilers alive in one process (session mode of the driver): classes with dependencies, parents, interfaces, INIT blocks and class variables are compiled in random order, also in variants that fail in each stage (lexer, parser, name resolution, type check, missing dependency), with the sources given in memory or, in half of the worlds, as files on disk that are broken and repaired between the compiles; after each step the model predicts success or failure, that messages belong to the failing compile only, which INIT blocks run (each once), the outputs of calls on the classes that existed before, and anonymous-class numbering; reflection dumps of an existing class must stay identical. Some methods compile further anonymous classes (some failing) through Native::Compiler while they run and then use their own locals, objects and classes.',
 'C01': 'Every operator x every pair of operand types x a grid of edge values (0, ±1, type limits, NaN, infinities, subnormals) plus random ones, in variables, constants, fields, array elements and compound assignments; the results (integers, or the bit patterns of floats) are compared with `lib/num.py`, an independent model of promotion, wrapping and IEEE rounding. Both engines.',
 'C02': 'Every string operator and conversion on pools of byte strings (empty, NUL bytes, UTF-8, long) and all number types, results compared with a Python byte-string model: concatenation, comparison, length, character access and assignment, copy, read-only and mutable casts, number-to-string and string-to-number, byte[] conversions; hidden NUL byte and aliasing observed by a native monitor. Both engines.',
 'C03': 'Random programs of nested control structures (`lib/progen.py`, executed by a Python interpreter of the documented semantics in `lib/progcheck.py`) that log every evaluated operand and statement; conditions of every type; both engines.',
 'C04': 'The programs of C03, C05 and C07, the directed catalogue `lib/stmts.py` (every operation x operand types x good, boundary and faulting operands), `lib/literals.py` and `lib/scopes.py`: logs, exceptions, ids, destructions and live blocks of interpreter and precompiled code must be equal - and equal to the model where there is one. Random subsets of the classes are precompiled.',
 'C05': 'Programs that create, store, overwrite, pass, return and drop objects in every kind of place, left by every kind of exit (`lib/progen.py`, `lib/scopes.py`); the order of DESTROY lines and the live-block count at each step are compared with the ownership model.',
 'C06': 'Histories of weaken, unweaken, isweak, reassign, copy and release on a population of nodes with several weak fields, against a model heap; after each step fields, isweak and reference counts are compared.',
 'C07': 'Nests of calls, evals, dies of every kind (message, object-less, with id, native exceptions, runtime faults, deep recursion, DESTROY) with the expected message, id and stack trace (class, method, file, line) computed by the generator.',
 'C12': 'The real compiler (ASan, UBSan, LeakSanitizer-style block counts) in long sessions: the sources of the repository and correct generated programs as they are and mutated at token, type, line and byte level, deep nesting, limit texts, random words and bytes. Monitors: ends within the time, accepted or messages with file and line inside the text; the same outcome in a second compiler that compiled something else before; afterwards the same compiler compiles and runs a correct class and the repaired text; freeing the compiler gives all of its blocks back.',
 'D01': 'Operation histories on the eight list classes against a Python list; contents, length, capacity bound, exceptions, element release (reference counts) after each operation.',
 'D02': 'Operation histories on Hash against a dict, with colliding and growing key sets, binary keys, weak values and typed getters.',
 'D03': 'Operation histories on StringBuffer against a bytearray, earlier strings re-read at the end.',
 'D04': 'Each Fn string, number and UTF-8 function on generated byte strings and edge arguments against Python models; all code points in the thorough tier.',
 'D05': 'Array and Fn memory functions x element types x offsets and lengths inside, at and beyond the bounds, overlapping ranges; contents of source and destination and ownership after each call.',
 'D06': 'Sort and Fn sort functions x element types x ranges x comparators (also throwing and inconsistent ones); permutation, order, stability, untouched rest, reference counts.',
 'D07': 'sprintf of generated templates with every specifier, flag order, width and precision against an independent printf model; wrong, missing and extra arguments; invalid specifiers.',
 'D08': 'pack and unpack of generated templates against a layout model, round trips, cut data, wrong and missing objects, invalid templates.',
 'D09': 'Random object graphs (all field types, nested arrays, sharing, cycles through fields and arrays, weak fields) whose dump is compared line by line with the graph; copy of every array type and string, cloners, immutable lists, comparators and equality checkers on generated pools: values, addresses, independence after changes.',
 'C08': 'Hostile but accepted programs under ASan+UBSan: the directed catalogue `lib/stmts.py` and the compile-accepted mutants of it, and generated wild programs (`lib/wild.py`) that push every operation, standard class method and native method to limits (undefined objects, extreme indices, lengths and sizes, huge allocations under a memory limit, deep recursion, objects changed while in use). Monitors: no sanitizer report, no assertion, no lost process; the method ends normally or with an exception, and a canary class gives its known output afterwards in the same process.',
 'C09': 'Random worlds of classes, interfaces and arrays; every value of a pool is cast, stored, passed, `isa`/`is_type`/`isa_error`/`can` tested against every type; result, exception, id and `type_name` are compared with a model of the documented run-time assignability. Both engines.',
 'C10': 'Random class trees (`lib/dispatch.py`): overriding, SUPER, named and interface calls, args_width and default values, fields and class variables by inheritance, INIT order, closures and long argument lists, each dispatch logged and compared with the model. Both engines.',
 'C11': 'About 23 000 small programs per run: every assignment place x pair of types, every operator x operand types, casts, conditions, access control, inheritance and declaration rules, judged by `lib/tymodel.py`, an independent model of the documented compile-time rules; a rejection must carry a message that names the line of the offending construct; what is accepted must leave the compiler intact.',
 'S06': 'Generated programs with every kind of class and member (attributes, accessors, optional arguments, multi-numeric types, interfaces, inheritance, enumerations, anonymous methods), compiled in several orders and read back twice: through the C API by `drv/driver.c` (every table by index and by name, types, flags, default values, stack indices, offsets, super classes, interfaces) and through the Native:: classes by an SPVM program; both readings are compared with the declaration, and unknown names and indices must not be found.',
 'C13': 'Generated numeric, character, string, single-quoted and here-document literals with their values computed in Python, in every kind of place; interpolations; expression trees printed with the fewest and with all parentheses (both must equal the model); position keywords under line and file directives; fat commas; invalid and out-of-range literals must be rejected. Both engines.',
}
