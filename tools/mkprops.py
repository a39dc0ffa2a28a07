#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
B = 'lib/SPVM/Builder/src/'
I = 'lib/SPVM/Builder/include/'
L = 'lib/SPVM/'
def P(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook))
props = []
A = props.append

# ------------------------------------------------------------------ language core
A(P('C01', 'Numeric operators, comparisons and conversions give the documented value',
 'For every operand value and every numeric type, the arithmetic, unsigned division/remainder, bitwise, shift, comparison, increment and compound-assignment operators return the documented result: operands are promoted to the binary numeric type, integer results wrap in two\'s complement, floating results are the IEEE result of that type. Integer division or remainder by zero throws an exception instead of stopping the process. Implicit widening and explicit numeric casts give the value C gives for that cast, and boxed numeric objects hold and return exactly the value put in.',
 ['inputs', 'programs'], 'all operand values of byte, short, int, long, float, double; all operators; constants and variables; both execution engines',
 't/02_vm samples a handful of operand pairs per operator; the result must be right for all values, in particular boundary values, sign combinations and type pairs',
 [B+'spvm_opcode_builder.c', B+'spvm_vm.c', B+'spvm_precompile.c', B+'spvm_check.c', I+'spvm_implement.h'],
 [('opcode selection by promoted type', B+'spvm_opcode_builder.c'), ('SPVM_IMPLEMENT_DIVIDE_*, REMAINDER_*, *_TO_*', I+'spvm_implement.h'), ('promotion of operands', B+'spvm_check.c')],
 ['output of generated SPVM programs run on the VM and as precompiled code']))
A(P('C02', 'Built-in string operations agree with byte-string semantics',
 'Concatenation, length, character access, the string comparison operators, copy, number-to-string conversion, string-to-number conversion, read-only/mutable handling and string-from-byte[] conversions behave as operations on arbitrary byte strings, including empty strings and strings containing NUL bytes. Every string is followed by a hidden NUL byte, a string literal or constant can never be changed by the program, and a result never aliases an operand except where documented.',
 ['inputs', 'programs'], 'all byte strings (any length, any bytes), all numbers converted to strings and back',
 'tests use a few ASCII literals; the quantifier is over all byte contents and lengths',
 [B+'spvm_api.c', B+'spvm_vm.c', I+'spvm_implement.h', B+'spvm_opcode_builder.c'],
 [('SPVM_API_concat, SPVM_API_new_string', B+'spvm_api.c'), ('SPVM_IMPLEMENT_STRING_EQ..CMP, *_TO_STRING, STRING_TO_*', I+'spvm_implement.h')],
 ['output of generated SPVM programs', 'AddressSanitizer on the runtime']))
A(P('C03', 'Control flow follows the source: branches, loops, switch, eval, return',
 'For every program, if/elsif/else/unless, while, for, for-each, switch/case/default/break, next, last, return, eval blocks, the short-circuiting &&, ||, ! and the assignment/sequential operators, arbitrarily nested, execute exactly the statements the documented semantics prescribe, in that order, evaluating each operand once and left to right. Conditions of every type (integers, floats, strings, objects, undef, Bool) are true or false as documented.',
 ['programs'], 'all nestings of control statements and conditions',
 'tests exercise each construct alone; compositions (a next inside a switch inside an eval inside a for) are unbounded',
 [B+'spvm_opcode_builder.c', B+'spvm_check.c', B+'spvm_op.c', B+'spvm_precompile.c', B+'spvm_vm.c'],
 [('goto stacks for if/loop/switch/eval', B+'spvm_opcode_builder.c'), ('condition lowering', B+'spvm_op.c'), ('LOOKUP_SWITCH', B+'spvm_vm.c')],
 ['trace printed by generated programs, compared with a reference interpreter']))
A(P('C04', 'Precompiled code is observationally equal to the interpreter',
 'A program whose classes (any subset) have the precompile attribute produces the same output, the same exceptions with the same messages and error ids, the same object destructions in the same order and leaves the same number of live objects as the same program run by the virtual machine.',
 ['programs', 'inputs', 'configurations'], 'all programs; every subset of classes precompiled',
 't/03_precompile reruns the fixed VM tests; the code generator must be right for every opcode in every context (registers shared among temporaries, error paths out of each scope)',
 [B+'spvm_precompile.c', B+'spvm_vm.c', I+'spvm_implement.h', L+'Builder/Native/'],
 [('SPVM_PRECOMPILE_build_method_source', B+'spvm_precompile.c'), ('SPVM_VM_call', B+'spvm_vm.c')],
 ['event logs of the same generated program in each mode']))
A(P('C05', 'Objects are destroyed exactly once, when the last strong reference goes',
 'An object (and everything it owns) is alive as long as it can be reached through strong references from variables, fields, array elements, class variables or pending temporaries, and is destroyed - its DESTROY run exactly once, before its fields are released - no later than the end of the scope that held the last reference, whether that scope is left normally, by return, last, next or an exception. When a program without reference cycles ends, every object has been destroyed and no memory block is left.',
 ['programs', 'histories'], 'all sequences of creation, aliasing, assignment, element/field store, capture, call, return, exception',
 'tests count blocks around hand-written snippets; ownership must be right on every path out of every scope',
 [B+'spvm_api.c', B+'spvm_vm.c', B+'spvm_opcode_builder.c', B+'spvm_precompile.c', I+'spvm_implement.h'],
 [('SPVM_API_assign_object / dec_ref_count / inc_ref_count', B+'spvm_api.c'), ('LEAVE_SCOPE / mortal stack', B+'spvm_vm.c'), ('scope bookkeeping of object variables', B+'spvm_opcode_builder.c')],
 ['DESTROY events of generated programs against a reachability model', 'Native::get_memory_blocks_count-equivalent at quiescent points', 'AddressSanitizer'],
 state=[('ref_count', 'number of strong references', I+'spvm_object.h'), ('memory_blocks_count', 'live blocks', B+'spvm_api.c')]))
A(P('C06', 'Weak references never keep alive, never dangle',
 'A weakened field does not keep its object alive; when the object is destroyed every weak field that referred to it - and no other field - reads as undef, whatever the number of weak fields and the order in which they were weakened, reassigned, unweakened or destroyed themselves. isweak reports the current state, and unweaken makes the reference strong again.',
 ['histories', 'programs'], 'all histories of weaken, unweaken, isweak, copy, store, destroy over an object graph',
 'tests weaken one or two fields; back-reference lists of any length and order of removal are the real case',
 [B+'spvm_api.c', B+'spvm_vm.c'],
 [('SPVM_API_weaken, unweaken, isweak, free_weaken_back_refs', B+'spvm_api.c')],
 ['weak reads and DESTROY events against a heap model', 'AddressSanitizer'],
 state=[('weaken_backref_head', 'list of the fields that weakly refer to the object', I+'spvm_object.h')]))
A(P('C07', 'Exceptions carry the right value, id and stack trace and unwind cleanly',
 'An exception thrown at any depth is caught by the innermost enclosing eval and by no other, with the thrown message and error id; code after the throw does not run; $@ holds the message followed by one line per frame naming the class, method, file and line actually executing; each eval block starts with $@ undefined and error id 0, so the id is 0 after an eval block into which no exception was thrown. Exceptions from runtime faults, natives and called methods behave the same, an exception in DESTROY does not disturb the exception in flight, and unbounded recursion throws instead of crashing the process.',
 ['programs', 'fault_sequences'], 'all throw sites, nestings of eval, call depths, error ids and message contents',
 'tests check one message in one frame; line and frame attribution must be right at every site',
 [B+'spvm_vm.c', B+'spvm_opcode_builder.c', B+'spvm_api.c', B+'spvm_precompile.c'],
 [('SPVM_API_die / set_exception / call_method_common', B+'spvm_api.c'), ('goto_if_exception, RETURN/END_EXCEPTION handling', B+'spvm_opcode_builder.c')],
 ['exception text and id seen by the program and by the embedding driver'],
 state=[('error_id', 'id of the exception in flight', B+'spvm_api.c')]))
A(P('C08', 'Any accepted program runs memory-safely; run-time faults become exceptions',
 'No program the compiler accepts - without native code of its own - can read or write out of bounds, use freed memory, dereference null or otherwise corrupt or stop the process: every run-time fault (undef invocant, undef array or string, index out of range, negative or huge length, wrong argument) raises an exception at that operation and leaves all other state unchanged and usable. The same holds for the arguments given to the methods of the bundled classes.',
 ['programs', 'inputs', 'fault_sequences'], 'all accepted programs and all argument values, in particular undef, negative, boundary and huge ones',
 'tests try one bad argument per method at best; safety is a statement about all argument tuples and is invisible without a sanitizer',
 [B+'spvm_vm.c', B+'spvm_api.c', I+'spvm_implement.h', B+'spvm_precompile.c', L+'Fn.c', L+'Array.c', L+'Format.c', L+'Hash.c', L+'Native.c'],
 [('bounds and undef checks in SPVM_IMPLEMENT_*', I+'spvm_implement.h'), ('argument checks of the native methods', L+'Fn.c')],
 ['AddressSanitizer and UBSan on runtime, natives and precompiled code', 'exceptions seen by the caller']))
A(P('C09', 'The run-time type of a value always matches the type it is used at',
 'A cast, assignment to an array element, argument or return value that the compiler lets through with a run-time check succeeds exactly when the run-time type is assignable to the target type, and otherwise throws without storing anything. isa, is_type, is_compile_type, isa_error and type_name answer according to the documented assignability relation over classes, interfaces, arrays of any dimension, boxed numbers, strings, undef and any-object types; a read-only string, and every string literal, can never be cast to a mutable string, and a string literal never changes.',
 ['inputs', 'programs'], 'all pairs of (run-time type, target type), all dimensions, read-only or not',
 'the relation is a product of type kinds; tests pick a few pairs',
 [B+'spvm_api.c', B+'spvm_type.c', B+'spvm_vm.c', I+'spvm_implement.h'],
 [('SPVM_API_isa / can_assign at run time', B+'spvm_api.c'), ('SPVM_TYPE_can_assign', B+'spvm_type.c'), ('TYPE_CONVERSION / CHECK_READ_ONLY', I+'spvm_implement.h')],
 ['results and exceptions of generated casts, stores and queries against a model of assignability']))
A(P('C10', 'Method dispatch, inheritance, interfaces and defaults bind correctly',
 'An instance call runs the method of the nearest class of the object\'s run-time class chain, a static or SUPER:: or Class->method call exactly the named one, an interface call the implementing one; can answers whether such a call would work. Arguments arrive in order with omitted optional ones taking their defaults, args_width reports how many were given, fields of every type at every inheritance level are distinct storage with documented initial values, closures capture values at creation, and class variables and INIT blocks are initialised once, before use.',
 ['programs', 'inputs'], 'all class hierarchies, field layouts, override patterns, argument counts and types',
 'tests use fixed hierarchies of depth two or three with few fields; layout and dispatch are functions of the whole hierarchy',
 [B+'spvm_check.c', B+'spvm_api.c', B+'spvm_opcode_builder.c', B+'spvm_vm.c', B+'spvm_op.c'],
 [('field offsets and method tables', B+'spvm_check.c'), ('SPVM_API_get_instance_method*', B+'spvm_api.c'), ('INIT ordering', B+'spvm_check.c')],
 ['output of generated class hierarchies against a model of dispatch and layout']))
A(P('C11', 'The compiler accepts exactly the type-correct programs',
 'For every pair of types and every construct (assignment, cast, operator, condition, argument, return, field or element access, die, isa, for-each) the compiler accepts the program if and only if the documented typing rules allow it, and every violation of access control (private, protected, public for classes, methods, fields and class variables, allow), undeclared name, redeclaration, missing required method, incompatible override or wrong argument count is a compile error naming the offending file and line. An accepted program never fails an internal assumption at run time.',
 ['programs'], 'all pairs of types per construct; all access-control and declaration combinations',
 'tests assert selected errors; the accept/reject relation is a large product and both directions matter',
 [B+'spvm_check.c', B+'spvm_type.c', B+'spvm_op.c', B+'spvm_compiler.c'],
 [('SPVM_TYPE_can_assign, SPVM_CHECK_check_*', B+'spvm_check.c'), ('access control checks', B+'spvm_check.c')],
 ['accept/reject verdict and message of the real compiler for generated one-construct programs']))
A(P('C12', 'The compiler survives any source text and reports errors with positions',
 'For any byte string given as a class source, compilation ends: it either succeeds or reports at least one error with a file and a line inside that source, without crashing, reading out of bounds, hanging or leaking the compiler\'s memory, and the same compiler and runtime can compile and run other classes afterwards. Compiling the same text twice gives the same outcome.',
 ['inputs', 'histories'], 'all byte strings as source text; all sequences of failing and succeeding compilations',
 'tests feed well-formed sources with one deliberate error each',
 [B+'spvm_toke.c', B+'spvm_yacc.c', B+'spvm_op.c', B+'spvm_check.c', B+'spvm_compiler.c', B+'spvm_allocator.c'],
 [('SPVM_TOKE_yylex', B+'spvm_toke.c'), ('SPVM_COMPILER_compile and error messages', B+'spvm_compiler.c')],
 ['AddressSanitizer/UBSan/LeakSanitizer on the compiler', 'compile error messages', 'a known-good class compiled afterwards']))
A(P('C13', 'Literals, escapes, interpolation and precedence parse to their documented value',
 'Every numeric literal (decimal, hexadecimal, octal, binary, with underscores, suffixes, exponents), character literal, string literal with escapes and variable expansion, here document and current-position keyword denotes its documented value or is rejected if out of range, wherever it occurs. Operators group by the documented precedence and associativity.',
 ['inputs', 'programs'], 'all literals and all operator combinations',
 'tests cover one literal of each shape; off-by-one range checks and escape decoding need systematic values',
 [B+'spvm_toke.c', B+'spvm_yacc.c', 'yacc/spvm_yacc.y', B+'spvm_op.c'],
 [('number, character and string tokenising', B+'spvm_toke.c'), ('%left/%right table', 'yacc/spvm_yacc.y')],
 ['value printed by generated programs against an independent parser of the literal']))
A(P('C14', 'Multi-numeric values, references and typed arrays keep each field intact',
 'Multi-numeric values are copied by value into and out of variables, arrays, arguments and return values; numeric and multi-numeric references read and write exactly the variable, element or field set they refer to; arrays of every element type, including multi-dimensional arrays, array literals and option-style initialisers, store and return each element unchanged and leave neighbours untouched.',
 ['programs', 'inputs'], 'all element types, field counts, lengths, indices and values',
 'tests use Complex_2d and Point_3b with small indices; width and stride handling must hold for every type and index',
 [B+'spvm_opcode_builder.c', B+'spvm_vm.c', I+'spvm_implement.h', B+'spvm_check.c', B+'spvm_api.c'],
 [('GET/SET_MULNUM_*, ARRAY_FIELD, *_DEREF opcodes', I+'spvm_implement.h')],
 ['output of generated programs against a model of the storage', 'AddressSanitizer']))

# ------------------------------------------------------------------ bundled classes
A(P('D01', 'Lists behave as sequences under every operation history',
 'List, IntList, ByteList, ShortList, LongList, FloatList, DoubleList and StringList behave, for every sequence of push, pop, shift, unshift, insert, remove, replace, get, set, resize, reserve, to_array, as the mathematical sequence of the same operations: the contents and length are those of the model, capacity never falls below length, an illegal operation throws and changes nothing, and elements removed are no longer kept alive.',
 ['histories'], 'all operation sequences and arguments',
 'tests do one short history per method; growth, shift offsets and element release depend on history',
 [L+'List.spvm', L+'IntList.spvm', L+'ByteList.spvm', L+'ShortList.spvm', L+'LongList.spvm', L+'FloatList.spvm', L+'DoubleList.spvm', L+'StringList.spvm', L+'Immutable/'],
 [('_maybe_extend, insert, remove, replace', L+'List.spvm')], ['contents after each operation against a sequence model', 'DESTROY events of elements']))
A(P('D02', 'Hash behaves as a map from byte-string keys under every history',
 'For every sequence of set, get, exists, delete, keys, values, to_array, copy, weaken, typed getters/setters and default getters, a Hash behaves as a finite map keyed by byte strings: no key is lost, duplicated or confused with another, whatever the number of keys, hash collisions or growth steps; key and value counts agree, typed getters reject values of another type, and deleted values are released.',
 ['histories', 'inputs'], 'all operation sequences over all keys, including colliding, empty and NUL-containing keys',
 'tests use a few keys; rehashing and bucket chains need many keys and deletions in every chain position',
 [L+'Hash.spvm', L+'Hash.c', L+'Hash/Entry.spvm'],
 [('_maybe_extend_entries, _rebuild_entries', L+'Hash.spvm'), ('murmur hash', L+'Hash.c')], ['results of each operation against a map model', 'DESTROY events of values']))
A(P('D03', 'StringBuffer behaves as an editable byte string under every history',
 'For every sequence of push, push_char, replace, reserve, set_length, set, to_string, clone, cmp and eq, a StringBuffer\'s contents equal the byte string obtained by the same edits, its length never exceeds its capacity, illegal offsets and lengths throw without changing it, and a string returned earlier is not changed by later edits.',
 ['histories', 'inputs'], 'all edit sequences and byte contents', 'tests do one or two edits with ASCII text',
 [L+'StringBuffer.spvm'], [('_maybe_extend, replace', L+'StringBuffer.spvm')], ['contents after each edit against a byte string model', 'AddressSanitizer']))
A(P('D04', 'Fn string and UTF-8 functions compute their documented results',
 'For every byte string and argument values, the Fn functions on strings (case conversion, trimming, split, join, index, rindex, contains, substr, replace_chars, repeat, tr, hex, character classes, reverse, comparison of ranges), on numbers in strings (to_int, to_long with base, to_float, to_double), on UTF-8 (ord, chr, get_code_point, to_code_points, to_utf8_chars, utf8_length, utf8_substr) and on integers (powi, powl, abs, labs) return the documented value or throw the documented exception. Encoding and decoding of code points are inverse on all valid UTF-8 and invalid UTF-8 is never accepted as valid.',
 ['inputs'], 'all byte strings, all code points, all offsets and lengths', 'tests give a few examples per function; boundaries (empty, ends of range, overlong and truncated UTF-8) need systematic inputs',
 [L+'Fn.spvm', L+'Fn.c', L+'Fn.native/src/', B+'spvm_utf8.c'],
 [('Fn methods', L+'Fn.spvm'), ('get_code_point, _chr_native', L+'Fn.c')], ['results on generated inputs against independent reference functions', 'AddressSanitizer']))
A(P('D05', 'Array and Fn memory functions copy, compare and set exactly the stated range',
 'copy, equals, memcpy, memmove, memset, merge, repeat, slice, reverse, shuffle, to_array and to_object_array functions of Array and Fn, for every element type, offset and length, affect exactly the stated elements with the stated values (overlapping ranges included), reject every range that is not inside the array, keep the elements\' ownership right, and never modify their sources.',
 ['inputs', 'histories'], 'all element types, lengths, offsets, overlaps', 'tests use arrays of three elements and one offset',
 [L+'Array.spvm', L+'Array.c', L+'Fn.c', L+'Fn.spvm'], [('Array methods', L+'Array.spvm'), ('memcpy/memmove natives', L+'Array.c')],
 ['array contents after each call against a model', 'AddressSanitizer', 'live block counts']))
A(P('D06', 'Sorting yields the sorted permutation of exactly the given range',
 'Every Sort and Fn sort function leaves the array a permutation of its elements in which the given range is ordered by the given comparator, elements outside the range are unchanged, equal elements keep their relative order, an exception thrown by the comparator reaches the caller with the array still holding the same objects, and a range outside the array is rejected.',
 ['inputs', 'fault_sequences'], 'all arrays, comparators, offsets, lengths; exception at every comparison', 'tests sort one array per type',
 [L+'Sort.spvm', L+'Comparator.spvm'], [('_merge_sort / _merge', L+'Sort.spvm')], ['array contents after the call against a stable-sort model']))
A(P('D07', 'Formatting follows its template for every value',
 'Format and Fn sprintf replace every specifier (%c %d %u %x %X %f %g %s %p %%, long variants, with flags, width and precision) by the text C\'s printf gives for that value, copy everything else, and throw on missing arguments, arguments of the wrong type or invalid specifiers.',
 ['inputs'], 'all templates and argument values', 'tests use about one value per specifier and flag',
 [L+'Format.spvm', L+'Format.c'], [('sprintf template loop', L+'Format.spvm'), ('snprintf natives', L+'Format.c')], ['formatted text against an independent printf model', 'AddressSanitizer']))
A(P('D08', 'pack and unpack are inverse and follow the template',
 'Packer lays out values exactly as the template says (type, size, count, endianness), unpack returns the values packed for every template and value, and a template that needs more objects or bytes than are there, objects of the wrong type or unknown specifiers throw without reading outside the data.',
 ['inputs'], 'all templates, values and binaries', 'tests use one template per specifier',
 [L+'Packer.spvm', L+'Fn.c'], [('Packer->pack/unpack', L+'Packer.spvm')], ['binary and values against an independent struct model', 'AddressSanitizer']))
A(P('D09', 'dump, copy, cloning and equality reflect object contents',
 'dump renders every value - nested arrays, objects, strings, numbers, undef, shared and cyclic structures - completely and finitely; the copy operator, Cloner and clone methods produce an independent equal value (changes to one never show in the other, element ownership included); the bundled comparators and equality checkers are consistent total orders and equivalences; boxed-number getters return the stored value.',
 ['inputs', 'programs'], 'all value graphs', 'tests dump and copy a few shapes',
 [B+'spvm_api.c', L+'Cloner.spvm', L+'EqualityChecker.spvm', L+'Comparator.spvm', L+'Point.spvm', L+'Stringer.spvm'],
 [('SPVM_API_dump, SPVM_API_copy', B+'spvm_api.c')], ['dump text, copies and comparisons against a model of the value graph', 'AddressSanitizer']))

# ------------------------------------------------------------------ system
A(P('S01', 'Threads sharing objects see no data race in the runtime; Mutex excludes',
 'Native threads that each run SPVM code on a stack of their own in one environment can create, destroy, share, reference, weaken and pass objects concurrently without a data race, lost or duplicated destruction or corrupted count in the runtime. Sync::Mutex gives mutual exclusion between lockers, allows readers together but never with a writer, and every unlock lets a waiter proceed.',
 ['schedules', 'histories'], 'all interleavings of threads', 'the tests are single-threaded, except one lock/unlock smoke test',
 [B+'spvm_api.c', B+'spvm_mutex.c', B+'spvm_api_mutex.c', L+'Sync/Mutex.c'],
 [('env mutex around ref_count, weak refs and block counts', B+'spvm_api.c'), ('SPVM_MUTEX_*', B+'spvm_mutex.c')],
 ['ThreadSanitizer reports', 'recorded lock/read/write histories', 'live counts after join']))
A(P('S02', 'The native API does what its contract says and fails cleanly',
 'Through the native API, native code can create, read, write and call every kind of value with the same results SPVM code has, by id or by name; wrong names, types, indices and argument counts are reported as errors with file and line rather than crashing; objects returned are released when the native scope is left and not before, nested scopes and calls that die leave the mortal stack balanced.',
 ['histories', 'inputs', 'fault_sequences'], 'all sequences of API calls by a native method, with right and wrong arguments', 't/08_native_api calls each function a few times with good arguments',
 [B+'spvm_api.c', L+'Native.c', I+'spvm_native.h'],
 [('push_mortal, enter_scope, leave_scope', B+'spvm_api.c'), ('call_*_by_name, get/set_field_*_by_name', B+'spvm_api.c')],
 ['values and errors seen by generated native call sequences', 'live block counts', 'AddressSanitizer']))
A(P('S03', 'Values cross between Perl and SPVM unchanged',
 'A number, string, array (nested too), boxed object or class object passed from Perl to SPVM and back through the exchange API and method calls arrives with the same value, converted by the documented rules; values that do not fit the declared type, wrong argument counts and SPVM exceptions appear as Perl exceptions with their message; and no SPVM object is leaked or freed while Perl still holds it.',
 ['inputs', 'histories'], 'all values and types in both directions, any sequence of calls', 't/04_exchange_api uses a few values per type',
 ['SPVM.xs', L+'ExchangeAPI.pm', L+'BlessedObject.pm'], [('xs call_method argument conversion', 'SPVM.xs')], ['values seen on each side of generated calls', 'live block count at the end']))
A(P('S04', 'An executable made by spvmcc behaves as the program it was made from',
 'The executable spvmcc builds from a script runs the same program as the runtime does: same output, same uncaught-exception report, an exit status that tells success from failure as that of the direct run does, with arguments, program name, class variables, INIT blocks, precompiled and native classes all available, independent of the directory it is run in and of the sources after the build.',
 ['programs', 'inputs', 'configurations'], 'all scripts, arguments and options', 't/16_spvmcc builds a few fixed programs',
 ['script/spvmcc', L+'Builder/Exe.pm', L+'Builder/CC.pm', B+'spvm_api_class_file.c'],
 [('bootstrap source generation', L+'Builder/Exe.pm')], ['exit status, stdout and stderr of generated scripts built by spvmcc against a direct run']))
A(P('S05', 'Compiling at run time is all-or-nothing and isolated',
 'Loading or compiling classes at run time (compiler objects, anonymous classes, modules) either makes the whole class usable or fails leaving every class that existed working as before; earlier objects, methods, class variables and ids keep their meaning, each class is initialised once, error messages are those of the failing compilation only, and separate compilers and runtimes do not affect each other.',
 ['histories', 'fault_sequences'], 'all sequences of successful and failing compilations interleaved with execution', 'tests compile one class at run time, or one failing class',
 [B+'spvm_compiler.c', B+'spvm_runtime.c', B+'spvm_api_compiler.c', L+'Native/Compiler.c', L+'Native.c'],
 [('SPVM_COMPILER_compile, rollback of basic types', B+'spvm_compiler.c'), ('build_runtime', B+'spvm_runtime.c')],
 ['results of classes before and after each compilation', 'compile error messages', 'AddressSanitizer']))
A(P('S06', 'Reflection tells the truth about the loaded program',
 'Every class, method, argument, field, class variable, type, access control, attribute, version and file reported by the runtime information API and Native:: classes equals what the source declares, in declaration order, lookups by name and by index agree, and unknown names are reported as missing.',
 ['programs'], 'all declarations', 'tests query a few members of fixed classes',
 [B+'spvm_api_basic_type.c', B+'spvm_api_method.c', B+'spvm_api_field.c', B+'spvm_api_class_var.c', B+'spvm_api_arg.c', B+'spvm_api_type.c', B+'spvm_api_runtime.c', L+'Native/', L+'Native.c'],
 [('SPVM_API_BASIC_TYPE_*, SPVM_API_METHOD_*', B+'spvm_api_basic_type.c')], ['reflection results for generated classes against their declarations']))
A(P('S07', 'The builder never runs stale code: a changed input is rebuilt',
 'When the source of a native or precompiled class (or of a class its precompiled code depends on), a source or header file in its native folders or in those of its resources, its configuration (with the configuration files and arguments that reach its compilation), compiler flags or optimisation change, the next build with the same build directory produces and runs the new code; when nothing changed the cached objects are reused; a failing compilation is reported as an error and leaves no artefact that a later build would take for good.',
 ['histories', 'fault_sequences', 'configurations'], 'all sequences of edits and builds', 'tests build once per class',
 [L+'Builder/CC.pm', L+'Builder/Util.pm', L+'Builder.pm', L+'Builder/Config.pm'],
 [('need_generate and object/library timestamps', L+'Builder/CC.pm')], ['output of the built class after each edit', 'compile commands executed']))
A(P('S08', 'Generated distributions build, install and run; a user\'s files are kept',
 'For every class name and every combination of its options, spvmdist writes exactly the files that belong to that kind of distribution, with the given names in them, inside the output folder only; a file that exists is left as it is unless --force is given, and illegal arguments write nothing. The distribution, as it is or after methods have been added, passes Makefile.PL, make, its tests and make install; the installed class - native and precompiled methods included - runs from anywhere without its sources, a build folder or a compiler; and after an edit of any input make and make install bring the new code.',
 ['configurations', 'histories', 'inputs'], 'all names, option sets, prior contents of the output folder and edit sequences', 'tests look at a dozen fixed option sets and never install',
 [L+'Dist.pm', 'script/spvmdist', L+'Builder/Util.pm', L+'Builder.pm', L+'Global.pm'],
 [('generate_file, generate_dist', L+'Dist.pm'), ('create_make_rule, get_dependent_files', L+'Builder/Util.pm'), ('load_dynamic_lib', L+'Global.pm')], ['files in the output folder', 'exit status of make', 'values printed by the installed class', 'compiler runs']))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in props))
print(len(props))
