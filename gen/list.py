AI = 'abstract interpretation of LLVM IR (bit-provenance/known-bits domain, interval sets, trace partitioning), no execution and no solver'

P('C01', 'Every WebAssembly instruction has its specified mnemonic and opcode',
  'For every instruction of the supported WebAssembly instruction set (core, 128-bit SIMD, bulk memory, reference types, tail calls), the compiler recognises the mnemonic, prints the same mnemonic back, and writes exactly the opcode bytes the WebAssembly specification assigns to it. No two mnemonics are confused and no string that is not a mnemonic is accepted as an instruction.',
  ['inputs'], 'all instructions of the specification tables, all immediates',
  'the tests run a few hundred of the instructions through one toolchain; a wrong opcode in a rarely used entry of a 430-entry table goes unnoticed',
  ['w.h', 'w.c'], [('instruction constants', 'w.h:IN_*'), ('mnemonic table', 'w.c:instr_name/name_instr'), ('opcode emission', 'w.c:write_wasm_module')],
  AI + '; exhaustive over the specification tables', 'every table entry is decided for all operand values; the oracle is an opcode table written from the specification',
  design='''`sa/oracle/wasm_opcodes.py` holds the specification's instruction table (name, opcode bytes, immediate kind), written independently of w.h.
For each entry: `name_instr` is analysed on the mnemonic, `instr_name` on the resulting constant (must print the mnemonic), and the whole binary writer
`write_wasm_module` on a module with that single instruction and unknown immediates; the bytes at the start of its body must be the specified opcode.
Near-miss strings must be rejected.  Cost ~10 s.''')

P('C02', 'Instruction immediates are encoded as the WebAssembly specification says',
  'In a binary module the bytes after each opcode encode the operands as specified: LEB128 indices, alignment then offset for memory accesses, sign-extended LEB128 integer constants, little-endian floating-point and vector constants, lane numbers, reserved zero bytes, and branch tables with all targets and the default. This holds for every operand value in range, and nothing else follows.',
  ['inputs'], 'all instructions, all operand values',
  'encodings depend on the magnitude and sign of operands; tests sample a handful of values',
  ['w.c', 'l.c'], [('instruction emission', 'w.c:write_wasm_module'), ('LEB128 writers', 'w.c')],
  AI + '; symbolic decoding of the emitted bytes', 'all 64-bit operand values are covered by unknown bits; branch tables for representative lengths',
  design='''The bytes after the opcode, as terms over the unknown operand, are decoded by `symdec.py` per the specification's layout for that immediate kind, on every path
(one per LEB128 length), and must give back the operand bit by bit with no byte left over.  Branch tables: lengths 0, 1, 2, 5 and 200 with unknown targets.
Cost ~15 s.''')

P('C03', 'A module written as object text reads back as the same module',
  'Compiling to an object file and linking it later gives the same program as linking directly: what the object text writer prints for a module, the object text reader turns back into the same module. This holds for every instruction whose operands the object format can hold and every value of its operands, for branch tables of any length, for functions with any parameter, result and local types, for imports and exports of every kind, for data of any bytes, and for pointer slots inside data.',
  ['inputs'], 'all instructions with an object-text operand form and all operand values; all 256 byte values; all import and export kinds',
  'a mistake in one escape, one operand form or one numeral shows only for programs that contain it, and only when they go through an object file',
  ['w.c', 'l.c'], [('object text writer', 'w.c:write_wat_module, format_inscode'), ('object text reader', 'w.c:read_wat_object_module, parse_ins')],
  AI + '; the abstract text of the writer is fed to the reader', 'numbers stay unknown inside the text, so every value is covered; decimal numerals are trusted as inverse of each other',
  design='''A module held in memory (built by `drv/wat.c` through the public headers) is pushed through `write_wat_module`
abstractly.  The text it produces is a list of items: bytes, or a numeral of an unknown (partitioned into zero, positive,
negative; one byte stands for its digits).  `read_wat_object_module` is then analysed on that text, and the module it
builds is compared with the first one, field by field and bit by bit, on every path.  Obligations: every mnemonic with an object-text form
(all operand values), call_indirect over signatures, function headers, imports and exports of every kind, all 256 bytes in data strings,
zero runs, lines of critical lengths, pointer slots.  Oracle: identity.  Excluded: forms the object format
has no text for (table.*, memory.init, typed select, ref.null), and not-a-number payloads of floating constants.  Cost ~15 s.''')

CCD = '''The compiler itself is the analysed program: `compile_module_to_wat` (lexer, parser, normalisation, constant folding, code selection,
peephole) is interpreted abstractly on a generated source file, and the object text it produces is taken from its output stream (`sa/cc.py`).
The emitted function is then interpreted abstractly by `sa/wasmev.py` with all parameters, memory contents, and call results unknown
(terms in a normal form; memory is a chain of unknown-address writes).  `sa/csem.py` states, independently of the compiler, what the C standard says the same function
does; `sa/wcmp.py` compares result, memory effects, calls and loop conditions path by path.  Different terms alone are never an alarm: a mismatch is reported only with a
concrete valuation of the unknowns on which both sides differ; otherwise the obligation counts as undecided.
'''

P('C06', 'Binary operators compute what the C standard says for all operand types',
  'For every binary operator and every pair of arithmetic operand types, the code generated for an expression applied to run-time values computes the value C prescribes: integer promotions and the usual arithmetic conversions select the type, signedness of that type selects division, remainder, right shift and comparison, the result of comparisons and logical operators is int 0 or 1, narrow results are brought back into their type. The value does not depend on whether operands are parameters, objects in memory or intermediate results.',
  ['inputs'], 'all operators, all pairs of the 13 arithmetic types, all operand values',
  'the tests exercise a few dozen of some 3000 operator and type combinations, and a wrong signedness shows only for particular values',
  ['c.c', 'p.c'], [('type of arithmetic', 'c.c:ts_arith_common, ts_arith_binary'), ('operator selection', 'c.c:compile_binary'), ('lowering and conversions', 'c.c:asm_numerical_cast'), ('local optimiser', 'c.c:fundef_peephole')],
  AI + '; equivalence of normal forms against a C reference semantics', 'every combination is decided for all operand values; division by zero and other undefined cases follow WebAssembly',
  design=CCD + '''Obligations: 18 operators x 13 x 13 types, the result converted to double so that its type shows, over parameters; plus operands in memory.  Cost ~80 s on 8 cores.''')

P('C07', 'Casts, unary operators, assignments and ?: compute what C says for all types',
  'For every scalar type, conversions by cast, assignment and return, unary + - ~ !, prefix and postfix ++ and --, compound assignments, ?:, &&, ||, ! in values and in conditions, and the comma operator compute the value C prescribes and perform their side effects exactly once and in an allowed order: narrow targets hold values of their type, bool targets hold 0 or 1, operands that are not selected are not evaluated. A float to integer conversion neither traps nor saturates for any value whose integral part the target type can represent.',
  ['inputs'], 'all operators, all operand types, all operand values',
  'each type needs its own conversion sequence; a missing extension is visible only for values that do not fit',
  ['c.c', 'p.c'], [('conversions', 'c.c:asm_numerical_cast, compile_cast'), ('compound assignment', 'c.c:compile_asncombo'), ('conditional', 'c.c:compile_cond, expr_wasmify'), ('stores', 'c.c:asm_store')],
  AI + '; equivalence of normal forms against a C reference semantics', 'every combination is decided for all operand values',
  design='''As C06, over single-construct functions: casts between all 13x13 types (used as a value, returned, and stored), unary operators on parameters and memory, increments on
locals, memory, array elements and through a moving pointer, compound assignments, ?: with all pairs, logical operators as values and as conditions with operands that are calls (so that evaluation
order and laziness show), assignment chains.  Compound assignments whose C result WCPL deliberately refuses to narrow implicitly are left out.  Cost ~110 s on 8 cores.''')

P('C10', 'Expressions are tokenised and grouped as C prescribes',
  'Source text is split into tokens by longest match (with comments, line splices and any white space between tokens) and operators bind by C precedence and associativity: for every pair of binary operators, every prefix, postfix and cast operator against every binary operator, conditional, assignment and comma chains, an expression written without parentheses means what it means fully parenthesised.',
  ['inputs'], 'all operand values of every analysed expression shape',
  'a wrongly grouped operator pair yields the same value for most operands, and the test programs exercise few of the several hundred operator combinations',
  ['p.c'], [('grouping', 'p.c:parse_expr, parse_binary_expr, parse_cast_expr, parse_unary_expr, parse_postfix_expr'), ('tokens', 'p.c:lex')],
  AI + '; term-by-term equivalence with an independent lexer and precedence-climbing parser', 'all operator pairs; sampled triples and random trees; unknown operands',
  design='''Generated functions return expressions printed as written (no added parentheses); the reference meaning comes from a lexer and parser in `sa/props/c10.py` written from the C grammar.  The compiler is analysed on each function and the
emitted WebAssembly must compute the same term and the same effects for unknown operands.  Families: 18x18 pairs of binary operators, random triples, 18 binary operators x prefix/postfix/cast forms, unary x unary and unary x postfix,
pointer/struct postfix chains, ?: nesting and its arms against every operator, 11 assignment operators against every operator, maximal-munch strings (a---b, a- -b, a>>=b, a/ *p, ...) with comments and splices, random expression trees of depth 3.
Exhaustive for operator pairs; deeper nests are covered only as far as the sampled trees go (a recursive-descent parser decides each pair locally).  Cost ~75 s.''')
P('C27', 'Invalid programs are refused with a diagnostic; valid ones are not',
  'Implicit conversions between pointers and arithmetic types, between distinct pointer types and between distinct aggregates, casts that C forbids, operators applied to operand types they do not take, wrong argument counts, undeclared or redeclared names, assignments to non-lvalues, misplaced or duplicate labels, ill-typed or over-long initialisers and malformed tokens end compilation with a diagnostic and exit status 1 (never an assertion failure, never output); the corresponding valid programs, including every value-preserving conversion, compile.',
  ['inputs'], 'all ordered pairs of representative types in assignment, argument, return and cast position; one or more programs per rule',
  'tests compile valid programs only, so a rule that is no longer enforced (or a valid form newly refused) is not seen, and ill-typed programs turn into invalid or wrong WebAssembly',
  ['c.c', 'p.c'], [('conversions', 'c.c:assign_compatible, cast_compatible'), ('declarations', 'c.c:process_vardecl, post_vardecl; p.c:parse_base_type'), ('diagnostics', 'c.c:neprintf; p.c:reprintf')],
  AI + '; every path must reach the diagnostic exit or produce object text', 'type-pair matrix; one program per rule',
  design='''Finite enumeration over the rules: a matrix of type pairs (18 types quick, 26 thorough) x (assignment, argument, return, cast; thorough also initialiser, array element, field), about 300 invalid statements, 130 invalid
declarations, 125 valid statements and 40 valid declarations.  The compiler is analysed abstractly on each; an invalid program must end on `exit(1)` with a message, a valid one in object text; abort, assertion failure and falling through are violations.  Pairs the README lists
as current limits, and lenient acceptances (comparison of unlike pointers, `int int x`, duplicate members, a local that redeclares a parameter) carry no obligation.  Cost ~150 s.''')
P('C05', 'Linking resolves every reference to the entity the program names',
  'In the linked module every call, global access, function-table entry and data address leads to the entity that the input modules name: the function with the same signature, locals and code, the global with the same type and initial value, the object with the same bytes and pointers (forward and circular references included); imported functions come first and are those of the host subsystem; objects lie inside the data segment, at their alignment, and share storage only when they are equal constants; no function pointer is 0; stack, argument area, heap base and memory size enclose them in that order without overlap; exactly `_start` and `memory` are exported and unreferenced entities are not carried along; the runtime variant that fits main is taken from the library, and a module given explicitly is not replaced by a library one.  Unresolved, mistyped or duplicate entities end the link with a diagnostic.',
  ['inputs'], 'all reference graphs over three objects; call, table and global reference graphs over modules with equal names; all data bytes, constants and offsets',
  'tests link a few programs whose objects reference each other in one direction only; layout and sharing faults need particular sizes, alignments or reference orders',
  ['w.c', 'c.c'], [('linker', 'w.c:link_wat_modules, process_depglobal'), ('data layout and patching', 'w.c:watify_wat_module'), ('stack, heap and memory', 'w.c:finalize_wat_module'), ('index resolution', 'w.c:wat_to_wasm, wat_to_wasm_code')],
  AI + '; the binary module is followed from its export in step with the input modules', 'finite families of module graphs; bytes, constants and offsets are unknowns',
  design='''A driver unit builds object modules through the sources' own constructors (or lets the reader read generated object text), calls `link_wat_modules` and `wat_to_wasm` and reports the resulting `wasm_module_t`; the abstract interpreter runs this with data bytes, constants and pointer offsets unknown.
The check walks the result from the exported function in step with the input graph (a simulation between input entities and output indices that must be one to one), then checks layout arithmetic.  Families: every reference graph over three objects (512; half of them in the quick tier) with varying alignment, size and mutability, pairs of equal and different constants and variables,
call/table/global graphs over three modules with equal local names, subsystem imports shared between modules, globals of every type with every kind of initial value, stack and argument sizes, object files with locals, labels, types, library search, and 24 inputs that must be refused.  Cost ~130 s.''')
P('C34', 'The optimisation level does not change what the generated code does',
  'For every optimisation level the generated code of a function has the meaning C gives the source: same values, same memory effects and calls in the same order.',
  ['inputs'], 'all operand values and memory contents; levels 0, 1, 2, 3 and 9',
  'tests compile at the default level only, and the peephole pass rewrites instruction windows that occur for particular offsets, constants or type combinations',
  ['c.c'], [('peephole pass', 'c.c:fundef_peephole'), ('option', 'c.c:init_wcpl, main')],
  AI + '; path-by-path equivalence with a C reference semantics', 'sampled functions of the other compiler checks plus families aimed at the windows of the pass; loops followed for two iterations',
  design='''The machinery of C06, C07, C31, C32 and C33 with the compiler initialised at -O0, -O1, -O2, -O3 and -O9: samples of those checks' functions, and about 900 functions made to contain what the pass looks for (constant offsets and products, zero and one operands, set/get and drop sequences, repeated narrowing).
Each level is compared with the C reference, so levels agree with each other.  The thorough tier takes all of them at all levels.  Cost ~100 s.''')
LIB = 'abstract interpretation of the library\'s intermediate representation (the object text the repository\'s compiler, as front end, emits for lib/src) with memory contents and arguments as unknown symbols and trace partitioning over them; no execution and no solver'
LIBD = """The object text of lib/src (emitted by the compiler of the current tree, which serves as the front end) is the analysed program; `sa/lib.py` interprets its functions abstractly: addresses are
concrete, bytes, numbers and results of the system interface are unknown symbols, a branch on unknowns partitions their values into classes, and a reference written from the C standard is
evaluated on the same class.  An access outside the objects, a trap, or a stack pointer that is not restored is a finding in itself. """

P('C21', 'Character functions classify and map characters as the "C" locale says',
  'For EOF and every value of unsigned char, each function of ctype.h is true exactly for the characters of its class in the "C" locale, and toupper and tolower map exactly the letters and leave everything else alone.',
  ['inputs'], 'all 257 arguments of every function',
  'tests sample letters and digits; a wrong bound shows for one or two control or punctuation characters or bytes past ASCII only',
  ['lib/src/ctype.c'], [('character table', 'lib/src/ctype.c')],
  LIB, 'all arguments at once: the argument is one unknown',
  design=LIBD + 'Each function is analysed once with its argument unknown in -1..255.  Cost 3 s.')

P('C35', 'String and memory functions do what C prescribes and touch nothing else',
  'For all contents of their operands the functions of string.h return the value, leave the bytes and stop at the position C (POSIX for the common extensions) prescribes: copies are complete and terminated as specified, comparisons order by unsigned characters, searches find the first or last occurrence, moves handle overlap, and no byte outside the operands is read or written.',
  ['inputs'], 'all contents of operands of up to four to eight bytes, all counts around their lengths, all overlaps',
  'boundary cases (empty strings, count equal to the length, match at the terminator, bytes above 0x7f, overlap of one byte) are many per function and each needs its own data',
  ['lib/src/string.c'], [('string functions', 'lib/src/string.c')],
  LIB, 'all byte values; object sizes are bounded (small-scope), longer operands are not covered',
  design=LIBD + 'About 530 obligations: every function on operands of each size up to a bound with unknown bytes, every count and every overlap offset.  Cost ~10 s on 8 cores.')

P('C36', 'Conversion, sorting, searching and multibyte functions obey the C standard',
  'strtol and its relatives convert the longest valid prefix in the given base, clamp and report out-of-range values and set the end pointer; abs, div and the atoi family compute the C result; qsort orders any array without losing or tearing elements, bsearch finds an element exactly if there is one; multibyte conversions follow UTF-8, respect sizes and reject malformed sequences; rand stays in its range; getenv returns the value of exactly the named variable.',
  ['inputs'], 'all digit strings of bounded length around every limit, all element values, all byte sequences up to four bytes',
  'limits of four types in 35 bases, malformed sequences and duplicate keys are data-dependent corner cases',
  ['lib/src/stdlib.c'], [('conversions', 'lib/src/stdlib.c:strtol, strtoul, strtoll, strtoull'), ('sort and search', 'lib/src/stdlib.c:qsort, bsearch'), ('multibyte', 'lib/src/stdlib.c:mbtowc, wctomb, mbstowcs, wcstombs')],
  LIB, 'all values of the unknown bytes; lengths and element counts are bounded',
  design=LIBD + 'The comparison function of qsort and bsearch is arbitrary (its answers are decided by the classes).  Cost ~12 s on 8 cores.')

P('C37', 'Formatted output is what the format and the arguments prescribe',
  'For every combination of flags, width, precision, length modifier and integer, character or string conversion the printf family produces the characters C prescribes, stores no more than the size allows, always terminates, and returns the length of the full text; all members of the family agree.',
  ['inputs'], 'a grid of all flag sets, widths, precisions, modifiers and conversions; arguments range over windows around zero, the limits of the types and powers of the base; strings of unknown bytes',
  'the interaction of flags, precision, sign, base prefix and buffer size has thousands of combinations',
  ['lib/src/stdio.c'], [('formatter', 'lib/src/stdio.c:_vsnprintf')],
  LIB, 'all values of the windows; floating-point conversions are outside this property',
  design=LIBD + 'About 4000 obligations.  Floating conversions are not covered (see the not-applicable property).  Cost ~25 s on 8 cores.')

P('C38', 'Formatted input matches and converts what the format prescribes',
  'For every integer, character, string and scan-set directive with width, suppression and length modifier the scanf family consumes the input C prescribes, stores exactly the converted objects with their size and value, leaves the rest of the input and all other objects alone, and returns the number of assignments or EOF.',
  ['inputs'], 'all inputs of up to three to five bytes for a grid of formats',
  'matching failures, end of input in the middle of an item and widths that split an item are input-dependent',
  ['lib/src/stdio.c'], [('scanner', 'lib/src/stdio.c:_vsnscanf')],
  LIB, 'all bytes of inputs of bounded length; floating-point conversions are outside this property',
  design=LIBD + 'Cost ~12 s on 8 cores.')

P('C39', 'Streams transfer exactly the bytes written and read, in order',
  'For every sequence of operations on a stream (character, line, block input and output, push back, positioning, flushing, closing) in every buffering mode and with any buffer size, short transfers or errors of the system, the results are those of the abstract file C describes, the file holds the written bytes at every flush, close and (for line buffering) line end, no byte is lost, duplicated or reordered, and errors are reported.',
  ['histories', 'fault_sequences'], 'all sequences of up to two or three operations and samples of longer ones; all contents; short reads and writes and errors at every transfer',
  'errors appear when buffer boundaries, push back and direction changes meet, in histories no test contains',
  ['lib/src/stdio.c'], [('buffers', 'lib/src/stdio.c:_fillbuf, _flushbuf, fread, fwrite, fseek, ungetc, fflush')],
  LIB, 'all byte values; histories are bounded, the file behind the stream is a model of the WASI interface',
  design=LIBD + 'The system interface is a model of a file of unknown bytes that may transfer less than asked or fail.  About 10000 histories.  Cost ~25 s on 8 cores.')

P('C40', 'The allocator hands out disjoint aligned blocks and reuses freed memory',
  'After any sequence of malloc, calloc, realloc and free, live blocks are aligned for every type, lie inside the memory, do not overlap each other or any other object, and keep what the program stored; calloc returns zeroed blocks and detects overflow; realloc keeps the common prefix; a request that cannot be satisfied returns a null pointer, sets errno and leaves all blocks as they were; freed memory becomes available again, so that steady use does not need more and more memory.',
  ['histories', 'fault_sequences'], 'all short sequences and many longer ones; all sizes around every block size limit; failure of memory growth at every point',
  'corruption needs a particular order of frees, a particular pair of sizes, or stale contents of a block',
  ['lib/src/stdlib.c', 'lib/src/unistd.c'], [('buddy allocator', 'lib/src/stdlib.c:realloc, pullblock, pushblock'), ('growth', 'lib/src/unistd.c:sbrk')],
  LIB, 'unknown block contents (also where the allocator keeps its marks); histories are bounded',
  design=LIBD + 'Live blocks are filled with unknown bytes wherever the allocator might look for its own marks, so that stale data is covered for all values.  About 2000 histories.  Cost ~10 s on 8 cores.')

P('C41', 'Programs start with their arguments and end with status, handlers and output',
  'Every start-up module delivers the arguments of the program unchanged, in order and terminated, within the room reserved for them, or reports that it cannot; the generated start function calls main once with them and ends the program with its result; exit calls the registered functions once each in reverse order (also ones registered meanwhile), then writes out and closes all streams, then ends with the given status; abort and _exit do none of this.',
  ['inputs', 'histories'], 'all argument bytes and statuses; argument lists of many shapes; up to 33 handlers; output before, between and in handlers',
  'the tests look at standard output of programs that exit normally',
  ['lib/src/crt.args.c', 'lib/src/crt.argv.c', 'lib/src/crt.void.c', 'lib/src/stdlib.c', 'lib/src/stdio.c', 'c.c'], [('start-up', 'lib/src/crt.*.c:initialize'), ('end', 'lib/src/crt.*.c:terminate'), ('start function', 'c.c'), ('closing of streams', 'lib/src/stdio.c:closeall')],
  LIB, 'all values; shapes of argument lists and orders of registration are a grid',
  design=LIBD + 'The start function is taken from programs compiled together with the library; main is arbitrary.  Cost 3 s.')

P('C42', 'File functions ask the system for what was asked and report what it answered',
  'Each function of unistd.h, fcntl.h, sys/stat.h, dirent.h and the file functions of stdio.h passes descriptors, buffers, sizes, offsets, paths, flags and rights unchanged to the one system call that implements it, returns its result and data, and turns every error code into -1 (or null) and the errno POSIX expects; paths are resolved against the longest matching preopened directory; open modes grant exactly the access they name; directories are read completely, once and in order, whatever the lengths of the names.',
  ['inputs', 'fault_sequences'], 'all values of arguments, results, error codes and status data; all short paths over several sets of preopened directories; directories with entries around the buffer limits',
  'error paths, prefix matching and buffer boundaries of directory reading are not exercised by tests that run in one directory',
  ['lib/src/unistd.c', 'lib/src/fcntl.c', 'lib/src/stat.c', 'lib/src/dirent.c', 'lib/src/stdio.c'], [('descriptor functions', 'lib/src/unistd.c'), ('path resolution', 'lib/src/fcntl.c:find_relpath'), ('opening', 'lib/src/fcntl.c:openat, lib/src/stdio.c:freopen'), ('directories', 'lib/src/dirent.c:readdir, scandirat'), ('status', 'lib/src/stat.c:to_public_stat')],
  LIB, 'all values; path lengths and directory shapes are bounded; the system is a model of the WASI interface',
  design=LIBD + 'The oracle for rights and error mapping is the WASI specification and its reference C library.  Cost ~20 s on 8 cores.')

P('C43', 'Calendar time is converted and formatted as the calendar and C prescribe',
  'gmtime and localtime (with their _r forms) split every representable time into the year, month, day, hour, minute, second, weekday and day of the year of the proleptic Gregorian calendar, shifted by the offset TZ names, and report a year that does not fit; mktime is their inverse, accepts members out of range and sets all members; tzset reads every valid TZ name and offset and ignores invalid ones; asctime, ctime and strftime write the prescribed text, never more than the given size, for every conversion of C90; time, clock and difftime return what the system clock says.',
  ['inputs', 'configurations'], 'windows of consecutive times and members around every kind of year, century and range limit; all digits of TZ offsets; all member values in range; all sizes around the output length',
  'the tests look at a few dates; century, leap-day and negative-time arithmetic fails on single days',
  ['lib/src/time.c'], [('splitting', 'lib/src/time.c:gmtime_r'), ('joining', 'lib/src/time.c:mktime'), ('time zone', 'lib/src/time.c:tzset'), ('formatting', 'lib/src/time.c:strftime')],
  LIB, 'all values within windows of up to 2^15 consecutive unknown values per scenario; the windows are a grid',
  design=LIBD + 'The calendar oracle counts days independently (Python date arithmetic extended to all years).  %c and %x are the library\'s own forms; years outside 0..9999 are not covered for %Y.  Cost ~45 s on 8 cores.')

P('C31', 'Control flow of the generated code is that of the C program',
  'For every nesting of if/else, while, do, for, switch and labelled blocks with break, continue, goto and return, the generated code evaluates the same conditions and performs the same effects in the same order as the C source, and returns the same value: break and continue act on the innermost enclosing statement they may act on, switch selects the matching case whatever the order, sign, distance or number of the case values and falls through to the next one, default is taken exactly if no case matches and wherever it stands.',
  ['inputs'], 'all inputs and all outcomes of conditions, for all pairs and many triples of nested statements',
  'branch depths and case tables depend on the combination of enclosing statements and on the selector value; tests contain few combinations',
  ['c.c', 'p.c'], [('statement lowering', 'c.c:expr_wasmify'), ('switch', 'c.c:compile_switch_table, compile_switch_ifs'), ('flattening of blocks', 'c.c:fundef_flatten'), ('local optimiser', 'c.c:fundef_peephole')],
  AI + '; path-by-path equivalence with a C reference semantics', 'all selector values and all condition outcomes; loops are followed for two iterations',
  design='''As C06, over generated functions: every pair (thorough: with every jump kind) and many triples of nested regions with one conditional jump inside, where each condition is the unknown result of a numbered call and
each effect a numbered call, so that any wrong branch target shows as a different call sequence; unconditional jumps, constant conditions, empty bodies; switches over 18 sets of case values
(dense, sparse, negative, extreme, unordered) x 7 shapes (fall-through, shared labels, default first, middle, absent) and over all integer selector types.  Loops are followed for two iterations (one where the partition grows too large).  Cost ~65 s on 8 cores.''')

P('C32', 'Calls pass and return the values C prescribes',
  'For every parameter and result type, calls and function definitions exchange the values the C standard prescribes: each argument is evaluated exactly once and converted to its parameter type, in the right position; narrow parameters and results hold values of their type on both sides; results are used, dropped or converted correctly; calls through pointers use the right signature; variable arguments are laid out so that va_arg fetches the value that was passed; structure results arrive in the object they are assigned to; the stack pointer protects the frame of the caller during every call and has its old value at every return.',
  ['inputs'], 'all parameter and result types, all argument values, all parameter positions',
  'a wrong conversion of one parameter type, or a wrong frame adjustment around a variadic call in a nested position, needs that combination and a value that shows it',
  ['c.c', 'p.c'], [('calls', 'c.c:compile_call'), ('argument conversion', 'c.c:asm_numerical_cast'), ('function prologue and epilogue', 'c.c:fundef_wasmify, fundef_compile'), ('variadic arguments', 'c.c:compile_call, p.c:va_arg')],
  AI + '; path-by-path equivalence with a C reference semantics', 'all values; a call is an uninterpreted effect with unknown result, so the callee is arbitrary; the two sides of the variadic layout are checked against one layout',
  design='''As C06, over generated functions: for every scalar type, an argument of every type it may be passed from, several arguments, arguments with side effects, results used, dropped, stored, converted and
returned; nested calls; pointers to functions; calls with up to 17 variable arguments of every type, nested, in loops and with a frame; va_arg of every type after every kind of
fixed parameters; structure results of direct, variadic and nested calls; parameter lists of length 1 to 8 with every position read.  Frame objects must be disjoint and inside the area
the stack pointer protects.  Cost ~120 s on 8 cores.''')

P('C33', 'Objects in memory are read, written and laid out as the C standard says',
  'For every scalar type, loads and stores through pointers, array elements, structure and union members, globals and address-taken locals access exactly the bytes of the object with its width and signedness, at the address C prescribes: pointer arithmetic and subscripts scale by the element size, members lie at the offsets and with the padding of the wasm32 C ABI, pointer differences count elements, structure assignment copies exactly the object, and local objects and parameters whose address is taken keep their value in memory, apart from each other.',
  ['inputs'], 'all scalar types and generated aggregates, all index and address values',
  'a wrong offset or access width in one combination of type and access path stays hidden unless a neighbour object is looked at',
  ['c.c', 'p.c'], [('layout', 'c.c:measure_type, measure_offset'), ('loads and stores', 'c.c:asm_load, asm_store'), ('address arithmetic', 'c.c:compile_binary, compile_index'), ('frame', 'c.c:fundef_wasmify')],
  AI + '; path-by-path equivalence with a C reference semantics', 'all addresses and indices; memory is a chain of symbolic writes',
  design='''As C06, over generated functions: for each scalar type access through pointers with every index type and offset form, through arrays of arrays, structures with every ordered pair of member types, unions, nested aggregates,
arrays of structures, globals, frame objects and parameters whose address escapes; pointer comparison, difference, increments and conversions; structure copies.  Cost ~100 s on 8 cores.''')

P('C08', 'Constants have the value and type C gives them wherever they are computed',
  'Constant expressions (casts, unary and binary operators and ?: over all arithmetic types) evaluate at compile time to the type and value the C standard gives them, for every operand value, so that folding never changes a result; integer, floating, character and wide literals and enumerators have the value written and the type their suffix and position give them; static initialisers of scalars, arrays, structures, unions, strings and pointers put exactly the bytes of these values, and the addresses named, at the offsets the type layout prescribes, leaving the rest zero.',
  ['inputs'], 'all values of all operand types; all type combinations of initialisers',
  'a compile-time evaluation that disagrees with run time shows only for particular types and values, such as an operand that needs more than 32 bits',
  ['c.c', 'p.c'], [('evaluation', 'c.c:static_eval, numval_unop, numval_binop, numval_convert'), ('initialisers', 'c.c:process_vardecl, initialize_bulk_data'), ('literals', 'p.c:parse_primary_expr')],
  AI + '; term-by-term equivalence with a C reference semantics; literals and initialisers by abstract compilation', 'operators: all values; literals and initialisers: all forms at boundary values',
  design='''`sa/drv/fold.c` builds constant expressions through the public node functions (`wrap_binary`, `wrap_unary_operator`, `wrap_conditional`, `wrap_expr_cast`) whose literal leaves hold
unknown 64-bit values, and calls `arithmetic_eval`.  For each of 13x13 type pairs and 16 binary operators, 13x4 unary, 13x13 casts and ?:, every abstract path must return the C type and a term equal to the reference term under the path's
assumptions (division by zero may stay unfolded; conversions of out-of-range floats are undefined in C and left out).  Second, generated sources with static initialisers (every scalar type at boundary values; arrays, partial arrays, arrays
of arrays; structures of every ordered pair of types, nested, in arrays, with padding; unions; narrow and wide strings that exactly fit, are shorter, lack their terminator; addresses of
arrays, structures, functions, strings inside padded aggregates) are compiled abstractly; the data objects and globals of the object text must hold the reference bytes and references.  Third, literals: bases, suffixes, escapes, boundary values; type seen
through generic(), and value; enumerators.  Refused by design and left out: unsuffixed literals beyond INT_MAX, "\\\\U" escapes, partial structure initialisers, &array[i] with i != 0, && and || in static initialisers.  Cost ~80 s on 8 cores.''')

N('N01', 'Floating-point text conversion is correctly rounded',
  'printf with %f, %e and %g, and scanf, strtod and atof, convert between double and decimal text with the digits the C standard prescribes, and reading back what was written with enough digits gives the same double.',
  ['inputs'], 'all doubles, precisions and digit strings', 'rounding errors show for single inputs out of 2^64',
  ['lib/src/stdio.c', 'lib/src/stdlib.c'], [('writing', 'lib/src/stdio.c'), ('reading', 'lib/src/stdlib.c:strtod')],
  'the functions compute with rounded double arithmetic on unknown mantissas; bounding the accumulated error needs a numeric proof or a solver for floating-point arithmetic, which no dataflow or type-level argument replaces, and evaluating sample values would be a run-time test')

N('N02', 'The functions of math.h return results within the usual error bounds',
  'Every function of math.h returns the exact value (rounding, remainder, scaling functions) or a value within a few units in the last place, with the special values Annex F lists.',
  ['inputs'], 'all arguments', 'errors show in small parts of the range',
  ['lib/src/math.c'], [('functions', 'lib/src/math.c')],
  'accuracy of polynomial approximations is a numeric-analysis statement over real arithmetic; bit-level abstract values lose everything at the first floating-point operation on an unknown')

N('N03', 'Compilation and linking end for every input',
  'The compiler and linker end with a module or a diagnostic for every input, without crashing, looping or exhausting the stack.',
  ['inputs'], 'all source texts and object files', 'no finite set of inputs shows it',
  ['p.c', 'c.c', 'w.c'], [('parser', 'p.c'), ('linker', 'w.c')],
  'termination and memory safety of a recursive compiler over heap graphs depend on invariants of shape and size that the known-bits domain does not express; an analyser that reported every unproven loop or access would alarm on correct code')

N('N04', 'Preprocessing follows the C standard completely',
  'Macro expansion, stringising, pasting, conditional inclusion, file inclusion and once-only inclusion give the token sequence the C standard prescribes for the documented subset.',
  ['inputs'], 'all translation units', 'interactions of nested macros are unbounded',
  ['l.c', 'p.c'], [('macro expansion', 'p.c')],
  'the token streams are unbounded nested data and the reference is a rewriting system; on concrete sources the analysis would amount to running the preprocessor on samples.  Diagnosed misuse is part of C27 and token formation part of C10')
