DIFF = 'property-based testing: generated %s, differential against %s, shrinking'
MODEL = 'property-based testing: generated %s, %s as reference model, shrinking'

prop('S02', 'Programs evaluate as the Scheme language defines',
     'Running a program made of the core language (definitions, lambda with fixed and rest arguments, application, apply, let, '
     'let*, letrec, named let, internal definitions, set!, if, cond with =>, case, when, unless, and, or, do, quasiquote, values, '
     'escaping continuations) prints what the language definition says, under lexical scope and with closures keeping their own state. '
     'Tail calls run in constant space and non-tail recursion of ordinary depth completes.',
     ['programs'], 'every well-formed terminating program of that fragment that does not depend on operand evaluation order',
     'The Scheme tests evaluate a few dozen fixed expressions; scoping, capture, redefinition and tail-call mistakes show only for '
     'combinations of constructs, which only a program generator reaches.',
     ['src/eval-apply.c', 'src/stack.c', 'src/core.c', 'mes/module/mes/boot-0.scm', 'mes/module/mes/let.mes', 'mes/module/mes/scm.mes',
      'mes/module/mes/quasiquote.mes', 'mes/module/mes/base.mes'],
     [('evaluator', 'src/eval-apply.c:eval_apply'), ('local variable cache', 'src/eval-apply.c:expand_variable_'),
      ('let family', 'mes/module/mes/let.mes'), ('case, do, values', 'mes/module/mes/scm.mes')],
     DIFF % ('total Scheme programs', 'Guile 3.0'),
     'Random exploration: programs of bounded size drawn from a typed generator; trusts Guile 3.0.9 as the reference for this fragment.',
     ['standard output of the program'])

prop('S04', 'Integer arithmetic and number conversion are exact',
     'Over integers whose operands and results fit the machine word, every arithmetic and comparison procedure (+ - * quotient '
     'remainder modulo expt abs min max gcd lcm, the bitwise ones, ash, the orderings with any number of operands, the numeric predicates) returns the '
     'mathematically exact value. Writing a number in a radix and reading it back gives the same number.',
     ['inputs'], 'every operator applied to every tuple of operands within the word, and every number with every supported radix',
     'The tests try a handful of small, mostly positive operands; sign combinations, word-size values and multi-operand '
     'comparisons are a product space that fixed examples leave open.',
     ['src/math.c', 'mes/module/mes/scm.mes', 'src/reader.c', 'lib/mes/ntoab.c', 'src/display.c'],
     [('primitives', 'src/math.c'), ('derived operations', 'mes/module/mes/scm.mes'), ('number printing', 'lib/mes/ntoab.c:ntoab'),
      ('number reading', 'src/reader.c:reader_read_identifier_or_number')],
     MODEL % ('expressions over boundary-weighted integers', 'Python integers'),
     'Random exploration weighted to signs, powers of two and word limits; the reference is Python arbitrary-precision arithmetic.',
     ['value displayed by the interpreter'])

prop('S05', 'List and SRFI-1 procedures compute what their definitions say',
     'For every list argument, including empty, improper where allowed, nested and with repeated elements, the list library (append, '
     'reverse, member, assoc, memq, map, for-each, filter, fold, fold-right, reduce, delete, delete-duplicates, partition, take/drop, '
     'append-map, unfold, any/every, list-index, sort, association lists and the others) returns the list its '
     'definition gives. Only the procedures named with an exclamation mark change their argument.',
     ['inputs'], 'every procedure of the list library over every list of small values, predicates and procedures',
     'Tests call each procedure once or twice; results on empty, one-element, uneven or duplicate-carrying lists are not determined by them.',
     ['src/lib.c', 'src/core.c', 'src/builtins.c', 'mes/module/srfi/srfi-1.mes', 'mes/module/srfi/srfi-1.scm', 'mes/module/mes/scm.mes',
      'mes/module/mes/base.mes', 'mes/module/mes/guile.mes'],
     [('list primitives', 'src/lib.c'), ('SRFI-1', 'mes/module/srfi/srfi-1.mes'), ('sort', 'mes/module/mes/scm.mes')],
     DIFF % ('calls of the list library', 'Guile 3.0'),
     'Random exploration of calls with generated lists and procedures; trusts Guile 3.0.9 for SRFI-1 semantics.',
     ['written result, and the arguments after the call'])

prop('S06', 'String, symbol, keyword and character procedures are correct',
     'For every byte string argument and every valid index, the string library (string-append, substring, string-ref, comparison, searching, '
     'splitting, joining, trimming, padding, folding, case and number conversion, string ports) and the symbol, keyword and character '
     'conversions return what their definitions give. Converting string to list, symbol, number or keyword and back gives the original.',
     ['inputs'], 'every string procedure over every short string and every valid index or predicate',
     'Tests use one ordinary string per procedure; empty strings, indexes at the ends, repeated delimiters and overlapping matches are untested.',
     ['src/string.c', 'src/symbol.c', 'mes/module/srfi/srfi-13.mes', 'mes/module/srfi/srfi-14.mes', 'mes/module/mes/scm.mes', 'mes/module/mes/guile.mes'],
     [('string primitives', 'src/string.c'), ('SRFI-13', 'mes/module/srfi/srfi-13.mes'), ('character sets', 'mes/module/srfi/srfi-14.mes')],
     DIFF % ('calls of the string library', 'Guile 3.0'),
     'Random exploration over short strings with boundary indexes; trusts Guile 3.0.9.', ['written result'])

prop('S07', 'Vectors, hash tables, records and mutable pairs keep their contents',
     'After any sequence of operations on vectors, hash tables, association lists, variables, records and pairs, every lookup returns the value most '
     'recently stored under that key, index or field, with nothing lost, duplicated or shared between distinct objects. '
     'Operations that list a container return exactly its current contents.',
     ['histories'], 'every sequence of constructors, stores, deletions and lookups on several containers at once',
     'Tests store and fetch one or two values; aliasing, bucket collisions, overwriting and later growth appear only in longer histories.',
     ['src/vector.c', 'src/hash.c', 'src/struct.c', 'mes/module/srfi/srfi-9.mes', 'mes/module/mes/scm.mes', 'mes/module/mes/guile.mes'],
     [('vectors', 'src/vector.c'), ('hash tables', 'src/hash.c'), ('structs and records', 'src/struct.c; mes/module/srfi/srfi-9.mes')],
     'stateful (model-based) property testing: operation histories against a Python model, shrinking',
     'Random exploration of bounded histories; the model is a few dozen lines of Python.', ['value of every lookup in the history'])

prop('S01', 'Garbage collection is transparent to the program',
     'Whatever the configured arena size, reserve, safety margin and stack, and wherever collections happen or are requested, a program prints exactly what it '
     'prints when nothing is ever collected. A program whose live data does not fit stops with a message saying so; it never '
     'continues with lost or corrupted data.',
     ['programs', 'configurations', 'schedules'], 'every program, every arena configuration, and so every placement of collections between evaluation steps',
     'The tests run in an arena so large that no collection happens; whether every kind of object, root and register survives one depends on '
     'when it happens.',
     ['src/gc.c', 'src/eval-apply.c', 'src/vector.c', 'src/struct.c', 'src/symbol.c'],
     [('stop-and-copy collector', 'src/gc.c:gc_, gc_copy, gc_loop, gc_flip'), ('safe points', 'src/eval-apply.c:gc_check calls'),
      ('register frames', 'src/gc.c:gc_push_frame')],
     'property-based testing: generated programs, metamorphic comparison over generated arena configurations (collection after every few steps), shrinking',
     'Random exploration of programs and configurations; reports the number of collections that took place.', ['standard output'],
     [('arena', 'cells in use', 'src/gc.c:g_cells, g_free'), ('stack', 'roots', 'src/gc.c:g_stack_array')])

prop('S03', 'Reading and writing data are faithful',
     'Every datum (numbers in any supported radix, strings with escapes, characters, symbols, keywords, lists, dotted pairs, vectors, quotation forms) is '
     'read as the value its text denotes, whatever spacing and comments surround its tokens, from program text, files and string ports alike. '
     'What write prints for a datum reads back as an equal datum, and display prints the same without quoting.',
     ['inputs'], 'every datum of those kinds and every way of laying out its text',
     'Tests read a handful of literals; the space of tokens, delimiters, escapes, comments and nestings is a product that examples do not cover.',
     ['src/reader.c', 'src/display.c', 'mes/module/mes/display.mes', 'lib/mes/ntoab.c', 'src/posix.c'],
     [('reader', 'src/reader.c'), ('core printer', 'src/display.c:display_helper'), ('library printer', 'mes/module/mes/display.mes')],
     'property-based testing: grammar-generated data with generated layout, Python model of the datum syntax, round trip, shrinking',
     'Random exploration of data and layouts; a vector directly inside a vector is abbreviated by the library printer (its test demands it) and modelled so.',
     ['written or displayed text'])

prop('S08', 'Errors, continuations, values and exit status follow the control rules',
     'A throw, or an error signalled by a primitive, transfers control to the innermost active catch whose key matches, with the key and arguments thrown; continuations can be '
     'left and re-entered any number of times; multiple values reach their receiver; fluids and guards are undone on normal return. '
     'A program ends with the status it passes to exit, with success when it runs off its end, and with a failure status and a message on standard error '
     'when an error is not caught, its earlier output intact.',
     ['programs', 'fault_sequences'], 'every nesting of handlers, escapes, re-entries, errors and exits',
     'Tests throw once and catch once; which handler is active after nested throws, rethrows, escapes and re-entries depends on history.',
     ['mes/module/mes/catch.mes', 'mes/module/mes/fluids.mes', 'src/eval-apply.c', 'src/core.c', 'mes/module/mes/scm.mes', 'mes/module/srfi/srfi-8.mes'],
     [('handlers', 'mes/module/mes/catch.mes:catch, throw'), ('primitive errors', 'src/core.c:error'), ('continuations', 'src/eval-apply.c:call_with_current_continuation'),
      ('fluids', 'mes/module/mes/fluids.mes')],
     DIFF % ('control programs, and whole processes with their exit status', 'Guile 3.0 and a Python model'),
     'Random exploration; escapes out of with-fluids/dynamic-wind and continuations out of a catch are known findings and not generated otherwise.',
     ['standard output, exit status'])

prop('S09', 'Macros, pattern matching and argument binding forms mean what they say',
     'A use of a macro made by define-syntax with syntax-rules (literals, ellipses, recursion, templates that bind variables) or by define-macro behaves as its expansion, evaluated where it is used, '
     'and a variable bound by a template never captures one of the user. '
     'match and pmatch take the first clause whose pattern fits and bind its variables to the matching parts; lambda*, define*, case-lambda, cut, cute, receive and getopt-long bind arguments as documented in Guile.',
     ['programs'], 'every macro definition, pattern, datum and argument list of these forms',
     'The tests expand a few fixed macros and match a few patterns; nesting, recursion and name clashes are unbounded.',
     ['src/eval-apply.c', 'mes/module/mes/syntax.scm', 'mes/module/mes/match.scm', 'mes/module/mes/optargs.scm', 'module/mes/getopt-long.scm', 'mes/module/srfi/srfi-26.scm'],
     [('macro expansion', 'src/eval-apply.c'), ('syntax-rules', 'mes/module/mes/syntax.scm'), ('match', 'mes/module/mes/match.scm'), ('optional arguments', 'mes/module/mes/optargs.scm')],
     DIFF % ('definitions and uses of macros, patterns and optional arguments', 'Guile 3.0.9'),
     'Random exploration against Guile; names that templates use freely are not shadowed at the use, and in match only a variable or literal stands before an ellipsis.',
     ['standard output'])

prop('S10', 'Ports, files, child processes and command lines do what the program asked',
     'Reading a port (characters, bytes, lines, data, the rest, with peeking and giving back) delivers exactly the bytes of its file or string in order, whichever '
     'ports are used in between; writing, displaying or formatting to a port or a redirected output puts exactly the text into that file or string; files are created, '
     'truncated, deleted and given modes as asked; children get their arguments, environment and output, and their exit status comes back. '
     'Running the interpreter on a file, standard input or an expression passes the arguments on, ends with the status given to exit (0 when it runs off the end), '
     'and reports an uncaught error with a message and a failing status after the output made before it.',
     ['operation_sequences', 'command_lines'], 'every sequence of these operations over any file contents, port nesting and arguments',
     'Two tests read one string port and run one program; the guarantee concerns arbitrary interleavings of several ports, redirections and children.',
     ['src/posix.c', 'src/string.c', 'src/reader.c', 'src/mes.c', 'lib/mes/fdgetc.c', 'mes/module/mes/guile.mes', 'mes/module/mes/posix.mes',
      'mes/module/mes/simple-format.mes', 'mes/module/mes/boot-0.scm'],
     [('ports', 'src/posix.c'), ('read-string', 'src/string.c:read_string'), ('redirections', 'mes/module/mes/guile.mes'), ('command line', 'mes/module/mes/boot-0.scm:parse-opts')],
     MODEL % ('programs of port, file and process operations, and whole command lines', 'a Python model of files, ports and environment'),
     'Random exploration; one character of push-back on file ports; redirections are left by returning.',
     ['standard output, exit status, and the files left behind'])

prop('S11', 'An operation on a value outside its domain is reported, never silently computed',
     'Applying a list operation to what is not a pair or runs off the end of a list, arithmetic to what is not a number, dividing by zero, using an unbound variable, calling with a wrong number of arguments or '
     'applying what is not a procedure signals an error of the corresponding key with the culprit among its arguments, and a string, vector or type check that fails ends the process with a failure and a message. '
     'Everything evaluated before has had its effect and nothing after it has; the enclosing handler continues the program as if the operation had thrown. '
     'The same operations on operands inside their domain report nothing.',
     ['programs', 'fault_sequences'], 'every operation, operand and context of evaluation',
     'The tests exercise almost no failing operation; a missing bound or type check shows only as a wrong value, a read out of bounds or a crash for particular operands.',
     ['src/core.c', 'src/lib.c', 'src/math.c', 'src/string.c', 'src/vector.c', 'src/eval-apply.c', 'src/struct.c', 'mes/module/mes/catch.mes'],
     [('error', 'src/core.c:error'), ('list operations', 'src/core.c:append2, reverse_x_'), ('numbers', 'src/math.c:assert_number'), ('strings', 'src/string.c:string_ref'),
      ('vectors', 'src/vector.c:vector_ref_, vector_set_x_'), ('application', 'src/eval-apply.c:check_apply, check_formals')],
     MODEL % ('erroneous and good operations under layers of context', 'a Python model'),
     'Random exploration over the operations listed in the check; the pinned error keys are the specification; operations the implementation leaves unchecked (char->integer, length, for-each, string->list, symbol->string of other types) are not judged.',
     ['standard output, exit status, standard error'])

prop('S12', 'Strings and names up to the length limit work, longer ones are refused',
     'Making, appending, joining, converting, reading and writing strings and names of any length below the limit of the interpreter (MES_MAX_STRING) gives exactly the right contents. '
     'Any result beyond the limit ends in a system-error that a handler can catch. Neither changes any other string.',
     ['inputs', 'histories'], 'every sequence of string-making operations with lengths on either side of the limit',
     'The tests use strings of a few dozen characters; the shared buffer behind most string operations overruns only for particular sums of lengths near the limit.',
     ['src/string.c', 'src/reader.c', 'src/gc.c', 'src/posix.c'],
     [('limit', 'src/string.c:assert_max_string'), ('appending', 'src/string.c:string_append'), ('list to string', 'src/string.c:list_to_cstring'), ('reading', 'src/reader.c:reader_read_string, reader_read_identifier_or_number')],
     MODEL % ('histories of string-making operations around the limit', 'a Python model of the contents'),
     'Random exploration with the limit set to 4000; results within one character of the limit are not judged.', ['standard output'])

prop('S13', 'Malformed program text is reported, and does no harm',
     'Given text that is not a sequence of well-formed data (a list, vector, string or comment still open at the end, a dot that nothing follows, an unknown or overlong '
     'character name, a number as a keyword, or any sequence of characters at all), reading gives every datum before the damage as it is written and then '
     'ends in a not-a-pair or system-error that a handler can catch, or in some datum; it never kills the interpreter or runs for ever, and text read afterwards '
     'from another port is read as it is written. A program file damaged in this way ends in a failure with the error in its message.',
     ['inputs', 'fault_sequences'], 'every finite text and every place and kind of damage',
     'No test reads malformed text; the failures are running off the end of the input, of a buffer or of the C stack for particular damage.',
     ['src/reader.c', 'src/posix.c', 'src/string.c', 'src/core.c'],
     [('lists and vectors', 'src/reader.c:reader_read_list'), ('comments', 'src/reader.c:reader_read_block_comment'), ('strings and names', 'src/reader.c:reader_read_string, reader_read_character'),
      ('end of input', 'src/posix.c:readchar')],
     MODEL % ('data followed by damaged data, random tokens and mutated texts', 'the generated data and kind of damage'),
     'Random exploration; texts in string ports are at most 2500 characters, because reading them takes memory quadratic in their length; which datum random tokens give is not judged.',
     ['standard output, exit status, standard error'])

M = """Compiling a C program of the supported language (char to long integers signed and unsigned, enumerations, pointers, arrays, structs, unions, function
pointers, every expression operator, every statement) with the Mes C compiler for %s, assembling and linking it, gives an executable whose output and exit
status are those the C language defines. This holds for any nesting of expressions and statements, any number of live values, and any operand types and values."""
for _id, _cpu, _t in (('M01', 'x86_64', 'MesCC-compiled x86_64 programs behave as C defines'),
                      ('M02', 'i386', 'MesCC-compiled i386 programs behave as C defines')):
    prop(_id, _t, ' '.join((M % _cpu).split()),
         ['programs'], 'every C program of the fragment whose behaviour is defined by the language',
         'The scaffold tests are fixed small programs, each showing one construct; register spilling, label uniqueness, conversions and instruction encodings '
         'fail only for particular combinations and values.',
         ['module/mescc/compile.scm', 'module/mescc/as.scm', 'module/mescc/M1.scm', 'module/mescc/info.scm', 'module/mescc/%s' % _cpu,
          'lib/%s-mes' % _cpu.replace('i386', 'x86')],
         [('code generation', 'module/mescc/compile.scm:ast->info'), ('instruction selection', 'module/mescc/%s/as.scm' % _cpu),
          ('instruction encodings', 'lib/%s-mes/%s.M1' % ((_cpu.replace('i386', 'x86'),) * 2)), ('assembly output', 'module/mescc/M1.scm')],
         DIFF % ('C programs', 'clang with undefined-behaviour traps'),
         'Random exploration: programs of bounded size from a typed generator, run on the host; programs with undefined behaviour are recognised by '
         'sanitizer traps and not judged. Right shifts of negative values and, on x86_64, unsigned int mixed with wider types are outside the fragment.',
         ['standard output and exit status of the compiled program'])

prop('M03', 'Every build of the interpreter (gcc or MesCC, 32 or 64 bits) behaves alike',
     'Built by gcc for i386, by MesCC for i386 or by MesCC for x86_64, the interpreter runs every program that causes no error exactly as the one built by gcc for x86_64 does: '
     'the same output, files, processes and exit status, as long as every integer fits the smaller word. The one built by gcc for i386 also signals the same errors '
     '(MesCC leaves the checks out by design).',
     ['programs'], 'every program over integers of the 32-bit word',
     'The test suite runs the gcc build for x86_64 only; a dependence on the word size, on the order or sign of operations or on the compiler shows only in the other builds.',
     ['src', 'include/mes', 'lib/linux/x86-mes-gcc', 'lib/linux/x86-mes-mescc', 'module/mescc'],
     [('interpreter', 'src/*.c'), ('cell layout and word size', 'include/mes/mes.h'), ('start-up code', 'lib/linux/x86-mes-mescc/crt1.c')],
     'property-based testing: generated Scheme programs, differential between builds (and Python models for ports, processes and errors), shrinking',
     'Random exploration with the generators of S02 to S12; the MesCC build for x86_64 is only run by the thorough tier (its code is very slow to start on this host).',
     ['output, files, exit status'])

prop('M04', 'The interpreter stays in its memory, and runs alike on the system C library',
     'Built on the system C library (simple.make, SYSTEM_LIBC), the interpreter does what it does on the Mes C library: the same output, files, errors and exit status '
     'for every program. While running any program, failing or not, with names, strings, texts and argument lists of any length, '
     'it never reads or writes outside the memory it has allocated.',
     ['programs', 'inputs'], 'every program, with collections at any time',
     'The tests run one build without any watch on its memory; an access just outside a buffer shows in no output until something of value lies there.',
     ['src', 'include/mes', 'lib/mes', 'simple.make'],
     [('fixed buffers', 'src/mes.c:init'), ('shared string buffer', 'src/gc.c:gc_init'), ('arena', 'src/gc.c'), ('character names', 'src/reader.c:reader_read_character'),
      ('argument vectors', 'src/posix.c:execl_'), ('assertions', 'lib/mes/assert_msg.c')],
     'property-based testing: generated programs run under AddressSanitizer on the system C library, differential against the project build (and Python models), shrinking',
     'Random exploration with the generators of S02 to S13; an access inside the arena, to a cell that is not in use, is not recognised as such.',
     ['AddressSanitizer reports, output, files, exit status'])

LC = 'Random exploration of bounded calls and histories, executed by the library as built by gcc and by MesCC, for x86_64 and i386; trusts glibc as the reference. '
LO = ['value of every call, the memory or state after it']

prop('M05', 'MesCC compiles every program on Mes to what it compiles it to on Guile',
     'MesCC, run by the Mes interpreter, accepts the C programs it accepts when Guile runs it, and gives the same assembly text and the same preprocessed tree for each: '
     'the bootstrap, where no Guile exists, produces what development on Guile produces.',
     ['programs', 'inputs'], 'every C program that fits the arena',
     'The test suite runs MesCC on Guile only; a module or a primitive of Mes that differs from the one of Guile shows in the constants, literals and '
     'directives of particular programs.',
     ['module/mescc', 'mes/module', 'src'],
     [('compiler', 'module/mescc/mescc.scm:mescc:compile'), ('its modules on Mes', 'mes/module/mescc/*.mes'), ('parser of C on Mes', 'mes/module/nyacc/*.mes'),
      ('library of Mes', 'mes/module/mes/scm.mes'), ('interpreter', 'src/*.c')],
     'property-based testing: generated C programs, differential between hosts (MesCC on Mes and on Guile), shrinking',
     'Random exploration with the generator of M01 and M02, and directives, macros, literals and headers around it. Running out of the arena or of time is not judged.',
     ['exit status and output of MesCC'])

prop('L01', 'C library string and memory functions do what C defines',
     'The string and memory functions of the Mes C library return the value and leave the memory contents that the C standard (for the extensions: GNU libc) '
     'defines, for every combination of lengths, byte values 1 to 255, positions, overlaps where they are allowed, and counts including zero. '
     'They write nothing outside the memory they are meant to change. This holds for the library compiled by gcc and by MesCC, for x86_64 and i386.',
     ['inputs', 'histories'], 'every sequence of valid calls on a shared piece of memory',
     'The library tests call each function on one or two short ASCII strings; bytes above 127, empty and exactly fitting inputs, overlaps and search near-misses are left open.',
     ['lib/string', 'include/string.h'],
     [('string functions', 'lib/string/*.c')],
     DIFF % ('histories of calls on an arena', 'glibc'), LC + 'Calls that C leaves undefined are not generated.', LO)

prop('L02', 'C library number conversions and character classes are exact',
     'The character classification and case functions, and the conversions between numbers and text of the Mes C library (atoi, atol, strtol and relatives, itoa, '
     'ultoa, ntoab, the helpers built on them, and strtod, dtoab, floor, ceil where floating point exists), return what C defines for every representable number, radix, sign, '
     'leading space, prefix and unparsed tail. This holds for the library compiled by gcc and by MesCC, for x86_64 and i386.',
     ['inputs'], 'every character, every integer of the machine word in every radix, every spelling with prefix, sign and tail',
     'The library tests convert a handful of small decimal numbers; word limits, mixed-case digits, other radices and tails are not determined by them.',
     ['lib/ctype', 'lib/mes', 'lib/stdlib', 'lib/math', 'include/mes/lib.h'],
     [('conversions', 'lib/mes/ntoab.c, lib/mes/abtol.c, lib/stdlib/strtol.c'), ('division helpers', 'lib/mes/__mesabi_uldiv.c'), ('classes', 'lib/ctype/*.c')],
     DIFF % ('numbers and spellings', 'glibc'), LC + 'Out-of-range input to strtol is not judged; floating point only as built by gcc.', ['returned values'])

prop('L03', 'The printf and scanf families format and parse as C defines',
     'Every format string of the supported directives, flags, widths, precisions and length modifiers, with matching arguments, makes sprintf, snprintf, fprintf and their v-variants produce the '
     'text and count that C defines, truncated and terminated within the given size. sscanf and fscanf store exactly the conversions the input matches, return their '
     'number, and consume only the characters matched. This holds for the library compiled by gcc and by MesCC, for x86_64 and i386.',
     ['inputs'], 'every format of supported directives with every argument value, and every input text',
     'Two fixed test files list a few dozen formats; flags with widths, negative and extreme numbers, truncation at each length and partially matching input are a product space.',
     ['lib/stdio/vfprintf.c', 'lib/stdio/vsnprintf.c', 'lib/stdio/vsscanf.c', 'lib/stdio/vfscanf.c', 'lib/stdio'],
     [('formatting', 'lib/stdio/vfprintf.c, lib/stdio/vsnprintf.c'), ('parsing', 'lib/stdio/vsscanf.c, lib/stdio/vfscanf.c')],
     DIFF % ('formats, arguments and input texts', 'glibc'),
     LC + 'On x86_64 the library reads integer arguments as long (its test demands it), so those are generated as such.', ['text, count, stored values'])

prop('L04', 'Memory allocation gives distinct, aligned, preserved blocks',
     'Every block malloc, calloc, realloc or strdup returns is suitably aligned, large enough, disjoint from every other live block, and keeps its contents until it is freed or reallocated; '
     'calloc gives zeros and realloc keeps the common prefix. A request that cannot be met gives a null pointer and leaves everything else intact. This holds for any '
     'history of requests, for the library compiled by gcc and by MesCC, for x86_64 and i386.',
     ['histories'], 'every history of allocations, stores, reallocations and releases, with sizes from zero to beyond the address space',
     'The library tests allocate a few blocks once; overlap, lost contents and size overflow depend on the history and on the sizes.',
     ['lib/linux/malloc.c', 'lib/linux/brk.c', 'lib/stdlib/calloc.c', 'lib/stdlib/realloc.c', 'lib/stdlib/free.c'],
     [('allocator', 'lib/linux/malloc.c:malloc'), ('realloc', 'lib/stdlib/realloc.c')],
     'stateful property testing: allocation histories, contents and disjointness checked against a model in the driver and against glibc, shrinking',
     LC + 'Bounded to some hundred kilobytes live per history.', ['block contents after every operation'])

prop('L05', 'qsort orders every array and the environment keeps its variables',
     'qsort leaves a permutation of the array in ascending order of the comparison, for every element size and count, and calls the comparison only on elements. After any '
     'sequence of setenv and unsetenv, getenv gives the value last set for exactly that name, and the environment lists exactly the variables set. '
     'This holds for the library compiled by gcc and by MesCC, for x86_64 and i386.',
     ['inputs', 'histories'], 'every array content, element size and count, and every history of environment changes',
     'One test sorts one array of distinct strings, and one sets a single variable; equal keys, sorted input, and names that are prefixes of others need generated cases.',
     ['lib/stdlib/qsort.c', 'lib/posix/setenv.c', 'lib/posix/unsetenv.c', 'lib/posix/getenv.c'],
     [('sorting', 'lib/stdlib/qsort.c:qsort'), ('environment', 'lib/posix/setenv.c, lib/posix/unsetenv.c, lib/posix/getenv.c')],
     DIFF % ('arrays and histories of environment changes', 'glibc'), LC + 'The order of equal elements is unspecified and not judged.', LO)

prop('L06', 'Descriptors and file names behave as POSIX defines',
     'After any sequence of calls of the C library on descriptors (open with every mode, read, write, lseek, dup, close, fstat, pipe, fcntl) and on names (mkdir, rmdir, link, symlink, '
     'readlink, rename, unlink, remove, stat, access, chmod, chdir, opendir, readdir), every result, error number and byte, and the files and '
     'directories left behind, are those POSIX defines; the read-ahead inside the library is never visible through one descriptor. This holds for the library '
     'compiled by gcc and by MesCC, for x86_64 and i386.',
     ['histories', 'fault_sequences'], 'every history of such calls, failing ones included',
     'The library tests open and read one file; interleaved reads, writes and seeks around the read-ahead buffer, failing calls and reused descriptors are not sampled.',
     ['lib/linux', 'lib/posix', 'lib/mes/__buffered_read.c', 'lib/dirent', 'include/sys/stat.h', 'include/fcntl.h', 'include/dirent.h', 'lib/stdio/remove.c'],
     [('read-ahead', 'lib/mes/__buffered_read.c'), ('positions', 'lib/linux/lseek.c:lseek'), ('system calls', 'lib/linux/*.c'), ('directories', 'lib/dirent/*.c')],
     'stateful property testing: call histories in twin directories, differential against glibc, shrinking',
     LC + 'Runs as root in a scratch directory; duplicates of descriptors with data read ahead are known findings and not generated otherwise.',
     ['result, errno and bytes of every call, files and listings at the end'])

prop('L07', 'Streams read and write files as C defines',
     'After any sequence of calls on C library streams (fopen in every mode, fread, fwrite, fgetc, fputc, fgets, fputs, ungetc, fseek, ftell, feof, fclose; getchar, puts, putchar and printf on '
     'the standard streams) that keeps to the rules of C, every result and the contents of every file are what C defines, for any bytes, lengths and positions, '
     'around the internal buffer as elsewhere. This holds for the library compiled by gcc and by MesCC, for x86_64 and i386.',
     ['histories'], 'every history of stream calls on a few files',
     'Three tests open, write, seek and read one small file; modes on existing and missing files, push-back, short reads and binary contents are left open.',
     ['lib/stdio', 'lib/mes/fdgetc.c', 'lib/mes/fdgets.c', 'lib/mes/fdputc.c', 'lib/mes/fdputs.c', 'lib/mes/fdungetc.c', 'lib/stdlib/puts.c', 'lib/mes/__buffered_read.c'],
     [('modes', 'lib/stdio/fopen.c:fopen'), ('blocks', 'lib/stdio/fread.c, lib/stdio/fwrite.c'), ('push-back', 'lib/mes/fdungetc.c, lib/mes/fdgetc.c'), ('positions', 'lib/stdio/fseek.c, lib/stdio/ftell.c')],
     'stateful property testing: stream histories in twin directories, differential against glibc, shrinking',
     LC + 'One stream per file while it is written; one character of push-back.', ['result of every call, file contents at the end'])

prop('L08', 'Processes, the programs they run and jumps behave as POSIX and C define',
     'After any sequence of fork, exit, _exit, abort, raise, kill, wait, waitpid, pipe, signal and atexit, every status, result, byte and order of exit functions is the one POSIX and C '
     'define; execve, execv, execvp, execl and execlp run exactly the program that the path (or the search of PATH) names with exactly the given arguments and environment, and return only upon '
     'failure. longjmp resumes at its setjmp, with the given value (1 for 0), with the variables of every active function intact. This holds for the library compiled by gcc and by MesCC, for x86_64 and i386.',
     ['histories', 'inputs', 'schedules'], 'every history of such calls, every PATH and argument list, every nesting of jumps',
     'The tests run one program by one exec call and jump once; search paths with missing, empty and overlong elements, waiting in other orders, several exit functions and nested jumps are not sampled.',
     ['lib/posix', 'lib/linux/fork.c', 'lib/linux/waitpid.c', 'lib/mes/search-path.c', 'lib/stdlib/exit.c', 'lib/stdlib/atexit.c', 'lib/linux/signal.c', 'lib/x86_64-mes-gcc/setjmp.c',
      'lib/x86_64-mes-mescc/setjmp.c', 'lib/x86-mes-gcc/setjmp.c', 'lib/x86-mes-mescc/setjmp.c'],
     [('program search', 'lib/mes/search-path.c:search_path'), ('exec', 'lib/posix/exec*.c'), ('exit functions', 'lib/stdlib/exit.c, lib/stdlib/atexit.c'), ('jumps', 'lib/*/setjmp.c')],
     'stateful property testing: histories of children, signals, exec calls and jumps, differential against glibc, shrinking',
     LC + 'Signal functions that return are judged on i386 only; variadic exec calls not for gcc on x86_64. Children are ended in a controlled order (no free races).',
     ['status and output of every child, values returned by setjmp'])

prop('L09', 'Library functions stay within the memory they are given',
     'A C library function reads and writes no byte outside the objects it may access: an array of exactly the bytes that C entitles the function to (an unterminated one where a count or a precision bounds '
     'it) may be followed or preceded by memory that cannot be accessed, and what is passed as const may be read-only. The results are those C defines. This holds for the library compiled by gcc and by MesCC, for x86_64 and i386.',
     ['inputs'], 'every call of the string, memory, conversion, formatting, sorting, environment and input/output functions on operands of exactly the required size',
     'A read or write one byte too far goes unnoticed in any test whose buffers lie inside larger mapped memory, which is all of them.',
     ['lib/string', 'lib/stdlib', 'lib/stdio', 'lib/mes', 'lib/posix'],
     [('bounded copies', 'lib/string/strncpy.c, lib/string/strncat.c'), ('bounded comparison', 'lib/string/strncmp.c, lib/string/memcmp.c'), ('formatting', 'lib/stdio/vsnprintf.c'), ('reading', 'lib/mes/fdgets.c, lib/mes/__buffered_read.c')],
     'property-based testing: generated calls on operands between inaccessible pages, differential against glibc, faults as violations, shrinking',
     LC + 'Variadic functions not for gcc on x86_64.',
     ['result, operands, surrounding bytes, survival'])

prop('L10', 'getopt and getopt_long parse command lines as POSIX and GNU define',
     'For every option string, table of long options and command line, the sequence of calls of getopt, getopt_long or getopt_long_only returns the options in order (clusters, attached, separate and '
     'optional arguments, unique abbreviations, values after =), sets optarg, optind, the index and the flags as POSIX and GNU define, and answers ? to unknown, ambiguous or incomplete options. '
     'It ends at --, at the first operand or at the end; setting optind to 0 starts afresh, in the library compiled by gcc and by MesCC, for x86_64 and i386.',
     ['inputs'], 'every option string, long option table and command line, any number parsed in turn',
     'No test of the repository calls getopt of the C library at all.',
     ['lib/posix/getopt.c', 'include/getopt.h', 'lib/string/strncmp.c', 'lib/string/strchr.c'],
     [('scanner', 'lib/posix/getopt.c:_getopt_internal'), ('state', 'lib/posix/getopt.c:nextchar, optind')],
     'property-based testing: generated option tables and command lines, differential against glibc in POSIX order, shrinking',
     LC + 'Operands are never permuted by the Mes library; messages are not compared.',
     ['value of every call, optarg, optind, longind, flags, argv'])
