prop("C01", "Generated C keeps the meaning of every expression",
     "For every well-formed program, each expression in the generated C evaluates to the same value, with the same side effects, as the source expression read with C's precedence, associativity and the source's own parentheses. Legal C operators in any combination are accepted.",
     ["programs", "inputs"], "all operator/grouping/operand-form combinations of up to three binary operators, prefix/postfix/cast/call/index/member/assignment mixes, in every expression context; all operand values",
     "The tests compile a few fixed programs; a dropped or misplaced parenthesis shows only for particular operator pairs.",
     ["src/parser.rs", "src/format_c.rs", "src/translator.rs", "src/cspec.rs"],
     [("expression parser and operator precedence", "src/parser.rs"), ("printing of expressions", "src/format_c.rs"), ("translation of expressions", "src/translator.rs")])
prop("C02", "The compiler always ends with a verdict: no crash, no hang, no silence",
     "Whatever the bytes of the source files, the compiler terminates, and either succeeds (exit 0) or fails with exit 1 and a diagnostic. It never panics, overflows its stack or loops forever.",
     ["inputs", "programs"], "every truncation and byte replacement of representative sources, every one- and two-token insertion in every syntactic context, free bytes",
     "Tests feed well-formed sources and a handful of specific errors; a panic needs one particular malformed spot.",
     ["src/lexer.rs", "src/parser.rs", "src/preparser.rs", "src/translator.rs", "src/buf.rs", "src/types.rs"],
     [("lexer", "src/lexer.rs"), ("parser", "src/parser.rs"), ("module preparser", "src/preparser.rs"), ("translation and checks", "src/translator.rs")])
prop("C03", "Every module of the import graph is compiled exactly once, loops rejected",
     "For every import graph, the program contains each module reachable from the main one exactly once and no other module, calls reach the module that was named, and the compilation is rejected if and only if a reachable import loop or a missing module exists. How an import path is spelled does not matter, and the work does not grow with the number of import paths.",
     ["programs", "configurations"], "every import graph of up to 4 modules (5 acyclic), layered graphs of depth 16, all relative/library spellings of a module path",
     "Tests use fixed small trees; sharing, loops away from the main module and alternative spellings need specific graphs.",
     ["src/build.rs", "src/resolve.rs", "src/main_deptree.rs"],
     [("loading of the import tree", "src/build.rs load_tree"), ("path resolution", "src/resolve.rs"), ("dependency tree listing", "src/main_deptree.rs")])
prop("C04", "Names belong to their module: only exported ones are reachable",
     "A module can use another module's function, type or enum constant if and only if it is marked public there and qualified with that module; an unqualified name always means the module's own. Equal names in different modules, public or private, never interfere.",
     ["programs"], "all public/private combinations of function, enum and type in two imported modules that share all names with the main one; 25 forms of use, pairs of uses",
     "Tests check single visibility errors; interference needs equal names with particular markers in particular modules.",
     ["src/translator.rs", "src/build.rs", "src/node_queries.rs"],
     [("qualified name lookup", "src/translator.rs"), ("export queries", "src/node_queries.rs"), ("name mangling", "src/translator.rs")])

prop("C05", "Names are declared before use, used once declared, and never twice in one scope",
     "A program is accepted if and only if every name it uses is visible at that point (local, parameter, module level in any order, C library, or import) and every local, private module-level name and import it declares is used, with no name declared twice in one scope. An inner declaration hides an outer one for its block only.",
     ["programs"], "every assignment of names to declarations and uses in 47 kinds of use, nested/sibling/loop scopes, parameters, module-level functions, enums, variables and macros, types in 12 positions, import combinations",
     "Tests have single examples of an unused or undefined name; leaks between scopes need particular coincidences of names and places.",
     ["src/translator.rs", "src/build.rs", "src/cspec.rs"],
     [("scopes and usage tracking", "src/translator.rs"), ("usage checks", "src/translator.rs"), ("names of the C library", "src/cspec.rs")])
prop("C06", "A function with a result cannot run off its end",
     "If the compiler accepts a function whose result is not void, then no execution of it reaches its closing brace, whatever the conditions evaluate to; and a function that returns, panics or loops forever on every branch of its if/else and switch statements is accepted.",
     ["programs"], "all bodies of up to three statements from a catalogue nested in if/else, switch, string switch and loops; all condition values",
     "The tests have a few accepted and rejected bodies; a hole in the flow analysis shows only for particular nestings of breaks, loops and switches.",
     ["src/translator.rs"],
     [("missing-return check", "src/translator.rs"), ("calls of the check", "src/translator.rs")])
prop("C07", "Statements run in the order and under the conditions of the source",
     "In the generated C, if, else, while, for, switch, string switch, break, continue, return and panic do what the source says: same statements, same order, same conditions, each condition and switch value evaluated as often as the source says; no fall-through between switch cases; a case list matches each of its values; panic prints its message with its position and exits with status 1.",
     ["programs", "inputs"], "all combinations of statements and conditions in the listed nestings; all values of conditions, switch values and call results; loops up to two iterations",
     "Tests run a few programs; an else bound to the wrong if, a lost break or a value evaluated twice needs a particular nesting and input.",
     ["src/translator.rs", "src/format_c.rs", "src/parser.rs"],
     [("translation of statements", "src/translator.rs"), ("printing of statements", "src/format_c.rs"), ("statement parser", "src/parser.rs")])
prop("C08", "Literals keep their C meaning",
     "Every string, character and number literal of an accepted program, written anywhere, in one or several parts or lines, denotes in the generated C the same bytes or number (and number type) as in the source; a line break inside a string is a newline. Every well-formed literal is accepted.",
     ["inputs", "programs"], "all strings of up to three characters of a 13-character alphabet and of two arbitrary printable characters, adjacent strings, all character literals of one or two characters, number spellings and digits, in 16/11/15 contexts",
     "Tests contain a few literals; an escape at the edge of a part, a special character or an unusual number spelling is not among them.",
     ["src/lexer.rs", "src/format_c.rs", "src/buf.rs"],
     [("reading of literals", "src/lexer.rs"), ("printing of literals", "src/format_c.rs")])

prop("C09", "Declarations keep their types, names and values",
     "Every variable, parameter, result, field, union, type alias, function type and enum constant of an accepted program is declared in the generated C with the same name, base type, qualifier, pointer depth, array dimensions, member order and (for enums) value as in the source, in the module's own file and in the files of its importers alike, and every function's prototype matches its definition.",
     ["programs"], "all combinations of 12 base types, pointer depths 0-3, up to two array dimensions, const, parameter and field lists, variadic parameters, nested structs and unions, enum value lists, in each kind of declaration",
     "Tests compile fixed declarations; a lost star or a dimension in the wrong order shows only for particular shapes, and C often compiles it silently.",
     ["src/translator.rs", "src/parser.rs", "src/format_c.rs"],
     [("declaration parser", "src/parser.rs"), ("translation of declarations", "src/translator.rs"), ("printing of declarations", "src/format_c.rs")])
prop("C10", "Operators, calls and dereferences are type-checked",
     "The compiler rejects operators, calls, dereferences, indexes, field accesses, conditions and returns whose operand types are plainly wrong (a struct as a number, a dereferenced number, a call of a non-function, a wrong number of arguments, an unknown field, a string operand of an arithmetic operator) and accepts correctly typed ones.",
     ["programs"], "all operator/operand pairs from a catalogue of 30 typed expressions, all argument counts up to 4 against all parameter counts up to 3, all accessors, conditions and results",
     "Tests have single examples per rule; a hole opens for one operator with one pair of operand types.",
     ["src/translator.rs", "src/types.rs", "src/cspec.rs"],
     [("type derivation and operator rules", "src/types.rs"), ("checks of calls, fields, conditions", "src/translator.rs")],
     note="Combinations that C allows but the dialect does not promise either way (char and bool arithmetic, mixed signedness) are not judged.")
prop("C11", "Diagnostics point at the offending text",
     "Every error in a source file is reported as file:line:column where the offending text begins, whatever blanks, line breaks, comments, literals, macros and imports come before it, and in whichever module it is.",
     ["programs", "inputs"], "44 kinds of error after every combination of gaps, arbitrary two-byte comments and strings, escapes, macros, imports, text beyond ASCII, in the main and in imported modules",
     "Tests compare a few fixed messages; counting goes wrong only after particular preceding text.",
     ["src/buf.rs", "src/lexer.rs", "src/parser.rs", "src/translator.rs"],
     [("position tracking", "src/buf.rs"), ("token positions", "src/lexer.rs"), ("error reports", "src/translator.rs")])
prop("C12", "The order of a module's definitions does not matter",
     "A program is accepted, and compiled to valid C with the same declarations and the same meaning, in whatever order the top-level definitions of each module (types, enums, macros, variables, functions, imports) are written.",
     ["programs"], "every permutation of 4 or 5 definitions in 14 families (nested structs, enum chains, function types, aliases, tables, unions, imported types, ...)",
     "Tests have definitions in a natural order; C needs declarations before use, so a wrong output order shows only for particular source orders.",
     ["src/translator.rs"],
     [("ordering of the C definitions", "src/translator.rs reorder_elems"), ("prototypes and forward declarations", "src/translator.rs")])
prop("C13", "The exports listing is exactly the module's public interface",
     "`che exports` prints, for each module given, every constant, type and function marked public there and nothing else, with each function's full signature (result, pointer depth, parameters, shared types, dimensions, ellipsis) as in the source; for a module that does not compile it fails.",
     ["programs"], "all combinations of public markers over the kinds of definitions, all result and parameter shapes of C09's catalogue, several modules, wrong modules",
     "No test runs the command; an omission or a wrong signature shows only for particular declarations.",
     ["src/main_exports.rs", "src/format_che.rs", "src/parser.rs"],
     [("listing", "src/main_exports.rs"), ("export table", "src/parser.rs get_exports"), ("printing of types and expressions", "src/format_che.rs")])
prop("C14", "build, install, run and test report the truth",
     "build, install and run pass every generated file once, the requested output and each linked library to the C compiler; they succeed if and only if the source compiles and the C compiler ends with status 0; the C compiler's messages are shown; run starts the program with exactly the given arguments and only after a successful build; test builds and runs every *.test.c below the given directories, reports each one's outcome truthfully and fails if one failed. Wrong usage fails with a message.",
     ["programs", "schedules", "configurations"], "all exit statuses 0-128 and signals 1-11 of the C compiler, all combinations of up to four child statuses for tests, valid and invalid sources and imports, link lists",
     "Tests never see a failing or killed C compiler, and use one module; a swallowed status or a lost file shows only then.",
     ["src/build.rs", "src/main_build.rs", "src/main_run.rs", "src/main_install.rs", "src/main_test.rs", "src/main.rs"],
     [("build of a program", "src/build.rs build_prog"), ("commands", "src/main_*.rs"), ("dispatch", "src/main.rs")])
prop("C15", "A failing file or process operation is never taken for success",
     "Whichever single or multiple opens, reads, creations, writes (also short ones), directory creations or process starts fail while a command runs, the command either fails with a message or its output is complete and the same as without the failures.",
     ["schedules", "crash_points"], "a symbolic failure at each of the first 5 operations of each kind, in all combinations, for genc, build, install, run, exports, deptree",
     "Tests have no failing disk; a swallowed error needs a failure at one particular operation.",
     ["src/build.rs", "src/main_genc.rs", "src/preparser.rs", "src/lexer.rs", "src/main_build.rs"],
     [("writing of the C files", "src/build.rs write_c99"), ("reading of the sources", "src/preparser.rs"), ("start of the C compiler", "src/build.rs build_prog")])
prop("C16", "The output depends on the input only",
     "Two runs of a command on the same files produce the same generated files, the same messages in the same order and the same commands, whatever the hash seeds of the run.",
     ["schedules", "programs"], "all placements of up to three names of each kind in the compiler's hash tables, in 26 scenarios (imports, types, enums, functions, several errors of a kind, listings, link lists)",
     "A test compares one run with an expectation; an order that depends on hash seeds fails one run in many.",
     ["src/translator.rs", "src/build.rs", "src/main_exports.rs"],
     [("tables of names", "src/translator.rs"), ("module cache", "src/build.rs")])

TL = "solver-based symbolic execution of the LLVM IR of the library module's generated C (own engine over z3), with memory checking"
def lprop(*a, **k):
    prop(*a, technique=TL, **k)
lprop("L01", "Byte, bit, hex, URL and UTF-8 codecs are exact inverses",
     "What enc/endian, bits, enc/hex, enc/urlencode and utf write, the matching reader reads back unchanged, for every value and bit order; each encoding is the standard one (byte order, bit order, hexadecimal digits, percent escapes, UTF-8); a reader reports the end of its input, and an invalid UTF-8 sequence decodes to the error rune without reading past it.",
     ["inputs"], "all 4-byte values, all 11-bit patterns in both bit orders, all 3-byte texts for hex and URL encoding, all 4-byte sequences and all runes up to 21 bits",
     "The tests have one or two values per codec; sign extension, boundary runes and the last bit of a stream are not among them.",
     ["lib/enc/endian.c", "lib/bits.c", "lib/enc/hex.c", "lib/enc/urlencode.c", "lib/utf.c"],
     [("readers and writers of integers", "lib/enc/endian.c"), ("bit reader and writer", "lib/bits.c"), ("rune encoding and decoding", "lib/utf.c")])
lprop("L02", "Containers hold exactly what was put in, and release it",
     "After any sequence of operations, clip/map, clip/map2 and clip/stringtable give for each key the value set last and nothing for a key that was never set, however keys collide and however often the table grew; their iterators give each entry once; clip/vec keeps each element at its index, clip/buffer gives its bytes in the order written, clip/llist keeps order and removes exactly the removed items. Freeing a container releases all its memory, and no operation reads or writes outside it.",
     ["histories", "inputs"], "all histories of 3 operations over 4 keys (3 keys with colliding hashes in map2) on top of prefilled tables at and around each growth point, all values, up to 39 vector elements, three write/read rounds of a buffer",
     "The tests insert a few keys; a collision at the growth point or a value of another size needs a particular history.",
     ["lib/clip/map.c", "lib/clip/map2.c", "lib/clip/vec.c", "lib/clip/buffer.c", "lib/clip/stringtable.c", "lib/clip/llist.c"],
     [("hash tables", "lib/clip/map.c"), ("hash table with growth", "lib/clip/map2.c"), ("byte queue", "lib/clip/buffer.c")])
lprop("L03", "Decompressing what was compressed gives the original",
     "For every input, expanding the output of compress/lzw gives the input back, through every widening of the code and reset of the dictionary, and decoding a text encoded with compress/huffman gives the text; canonical Huffman trees are built exactly from the code lengths (RFC 1951). Neither loses memory or reads outside its buffers.",
     ["inputs"], "all texts of up to 8 symbols of 2, 5 symbols of 4, 9 symbols around a dictionary reset; all texts of up to 6 letters of 4; all canonical code-length sets up to 4 bits",
     "The tests compress one text; the dictionary corner cases (a code used in the step that defines it, a reset) depend on the symbol sequence.",
     ["lib/compress/lzw.c", "lib/compress/huffman.c", "lib/bits.c"],
     [("dictionary coder", "lib/compress/lzw.c"), ("prefix codes", "lib/compress/huffman.c")])
lprop("L04", "String functions, string builder, memory streams and lines behave as named",
     "For every text, including empty ones and ones with bytes above 127, strings.split yields the parts between separators, trim removes exactly the surrounding space, the comparisons and prefix/suffix/case predicates agree with their definition; a string builder holds the concatenation of what was appended; a mem stream behaves as a file of the same contents under any sequence of reads, writes and seeks; linereader yields each line of a file exactly once. All memory is released.",
     ["inputs", "histories"], "all strings of up to 5 arbitrary bytes, pairs of strings of up to 3 bytes, histories of 4 stream operations, files of up to 4 arbitrary bytes",
     "The tests have a few texts per function; edge cases are empty parts, missing final newlines, equal prefixes and bytes above 127.",
     ["lib/strings.c", "lib/strbuilder.c", "lib/mem.c", "lib/linereader.c"],
     [("string functions", "lib/strings.c"), ("memory stream", "lib/mem.c"), ("line reader", "lib/linereader.c")])
lprop("L05", "Data written as bencode, JSON or CSV reads back as the same data",
     "Values written with formats/bencode_writer are read back by formats/bencode, tables written with formats/csv are read back by it cell by cell, and JSON values written or cloned by formats/json read back equal, for every string content (quotes, separators, line breaks, escapes, bytes above 127) and every 32-bit integer. All memory is released.",
     ["inputs"], "three bencode values with strings of up to 3 arbitrary bytes and numbers of 16 classes, JSON strings, keys and values with 2 arbitrary bytes, 2 x 2 CSV cells of up to 3 arbitrary bytes",
     "The tests read fixed documents; a character that one side escapes and the other does not is not in them.",
     ["lib/formats/bencode.c", "lib/formats/bencode_writer.c", "lib/formats/json.c", "lib/formats/csv.c"],
     [("bencode reader and writer", "lib/formats/bencode.c"), ("JSON reader and writer", "lib/formats/json.c"), ("CSV reader and writer", "lib/formats/csv.c")])
lprop("L06", "MD5 and SHA-1 digests are those of the standards",
     "For every message length, crypt/md5 and crypt/sha1 give the digest that RFC 1321 and FIPS 180-4 define, for any byte values, from a buffer or a stream.",
     ["inputs"], "all message lengths 0 to 130 (all paddings over three blocks), 8 byte values at 4 positions of the message",
     "The tests digest a few short strings; padding errors show only for lengths around the block size and sign errors only for high bytes.",
     ["lib/crypt/md5.c", "lib/crypt/sha1.c", "lib/mem.c"],
     [("MD5", "lib/crypt/md5.c"), ("SHA-1", "lib/crypt/sha1.c")])
lprop("L07", "Durations are parsed and written exactly",
     "time.parse_duration gives the exact duration of every well-formed text (seconds, minutes:seconds, hours:minutes:seconds, with a fraction) and refuses malformed ones; time.dur_fmt writes hours, minutes, seconds and milliseconds of any duration with the digits of the format.",
     ["inputs"], "all digit values in texts of one to three parts with fractions of up to 3 digits, all malformed texts of up to 3 arbitrary bytes, value classes at the carries between units",
     "No test covers it; errors show at the carries between units, with leading zeros in the fraction or beyond 35 minutes.",
     ["lib/time.c"],
     [("duration parser", "lib/time.c parse_duration"), ("duration format", "lib/time.c dur_fmt")])
lprop("L08", "Malformed input is refused without memory errors, leaks or hangs",
     "Whatever the bytes, the readers of bencode, JSON, CSV and URLs end, reading and writing only inside their buffers, release what they allocated, and reject what is not in the format; texts longer than a reader's fixed buffers are refused or truncated, never written past the end.",
     ["inputs"], "all inputs of up to 5 (bencode), 4 (JSON, CSV), 7 (URL) arbitrary bytes; numbers, CSV values and URL parts of every length around the size of the fixed buffers",
     "Tests feed well-formed documents; an overread needs a truncated input, an overflow one longer than the buffer.",
     ["lib/formats/bencode.c", "lib/formats/json.c", "lib/formats/csv.c", "lib/url.c", "lib/tokenizer.c"],
     [("bencode reader", "lib/formats/bencode.c"), ("JSON reader", "lib/formats/json.c"), ("URL parser", "lib/url.c"), ("tokenizer", "lib/tokenizer.c")])
lprop("L09", "Command-line options are parsed as declared",
     "For every argument vector, opt.parse sets each declared flag, number and string option from grouped or separate short options, gives the remaining arguments in order, and ends with an error message for an unknown option, a missing or malformed value or a wrong number of arguments; -- ends the options.",
     ["inputs", "configurations"], "all vectors of 3 arguments of up to 3, 3 and 2 arbitrary bytes, with 4 settings of the expected number of arguments",
     "The tests parse two fixed command lines; grouped options with values, a missing last value and -- need particular vectors.",
     ["lib/opt.c"],
     [("option parser", "lib/opt.c parse")])

import subprocess
LOG = {l.split(" ", 1)[1][5:]: l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines() if " fix: " in l}
def fixed(pid, subject, what):
    commit = LOG[subject]
    KNOWN.append(dict(property=pid, status="fixed", commit=commit, match="$^", what="fixed: property=%s %s %s" % (pid, commit, what)))
KNOWN = []
fixed("C01", "keep the grouping of operands in generated C expressions", "`a - (b - c)`, `-(a + b)`, `(a = b) + c` and others lost their parentheses in the generated C")
fixed("C01", "translate the <<= and >>= operators instead of panicking", "`x <<= 1` and `x >>= 1` panicked the compiler")
fixed("C02", "report unterminated literals at the end of a file instead of panicking", "unterminated string, char or comment at the end of a file panicked")
fixed("C02", "report malformed type declarations instead of panicking or hanging", "malformed typedefs and struct bodies panicked or looped forever")
fixed("C02", "report syntax errors at the end of a file instead of panicking or hanging", "syntax errors at the end of the file panicked or looped forever")
fixed("C02", "report duplicate definitions instead of panicking", "a name defined twice in a module panicked")
fixed("C02", "accept #define without a value instead of panicking", "`#define X` without a value panicked")
fixed("C01", "translate index expressions in array literals", "`{[1] = x}` keys in array literals were not translated")
fixed("C02", "report imported types used as values and missing genc arguments instead of panicking", "an imported type used as a value, and genc without arguments, panicked")
fixed("C02", "report malformed hexadecimal numbers", "`0x` without digits was accepted and produced malformed C")
fixed("C01", "derive the right types for sums with constants and pointers", "sums of constants with pointers had the wrong type, so valid programs were rejected")
fixed("C03", "make valid C names out of any module file name", "module file names with dots or dashes produced invalid C names")
fixed("C03", "recognise a module imported through different relative paths", "one module imported through two relative spellings was compiled twice and did not link")
fixed("C03", "visit every module once when loading the import tree", "loading time was exponential in the number of import paths (diamonds)")
fixed("C04", "export functions that have a parameter of the same name", "`pub int f(int f)`: an exported function with a parameter of its own name lost its module prefix, importers did not link")
fixed("C02", "report calls through circular typedefs instead of overflowing the stack", "`typedef A B; typedef B A; A x; x();` overflowed the stack")
fixed("C01", "derive the right type for addresses of arrays and functions", "`*&a` of an array was rejected as a dereference of a non-pointer")
fixed("C06", "detect functions that can end without a return", "loops with break, switches without default and nested branches were taken as always returning, and some always-returning bodies were rejected")
fixed("C07", "evaluate the value of a string switch once and allow a switch without cases", "`switch str (f())` called f once per case value; a switch without cases panicked")
fixed("C08", "keep the meaning of string and character literals", "`\"\\\\x4\" \"1\"` merged into one escape, escaped line breaks and quote characters changed or broke literals")
fixed("C08", "read numbers with a plus sign in the exponent", "`1e+3` was read as `1e` + `3`")
fixed("C11", "report unused imports at their position", "an unused import was reported without a position")
fixed("C11", "report conditions and indexes of wrong types at their position", "a condition or index of a wrong type was reported at the wrong place")
fixed("C12", "define structs and enums before the definitions that need them", "a struct that contains a struct defined later, or an enum based on a later one, produced invalid C")
fixed("C12", "define types after the types they are made of", "a function type or alias of a type defined later produced invalid C")
KNOWN.append(dict(property="C14", status="known", match="^exit status 0 although a test did not build and was reported", what="che test: a test that does not build is reported as FAIL but not counted, so the exit status can be 0 (src/main_test.rs run_arg)"))
fixed("C13", "separate parameters that share a type in the exports listing", "`f(int a, b)` was listed as `f (int ab)`")
fixed("C13", "keep the grouping of operands when printing expressions", "`[Z - (A - 1)]` was listed as `[Z - A - 1]`")
fixed("C14", "exit with an error on an unknown command", "an unknown command printed the usage and exited with status 0")
fixed("L01", "report the end of input when reading bits", "the bit reader returned stale bits at the end of input")
fixed("L02", "release the buffer handle", "buffer.free did not free the handle")
fixed("L02", "remember the size of a value that replaces another", "map2: a longer value kept the size of the one it replaced, a rebuild read past its end")
fixed("L03", "release the input buffer of the LZW compressor", "lzw leaked its input buffer")
fixed("L06", "give the SHA-1 digest of an empty message", "the SHA-1 digest of an empty message was wrong")
fixed("L06", "tell byte 255 from the end of a memory stream", "a byte 0xFF in a memory stream was taken as its end, so its MD5 was wrong")
fixed("L04", "compare the whole suffix in ends_with", "ends_with(\"xbc\", \"abc\") was true")
fixed("L04", "tell byte 255 from the end of file when reading lines", "a byte 0xFF ended the file for linereader")
fixed("L08", "refuse URLs whose parts do not fit", "long URL parts overflowed fixed buffers")
fixed("L08", "check for the end of data when reading bencode", "truncated bencode was read past its end or looped forever")
fixed("L05", "write the smallest integer in bencode", "INT_MIN was written wrongly")
fixed("L08", "keep numbers within the tokenizer's buffer", "a number of 100 digits or more overflowed a buffer")
fixed("L07", "write milliseconds with three digits in hh:mm:ss,ms", "milliseconds were written without leading zeros")
fixed("L07", "keep the fraction of a parsed duration exact", "the fraction of a duration was rounded through floats")
fixed("L07", "parse durations over 35 minutes and with hours", "durations over 35 minutes overflowed, ones with hours were refused")
fixed("L05", "escape quotes in CSV as the reader expects them", "the CSV writer escaped quotes in a way its reader did not understand")
fixed("L08", "keep CSV values within the buffer", "a CSV value of 4096 bytes or more overflowed a buffer")
fixed("L08", "keep large numbers within the buffer when writing JSON", "writing 1e99 as JSON overflowed a buffer")
fixed("L05", "copy JSON null values", "cloning a JSON null panicked")
fixed("L05", "release the keys of JSON objects", "the keys of JSON objects leaked")
fixed("L05", "write the whole JSON text and release it", "the JSON text was cut and leaked")
fixed("L05", "read and write escaped characters in JSON strings and keys", "quotes and backslashes in JSON strings and keys were written without escapes and read with them")
