# The properties: what is claimed, over what, why tests cannot settle it, and where it is anchored.
FE = "src/cxy/lang/frontend/"
PROPS = {
"C01": dict(title="The lexer is total: any bytes become finitely many tokens, memory-safely",
  statement="For every byte string given as a source, tokenisation terminates with an end-of-file token after finitely many tokens, never reads outside the source buffer and never crashes. Every token's source range lies inside the source and ranges never go backwards.",
  over=["inputs"], text="all byte strings (within the length bound), including NULs, invalid UTF-8 and unterminated strings, characters, comments and interpolations",
  why="The lexer tests feed a dozen hand-written files; whether some byte sequence makes it loop or read past the end needs all byte strings.",
  files=[FE+"lexer.c", "src/cxy/core/utils.c"], mechanism=[("advanceLexer", FE+"lexer.c"), ("skipChar/peekNextChar end checks", FE+"lexer.c")]),
"C02": dict(title="Tokens are the longest match, at the right place, with exact keywords",
  statement="The tokens of a source are exactly what longest-match reading of the language's operator, keyword, identifier, number and comment rules yields: comments (nested block comments included) and white space separate tokens, an identifier is a keyword exactly when spelled like one; an included source contributes its own tokens at its place. Each token carries the byte range, row and column where its text stands.",
  over=["inputs"], text="all byte strings within the bound, alone and inside multi-line sources, compared with an independent tokeniser",
  why="Tests list each operator once; adjacency, prefixes of operators and keywords, and positions after newlines form a space only a quantified check covers.",
  files=[FE+"lexer.c", FE+"token.h"], mechanism=[("advanceLexer operator tree", FE+"lexer.c"), ("keyword table", FE+"lexer.c"), ("row/col bookkeeping in skipChar", FE+"lexer.c")]),
"C03": dict(title="A literal denotes the value its spelling says",
  statement="Integer literals in every base, character literals and string literals with any escape or UTF-8 text have, as tokens, as syntax-tree values and in the compiled program, the value their spelling denotes; malformed character literals are rejected with a diagnostic. No digit, escape or byte is dropped, duplicated or misread.",
  over=["inputs", "programs"], text="all digit strings, escapes and byte contents within the bounds; 700 literals through the whole compiler to the generated C",
  why="The tests print a handful of literals; escapes next to hex digits, 64-bit boundaries and multi-byte characters are combinations they never sample.",
  files=[FE+"lexer.c", FE+"parser.c", "src/cxy/core/utils.c", "src/cxy/lang/backend/c/generate.c"], mechanism=[("makeIntLiteral/makeCharLiteral", FE+"lexer.c"), ("escapeString/convertEscapeSeq", "src/cxy/core/utils.c"), ("visitStringLit/visitCharLit/visitIntegerLit", "src/cxy/lang/backend/c/generate.c")]),
"C04": dict(title="The compiler's hash tables are finite maps for every history",
  statement="The compiler's two hash containers behave as finite maps: after any sequence of insertions, removals, growth and clearing, and whatever the elements' hashes are, exactly the elements put and not removed are found, with the value last stored, counted, and visited exactly once by iteration. Insertion reports truthfully whether the element was new.",
  over=["histories", "inputs"], text="all operation sequences, hash assignments and stored values within the bounds",
  why="No test exercises them directly; lost elements need a particular collision pattern around the end of the table followed by a removal or growth.",
  files=["src/cxy/core/htable.c", "src/cxy/core/hmap.c"], mechanism=[("removeFromHashTable backward shift", "src/cxy/core/htable.c"), ("rehashTable", "src/cxy/core/htable.c"), ("hmapPut/hmapRemove robin-hood probing", "src/cxy/core/hmap.c")]),
"C05": dict(title="Interned strings are canonical and pool memory never overlaps",
  statement="Interning yields the same address for two strings exactly when their bytes are equal, and the interned text never changes afterwards. Memory from the compiler's pool is aligned, disjoint from everything else still in use, keeps its contents across resizing, recycling and reset, and is all released with the pool.",
  over=["histories", "inputs"], text="all string contents and collision patterns, allocation sizes and alloc/free/resize histories within the bounds",
  why="Identity comparison of interned names is used everywhere; a wrong merge needs colliding hashes or common prefixes that no test contains.",
  files=["src/cxy/core/strpool.c", "src/cxy/core/mempool.c"], mechanism=[("makeStringSized", "src/cxy/core/strpool.c"), ("allocFromMemPool", "src/cxy/core/mempool.c"), ("caches and tracked allocations", "src/cxy/core/mempool.c")]),
"C06": dict(title="Dynamic arrays, string builders and formatted text hold what was put in",
  statement="The compiler's growable array, string builder and text formatter contain exactly what was appended, in order, whatever the sizes and however often they grow: pops return the last element, copies are equal, integers print in decimal at full range, every Unicode character is written as its UTF-8 encoding, and an escaped character reads back as itself.",
  over=["histories", "inputs"], text="all operation sequences, element values, text sizes around the growth limits, code points and integers within the bounds",
  why="Generated code and every diagnostic pass through these; errors hide at buffer boundaries and in rarely used characters.",
  files=["src/cxy/core/array.c", "src/cxy/core/sb.c", "src/cxy/core/format.c", "src/cxy/core/utils.c"], mechanism=[("growDynArray", "src/cxy/core/array.c"), ("stringBuilderGrow", "src/cxy/core/sb.c"), ("reserveBuf/format/printUtf8", "src/cxy/core/format.c")]),
"C07": dict(title="Operators group by precedence and associativity, through to compiled code",
  statement="An expression is grouped as the operator table says: postfix before prefix before the binary levels (multiplicative, additive, shift, relational, equality, &, ^, |, &&, ||), equal levels to the left, conditional and assignment loosest and to the right, parentheses overriding. The compiled program computes exactly the value of that grouping for all operand values.",
  over=["inputs", "programs"], text="all operator sequences up to the bound as syntax trees; all well-typed pairs and triples of operators through the compiler with arbitrary 32-bit operands",
  why="Precedence errors appear only for particular operator pairs and operand values; the language tests use a few fixed expressions.",
  files=[FE+"parser.c", FE+"operator.h", "src/cxy/lang/backend/c/generate.c"], mechanism=[("binary/assign/ternary/prefix/postfix", FE+"parser.c"), ("AST_BINARY_EXPR_LIST precedences", FE+"operator.h"), ("visitBinaryExpr/visitUnaryExpr/visitTernaryExpr", "src/cxy/lang/backend/c/generate.c")]),
"C08": dict(title="Integer arithmetic, comparison and conversion have their declared width and sign",
  statement="On every integer type the arithmetic, bitwise, shift and comparison operators, compound assignments, increments and decrements give the value of that type's width and signedness (wrapping on overflow), and every conversion, explicit (`as`, `<T>`) or implied by assignment or a call, yields the value represented modulo the target's width. A prefix cast applies to the whole expression after it.",
  over=["inputs", "programs"], text="every operator at every integer type and every ordered pair of types, on all operand values",
  why="The language tests compute a few small numbers; a lost cast or wrong signedness shows only for values beyond the range of the narrower type.",
  files=["src/cxy/lang/backend/c/generate.c", "src/cxy/lang/middle/sema/binary.c", "src/cxy/lang/middle/sema/cast.c", "src/cxy/lang/middle/simplify/simplify.c"], mechanism=[("visitCastExpr/visitBinaryExpr/visitAssignExpr", "src/cxy/lang/backend/c/generate.c"), ("promoteType, checkBinaryExpr", "src/cxy/lang/middle/sema/binary.c")]),
"C09": dict(title="Statements execute in the order and as often as the source says",
  statement="Compiled control flow follows the source for all values: conditionals take exactly one branch, loops (while, counting ranges with any step, arrays with or without index) run the stated iterations with the stated values, break, continue and return leave exactly what they name, switch and match run exactly the one matching case (single values, several values, inclusive ranges, enum options, union types), && || and ?: evaluate only what they need, once, and inner declarations shadow outer ones.",
  over=["inputs", "programs"], text="60 control-flow forms and their nestings with arbitrary operand values, each compared with its meaning for every input",
  why="The execution tests run each statement form once with constants; wrong bounds, fall-through or double evaluation needs particular values.",
  files=["src/cxy/lang/backend/c/generate.c", "src/cxy/lang/middle/simplify/simplify.c", "src/cxy/lang/middle/sema/for.c", "src/cxy/lang/middle/sema/switch.c", FE+"parser.c"], mechanism=[("visitForStmt/visitCaseStmt/visitIfStmt/visitWhileStmt", "src/cxy/lang/backend/c/generate.c"), ("simplifyForStmt", "src/cxy/lang/middle/simplify/simplify.c"), ("checkCaseStmt", "src/cxy/lang/middle/sema/switch.c")]),
"C10": dict(title="Deferred statements and exceptions run exactly what they should, exactly once",
  statement="A deferred statement runs exactly once when its scope is left, in reverse order of registration, after the returned value has been computed, on every way out of the scope (falling off the end, return, break, continue, a raised exception) and only if it was reached. A raised exception reaches the nearest enclosing catch whatever functions it crosses, nothing after the raising call in between runs, and without an exception the call's value is delivered unchanged.",
  over=["inputs", "programs"], text="combinations of nested scopes, loops, returns, raises and catches, with arbitrary values steering which way out is taken, each compared with its meaning for every input",
  why="A defer missed or run twice needs a particular way out of a particular nesting; the tests run one fixed path through each feature.",
  files=["src/cxy/lang/middle/defer.c", "src/cxy/lang/middle/sema/exception.c", "src/cxy/lang/middle/simplify/simplify.c", "src/cxy/lang/backend/c/generate.c"], mechanism=[("visitReturnStmt/visitBlockStmt defer expansion", "src/cxy/lang/middle/defer.c"), ("catch lowering", "src/cxy/lang/middle/sema/exception.c")]),
"C11": dict(title="Structs, classes, tuples, unions, arrays and closures hold and yield their data",
  statement="A compiled program reads back exactly the data it stored: struct, class and tuple members, nested and defaulted ones, array elements, captured variables; assignment of structs and tuples copies, classes are shared; a method acts on its own object, a virtual call runs the function of the object's class, inherited members are the base's; a tagged union yields the member last stored and `is`/match name its type; an optional holds a value exactly when given one; overloaded operators, generic functions and types, default arguments and variadics mean their definition.",
  over=["inputs", "programs"], text="about 80 uses of data types with arbitrary operand values, each compared with its meaning for every input",
  why="Layout, copying and dispatch errors need particular nestings and values; the tests print one fixed run of each feature.",
  files=["src/cxy/lang/middle/sema/struct.c", "src/cxy/lang/middle/sema/class.c", "src/cxy/lang/middle/sema/inheritance.c", "src/cxy/lang/middle/sema/match.c", "src/cxy/lang/middle/sema/closure.c", "src/cxy/lang/middle/sema/generics.c", "src/cxy/lang/middle/simplify/simplify.c", "src/cxy/lang/backend/c/generate.c"], mechanism=[("visitMemberExpr/virtualDispatch", "src/cxy/lang/middle/simplify/simplify.c"), ("visitUnionValue/visitTupleExpr", "src/cxy/lang/backend/c/generate.c"), ("operator overloads", "src/cxy/lang/middle/sema/binary.c")]),
"C12": dict(title="Class objects live exactly as long as something refers to them",
  statement="In a program compiled with memory management every class object held by variables, members, parameters, results, tuples, unions, optionals or struct copies is destroyed exactly once, when the last of them goes away, whatever path the program takes (branches, loops, break, continue, return, exceptions, moves, reassignment, switch, conditional expressions); it is never used after, and when the function that made it returns nothing of it remains.",
  over=["inputs", "programs"], text="about 125 object lifetimes with arbitrary values steering the control flow, counting live objects and checking every memory access",
  why="A count lost or dropped twice needs one particular path (a move in one branch, an early return, a self-assignment), and often shows no output difference.",
  files=["src/cxy/lang/middle/mem/manage.c", "src/cxy/lang/middle/mem/finalize.c", "src/cxy/runtime/builtins.cxy", "src/cxy/lang/middle/simplify/simplify.c", "src/cxy/lang/backend/c/generate.c"], mechanism=[("visitAssignExpr/visitReturnStmt/sealCurrentJumpPoint", "src/cxy/lang/middle/mem/manage.c"), ("drop flags", "src/cxy/lang/middle/mem/finalize.c"), ("__smart_ptr_get/__smart_ptr_drop", "src/cxy/runtime/builtins.cxy")]),
"C13": dict(title="Strings and string views do what their operations say",
  statement="For every text, position and count: String and __string report their size, compare by content, find a byte or a text's first and last position, tell prefixes and suffixes, cut substrings, trim white space at either end and iterate over exactly their bytes; building, appending, growing, reserving, resizing and clearing a String yields exactly the bytes put in, terminated by a NUL, without touching memory that is not its own.",
  over=["inputs"], text="all texts of up to 8 bytes (thorough: 12), with every position and count; strings grown up to 70 bytes",
  why="The string tests compare a few fixed texts; boundary positions, empty and white-space-only texts and growth need every text and position.",
  files=["src/cxy/runtime/builtins.cxy"], mechanism=[("__string", "src/cxy/runtime/builtins.cxy"), ("String", "src/cxy/runtime/builtins.cxy")]),
"C14": dict(title="Output streams print every value as its text, in order and complete",
  statement="`<<` on any output stream appends the decimal text of integers, the UTF-8 encoding of characters, true/false, texts, enum member names, and the documented form of tuples, structs, arrays, optionals, unions and objects with their own `str`, for every value; a buffered stream passes on exactly the bytes it was given, in order, whatever the buffer and chunk sizes, and everything on sync or destruction; memory streams and strings hold exactly what was printed.",
  over=["inputs"], text="all code points, all 8 and 16 bit and boundary 32 and 64 bit integers, arbitrary chunks through all small buffer sizes",
  why="Extreme integers, four-byte characters and chunk/buffer size coincidences are inputs no test prints.",
  files=["src/cxy/runtime/builtins.cxy"], mechanism=[("OutputStream `<<`", "src/cxy/runtime/builtins.cxy"), ("BufferedOutputStream.append", "src/cxy/runtime/builtins.cxy")]),
"C15": dict(title="Hashes are the FNV-1a of all the bytes; equal values hash alike",
  statement="The hash of a text of any length is the multiply-after-xor FNV of all its bytes from the given start value, the same for string, String and a string view of equal content; of an integer, character or enum, of its little-endian bytes; of a tuple or array, of its elements in turn; of an object, what its own hash operator says. The case-insensitive hash ignores the case of ASCII letters. Values that compare equal have equal hashes.",
  over=["inputs"], text="all texts of up to 4 bytes (thorough: 6), long texts around 127/128, 255/256 and 300 bytes with arbitrary bytes, all integers",
  why="A hash that drops a byte, or a long text's tail, still works on the few keys a test inserts; only comparing all inputs shows it.",
  files=["src/cxy/runtime/builtins.cxy"], mechanism=[("hash / hash_fnv1a_*", "src/cxy/runtime/builtins.cxy"), ("String.hash", "src/cxy/runtime/builtins.cxy")]),
"C16": dict(title="Vectors and lists hold exactly what was put in, in order",
  statement="After any history of pushing, popping, shifting, storing, shrinking and resizing, a Vector holds exactly the elements a plain sequence would hold, in order, whatever its initial capacity and however often it grew or shrank; iteration, find, indexOf, filter, map, accumulate and printing see exactly those elements; counted elements are released exactly once, when they leave the vector or the vector goes away. A List gives back its elements first in, first out.",
  over=["inputs", "histories"], text="every history of 5 (thorough: 6) operations from capacities 0..3, arbitrary element values; fills and drains of up to 60 elements",
  why="Growing, shrinking and releasing go wrong at particular sizes after particular histories; the tests push a handful of numbers once.",
  files=["src/cxy/stdlib/vector.cxy", "src/cxy/stdlib/list.cxy"], mechanism=[("Vector.push/pop/shift/resize/shrink", "src/cxy/stdlib/vector.cxy"), ("List.push/pop", "src/cxy/stdlib/list.cxy")]),
"C17": dict(title="Hash maps and sets contain exactly the live keys with their latest values",
  statement="After any history of inserting, replacing, removing and clearing, whatever the keys hash to (all collision and wrap-around patterns), a HashMap finds exactly the keys inserted and not removed, each with the value last stored, reports their number, and iteration, each and map visit every entry exactly once, at every table size; inserting without replacing keeps the old value; keys and values that are counted objects are released exactly once. A HashSet likewise.",
  over=["inputs", "histories"], text="all placements of up to 5 keys in tables of 5 and 11 slots, all histories of 3 (thorough: 4) operations, tables of up to 100 entries",
  why="A lost key needs a particular collision pattern followed by a particular removal; the tests insert a few keys that hardly collide.",
  files=["src/cxy/stdlib/hash.cxy"], mechanism=[("HashMap.insert/remove/get", "src/cxy/stdlib/hash.cxy"), ("iteration, HashMap.map", "src/cxy/stdlib/hash.cxy")]),
"C18": dict(title="Base64 encodes every byte string and decodes it back",
  statement="Encoding any byte string yields exactly the RFC 4648 base64 text (with padding; the url safe form with its alphabet and without padding, of the size urlEncodeSize says), decoding it gives the bytes back, in both alphabets, and decoding a text that is not base64 raises an exception; none of them reads or writes beyond the text.",
  over=["inputs"], text="every byte string of up to 7 (thorough: 9) bytes, every text of up to 6 (thorough: 8) characters",
  why="A wrong bit or an overread shows for particular lengths modulo three and particular byte values; the tests encode a few phrases.",
  files=["src/cxy/stdlib/base64.cxy"], mechanism=[("encodeBuffer/decodeBuffer/urlEncodeBuffer/urlDecodeBuffer", "src/cxy/stdlib/base64.cxy")]),
"C19": dict(title="Paths name what they say; file operations touch only what they are asked to",
  statement="Joining, splitting, extension, base name, directory and the predicates of a path are those of its text for every text, and each path reaches the system exactly as written, terminated. Existence and type queries, directory listing (every entry once, in any order the system returns them), creation of directories with their parents and removal act on exactly the places named: removal takes the tree named and nothing outside it (links are removed, not followed), and an operation that the system refuses reports it and does nothing more.",
  over=["inputs", "crash_points"], text="all short path texts; every small directory tree including links out of it, every order of listing, one (thorough: two) failing system calls at any point",
  why="A removal that follows a link, an unterminated path or an ignored error needs a particular tree, text or failing call; the tests make one directory in /tmp.",
  files=["src/cxy/stdlib/path.cxy"], mechanism=[("Path", "src/cxy/stdlib/path.cxy"), ("remove/mkdir/listing", "src/cxy/stdlib/path.cxy")]),
"C20": dict(title="Every coroutine runs, waits as long as it asked, and is woken exactly once",
  statement="Started coroutines, the starter and sleepers take turns without one being lost, repeated or starved, also when the function that started them has returned; a sleep lasts at least its time and, with an exact clock, exactly its time; waiting for a descriptor returns once, at the moment it becomes ready, hangs up or its timeout passes, with the matching result, leaving no registration or timer behind that could disturb later waits; a mutex is held by one coroutine at a time and passes on in order; stacks of finished coroutines are used again and none is lost.",
  over=["inputs", "schedules", "histories"], text="programs of up to 4 coroutines with arbitrary sleeping times, timeouts, arrival times and hang-ups; a crowd of 110 coroutines; 40 in a row",
  why="Lost wake-ups, stale timers and double resumption need particular relations of times and events; the tests sleep once.",
  files=["src/cxy/stdlib/coro.cxy", "src/cxy/stdlib/native/evloop/ae.c"], mechanism=[("CoroutineScheduler.suspend/resume/fdWaitRead", "src/cxy/stdlib/coro.cxy"), ("aeProcessEvents/processTimeEvents", "src/cxy/stdlib/native/evloop/ae.c"), ("Mutex", "src/cxy/stdlib/coro.cxy"), ("__async", "src/cxy/stdlib/coro.cxy")]),
"C21": dict(title="Files, streams and processes transfer every byte or report an error",
  statement="Reading a file or stream to its end yields all of its bytes in order or raises an exception, never less, and always ends, however the system splits, blocks, fails or the file shrinks meanwhile; writing and copying transfer every byte in order or report it, leaving a prefix; waits are for the right direction. Seek and size tell the position and size. A descriptor is closed exactly once by the one that owns it; a temporary file is unlinked unless kept. A started process runs the command with its arguments and environment and with its three streams connected; a child that cannot execute the command ends instead of running the caller's program; its exit status is reported, and a failed start leaks no descriptor.",
  over=["inputs", "crash_points"], text="files of up to 4 (thorough: 6) bytes, every splitting of transfers, up to 2 (thorough: 3) failing or blocking system calls at any point; every exit status and signal",
  why="Short transfers, EAGAIN at the wrong moment, a file that shrinks or a failing fork do not occur in a test on a quiet machine.",
  files=["src/cxy/stdlib/os.cxy"], mechanism=[("FileInputStream/FileOutputStream", "src/cxy/stdlib/os.cxy"), ("copy/readAll/mkstemp", "src/cxy/stdlib/os.cxy"), ("Process/execvpe/execute", "src/cxy/stdlib/os.cxy")]),
"C22": dict(title="A call runs the function, instance and default that its arguments select",
  statement="Among functions, methods, constructors and operators of the same name, a call runs the one whose parameters are of the types of its arguments (constant or not), wherever among the others it is declared; missing arguments take their defaults, evaluated at each call; a call through a base class runs the override of the object's class and super runs the base's. A generic function or type is instantiated with the types given or inferred, each instance computing with its own types; compile-time conditions and loops select by those types; variadic arguments all arrive in order; a macro's arguments take part in its expansion as whole expressions.",
  over=["inputs"], text="calls over overload sets in every declaration order, generics, variadics, defaults, virtual and macro calls, with arbitrary 32-bit arguments",
  why="Which of several declarations a call reaches depends on the order of declarations, constness and types of arguments in combination; the tests call each function once, in one order.",
  files=["src/cxy/lang/middle/sema/function.c", "src/cxy/lang/middle/sema/call.c", "src/cxy/lang/middle/sema/generics.c"], mechanism=[("matchOverloadedFunctionPerfectMatch", "src/cxy/lang/middle/sema/function.c"), ("checkCallExpr", "src/cxy/lang/middle/sema/call.c"), ("resolveGenericDecl", "src/cxy/lang/middle/sema/generics.c"), ("generateOperand", "src/cxy/lang/backend/c/generate.c")]),
"C23": dict(title="Constant expressions computed by the compiler are the values run time would give",
  statement="An expression of literals that the compiler evaluates itself - folding, compile-time conditions and loops, casts of literals, compile-time variables, arrays, ranges and strings - has the value (and the sign, width and truth) the same expression has when computed at run time, for every value of the literals; where it has none (division by zero) the compiler reports an error instead of inventing a value or crashing.",
  over=["inputs"], text="literals of arbitrary 64-bit value through both evaluators (syntax tree and operators), and complete programs of folded and compile-time expressions",
  why="Folding is correct for small positive numbers in any implementation; precision, signs, boundary values and shifts go wrong at particular values the tests do not use.",
  files=["src/cxy/lang/middle/eval/binary.c", "src/cxy/lang/middle/eval/unary.c", "src/cxy/lang/middle/eval/for.c", "src/cxy/lang/frontend/ast.c"], mechanism=[("evalBinaryExpr", "src/cxy/lang/middle/eval/binary.c"), ("evalUnaryExpr", "src/cxy/lang/middle/eval/unary.c"), ("evalForStmt", "src/cxy/lang/middle/eval/for.c"), ("nodeGetNumericLiteral", "src/cxy/lang/frontend/ast.c")]),
"C24": dict(title="The parser is total: any text becomes a tree or diagnostics",
  statement="Whatever sequence of tokens or bytes a source consists of, parsing it terminates without crashing, without an exception leaving the parser and with every exception frame released; when it yields no tree it has reported errors. Errors in some declarations, however many, do not stop the parser from going on with the rest, a program gets diagnostics exactly when it has errors, and nesting (of blocks, statements and expressions) to the bound is no error.",
  over=["inputs"], text="every token, pair of tokens and byte in every one of 35 syntactic contexts, nested constructs to depth 40, and up to 40 erroneous declarations",
  why="Each crash needs one particular token at one particular place; the tests parse programs that are right, and a handful of wrong ones.",
  files=["src/cxy/lang/frontend/parser.c", "src/cxy/core/e4c.c", "src/cxy/core/format.c", "src/cxy/core/log.c"], mechanism=[("parseProgram/synchronize", "src/cxy/lang/frontend/parser.c"), ("e4c_frame/e4c_throw", "src/cxy/core/e4c.c"), ("format_", "src/cxy/core/format.c"), ("parserError/advance", "src/cxy/lang/frontend/parser.c")]),
}
