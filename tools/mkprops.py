#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=("program output","error report","exit kind")):
    assert len(title)<=80, title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
S='cordy-sys/src/'
VM=S+'vm/mod.rs'; OP=S+'vm/operator.rs'; PM=S+'compiler/parser/mod.rs'; SEM=S+'compiler/parser/semantic.rs'; CG=S+'compiler/parser/codegen.rs'; OPT=S+'compiler/parser/core/optimizer.rs'
COL=S+'core/collections.rs'; CORE=S+'core/mod.rs'; STR=S+'core/strings.rs'; MATH=S+'core/math.rs'; PAT=S+'core/pattern.rs'; VAL=S+'vm/value/mod.rs'
VC=S+'vm/value/collections.rs'; FN=S+'vm/value/func.rs'; RNG=S+'vm/value/range.rs'; SL=S+'vm/value/slice.rs'; VS=S+'vm/value/str.rs'; NUM=S+'vm/value/number.rs'; PTR=S+'vm/value/ptr.rs'
REPL=S+'repl.rs'; REP=S+'reporting.rs'; SYN=S+'syntax.rs'; SCAN=S+'compiler/scanner.rs'
T='The tests are a few hundred fixed programs with recorded output; '
p('C01','Control flow executes as written, in source order',
 "Every program executes its statements and sub-expressions exactly in the order the language defines: operands left to right, `if`/`if then else`/`and`/`or` short-circuit on truthiness, `while`/`do`/`loop`/`for` with `else`, `break` and `continue` run exactly the iterations their conditions allow (a `break` or `continue` in the `else` of a loop belongs to the enclosing loop), and chained comparisons evaluate each operand at most once. No construct leaves a trace behind that changes what a later construct computes.",
 ['programs'],'all programs nesting the statement and expression forms in any way, with any side effects inside them',
 T+'nesting of loops, delayed expression statements, early exits and side effects is combinatorial and only sampled.',
 [PM,CG,VM],[('statement parser and jump patching',PM),('delayed pops and loop emission',CG),('run loop',VM)])
p('C02','Names resolve to the lexically visible declaration, or are rejected',
 "Every use of a name denotes the innermost declaration visible at that point (blocks, functions, loop variables, modules, structs, globals, natives in that order; inside a struct's methods the names of its fields and methods belong to `self`, and a method without `self` may not use them), and a name that is not declared, declared twice in one scope or shadows a native function is rejected before anything runs. A global used by a function before its declaration executed is a ValueError, never another variable's value.",
 ['programs'],'all nestings of declarations, shadowing, late-bound globals and forward references',
 T+'slot allocation and resolution bugs only show for particular orders of declarations and scopes.',
 [PM,SEM,VM],[('local slot allocation, late binding, lvalue resolution',SEM),('global slots and initialisation check',VM)])
p('C03','Closures capture variables by reference, one variable per execution',
 "A closure and every other closure over the same execution of a declaration read and write one shared variable, at any nesting depth and after the enclosing scope has ended; different executions of the declaration (loop iterations, calls) are different variables. Leaving a scope by any route - end of block, break, continue, return - makes no difference.",
 ['programs','histories'],'all shapes of nested functions, loops and exits from scopes, with any order of calls on the closures',
 T+'upvalue capture is resolved through chains of functions and lifted at each scope exit; only a few chains are tested.',
 [SEM,PM,VM,FN],[('upvalue resolution',SEM),('lifting of upvalues on scope exit',PM),('open/closed upvalues',VM)])
p('C04','Calls bind arguments by the documented arity rules for every callable',
 "Calling any callable (user function with defaults and variadics, native function, struct constructor, method, partial application, operator section, composed function, list/slice/field callables) with any arguments, written in any call form (parenthesised, bare, unrolled `...`, `.` composition), binds every argument to the parameter the documentation says, curries when arguments are missing and the callable allows it, or raises the incorrect-arguments error. It never drops, duplicates or reorders an argument.",
 ['programs','inputs'],'all callables, arities, split of the arguments over partial applications and call forms',
 T+'the product of callable kinds, arity ranges, partial splits and call forms is far larger than the tests.',
 [VM,FN,CORE,OP],[('call dispatch and partial evaluation',VM),('arity ranges',FN),('native function arities',CORE)])
p('C05','Pattern and compound assignment store exactly the matched parts',
 "Destructuring in let, for, parameters and assignment binds each name to the element at its position (with `_`, `*rest`, nesting), accepts a value exactly when its length fits the pattern, and raises the unpack ValueError otherwise; compound assignment (`+=`, `.=`, `max=` ...) to variables, indices, fields evaluates its target once and stores the operator's result. The value of an assignment to a variable or field is the assigned value, and nothing else changes.",
 ['programs','inputs'],'all patterns, nested to any depth, against all iterable values, and all assignable targets and operators',
 T+'pattern shapes times value shapes times targets are only sampled.',
 [PAT,SEM,PM,VM],[('pattern instructions',PAT),('lvalues',SEM)])
p('C06','Struct and module instances keep their own fields and dispatch their methods',
 "A struct value holds exactly its declared fields, reads and writes through `->` (from inside or outside a method, via any expression) touch exactly that field of that instance, methods run with `self` bound to their receiver, and module/constructor/method references resolve to the declared member or raise the TypeError naming the missing field. Type tests `is` distinguish struct types exactly.",
 ['programs','histories'],'all sequences of constructions, field reads/writes and method calls on several struct types and modules sharing field names',
 T+'field indices are shared tables keyed by name and type; collisions need several types with overlapping names.',
 [PM,SEM,FN,VM,VAL],[('field table and offsets',SEM),('method/self binding',PM)])
p('C07','Integer arithmetic is exact 63-bit two\'s complement with floor division',
 "Every integer operator and integer library function returns the mathematically exact result reduced to the 63-bit two's-complement range; division and modulo floor and satisfy a = b*(a/b) + a%b, and zero divisors raise. No operand value panics.",
 ['inputs'],'all pairs of 63-bit integers, and booleans used as integers',
 T+'arithmetic is tested on tens of small values; boundary and wrap-around values are not.',
 [OP,PTR,NUM,MATH],[('operators',OP),('tagged integer representation',PTR),('integer library functions',MATH)])
p('C08','Equality, ordering and hashing are mutually consistent for all values',
 "`==` is an equivalence that compares values structurally, `<`, `<=`, `>`, `>=` on values of one type (numbers counting as one) follow a single order that is lexicographic on collections and, on numbers, strings, lists, vectors, structs and heaps, agrees with `==` (values of unrelated types are unordered: neither `<` nor `>` holds; sets and dictionaries are ordered by their elements in iteration order but equal by content), and two values that are `==` are interchangeable as set elements and dictionary keys. Sorting, min, max and heaps all follow that one order.",
 ['inputs'],'all pairs and triples of values of any types, nested to any depth',
 T+'laws quantify over pairs and triples of values of fourteen types.',
 [VAL,VC,PTR,RNG],[('Eq/Ord/Hash implementations',VAL),('collections',VC)])
p('C09','List and vector operations mutate exactly the list they name',
 "Every list operation (push, pop, insert, remove, index assignment, sort, reverse, extend through aliases, ...) returns and leaves exactly the list contents the documentation gives, is visible through every alias and through no copy, and raises the documented error leaving the list unchanged when an index or argument is invalid. Vector arithmetic is element-wise.",
 ['histories','inputs'],'all operation sequences over several aliased lists and vectors with any indices',
 T+'each operation is tested alone on one or two lists.',
 [COL,VAL,VC,OP],[('collection functions',COL),('shared mutable storage',VC)])
p('C10','Sets and dictionaries keep one entry per value, in insertion order',
 "A set holds each value once and a dictionary maps each key to the last stored value, both iterate in insertion order whatever sequence of additions, removals, set-algebra and default-value lookups produced them. Membership, lookup, and length always agree with that content.",
 ['histories','inputs'],'all sequences of operations over several sets and dictionaries, with keys of any hashable value',
 T+'order after removals and set algebra, and mixed histories, are barely tested.',
 [COL,VC,VAL],[('insertion ordered maps',VC),('set algebra',COL)])
p('C11','A heap always pops its minimum and loses nothing',
 "After any sequence of pushes and pops, popping a heap returns a least element under the language's ordering, and the multiset of its elements is exactly pushes minus pops; length, iteration and membership agree with it.",
 ['histories'],'all push/pop/iterate histories over heaps of comparable values',
 T+'only a couple of fixed heaps are tested.',
 [COL,VC],[('binary heap with reversed order',VC)])
p('C12','Indexing and slicing select exactly the documented elements',
 "For every string, list, vector, range or other indexable, x[i] is the i-th element counting from the end when negative, x[a:b:c] is the documented selection for every combination of present, absent, negative and out-of-range bounds and nonzero steps, and everything else raises the documented error. Characters, not bytes, are the unit for strings.",
 ['inputs'],'all sequences (including non-ASCII strings) and all index/slice triples',
 T+'slices are tested on one ASCII-length list of five elements.',
 [SL,VAL,VS],[('slice iteration',SL),('index dispatch',VAL)])
p('C13','Higher-order library functions visit elements once, in order',
 "Every library function over iterables (map, filter, reduce, flat_map, zip, group_by, sort_by, find, any/all, enumerate, combinations, ...) applies the given function to exactly the documented elements in the documented order and builds the documented result, for every iterable type, callable kind and side effect in the callback. The input is unchanged unless the function is documented to change it.",
 ['inputs','programs'],'all iterables, callables (user, native, partial, section) and function compositions',
 T+'each function is tested with a few arguments and pure callbacks.',
 [COL,CORE,VAL,RNG],[('library functions',COL),('iterables',VAL)])
p('C14','String functions and formatting produce the documented text',
 "Every string function (split, join, replace, search, trim, case, padding, char/ord, regex-free parsing with int) and `%` formatting yields the documented text for every string, including empty and non-ASCII ones, and raises the documented error for invalid formats or arguments.",
 ['inputs'],'all strings over a mixed ASCII and multi-byte alphabet and all format strings and argument lists',
 T+'strings in tests are short and ASCII, formats are few.',
 [STR,VS,CORE],[('string functions and format parser',STR)])
p('C15','Complex and rational arithmetic is exact',
 "Arithmetic mixing booleans, integers, complex integers (as long as components and squared norms fit 64 bits) and rationals gives the exact result in the documented type, normalised (a complex with zero imaginary part is an integer; rationals are in lowest terms), and unsupported combinations raise the operator TypeError.",
 ['inputs'],'all operand pairs of the numeric types and all operators',
 T+'a handful of values is tested per operator.',
 [OP,NUM,MATH],[('promotion and normalisation',NUM),('operators',OP)])
p('C16','Optimisation never changes what a program does',
 "For every program, compiling with optimisation enabled gives the same output, errors and termination as without; the only permitted difference is that an expression made only of literals that always fails may be reported at compile time instead.",
 ['programs','configurations'],'all programs, with and without -o',
 T+'the optimiser is tested by comparing bytecode of fixed snippets; behaviour equality over programs is not.',
 [OPT,PM,CG],[('constant folding, purity analysis, argument reordering, dead code',OPT)])
p('C17','A failing operation stops the program with the right error and no more effects',
 "When an operation fails at run time the program stops there: everything printed before is kept, nothing after runs, and the report names the documented error kind and message, the line of the failing operation and the chain of active calls with their call lines. No program makes the virtual machine panic.",
 ['programs','inputs','fault_sequences'],'every failing operation placed at every position inside nested calls, loops and callbacks',
 T+'errors are tested with one program per message, mostly at the top level.',
 [VM,REP,S+'vm/error.rs',S+'vm/value/error.rs'],[('error detail and stack trace',S+'vm/error.rs'),('formatting',REP)])
p('C18','The REPL equals one growing program, and survives bad input',
 "Entering a program in the REPL in pieces gives the output the whole program would give, with expression results echoed; incomplete input prompts for more, and a line that fails to compile or run reports its error and leaves every earlier definition, and every later line, working as if that line had stopped where it failed (a global it declares but does not reach is nil).",
 ['histories','fault_sequences'],'all splits of programs into lines with compile and runtime errors interleaved anywhere',
 T+'the REPL tests are a few fixed sessions; recovery interplay with globals, closures and functions is untested.',
 [REPL,S+'compiler/mod.rs',VM],[('incremental compile with rollback',S+'compiler/mod.rs'),('recovery of the virtual machine',VM)],('REPL prompts and output',))
p('C19','Parsing follows the documented grammar, precedence and associativity',
 "A text is accepted as a program's syntax exactly if the grammar derives it. Every token sequence that the grammar accepts is parsed into the tree given by the documented precedence and associativity levels, including unary forms, chained comparisons, bare calls, sections, comma vectors and assignment, independent of layout where layout is not significant; evaluation of the tree is what is observed.",
 ['inputs','programs'],'all token sequences up to a bounded length over all operators and grouping forms',
 T+'pairs and triples of operators with prefix/postfix/section forms exceed what is tested by hand.',
 [PM,SCAN],[('precedence climbing parser',PM),('scanner',SCAN)])
p('C20','Any text compiles or is rejected with errors, and rejection has no effects',
 "For every input text the compiler terminates, and either yields a runnable program or rejects it with at least one error; a text which is not of the syntax is always rejected, a program of the syntax is rejected exactly with its static errors (undeclared, duplicate, misplaced or unassignable names), each reported at its line; every report lies inside the text and underlines the place it names. A rejected program executes nothing and shows only its errors. The compiler never crashes, however deep the nesting (up to about a thousand levels).",
 ['inputs'],'all texts: valid programs, truncated and mutated programs, random token and character sequences',
 T+'error recovery is tested with fixed malformed programs.',
 [SCAN,PM,SEM,REP],[('error recovery',PM),('scanner',SCAN)],('compile result',))
p('C21','Printed values follow the documented notation and read back as themselves',
 "str() and repr() of every value follow the documented notation for its type (quoting and nesting included, self-containing collections shown with an ellipsis), and for values made of nil, booleans, integers, strings, lists, vectors, sets and dictionaries, evaluating the repr yields an equal value of equal repr.",
 ['inputs'],'all values nested to any depth, including cyclic ones',
 T+'representation is tested per type on flat values.',
 [VAL,VS,VC],[('formatting with recursion guard',VAL)])
p('C22','Memoized and default-value functions call their function exactly when documented',
 "A memoized function calls the underlying function once per distinct argument list and returns the remembered result after that; a dictionary with a default calls its factory exactly on each missing key and stores the result. Neither ever returns another key's value, whatever the callbacks do in between.",
 ['histories'],'all call sequences with repeated, equal-but-distinct and structured arguments and re-entrant callbacks',
 T+'memoize and default are tested with one or two calls.',
 [FN,COL,VM],[('memoize cache',COL),('default dictionaries',VM)])
p('C23','Foreign functions receive exactly the arguments and return one value',
 "A call of a declared native-module function reaches the foreign side exactly once with its module, name and argument values in order, and the call's value is what the foreign side returned or its error; nothing reaches it for calls that fail arity checks or never execute.",
 ['programs','histories'],'all native module declarations and call forms, including partial application and callbacks',
 T+'one fixed library and a few calls are tested.',
 [S+'vm/mod.rs',PM,'cordy/src/ffi.rs'],[('native module parsing',PM),('function interface',S+'vm/mod.rs')],('foreign call log','program output'))
p('C24','Syntax highlighting preserves the text and brackets tokens properly',
 "For every text, the highlighter emits every character of the input exactly once and in order, with token begin/end marks properly paired and never nested, and classifies each token as the scanner does. The text is rejected for its characters exactly if some of it is no token, with one report for each such place, which shows it.",
 ['inputs'],'all texts, including malformed and unterminated ones',
 T+'only a few texts are tested.',
 [SYN,SCAN],[('token to character walk',SYN)],('formatter events',))
p('C25','eval runs its text in isolation and leaves the calling program intact',
 "eval(text) compiles the text as one expression that sees only the native functions, not the calling program's names, runs it and yields its value, or raises its compile or run-time error as an error of the calling program, leaving the calling program's variables, functions and control flow intact afterwards - also when the text calls, captures, fails or evaluates again. monitor accepts its documented commands and raises MonitorError for any other.",
 ['programs','histories'],'all interleavings of eval with calls, loops, closures and errors',
 T+'eval appears in a couple of tests.',
 [VM,S+'compiler/mod.rs',CORE],[('incremental compilation into a running machine',S+'compiler/mod.rs')])
p('C26','Program input and output are passed through unaltered and in order',
 "print writes its arguments' text separated by spaces and ended by a newline, in program order; read/read_line return the unread input exactly, line ends handled as documented, then the empty/nil result at the end; env/argv return the given arguments.",
 ['inputs','histories'],'all input texts (with and without final newline, non-ASCII, empty) and interleavings of reads and writes',
 T+'only fixed inputs are used.',
 [CORE,VM],[('io functions',CORE)])
p('C27','Assertions fail exactly when their condition is falsy, and explain themselves',
 "An assert statement has no effect when its condition is truthy and stops the program otherwise, evaluating the condition once and the message only on failure; the report shows the message or the operands of the comparison.",
 ['programs','inputs'],'all conditions (comparisons, membership, type tests, plain) and messages with side effects',
 T+'a dozen fixed assertions are tested.',
 [PM,VM,REP],[('assert compilation',PM),('assertion errors',VM)])
p('C90','No program corrupts memory or leaks through reference counts',
 "No sequence of operations on values frees a value in use or reads freed memory.",
 ['programs'],'all programs',
 'Reference counting over unsafe pointers is only exercised incidentally.',
 [PTR],[('manual pointer tagging and reference counts',PTR)],('memory',))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
