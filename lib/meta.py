"""The properties' texts, and the generation of properties.jsonl and MANIFEST.json from them and from the checks that exist."""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'exploration'

def P(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None, technique='', note=''):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note

REFN = ('Holds on the executions explored, in number and kind as recorded in the evidence. Trusts the reference evaluator (lib/ref.py), the generators\' '
        'restriction to specified behaviour, gcc and its sanitizers.')
HOOK = 'allocation, collection and instruction hooks in the VM under DUCKLISP_VERIF'
STEP = 'VM instruction hook and the emit callback: every value that a program shows, the final value or error'

ALL = [
P('P01', 'Programs compute what the language defines',
  'Every program that uses literals, variables, globals, assignment, arithmetic, comparison, truth tests, conditionals, loops and scopes produces the values that the '
  'language reference defines, in the defined order of effects, or stops with a runtime error exactly where the definition has no value. This does not depend on how '
  'expressions are nested, on whether operands are constants or variables, or on where in the program an expression stands.',
  ['programs', 'inputs'], 'All programs over the core operators, all operand values and kinds (constant, local, captured, global), all nestings.',
  'The 16 test programs check one or two fixed expressions per feature; the compiler specialises code by operand kind, position and size, so the combinations are unbounded.',
  ['generators.c', 'emitters.c', 'assembler.c', 'duckVM.c', 'duckLisp.c'],
  [('expression compilation', 'duckLisp.c:duckLisp_compile_compoundExpression'), ('operator generators', 'generators.c:duckLisp_generator_add and neighbours'),
   ('assembly and jump/push-pop optimisation', 'assembler.c:duckLisp_assemble'), ('instruction interpreter', 'duckVM.c:duckVM_executeInstruction')],
  [STEP], HOOK, technique='differential runtime monitoring against a reference evaluator, under ASan/UBSan', note=REFN),
P('P02', 'Closures capture variables, lexically and for as long as they are used',
  'A function refers to the variables that are visible where it was written, however deep it is nested and whatever is shadowed. All functions that capture one variable '
  'share it, see every assignment to it, and keep it alive after its scope, its loop iteration, its call, its source or an error has ended it. Each evaluation of a '
  'definition makes a fresh variable.',
  ['programs', 'histories'], 'All programs with nested, recursive, escaping and shared closures, all orders of calls and assignments, across sources and errors.',
  'closure.dl, recursion.dl and self-release-upvalues.dl each follow one fixed capture pattern; capture is resolved by nesting depth and by the moment the stack slot is released.',
  ['duckLisp.c', 'generators.c', 'emitters.c', 'assembler.c', 'duckVM.c'],
  [('free-variable resolution', 'duckLisp.c:duckLisp_scope_getFreeLocalIndexFromName'), ('closure creation', 'generators.c:duckLisp_generator_lambda; duckVM.c:duckVM_executeInstruction, cases pushClosure'),
   ('upvalue release', 'duckVM.c:duckVM_executeInstruction, cases releaseUpvalues'), ('upvalue access', 'duckVM.c:duckVM_executeInstruction, cases pushUpvalue, setUpvalue')],
  [STEP, 'values of closures kept in globals, from later sources'], HOOK, technique='differential runtime monitoring against a lexical-scope evaluator, under ASan/UBSan', note=REFN),
P('P03', 'Lists, vectors and strings behave as specified, sharing included',
  'Construction, element access, replacement, slicing, length, concatenation, conversion and comparison of lists, vectors and strings return the specified value for every '
  'operand, and a write through one reference is seen through exactly the references that share that element. Operations on elements that do not exist or on values of '
  'the wrong type fail with a runtime error and change nothing.',
  ['histories', 'inputs'], 'All histories of sequence operations on shared, sliced, nested and empty sequences with valid, boundary and invalid operands.',
  'length.dl and quote-list.dl check constants; aliasing, slices, truncation and error behaviour depend on histories of operations that no test performs.',
  ['duckVM.c', 'generators.c', 'emitters.c'],
  [('list instructions', 'duckVM.c:duckVM_executeInstruction, cases cons, car, setCdr'), ('vector instructions', 'duckVM.c:duckVM_executeInstruction, cases getVecElt, setVecElt'),
   ('string instructions', 'duckVM.c:duckVM_executeInstruction, cases substring, concatenate')],
  [STEP], HOOK, technique='differential runtime monitoring of operation histories, under ASan/UBSan with heap poisoning', note=REFN),
P('P04', 'Calls bind arguments, check arity and keep evaluation order',
  'Calling a function by name, through funcall or through apply binds each argument to its parameter, collects surplus arguments of variadic functions in order, and '
  'evaluates every argument once in the fixed order of that form. A call with the wrong number of arguments or of something that is not a function is a runtime error; a call with more arguments than are '
  'supported is refused. A call returns one value and leaves the caller\'s variables as they were.',
  ['programs', 'inputs'], 'All arities 0 to 255, fixed and variadic, direct and indirect, on closures, callbacks and composites, with side effects in arguments.',
  'apply.dl and recursion.dl use a handful of small arities; argument counts reach encodings and stack layouts that only appear at other sizes.',
  ['generators.c', 'duckLisp.c', 'duckVM.c', 'emitters.c'],
  [('call compilation', 'generators.c:duckLisp_generator_funcall, duckLisp_generator_apply, duckLisp_generator_callback'), ('call execution', 'duckVM.c:duckVM_executeInstruction, cases call, apply, return')],
  [STEP, 'trace of side effects in arguments'], HOOK, technique='differential runtime monitoring against a reference evaluator, under ASan/UBSan', note=REFN),
P('P05', 'Types and composites are sound',
  'The type of a value identifies its kind, every created type is distinct from all others, and an instance keeps its type for ever. The value and the function of an '
  'instance are the ones last stored in it, through every reference to it, and calling an instance calls its function. Operations on composites reject every other kind of value.',
  ['histories', 'inputs'], 'All histories of type and instance operations over values of all kinds.',
  'No existing test uses types or composites.',
  ['duckVM.c', 'generators.c'],
  [('type instructions', 'duckVM.c:duckVM_executeInstruction, cases typeof, makeType'), ('composite instructions', 'duckVM.c:duckVM_executeInstruction, cases makeInstance, compositeValue, setCompositeFunction')],
  [STEP], HOOK, technique='differential runtime monitoring of operation histories, under ASan/UBSan', note=REFN),
P('P06', 'Literals denote the values that are written',
  'Integers, floats, booleans, strings, identifiers and quoted data have exactly the value that the text denotes, in decimal, hexadecimal and exponent notation, with any escape, '
  'whitespace and comment around them, and in every position of a program (floats to within rounding). A numeral that no integer can hold never becomes another number.',
  ['inputs'], 'All literals of all types, all sizes, all notations, all bytes in strings and names, all positions.',
  'The tests write small decimal numbers and short ASCII strings; encodings change with magnitude, sign, length and position.',
  ['parser.c', 'duckLisp.c', 'generators.c', 'emitters.c', 'assembler.c', 'duckVM.c', 'DuckLib/string.c'],
  [('reader', 'parser.c:duckLisp_parse_compoundExpression'), ('quoting', 'generators.c:duckLisp_generator_quote'), ('literal instructions', 'emitters.c:duckLisp_emit_pushInteger, duckLisp_emit_pushString')],
  [STEP], HOOK, technique='runtime monitoring of every literal\'s value against the text, under ASan/UBSan', note=REFN),
P('P07', 'Macros and compile-time evaluation are transparent',
  'A program in which code comes from macros or compile-time evaluation means what the program with that code written out means, for every way of building the code and in '
  'every position. Each use of a macro runs its body exactly once, in the order of the text; compile-time globals persist across sources, macros end with their source or scope, '
  'and code that cannot be expanded is refused and leaves the compiler usable.',
  ['programs', 'histories'], 'All programs, all ways of producing their parts by macros (nested, variadic, hygienic, redefining keywords) and by compile-time evaluation, all sequences of sources, failing ones included.',
  'The macro tests expand a few fixed templates once; expansion interacts with scopes, stack layout and the state of the compile-time VM of all sources before.',
  ['generators.c', 'duckLisp.c', 'assembler.c', 'duckVM.c'],
  [('macro definition and expansion', 'generators.c:duckLisp_generator_defmacro, duckLisp_generator_macro'), ('compile-time evaluation', 'generators.c:duckLisp_generator_comptime'),
   ('objects to syntax', 'duckLisp.c:duckLisp_objectToAST'), ('syntax to objects', 'duckLisp.c:duckLisp_astToObject')],
  [STEP, 'emit callback at compile time'], HOOK, technique='metamorphic and differential runtime monitoring, under ASan/UBSan with forced collections', note=REFN),
P('P08', 'Symbols are identities',
  'Two symbols are equal exactly if their names are equal, wherever they come from: quoted data, macro results, intern, compile time or run time, this source or an earlier one. A symbol\'s '
  'number, string and name stay together for ever, no two names share a number, and gensym never returns a symbol that a source wrote or that it returned before.',
  ['histories', 'inputs'], 'All sets of names (prefixes of each other, one bit apart, arbitrary bytes, very many), all orders of interning, across sources and failures.',
  'The tests name a few dozen ASCII identifiers; the table is a trie whose branches depend on the exact set of names seen before.',
  ['duckLisp.c', 'DuckLib/trie.c', 'parser.c', 'generators.c', 'duckVM.c'],
  [('symbol table', 'duckLisp.c:duckLisp_symbol_create'), ('name trie', 'DuckLib/trie.c:dl_trie_insert, dl_trie_find'), ('symbols in bytecode', 'emitters.c:duckLisp_emit_pushSymbol'),
   ('compile-time symbols', 'duckLisp.c:duckLisp_callback_intern, duckLisp_callback_gensym')],
  [STEP, 'names and numbers of all symbols shown'], HOOK, technique='runtime monitoring of a bijection over recorded symbols, under ASan/UBSan', note=REFN),
P('P09', 'Sources share one world: globals and definitions persist',
  'Sources compiled by one instance work on the same globals in whatever order they are compiled and executed: a definition is visible to every later execution, also of code compiled before it, the '
  'latest assignment wins, functions find each other through globals, and failed sources change nothing but what they did before failing. Bytecode can be executed again and on a new VM, which '
  'starts without globals.',
  ['histories'], 'All histories of sources, executions, failures, resets and new VMs.',
  'Every test is one source on a fresh instance; nothing executes a second source on the same compiler and VM.',
  ['duckLisp.c', 'duckVM.c', 'generators.c', 'assembler.c'],
  [('compilation of a source', 'duckLisp.c:duckLisp_loadString'), ('state kept between sources', 'duckLisp.c:duckLisp_init'), ('globals', 'duckVM.c:duckVM_global_get, duckVM_global_set'),
   ('execution', 'duckVM.c:duckVM_execute')],
  [STEP], HOOK, technique='differential runtime monitoring of histories of sources, under ASan/UBSan', note=REFN),

P('P10', 'Program behaviour is independent of build configuration and resources',
  'For every program, sensible or not, that runs to completion within its resources, what the program shows (values given to callbacks, the value of each source, and which sources fail) is the same whether duck-lisp is built '
  'with the C library or with its own allocator and replacements, with or without jump and push-pop optimisation, with or without parenthesis inference compiled in, and whatever the heap size, compiler memory limits, '
  'collection period and allocation policy, and whether names of symbols are kept in the code (except where a name is shown); and where the language defines the result, it is that result. Left open: the optimiser may drop the read of an unknown global whose value is not used, with its error.',
  ['programs', 'configurations'], 'All programs, well-formed or arbitrarily malformed trees, all build configurations and resource limits.',
  'The tests run fixed programs, and most in one configuration with one set of limits.',
  ['assembler.c', 'generators.c', 'emitters.c', 'duckLisp.c', 'duckVM.c', 'DuckLib/core.c', 'DuckLib/memory.c', 'DuckLib/string.c'],
  [('push-pop and jump optimisation', 'assembler.c:duckLisp_assemble'), ('configuration options', 'CMakeLists.txt'), ('portable library', 'DuckLib/core.c, DuckLib/string.c'), ('allocator', 'DuckLib/memory.c')],
  [STEP], HOOK, technique='differential runtime monitoring of build configurations and resource settings, under ASan/UBSan', note=REFN),

P('P11', 'Size does not change meaning',
  'The meaning of a program does not depend on how large it is or where in the program or on the stack things lie: however many locals, globals, captured variables, functions, arguments (up to 255), symbols, '
  'callbacks, elements and nested scopes it has, however long its strings (up to 65535 bytes) and however far its branches, loops and functions are apart, it compiles and has the value that the language defines; '
  'in particular at and around every boundary between the 8, 16 and 32 bit forms of the instructions.',
  ['programs', 'inputs'], 'All sizes, at every encoding boundary, for every instruction.',
  'Test programs are small: almost every 16 and 32 bit form of the instructions is never executed.',
  ['assembler.c', 'emitters.c', 'generators.c', 'duckLisp.c', 'duckVM.c'],
  [('choice of operand widths', 'assembler.c:duckLisp_assemble'), ('decoding of operands', 'duckVM.c:duckVM_executeInstruction'), ('branch distances', 'assembler.c:duckLisp_assemble'), ('emitters', 'emitters.c')],
  [STEP], HOOK, technique='runtime monitoring of size sweeps against a reference evaluator, under ASan/UBSan', note=REFN),

P('P12', 'Garbage collection is invisible and keeps exactly what is reachable',
  'When the collector runs, and how large the heap is beyond what the program needs, never changes what a program does: no object that is reachable from the stack, the globals, call frames, closures, running functions or '
  'the temporary results of the executing instruction is freed or changed by a collection, everything else is freed, a program runs in every heap that can hold its largest set of reachable objects, and objects of '
  'the host are destroyed only when nothing refers to them. This holds for the run-time VM and for the compile-time VM, for cyclic, shared, long and deeply nested data alike.',
  ['programs', 'schedules'], 'All programs, all placements of collections, all heap sizes.',
  'Tests rarely fill the heap, so almost no allocation in them triggers a collection, and a prematurely freed object usually still holds its old content.',
  ['duckVM.c', 'duckLisp.c'],
  [('mark and sweep', 'duckVM.c:duckVM_gclist_markObject, duckVM_gclist_garbageCollect'), ('allocation', 'duckVM.c:duckVM_gclist_pushObject'), ('roots', 'duckVM.c:duckVM_garbageCollect'), ('intermediate results', 'duckVM.c:duckVM_executeInstruction')],
  [STEP], HOOK, technique='runtime monitoring under forced collections with poisoned objects and an independent reachability traversal, under ASan/UBSan', note=REFN),

P('P13', 'Memory is returned',
  'Whatever duck-lisp allocates for a program that compiles, whether it runs to completion or fails with a runtime error, is returned at the latest when compiler and VM are quit, through the allocator it came from, and '
  'every object of the host with a destructor is destroyed exactly once. A source that is executed again and again, or compiled and executed again and again, does not accumulate memory: after collection, the heap and the '
  'blocks obtained from the allocator are the same after every repetition. Left open: memory of compilations that fail (docs/api.md), symbols made by gensym.',
  ['programs', 'histories', 'fault_sequences'], 'All programs, all numbers of repetitions, all runtime errors.',
  'Tests run every source once in a process that then exits, and nobody counts what is left.',
  ['duckLisp.c', 'duckVM.c', 'generators.c', 'emitters.c', 'assembler.c', 'DuckLib/memory.c'],
  [('release of the compiler', 'duckLisp.c:duckLisp_quit'), ('release of the VM', 'duckVM.c:duckVM_quit, duckVM_gclist_quit'), ('destructors', 'duckVM.c:duckVM_gclist_garbageCollect'), ('temporaries of the compiler', 'duckLisp.c:duckLisp_loadString')],
  [STEP], HOOK, technique='runtime monitoring of memory conservation (counted allocator, object census over repetitions), under ASan/LSan', note=REFN),

P('P14', 'Exhausted resources end a program, not the host',
  'When an allocation is refused at any point (while the compiler or the VM is started, while a source is compiled, macros are expanded, code is executed or memory is collected), when the heap, the compiler\'s heap or the memory '
  'pool is too small, when a depth limit is reached, or when a program recurses or allocates without end, the call returns an error: no crash, no access to memory that is not owned, no loss of '
  'an error such that a program goes on with a wrong value, a name with a wrong meaning or without a definition. After a reset, sources that do not depend on the failed one work as ever, and compiler and VM can be quit at any time, '
  'also when their initialization failed.',
  ['programs', 'fault_sequences', 'configurations'], 'All programs, all points of failure, all limits.',
  'Tests never run out of anything: the error paths behind allocations are not executed by them at all.',
  ['duckLisp.c', 'duckVM.c', 'generators.c', 'emitters.c', 'assembler.c', 'parser.c', 'DuckLib/array.c', 'DuckLib/trie.c', 'DuckLib/memory.c'],
  [('initialization', 'duckLisp.c:duckLisp_init, duckVM.c:duckVM_init'), ('heap limit', 'duckVM.c:duckVM_gclist_pushObject'), ('containers of the compiler', 'DuckLib/array.c, DuckLib/trie.c'), ('depth limits', 'duckLisp.c:duckLisp_compile_expression, parser.c')],
  [STEP], HOOK, technique='runtime monitoring under injected allocation failures and exhausted limits, under ASan/UBSan', note=REFN),

P('P15', 'A runtime error ends its source and nothing else',
  'Whatever goes wrong at run time (a value of the wrong type, an index out of range, a wrong number of arguments, an unknown name, a callback that fails) and however deep it happens, in nested calls, applied functions, composites, callbacks that '
  'call back into the VM, or in macros and compile-time code, the operation takes no effect, nothing of the source that comes after it is executed, and the host is told. Everything that happened before stands: globals, data, closures '
  'over variables of the frames that were abandoned. Compiler and VM go on working for later sources, with and without a reset of the VM in between, as if the source had ended there.',
  ['programs', 'fault_sequences', 'histories'], 'All programs, all kinds of errors, all points and depths at which they occur.',
  'Each test ends at its first error; hardly one continues on the same VM.',
  ['duckVM.c', 'duckLisp.c', 'generators.c'],
  [('errors of instructions', 'duckVM.c:duckVM_executeInstruction'), ('reset', 'duckVM.c:duckVM_softReset'), ('calls from callbacks', 'duckVM.c:duckVM_call'), ('errors of macros', 'generators.c:duckLisp_generator_macro')],
  [STEP], HOOK, technique='runtime monitoring of failing programs and their successors against a reference evaluator, under ASan/UBSan', note=REFN),

P('P18', 'The stack operations of the C interface do what they say',
  'For every state of the stack, every type of value and every index (from the top, from the bottom, out of range), an operation of the C interface either succeeds with exactly the documented effect (the value it pushes, what it copies '
  'out, the slot of the cons, vector or composite or the captured variable of the closure that it changes, and with it all that share it) or reports an error; an operation that reports an error leaves the stack and all values as they were. Values that a host '
  'can reach through the stack or globals survive collections at any allocation, strings that are copied out belong to the host, new types are new, and what the host stores in globals is what scripts find there.',
  ['histories', 'schedules'], 'All sequences of operations, all values that operations and scripts can make, all points at which collections can happen, from the host and from within callbacks.',
  'No test uses most of these operations.',
  ['duckVM.c', 'duckVM.h', 'docs/api.md'],
  [('sequence operations', 'duckVM.c:duckVM_pushElement'), ('assignments', 'duckVM.c:duckVM_setElement'), ('composites', 'duckVM.c:duckVM_pushComposite'), ('globals', 'duckVM.c:duckVM_setGlobal')],
  [STEP], HOOK, technique='runtime monitoring of histories of interface operations against a model (offline checking of the log), with forced collections, under ASan/UBSan', note=REFN),

P('P19', 'Host and scripts call each other to any depth',
  'duckVM_call calls a function or composite anywhere on the stack with the arguments on top and replaces the arguments with its value; everything below is untouched, whatever the function does and whatever it calls: other functions, '
  'apply, callbacks of the host that themselves use the interface and call into scripts. Variadic functions get all further arguments as a fresh list, closures keep and share their variables between calls from both sides, '
  'a call that does not fit the function is refused without effect, and the failure of a called function reaches every caller in turn.',
  ['histories', 'programs'], 'All functions, arguments, depths and interleavings of calls between host and scripts.',
  'Tests call the VM once from the host, and callbacks do not call back.',
  ['duckVM.c', 'docs/api.md'],
  [('calls from the host', 'duckVM.c:duckVM_call'), ('arguments', 'duckVM.c:duckVM_instruction_prepareForFuncall'), ('execution', 'duckVM.c:duckVM_executeWithIp')],
  [STEP], HOOK, technique='runtime monitoring of histories of calls against a model (offline checking of the log), with forced collections, under ASan/UBSan', note=REFN),

P('P20', 'The bundled allocator hands out disjoint memory and keeps what is in it',
  'For every history of allocations, reallocations and frees, for every size, every fit strategy and every state of fragmentation: a block that dl_malloc returns lies inside the pool and overlaps no other live block, nothing but its owner '
  'changes its bytes, dl_realloc keeps the bytes up to the smaller size and leaves the block untouched when it fails, freed room can be allocated again, the block list covers the pool without gaps or overlaps, a request that cannot be met is '
  'refused without effect, and the usage that is reported equals what is allocated.',
  ['histories', 'configurations'], 'All histories of requests, sizes and pools.',
  'The allocator\'s tests make a few fixed requests and look at the result by eye.',
  ['DuckLib/memory.c', 'DuckLib/memory.h'],
  [('allocation', 'DuckLib/memory.c:dl_malloc'), ('reallocation', 'DuckLib/memory.c:dl_realloc'), ('release', 'DuckLib/memory.c:dl_free'), ('search', 'DuckLib/memory.c:dl_memory_findBlock')],
  ['results and memory at the library\'s interface, after every operation'], None, technique='runtime monitoring: an online model of the pool (canary bytes in every block, disjointness, block list walk) checked after every request, under ASan/UBSan'),

P('P21', 'Arrays, tries, sorts and conversions of the support library do what they say',
  'For every content: a growing array behaves as a sequence under push, pop, append, insert by index, copy and clear and keeps its elements when memory runs out; a trie maps exactly the inserted keys (any bytes, any lengths, keys that are '
  'prefixes of each other) to their latest values; the sorts permute their input into order for every size, order and number of duplicates, within bounded recursion; conversions between text and numbers agree with the numbers\' values and bounds.',
  ['inputs', 'histories'], 'All element sequences, key sets and number texts.',
  'Tests use a handful of elements and keys.',
  ['DuckLib/array.c', 'DuckLib/trie.c', 'DuckLib/sort.c', 'DuckLib/string.c'],
  [('arrays', 'DuckLib/array.c:dl_array_pushElement'), ('tries', 'DuckLib/trie.c:dl_trie_insert'), ('sorts', 'DuckLib/sort.c:quicksort'), ('conversions', 'DuckLib/string.c:dl_string_toPtrdiff')],
  ['results and memory at the library\'s interface, after every operation'], None, technique='runtime monitoring: every operation is compared with a model while it runs, with injected allocation failures, under ASan/UBSan'),

P('P24', 'Instances do not influence each other',
  'Any number of instances (compiler, virtual machine, memory) can exist in one process. Whatever the others do (run other scripts that use the same names, define types, macros and globals, fail, collect garbage, start or stop), on threads of '
  'their own, in turns on one thread or from inside each other\'s callbacks, an instance shows exactly what it would show alone, and no two instances access the same memory.',
  ['schedules', 'histories'], 'All numbers of instances, all scripts, all schedules of threads and turns.',
  'Tests run one instance per process.',
  ['duckLisp.c', 'duckVM.c', 'DuckLib/memory.c', 'parenthesis-inferrer.c'],
  [('instance of the compiler', 'duckLisp.c:duckLisp_init'), ('instance of the virtual machine', 'duckVM.c:duckVM_init'), ('compilation', 'duckLisp.c:duckLisp_loadString'), ('execution', 'duckVM.c:duckVM_execute')],
  [STEP], HOOK, technique='runtime monitoring: race detection (ThreadSanitizer) and ASan/UBSan while instances run concurrently, with offline comparison of each instance\'s log with the reference for its scripts alone', note=REFN),

P('P16', 'No text harms the compiler or the virtual machine',
  'Whatever bytes the compiler is given, as a source, through read at compile time or with inference of parentheses, in every build configuration: it either compiles them or refuses them with an error, it never accesses memory that is not its own, never '
  'crashes or recurses beyond its stack, and neither do the compiled code, its macros and its compile-time code when they run. A text that ends too early is refused and leaves nothing allocated. Sources of known meaning that follow on '
  'the same instance have their value, whatever came before them.',
  ['inputs', 'histories'], 'All byte sequences, alone and in sequence, in all build configurations.',
  'Every test is a program that was written to be correct.',
  ['parser.c', 'duckLisp.c', 'generators.c', 'parenthesis-inferrer.c', 'assembler.c', 'emitters.c', 'duckVM.c', 'DuckLib/string.c'],
  [('reader', 'parser.c:duckLisp_parse_compoundExpression'), ('literals', 'parser.c:duckLisp_read'), ('form checks of the generators', 'generators.c'), ('scopes of a failed compilation', 'duckLisp.c:duckLisp_loadString'),
   ('inference', 'parenthesis-inferrer.c:infer_compoundExpression')],
  ['memory accesses, the return value of duckLisp_loadString and duckVM_execute, results of later sources'], HOOK,
  technique='runtime monitoring: ASan/UBSan and heap monitors on generated, mutated and hostile texts, with probes of known value after them', note=REFN),

P('P17', 'Inference of parentheses restores exactly the program that was meant',
  'For every program and every set of declared types (fixed, optional, variadic and literal arguments, local, global, redeclared and shadowed names, types that scripts compute), leaving out parentheses where the types determine them, and '
  'marking what is meant literally, gives the program with all its parentheses: same value, same effects, same errors. Names without declarations, atoms in parentheses and marked expressions are left as they are. A text that '
  'the types do not allow is refused, and changes nothing for later sources. Declarations last as long as their scope. Without inference the marks have no effect.',
  ['inputs', 'programs'], 'All programs, all subsets of their parentheses that can be left out, all types.',
  'parenthesis-inference.dl has a few fixed lines.',
  ['parenthesis-inferrer.c', 'parser.c', 'duckLisp.c'],
  [('arguments', 'parenthesis-inferrer.c:inferArguments'), ('types', 'parenthesis-inferrer.c:inferrerTypeSignature_fromAst'), ('incremental inference', 'parenthesis-inferrer.c:inferIncrementally'), ('expressions', 'parenthesis-inferrer.c:infer_compoundExpression')],
  [STEP], HOOK, technique='differential runtime monitoring: programs whose parentheses are left out are compared with a reference evaluation of the program with all of them, under ASan/UBSan', note=REFN),

P('P22', 'Compilation depends on the texts alone, and nothing on unwritten memory',
  'The bytecode, the error and the messages for a source are determined by the texts that the instance was given, and by nothing else: not by the size of the heaps, the allocator and its policy, what memory contained before, when collections '
  'happen, or whether and how compiled code was run. A source that defines nothing at compile time compiles to the same bytes each time, whatever other sources, failing ones included, came in between. No decision of the '
  'compiler, the virtual machine, the inferrer or the disassembler depends on memory that was never written.',
  ['inputs', 'histories', 'configurations'], 'All sequences of sources, all resources, all contents of fresh memory.',
  'Tests compile once, with one heap, from memory that happens to be zero.',
  ['duckLisp.c', 'generators.c', 'emitters.c', 'assembler.c', 'parser.c', 'duckVM.c', 'DuckLib/memory.c'],
  [('compilation', 'duckLisp.c:duckLisp_loadString'), ('state of a compilation', 'duckLisp.c:duckLisp_compileState_init'), ('assembly', 'assembler.c:duckLisp_assemble'), ('objects', 'duckVM.c:duckVM_gclist_pushObject')],
  ['the bytes that duckLisp_loadString returns, its error and messages', 'every read of memory'], HOOK,
  technique='runtime monitoring: MemorySanitizer, and offline comparison of the logs of instances that differ in resources and history'),

P('P23', 'Compiled code is well-formed and its disassembly is faithful',
  'Everything that is compiled, for run time or for compile time, consists of whole instructions; its jumps, branches and functions lead to instructions within it; its operands name existing stack slots of the running function, existing captures and '
  'the symbols, strings and arguments that were meant; on every way to an instruction the stack has the same height, and a call leaves exactly one value in place of what it took. Execution never leaves the instructions of the code. The '
  'disassembler lists exactly these instructions in order, with their operands.',
  ['programs', 'configurations'], 'All programs, all sizes and operand widths, with and without optimisation.',
  'Tests look at printed values; code that reads a wrong slot or leaves a value behind can still print the right ones.',
  ['assembler.c', 'emitters.c', 'generators.c', 'duckLisp.c', 'duckVM.c'],
  [('assembler and its optimiser', 'assembler.c:duckLisp_assemble'), ('disassembler', 'assembler.c:duckLisp_disassemble'), ('emitters', 'emitters.c'), ('stack bookkeeping of the compiler', 'duckLisp.c:duckLisp_compile_compoundExpression'), ('decoder', 'duckVM.c:duckVM_executeInstruction')],
  ['the bytes that duckLisp_loadString returns', 'VM instruction hook: every instruction with the state of the stack before it'], HOOK,
  technique='runtime monitoring: an online monitor decodes every executed instruction and follows the stack of every frame; disassemblies are compared with an independent decoder', note=REFN),

P('P25', 'Forms that the host adds to the language compile like built-in ones',
  'A generator that the host adds (duckLisp_addGenerator) is called for each form with its name, exactly once for each form that is compiled, wherever the form stands: in functions, loops, macros and their results, compile-time code, the arguments of other forms of the '
  'host. It gets the operands of the form unchanged; operands that it compiles see the variables of their scope and are captured and assigned as in any other form; the code that it emits is the value of the form. An action of the reader (duckLisp_addParserAction) is called '
  'for every expression with its name, in quoted data too, after the parts of that expression were read, and the program is what it leaves. An error of either refuses the source without effect and leaves the compiler usable. With inference, declared types and scripts '
  'of added generators determine their operands.',
  ['programs', 'inputs'], 'All programs with forms of the host in any position, all build configurations, with and without inference.',
  'No test adds a form to the language.',
  ['duckLisp.c', 'parser.c', 'emitters.c', 'parenthesis-inferrer.c'],
  [('adding forms', 'duckLisp.c:duckLisp_addGenerator, duckLisp_addParserAction'), ('dispatch of forms', 'duckLisp.c:duckLisp_compile_expression'), ('actions of the reader', 'parser.c:runAction'), ('interface of generators', 'emitters.c, duckLisp.c:duckLisp_compile_compoundExpression')],
  ['the host: each call of a generator', STEP], HOOK, technique='runtime monitoring of hosts that extend the language: differential against the reference evaluator for the program without these forms, with counts of generator calls, under ASan/UBSan', note=REFN),

P('P26', 'Messages say what is wrong and where',
  'A source that is refused for its syntax comes with a message, and the first message names the mistake (a parenthesis that is not closed, one too many, a string without its closing quote) at its line and column; every message that has a place shows that line of the text. '
  'A name that is neither defined in its scope nor by the host is reported as an unknown variable or function, depending on its use, once for each use; names that are defined where they are used, quoted names and names in branches that are never compiled are not reported. '
  'A built-in form with too few or too many operands is refused with a message that names the form and which of the two it is, and nothing else is reported. Well-formed texts get no message about syntax. '
  'A program that fails while it runs is reported with the operation that failed and never with another one (always for an unknown name, a division by zero, a call of what is no function, an index, string, symbol, list or composite that an operation can\'t use, unless that is arithmetic, a comparison, car, or an assignment to a part), '
  'and each callback that it leaves this way is named after it; a program that succeeds leaves no message.',
  ['programs', 'inputs'], 'All texts, well-formed or not, all programs that succeed or fail, all build configurations.',
  'Tests contain only programs that compile.',
  ['parser.c', 'duckLisp.c', 'generators.c'],
  [('messages with a place', 'parser.c:duckLisp_error_pushSyntax'), ('reader', 'parser.c:parse_expression, parse_string, parse_irrelevant'), ('operand counts', 'duckLisp.c:duckLisp_checkArgsAndReportError'), ('unknown names', 'duckLisp.c:duckLisp_compile_compoundExpression, duckLisp_compile_expression, generators.c:duckLisp_generator_setq'), ('run-time errors', 'duckVM.c:duckVM_executeInstruction, duckVM_error_pushRuntime')],
  ['the error messages after each duckLisp_loadString', 'the error messages after each duckVM_execute'], HOOK, technique='runtime monitoring: the messages of each source are compared with an independent scanner of the text and with those of the same program without the planted mistakes, under ASan/UBSan')
]

REPO_HOOK_COMMITS = ['422820f']

def manifest(props):
    sha = []
    for c in REPO_HOOK_COMMITS:
        r = subprocess.run(['git', '-C', '/repo', 'rev-parse', c], capture_output=True, text=True)
        sha.append(r.stdout.strip() or c)
    checks = []
    for p, tech, note in ALL:
        if p['id'] not in props: continue
        cmd = 'python3 check.py %s' % p['id']
        checks.append(dict(property=p['id'], quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough', technique=tech, level=LEVEL, level_note=note))
    return dict(version=1, setup_cmd='python3 lib/build.py default',
                hooks=dict(guard='DUCKLISP_VERIF', enable='lib/build.py compiles /repo\'s sources with -DDUCKLISP_VERIF and links the monitors in harness/', source_commits=sha),
                checks=checks, not_applicable=[], notes='Known findings and repairs are listed in known-findings.txt. DESIGN.md describes the machinery.')

if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    import check
    have = set(check.PROPS)
    assert len({p['id'] for p, _, _ in ALL}) == len(ALL)
    missing = have - {p['id'] for p, _, _ in ALL}
    if missing: sys.exit('no text for %s' % missing)
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p, _, _ in ALL:
            if p['id'] in have: f.write(json.dumps(p) + '\n')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest(have), f, indent=1)
        f.write('\n')
