import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
MAIN='src/main.rs'
OUT=['stdout of the tool (dot / top)']
p('C01','Maximum stack usage is the worst path through the reported call graph',
 "For every node of the reported call graph that is not part of, and cannot reach, recursion, the reported `max` is exactly the node's `local` usage plus the largest `max` among the nodes it calls (the node's own `local` when it calls nothing), an unknown `local` counting as 0. When the program contains no stack usage information at all no `max` is printed for any node, and otherwise every node gets one.",
 ['programs','inputs'],'all programs, i.e. all call graphs (depth, sharing, fan-out, disconnected parts, unknown nodes anywhere), all stack sizes up to 64-bit totals, all targets, with and without a start point',
 'firmware tests compare a handful of tiny graphs from one compiler; the longest-path computation must be right for every DAG shape and every mix of exact and unknown nodes.',
 [MAIN],[('max stack usage computation (topological pass and SCC pass)','src/main.rs run(), "compute max stack usage"'),('Max/Local arithmetic','src/main.rs impl ops::Add for Max, max_of, max')],OUT,
 [('Node.max','worst-case usage shown as "max"','src/main.rs struct Node')])
p('C02','Recursion is reported as cycles and bounded as documented',
 "When the program contains stack usage information, the reported cycle clusters are exactly the strongly connected components of the reported call graph that contain recursion (more than one function, or one function that calls itself). Every member of a cycle has the same `max`: the largest `local` in the cycle plus the largest `max` among the nodes called from the cycle that are outside it, shown as a lower bound (`>=`) unless every member uses exactly zero bytes and everything the cycle calls is exact; nodes that reach a cycle accumulate that bound like any other callee.",
 ['programs','inputs'],'all call graphs with any number of self loops, nested, chained and sibling cycles, with unknown or zero usage in any position, including cycles through fictitious (function pointer) nodes and under a start point',
 'one test has one fixed three-function zero-usage cycle.',
 [MAIN],[('SCC pass','src/main.rs run(), kosaraju_scc'),('cluster output','src/main.rs dot()')],OUT)
p('C03','Uncertainty is never presented as an exact bound',
 "If a function's stack usage is unknown, or it makes a call whose target cannot be determined (an undefined external symbol, an indirect call when the program contains functions without type information, an indirect call whose signature matches no function of the program, an indirect jump or call in machine code of a function with no IR, other than a thunk of the linker), then that function, and every function that can reach it, reports its maximum as a lower bound (`>=`), never as exact (`=`). Conversely a function from which only known usage, resolved calls and no stack-using recursion are reachable is reported as exact.",
 ['programs','inputs'],'all programs with any placement of unknown-usage functions, undefined symbols, untyped symbols, machine-code-only indirect calls and unmatched indirect calls, on Thumb and non-Thumb targets',
 'tests never combine missing information with deep callers; the exactness marker must be right for every graph and every source of uncertainty.',
 [MAIN,'src/thumb.rs'],[('Local::Unknown / Max::LowerBound propagation','src/main.rs'),('"?" node injection','src/main.rs (has_untyped_symbols, unresolved indirect calls, machine-code indirect calls)'),('undefined symbol nodes','src/main.rs Stmt::DirectCall')],OUT)
p('C04','Every direct call in the IR becomes exactly one edge between the right nodes',
 "For every function that is present in the final executable, each function it calls directly in the LLVM IR (`call` or `invoke`, any calling convention, attributes, return type or argument list) is connected by exactly one edge, no matter how often it is called; a callee referred to by an alias is the node of the function it aliases and a callee missing from the executable but listed as undefined is a node with unknown usage. Functions the linker discarded contribute neither nodes nor edges, and no other direct-call edges appear.",
 ['programs','inputs'],'all IR modules of the supported toolchain: any number of functions and calls, textual call forms, aliases, discarded functions, undefined (also versioned) symbols, calls in the application module or in the compiler_builtins module',
 'unit tests parse ~40 hand-picked lines; integration tests have graphs with a few nodes.',
 [MAIN,'src/ir.rs','src/ir/define.rs','src/ir/item.rs'],[('direct_call parser','src/ir/define.rs'),('edge construction','src/main.rs Stmt::DirectCall'),('alias map','src/main.rs aliases')],OUT)
p('C05','Indirect calls reach exactly the functions of matching signature',
 "A call through a function pointer with signature S is connected, through one dashed node per signature named after S followed by `*` with zero local usage, to exactly the functions in the executable whose IR type (definition, or else declaration) has the same return type and the same parameter types as S, attributes and parameter names not mattering; a function that the compiler or the linker merged with identical ones of other types has all their types (those of its definitions and aliases). (The one exception are the calls `core::fmt` makes through typed pointers, `i1 (%\"fmt::Void\"*, %\"core::fmt::Formatter\"*)*` under whichever name the compiler gave to `fmt::Void`: these reach every function of type `i1 (T*, %\"core::fmt::Formatter\"*)`.) Dashed nodes exist only for signatures that are called by some function in the executable.",
 ['programs','inputs'],'all sets of functions and indirect calls over the IR types the compiler emits (integers of any width, floats, pointers, arrays, structs, packed structs, vectors, void), with arbitrary attributes and argument expressions (locals, constants, globals, constant expressions)',
 'three tests use one or two signatures each; signature equality has to distinguish and unify types for every pair.',
 [MAIN,'src/ir.rs','src/ir/define.rs','src/ir/ty.rs'],[('signature equality','src/ir.rs FnSig::loosely_equal, src/ir/ty.rs Type::loosely_equal'),('indirect_call / argument parsers','src/ir/define.rs'),('fictitious nodes','src/main.rs "add fictitious nodes"')],OUT)
p('C06','Every branch in Thumb machine code that leaves a function becomes an edge',
 "On the supported Cortex-M targets every `bl`, and every `b`/`b.w`/conditional branch whose destination lies outside the function, produces an edge to the function at its destination, for every encoding, condition, direction and distance the instruction supports, wherever it is placed among other valid instructions, literal pools and jump tables. Branches inside the function, instructions that are not branches and data embedded in the code produce no edges.",
 ['programs','inputs'],'all valid ARMv6-M / ARMv7-M / ARMv7E-M instruction sequences (every 16-bit and 32-bit encoding) with branches at any distance up to the limit of their encoding, data regions delimited by mapping symbols',
 'unit tests decode four branch instructions in isolation; integration tests only see what the compiler happened to emit.',
 ['src/thumb.rs',MAIN],[('thumb::analyze','src/thumb.rs'),('machine code pass','src/main.rs "here we parse the machine code"')],OUT)
p('C07','Thumb machine code analysis yields the stack a function allocates',
 "On the supported Cortex-M targets a function without compiler-provided stack information whose code does not branch within itself is reported with a local usage equal to the total number of bytes its instructions push onto or subtract from SP (push, stmdb sp!, sub sp #imm in all encodings, vpush, str and strd [sp,#-n]!), zero if there are none, and unknown if SP is changed by an amount held in a register. A function with internal branches is reported as 0 if no instruction changes SP in one of these ways and as unknown otherwise. For a function with inline assembly, or one produced by the outliner for which the compiler reported zero, whose code does not branch within itself the total replaces what the compiler reported; for one with inline assembly that does branch within itself the compiler's number stays, unless that is zero although SP is changed in one of these ways, which is reported as unknown. A function without compiler-provided stack information whose size neither the symbol table nor the mapping symbols tell is reported as unknown.",
 ['programs','inputs'],'all valid instruction sequences over ARMv6-M and ARMv7-M with any mix, order, operands and count of stack-allocating instructions, internal branches, literal pools and inline asm',
 'one unit test feeds each of six instructions once with one operand value.',
 ['src/thumb.rs',MAIN],[('modifies_sp / stack accounting','src/thumb.rs analyze()'),('override of LLVM results','src/main.rs after thumb::analyze')],OUT)
p('C08','Compiler-reported stack sizes are attributed to the right functions',
 "The `local` usage of each function is the value the compiler recorded for it, in the application object or in any compiler_builtins object of the compiler_builtins archive, for any value, any number of functions and either ELF class; it is found under whichever of the function's names it was recorded. Where the application has a function that compiler_builtins has too (its own `memcpy`, in Rust or assembly), the application's is the one in the executable: of the other one neither the usage nor the calls count. A function for which nothing was recorded is reported as unknown (on targets whose machine code is not analyzed), and archive members or functions that are not part of the executable have no effect.",
 ['inputs','programs'],'all object files and archives the supported compiler produces (ELF32/ELF64, REL/RELA, any number of entries, ULEB values of any length), any alias sets, archives with any mix of members',
 'tests only look at a few compiler-produced sizes and never at compiler_builtins or alias attribution.',
 [MAIN],[('stack_sizes merge','src/main.rs stack_sizes::analyze_object + Archive loop'),('canonical name selection','src/main.rs canonical_name')],OUT)
p('C09','A start point keeps exactly what is reachable, unchanged',
 "With a start point the output is exactly the subgraph of the unfiltered output induced by the nodes reachable from the start function, each with the same label, `local`, `max`, style, edges and cycle membership. The start function may be given by its symbol name, any alias of it, or its path without the hash, and matches only if the whole path matches; if nothing or more than one function matches, an error is logged and the output is unfiltered.",
 ['inputs','programs'],'all programs and all strings given as start point: symbol names, aliases, demangled paths, prefixes of paths, ambiguous generic instantiations, absent names',
 'no test passes a start point.',
 [MAIN],[('start lookup and Dfs copy','src/main.rs "filter the call graph"')],['stdout, stderr of the tool'])
p('C10','Nodes are labelled unambiguously and the dot output is well formed',
 "Each node is labelled with its demangled symbol name, and a trailing hash is removed if and only if no other function in the program has the same path, so that functions with different demangled names never share a label; the node of a function pointer is labelled with its type, so that different types never share a label either; a path segment that merely looks similar to a hash is kept. For any symbol names the output is a syntactically valid dot file whose labels, once unescaped, give back the name, and node ids, edges and clusters refer only to declared nodes.",
 ['inputs','programs'],'all sets of symbol names (legacy mangled with any path and hash, v0, unmangled, names with quotes, backslashes, unicode, braces and punctuation)',
 'tests look up a few fixed names with a regex.',
 [MAIN],[('dehash and ambiguity counter','src/main.rs dehash(), ambiguous'),('Escaper','src/main.rs'),('dot()','src/main.rs')],OUT)
p('C11','The top format is the same analysis as a sorted table',
 "`--format top` prints one line with the largest `max` of the graph, a header, and then one line per node of the graph that `--format dot` would print, with the same name and `local` usage (0 if unknown), sorted by decreasing usage. The output formats and the start point are independent of each other.",
 ['inputs','programs'],'all programs, with and without start point, unknown usage, cycles, and missing stack usage information',
 'no test uses the top format.',
 [MAIN],[('top()','src/main.rs')],OUT)
p('C12','The analysis does not depend on how the IR and objects are laid out',
 "Reordering functions, IR items, symbols, sections or archive members, renaming local values, adding or removing comments, debug metadata, attributes, globals, type definitions, module asm, labels, non-call instructions, blank lines or CRLF line ends, and repeating the run, leave the reported call graph unchanged up to node numbering and the choice among the names of a function that has several. No text inside string constants, comments, metadata, quoted names or asm snippets is ever taken for a call.",
 ['inputs','programs','histories'],'all pairs of inputs that describe the same program; repeated runs of the same input',
 'tests run each program once in the one layout the compiler chose; hash-map iteration order differs between runs.',
 [MAIN,'src/ir.rs','src/ir/define.rs','src/ir/item.rs','src/ir/ty.rs'],[('IR parser','src/ir/*'),('HashMap based passes','src/main.rs')],OUT)
p('C13','IR that cannot be understood is rejected, never partially analyzed',
 "If the IR of the application or of compiler_builtins contains an item or a `call`/`invoke` statement the parser does not understand, or ends prematurely, the tool exits with a failure status, says that the IR could not be parsed and prints no graph. It never prints a graph from which the unparsed part is missing.",
 ['inputs'],'all corruptions of well-formed modules: truncation at any byte, deleted or inserted tokens, lines and characters anywhere, unknown item or call forms',
 'tests contain no malformed IR; silent loss can hide behind any statement form.',
 ['src/ir.rs','src/ir/define.rs','src/ir/item.rs',MAIN],[('`other` rejects call','src/ir/define.rs other()'),('items() requires end of input','src/ir.rs'),('error reporting','src/ir.rs parse, src/main.rs')],['exit status, stdout, stderr'])
p('C14','LLVM intrinsics become calls to the routines they lower to, or nothing',
 "On targets whose machine code is not analyzed, a call to `llvm.memcpy.*`, `llvm.memmove.*` or `llvm.memset.*` is connected to every function of that family (`mem*` and the `__aeabi_*` variants) that the executable contains or imports, and to no function of another family; debug-info, hint and integer-arithmetic intrinsics produce neither nodes nor edges. On Cortex-M targets no edge comes from an intrinsic in the IR, and no intrinsic ever appears as a node.",
 ['programs','inputs'],'all mixes of intrinsic calls and available runtime routines (any subset defined, aliased, undefined or absent), on every target',
 'one test checks one memory routine on one target.',
 [MAIN],[('intrinsics handling','src/main.rs Stmt::DirectCall')],OUT)
p('C15','The rustc wrapper is transparent apart from what it injects',
 "In wrapper mode the real compiler is invoked exactly once with every original argument, unchanged and in order, preceded by `-Zemit-stack-sizes` (and `--emit=llvm-ir` when compiling compiler_builtins), inherits environment and standard streams, and its exit code is returned; this includes queries such as `rustc -vV`, which have no crate name. The paths reported are exactly that of the compiler_builtins library passed with `--extern` (with or without the `noprelude:` modifier) and that of the IR file compiler_builtins is compiled to.",
 ['inputs','configurations'],'all rustc argument lists cargo can produce (any order, joined or split options, repeated and unrelated options, paths with `=`, spaces and unicode) and all compiler exit statuses',
 'no test drives the wrapper directly; end-to-end tests see one cargo version and only successful builds.',
 ['src/wrapper.rs'],[('wrapper()','src/wrapper.rs'),('RustcArgs::parse','src/wrapper.rs')],['arguments and environment the real compiler receives','stderr','exit status'])
p('C16','The build is driven as requested and its failure is the tool\'s failure',
 "The tool runs one release build of exactly the requested binary or example with the requested target and features, emitting IR and an object with fat LTO and rebuilding the standard library (only core, alloc and compiler_builtins when the target has no OS), with itself as the compiler wrapper and otherwise in the environment and directory it was run in. If that build fails the tool exits with the build's exit code (1 if it has none) and prints no graph; everything the build prints to stderr is passed through except the tool's own markers, and the command line's `--target` takes precedence over the one configured for the project.",
 ['configurations','inputs','fault_sequences'],'all combinations of command line options, project configurations and target kinds, all build exit statuses (codes and signals), all build outputs',
 'tests always use `--example X --target T` on a build that succeeds.',
 [MAIN],[('cargo invocation','src/main.rs cargo.args(..)'),('status handling','src/main.rs'),('target selection','src/main.rs target_flag.or(project.target())')],['arguments and environment of the cargo process','stderr','exit status'])
p('C17','The analysis uses the artifacts of this build, not stale ones',
 "Whatever files earlier builds left in the target directories, the graph describes the most recently written IR of exactly the requested binary or example together with the object file that belongs to it, the executable in the directory of the selected target, and the compiler_builtins library and IR of this build; files of other crates, profiles, targets or kinds are never used. A missing or unreadable artifact is an error, not a graph.",
 ['histories','configurations'],'all histories of builds in a target directory: several hashes of the same crate in any order of age, crates whose names are prefixes of each other or differ in dashes and underscores, bins and examples of the same name, several targets',
 'tests start from an empty target directory and build each example once.',
 [MAIN],[('newest .ll selection','src/main.rs "load llvm-ir file"'),('artifact path','src/main.rs project.path'),('marker parsing','src/main.rs stderr loop')],OUT)
p('C18','Only the supported toolchain is used unless explicitly overridden',
 "Unless the toolchain's commit hash is the supported one, the tool fails with a message naming the supported toolchain before it builds anything or prints a graph. The only way around is the documented environment variable set to exactly the documented value, with which the tool behaves as with the supported toolchain.",
 ['configurations'],'all toolchain version reports (any hash, date, channel, missing hash) and all values of the override variable',
 'tests run with exactly one toolchain.',
 [MAIN],[('toolchain gate','src/main.rs run()')],['exit status, stderr, whether cargo is invoked'])
p('C19','Thumb analysis does not depend on where code and data are placed',
 "On Cortex-M targets, moving the program or single functions to other addresses or sections (flash, RAM, low or high addresses), inserting padding or unrelated functions between them, and adding mapping symbols, debug sections or read-only data that do not belong to the code leave the reported call graph unchanged. No such layout makes the tool fail. The thunks LLD inserts for functions that are too far away for a branch are functions that call the one they are named after and nothing else.",
 ['programs','configurations'],'all memory layouts and symbol tables that a linker produces for the same code: base addresses, section splits, order of functions, mapping symbols of non-code sections, literal pools before other data',
 'all test programs share one linker script with everything in one .text section.',
 [MAIN,'src/thumb.rs'],[('section lookup and mapping symbols','src/main.rs machine code pass'),('data skipping','src/thumb.rs')],OUT)
p('C20','Real programs are analyzed faithfully end to end',
 "For every program the pinned compiler accepts, on Cortex-M and other targets (there, if it uses no intrinsics of floating point numbers or of one architecture, which the tool refuses), at any optimization level and with or without debug information, the tool succeeds and reports exactly one node per function of the executable, whose usage is what the compiler recorded for it (8 bytes more if the function outliner made it save LR; functions with inline assembly or made by the outliner excepted); an edge for every direct branch between functions that a disassembly of the executable shows (outside Cortex-M, except branches to runtime-library routines that the code generator inserted); and no direct edge that is neither such a branch nor a call in the IR. When the program runs on a Cortex-M, every call that happens, tail calls and calls by pointer included, is one the graph has, no function uses more stack of its own than its `local`, and none uses, together with everything it calls, more than its `max` if that is exact.",
 ['programs'],'all Rust programs (generated: arithmetic on all integer and float types, recursion, function pointers, trait objects, generics, closures, futures, heap, formatting, panics, atomics, big stack frames, memory routines, inline and global asm, dependencies with build scripts)',
 'there are ten fixed test programs; the compiler emits other instructions and IR for other code.',
 [MAIN,'src/thumb.rs','src/ir.rs','src/wrapper.rs'],[('whole pipeline','src/main.rs run()')],OUT)
p('C21','The nodes are exactly the live functions, each once, with all information merged',
 "The solid nodes of the graph are exactly the functions the executable defines, one per address however many names it has, plus the undefined functions that are called; mapping symbols, non-function symbols and discarded functions never appear. A call through any of the names, or IR recorded under any of them, belongs to that one node.",
 ['programs','inputs'],'all symbol tables: any number of aliases per address (functions and untyped labels), Thumb bit set, local/global/weak binding, mapping symbols, data symbols, versioned undefined symbols, ELF32/ELF64',
 'tests check the presence of single nodes, never the absence of others or alias merging.',
 [MAIN],[('node creation','src/main.rs "add all real nodes"'),('aliases','src/main.rs aliases')],OUT)
p('C22','Gaps of the analysis are announced',
 "Whatever the output format and start point, the tool says on stderr, as a warning that names the function, exactly once for each function of the executable: that its stack usage is not known (if it is reported so), that it has no type information, that it contains inline assembly, or that its machine code makes indirect calls of which nothing is known. It also warns that indirect calls are not bounded if and only if some function has no type, and says that there is no stack usage information if and only if there is none. It announces once each type of function pointer that is called although no function of the program has that type (unless functions without types could be called), and each intrinsic that it assumes to lower to plain instructions (only on targets whose machine code is not analyzed). Functions about which everything is known, and intrinsics that always become nothing, are not mentioned.",
 ['programs'],'all mixes of functions with and without recorded usage, size, IR and inline assembly, aliased or not, on Thumb and other targets',
 'no test looks at what the tool prints to stderr.',
 [MAIN],[('warn!(..)','src/main.rs'),('env_logger set-up','src/main.rs run()')],['stderr'])
p('C23','The user\'s files are left as they are',
 "However a run ends (a graph, a failed build, a missing artifact, an unsupported toolchain, wrong arguments), the tool itself creates and removes no file, and changes neither the content nor the permissions of any, inside or outside the project and the target directories; apart from the modification times of Rust source files (by which the requested program is built again) it changes no modification time, and a run that is refused before the build changes none at all.",
 ['projects','outcomes'],'all projects (nested, hidden, read-only, linked, oddly named and empty files, leftovers of other builds) and all outcomes of a run',
 'the tests run the tool on one tidy project and only look at its output.',
 [MAIN],[('set_file_times','src/main.rs run()')],['file system'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
