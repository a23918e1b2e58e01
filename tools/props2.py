
EXPL = "The generator of the working tree is run on every declaration of a bounded grammar; "
prop("G01", "Every supported declaration generates code that compiles and is complete",
 "For every declaration of the supported grammar, alone, together with any others in one file and spread over several files and packages, the generator succeeds and writes a formatted file that compiles. The types it is asked for, and no others, get every method their directives promise, and satisfy the standard encoding interfaces.",
 ["programs", "configurations"], "every supported declaration (type expression x wrapper x tag, defined types, unusual declarations) generated alone and type-checked; all pairs (and triples in thorough) of member kinds, and all of them together in whole packages, compiled with assertions of the interfaces",
 "The suite generates about forty fixed types; a combination of member kinds whose code does not compile, or a directive that loses a method, is met by the user first.",
 [CODEGEN, GEN, ANA, STRUCT, ARRAY, MAP, TRANSIT, FIELDS, FILL, MARSHS, EXTR], [("selection of types and methods by directive", GEN), ("rendering of the file", CODEGEN)],
 "exploration", "exhaustive bounded enumeration of declarations, each run through the real generator and the Go type checker", EXPL + "its output is type-checked against the real dependencies. Which declarations are supported was decided once on the base tree (supported.txt). Trusted: go/types, the Go compiler.")
prop("G02", "A declaration that cannot be honoured is refused, never mistranslated",
 "Whatever is declared, the generator either refuses with an error, or writes code that does not compile, or writes code that carries every member: setting any one member of a value changes the text it encodes to (or encoding fails), and decoding that text sets the member again (or fails). No member is silently lost, confused with another or left out.",
 ["programs"], "all supported declarations and about 600 outside the supported grammar (unusual types, tags, names, nested and repeated declarations), each generated alone and type-checked, and each that is refused once more with encoding only and with decoding only; where that succeeds, every member set to each of a few values, encoded and decoded",
 "Tests only run the generator on declarations it is known to handle.",
 [ANA, GEN, TAGS, CODEGEN, FIELDS, FILL, MARSHS, GOT, DISC], [("check of the names of fields", ANA), ("parsing of tags", TAGS), ("kind by type expression", FILL)],
 "exploration", "exhaustive bounded enumeration of declarations through the real generator, the output executed and compared with what is declared", EXPL + "whatever compiles is executed on values with one member set.")
RUN = "The generator of the working tree, built into a driver, is executed on real source trees; "
prop("G03", "The generated code is a function of the sources alone",
 "Generating code for a file yields the same bytes in every run: in whatever order maps are iterated, from whatever working directory and by whatever spelling of the path, in whatever environment, and whatever was generated before in the same process.",
 ["schedules", "configurations", "histories"], "for every feature package, layouts of another package, and the repository's own sources: every iteration order of the generator's maps up to 2 (3) deviations from the default within an execution limit, 13 surroundings, and all ordered pairs of inputs in one process",
 "Go randomises the iteration of maps: a test meets one order per run, and one that differs only rarely differs in the user's repository.",
 [GEN, ANA, DISC, DISCP, CODEGEN, STATIC], [("iteration over parsed files and packages", GEN), ("search of go.mod", DISCP), ("registry of imports", GEN)],
 "model_checking", "stateless model checking of the real generator: a patched Go runtime turns every choice of map iteration into a branching point that is enumerated exhaustively up to a bound of deviations", RUN + "map iteration is controlled through an overlay of the runtime; other sources of nondeterminism (select, scheduling) are not used by the generator.")
prop("G04", "Types of another package mean the same wherever that package lies",
 "Where in the module the imported package lies, how the import is written (alias, group, blank, repeated), how its declarations are spread over files, and what other packages, tests, ignored or vendored files bear the same names, makes no difference to the generated code except for the qualifier and the import.",
 ["configurations", "programs"], "all combinations of 20 placements, 10 forms of import, 8 ways of declaring, 9 kinds of decoys and 5 contents with up to 2 (3) of them differing from the plainest",
 "The suite imports one package from one place.",
 [GEN, DISC, DISCP, ANA], [("types of other packages", GEN), ("inlined structs of other packages", ANA), ("discovery of the module", DISCP)],
 "exploration", "exhaustive bounded enumeration of module layouts through the real generator, its output type-checked and compared with that for the plainest layout", RUN + "the output is compared with that of the same generator for the plainest layout. Dot imports may be refused.")
prop("G05", "What is reported as generated is complete",
 "If any read or write fails while code is generated, be it an error, a full disk, or data lost when the file is closed, or if the source is missing or is not well-formed Go, then the failure is reported, by the program main.go through its exit status; success is reported only if both files were written completely and are what they would have been without the fault. The sources are never changed.",
 ["fault_sequences"], "every single system call on files of the generation of 12 small modules, and of a run of the program main.go, failing; each write torn at several places with the disk full from then on; each closing losing what was written past the end of each declaration; directories and links in the place of the outputs; the source missing, cut, or with one character dropped at every place",
 "Tests run on a working disk.",
 ["main.go", GEN, STATIC, DISC, DISCP], [("the program", "main.go"), ("writing and formatting", GEN), ("writing of the utils file", STATIC), ("reading of other packages", GEN)],
 "fault_enumeration", "exhaustive enumeration of single faults: a patched syscall package lets each system call of a run fail in each way", RUN + "faults are injected in the syscall package by an overlay; one fault per run (a full disk stays full).")
prop("G06", "Leftovers of earlier or interrupted runs do not matter",
 "If a run is broken off at any point, the sources are untouched and running the generator again yields exactly the files an undisturbed run yields. The same holds whatever is found in the place of the outputs, and whatever state the generated files of an imported package are in.",
 ["crash_points", "histories"], "a crash before, within and after every system call of the generation of 12 small modules and of a run of the program main.go, then a second run; outputs of an earlier run cut at every step, extended, garbled or declaring conflicting types; the same for the outputs of the imported package",
 "Tests generate once, into a clean directory.",
 [GEN, STATIC, DISC, DISCP], [("writing and formatting", GEN), ("discovery reads all files, outputs included", DISCP)],
 "fault_enumeration", "exhaustive enumeration of crash points and torn writes on the real generator, followed by recovery", RUN + "crashes are process ends at system calls (a patched syscall package); loss of data the kernel had accepted is not modelled.")
prop("C01", "Concurrent use gives each goroutine what it would get alone",
 "Goroutines that decode, encode, reset or query different values at the same time, or that encode and query one and the same value, get exactly the results and errors that each would get alone, and their values hold what they would hold, under every interleaving.",
 ["schedules", "programs"], "declarations of single members, unusual declarations and feature packages x 8 (12) scenes of two (three) threads that decode good, refused and broken documents, encode, ask and reset; all schedules with one (2) preemptions, feature packages 2 (3) within a limit, a preemption being possible before every statement of the generated code",
 "Decoders share pooled parsers and encoders share pooled buffers; a parser handed back too early or a shared scratch variable shows under few interleavings only, and a test runs one.",
 [CODEGEN, TPL, STRUCT, ARRAY, MAP, TRANSIT], [("parser pool", CODEGEN), ("functions all types share", TPL)],
 "model_checking", "stateless model checking: the generated code is instrumented with a scheduling point before every statement and run under a controlled scheduler, all schedules up to a bound of preemptions enumerated",
 "The generated code itself runs, with calls inserted between its statements; library calls are atomic, memory is sequentially consistent, and one processor is used so that the pools of the libraries are deterministic (last in, first out). Trusted: the Go toolchain, fastjson, easyjson.", state=[("parser pools and shared helpers", "package variables of the generated code", CODEGEN)])
