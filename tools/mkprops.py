import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(title,len(title))
    P.append(d)
CG="ctypeslib/codegen/codegenerator.py"; CH="ctypeslib/codegen/cursorhandler.py"; TH="ctypeslib/codegen/typehandler.py"; CP="ctypeslib/codegen/clangparser.py"; HD="ctypeslib/codegen/handler.py"; CF="ctypeslib/codegen/config.py"; CL="ctypeslib/clang2py.py"; LB="ctypeslib/library.py"; UT="ctypeslib/codegen/util.py"; TD="ctypeslib/codegen/typedesc.py"; D="ctypeslib/data/"
p("C01","Generated struct and union layouts are the compiler's layouts",
"For every C struct or union definition without bit-fields, the generated ctypes class has the size the compiler gives the record on the requested target, and every C member, including members of anonymous and nested records, is present under its C name at the compiler's offset with the compiler's size and element type. Alignment attributes, packing, padding, arrays, nesting and forward references never change that.",
["programs","configurations"],"every record definition over a type alphabet, up to a member count and nesting depth, for each compilation target",
"The record tests sample a few dozen hand-picked structs on two targets; padding and nesting bugs need a particular sequence of member sizes, attributes or nesting.",
[CH,TH,CG,HD,D+"structure_type.tpl"],[("padding insertion",CH+":_fixup_record"),("field collection",CH+":FIELD_DECL"),("_pack_/_fields_/_anonymous_ emission",CG+":StructureBody")],
observe=["ctypes.sizeof(cls)","cls.<field>.offset/size","cls._fields_"])
p("C02","Bit-fields occupy the compiler's bits and round-trip values",
"For every record whose bit-fields the generator accepts, the generated class has the compiler's size, writing a value to a bit-field changes exactly the bits the compiler assigns to it and reading it back yields the value truncated and sign-extended as its C type says, and the ordinary members around the bit-fields stay at the compiler's offsets. Reading an image of the record written by compiled C code yields the C values.",
["programs"],"every sequence of bit-field and plain members over a width/type alphabet up to a length, and every boundary value of each field",
"test_bitfield covers about twenty fixed records and mostly compares sizes; bit positions depend on the whole preceding member sequence.",
[CH,CG],[("bit-field retyping and padding",CH+":_fixup_record_bitfields_type"),("bit-field padding",CH+":_make_padding")],
observe=["raw bytes of the class after a field write"])
p("C03","Every C type maps to a ctypes type of the same size, sign and shape",
"Every fundamental, pointer, array and function-pointer type, however it is qualified and nested, is generated as a ctypes type with the size it has on the requested target and the same category: signedness for integers, bool, character, floating kind, element type and count for arrays, pointee for pointers, return and argument types for function pointers.",
["inputs","configurations"],"every declarator derivation tree up to a depth over all base types, times the supported targets",
"Tests check sizes of a fixed list of basic types for two targets and a few pointers; declarator combinations and other data models are not reached.",
[TH,CP,CG,D+"fundamental_type_name.tpl"],[("kind table per target",CP+":make_ctypes_convertor"),("type handlers",TH+":POINTER/_array_handler/FUNCTIONPROTO"),("type rendering",CG+":type_name")],
state=[("ctypes_typename/ctypes_sizes","kind to ctypes name and size for this target",CP)])
p("C04","A typedef name stands for exactly the type it names",
"Every typedef is generated as a module name bound to the same type as its definition, whatever chain of typedefs, qualifiers, arrays, pointers, records, enumerations or fixed-width integer names it goes through, and a declaration written with typedef names produces the same layout and types as the same declaration with the names expanded.",
["programs"],"every typedef chain up to a depth over every kind of underlying type, used in every declaration position",
"Tests contain a handful of typedefs of fixed shape; indirection through chains, self reference and forward declared tags is not enumerated.",
[CH,TH,CG],[("canonicalisation",CH+":TYPEDEF_DECL"),("typedef emission",CG+":Typedef")])
p("C05","Enumerations keep every constant, value, size and sign",
"For every C enumeration, each constant is a module name with its exact C value, the value-to-name table lists each value with one of its names, and the generated enum type has the compiler's size, can represent all constants and is signed exactly when a constant is negative, including under short-enum options, and wherever the enumeration is used as member, argument or typedef.",
["inputs","configurations"],"every enumeration of up to four constants over boundary values (implicit, explicit, duplicate, negative, 32/64-bit edges) times short-enum options and targets",
"Tests fix a few enumerations; the size and sign rules depend on the extreme values of the whole list.",
[CH,CG],[("value capture",CH+":ENUM_CONSTANT_DECL"),("size/sign choice",CG+":Enumeration")])
p("C06","Function bindings carry the C prototype and call correctly",
"Every function declared in a translated source and exported by a listed library is generated as a callable bound to that library symbol with a return type and argument types that match the C prototype in number, order and kind, so calling it passes and returns exactly the values C would see. Functions absent from every listed library never prevent the module from loading and never bind to a symbol of another library.",
["inputs","programs"],"every prototype up to three parameters over a parameter-type alphabet and every return type, called with boundary values against a compiled library",
"Tests call one libc function and compare two argument lists; the mapping is per position and per type combination.",
[CH,CG,LB],[("prototype capture",CH+":FUNCTION_DECL/PARM_DECL"),("binding emission",CG+":Function")])
p("C07","Variables get the value of their C initialiser",
"A global variable initialised with literals, or with a constant expression of them, is generated as a Python value equal to its C value: integers in every base, sign and suffix, floating literals, characters, strings, and arrays of these in order; an uninitialised scalar is zero. Translation of such declarations never fails and never alters a neighbouring declaration.",
["inputs"],"every literal form over a finite alphabet times every scalar type, sign and array shape up to a length",
"test_types_values lists about forty initialisers; literal spelling (base, suffix, sign, exponent, escape) times type is combinatorial.",
[CH,CG,UT],[("literal decoding",CH+":_literal_handling"),("initialiser capture",CH+":_VAR_DECL_value"),("value emission",CG+":Variable")])
p("C08","Macro constants evaluate to their C value or are left out",
"With macro parsing enabled, every object-like macro whose body is a literal, a signed or parenthesised literal, a string or adjacent strings, or the name of an earlier such macro, is generated as a module name whose Python value equals the C value; a macro that cannot be expressed is only a comment. Whatever macros a source defines, the module loads and exports no name that is undefined.",
["inputs","histories"],"every macro body up to a token length over a token alphabet and every short define/redefine/reference history",
"test_macro lists particular bodies; token combinations and definition histories are unbounded and each new token mix takes a different branch.",
[CH,CG,UT],[("macro tokenisation",CH+":MACRO_DEFINITION"),("macro emission",CG+":Macro")])
p("C09","The generated module always loads, complete and self-contained",
"For every valid C source of supported declarations, the generated Python text compiles and executes on its own, every name it lists as exported is defined, every requested declaration is exported exactly under its C-derived name, and each record referenced by another is fully defined, for every dependency shape: forward, mutual and self references through pointers, embedding by value or in arrays, in any declaration order.",
["programs"],"every dependency graph over up to four records with edge kinds none/pointer/value/array, times declaration order and forward declarations",
"Tests hold a few hand-written cyclic records; the emission order depends on the whole graph and declaration order.",
[CG,CH],[("head/body scheduling",CG+":Structure/_get_undefined_*"),("work list",CG+":generate_items"),("__all__",CG+":generate_code")],
state=[("done/more/head_generated/body_generated/names","what has been emitted and what is pending",CG+":Generator")])
p("C10","Symbol and kind selection yields exactly the request plus dependencies",
"Selecting declarations by kind, by name or by regular expression generates every matching declaration of the source, generates nothing that is neither selected nor needed by a selected declaration, and leaves the generated code of the selected declarations equivalent to what an unrestricted translation produces. The resulting module always loads.",
["configurations","programs"],"every subset of kinds, every symbol set and every expression from an alphabet over a source that has each kind of declaration and dependency",
"Tests check a few -k/-s/-r invocations; the closure property is over all combinations of filters and dependency chains.",
[CG,CF,CL],[("filters",CG+":CodeTranslator.filter_types/filter_symbols/filter_expressions"),("option decoding",CF+":parse_options")])
p("C11","Include filtering and multi-file runs compose exactly",
"By default only declarations located in the listed source files, plus what they need, are generated, and with includes enabled those of every included file are too; listing several files generates each file's declarations once, independent of listing order, repetition and of which listed file includes which. The result is equivalent to translating the same declarations from a single file.",
["programs","configurations"],"every assignment of declarations to up to three files, every include graph between them, every list order and both include modes",
"Tests use one pair of headers in two orders; the property quantifies over include graphs and list orders.",
[CP,CG],[("location filter",CP+":start_element"),("processed-file skip",CP+":parse"),("file loop",CG+":parse_input_files")],
state=[("__filter_location/__processed_location","which files are kept, which were already visited",CP)])
p("C12","Translations are isolated from each other over any history",
"The output of a translation depends only on its own sources and configuration: after any history of earlier successful or failed translations, created parsers and loaded modules in the same process, and with any interleaving of the steps of several live translators for different targets, it is the same as in a fresh process. A configuration object that is used again gives the same result again and is not altered.",
["histories","schedules"],"every operation sequence up to a depth over create/parse/generate steps of translators with different targets, options, failing inputs and shared configurations",
"Each test translates with fresh objects in whatever order the runner picks; leaks only show for particular sequences of targets and steps.",
[CP,CG,CF,"ctypeslib/__init__.py"],[("per-instance state",CP+":__init__/make_ctypes_convertor"),("defaults",CF+":CodegenConfig")],
state=[("ctypes_typename","class-level mutable kind table",CP),("CodegenConfig class attributes","mutable class-level defaults",CF)])
p("C13","Concurrent translations do not disturb each other",
"Threads that translate different sources for different targets at the same time, each with its own translator, obtain exactly the outputs they would obtain alone, under every interleaving, and none of them fails.",
["schedules"],"every interleaving of two or three translator threads up to a preemption bound at the points where translator code touches shared state",
"No test uses threads; a race needs a preemption between setting up one translator's type tables and their use.",
[CP,CG,CF],[("per-instance state",CP+":__init__")],state=[("ctypes_typename","kind table shared if held on the class",CP)])
p("C14","Output is a deterministic function of the input",
"Translating the same sources with the same options gives byte-identical output in every process, whatever the hash seed, environment, working directory, number of earlier runs or object addresses.",
["configurations","histories"],"every source and option combination of an alphabet times hash seeds, repeated runs and working directories",
"Tests compare against expectations within one process and hash seed; ordering leaks from sets or addresses need another process.",
[CG,CP],[("ordered registries",CP+":all"),("ordered work lists",CG+":Generator.done/more")])
p("C15","Invalid sources are rejected and produce no bindings",
"A source for which the compiler reports an error is never translated: the API raises the invalid-translation-unit error, the command line exits with a non-zero status, and no declarations are written; a source with only warnings or notes is translated like a clean one. Rejection holds wherever the error is, including in an included file and in any position of a list of files. Function bodies, which the translator skips by design, are not a part of this.",
["inputs"],"every placement of every error, warning and clean fragment of an alphabet in up to three files and positions",
"Two fixed bad files are tested; severity filtering and position are not.",
[CP,CL,UT],[("diagnostics gate",CP+":_parse_tu_diagnostics"),("exit status",CL+":main")])
p("C16","The command line delivers the whole translation and cleans up",
"For every combination of input source (file, several files, standard input), output target (standard output, file) and option order, the command writes the same complete module as the library API with the equivalent configuration, exits 0 exactly when it did, and leaves nothing behind except the requested output file.",
["configurations"],"every combination of input kind, output kind and option settings over an alphabet",
"Tests run some options one at a time; combinations and leftovers in the temporary directory are never observed.",
[CL,CF],[("stdin spooling",CL+":Input"),("output stream",CL+":Output"),("driver",CL+":main")])
p("C17","I/O faults surface and never pass off partial output as success",
"If any open, read, write, close or helper-process call that a translation performs fails, the command exits with a non-zero status and the API raises, inputs are unmodified, no temporary file stays behind, and a run that reports success has written the complete module.",
["fault_sequences"],"every single fault (and pairs in the thorough tier) injected at every intercepted I/O operation of a run, for each input and output kind",
"Tests inject no faults.",
[CL,CG,LB],[("context managers",CL+":Input/Output"),("generation order",CG+":generate_code")])
p("C18","Presentation options do not change the bindings",
"Comment, docstring, location and verbosity options only add comments, docstrings and diagnostics: the module generated with any combination of them loads and defines the same names, types, layouts, values and bindings as without them, whatever comments the source contains. Each option adds the same text together with the others as alone, and a docstring gives the C prototype of its function (result, argument types and names) and the file and line of the declaration, and a location or comment line stands directly before its own declaration.",
["configurations","inputs"],"every subset of presentation options times every source construct and comment form of an alphabet",
"Tests switch single options on for one source and look for a substring.",
[CG,CL],[("comment/location printing",CG+":print_comment/_generate/Function")])
p("C19","Symbols resolve to the first listed library that exports them",
"With libraries listed, each function and external variable of the source is bound to the first listed library that defines it as a dynamic symbol, whatever the symbol's kind or version, undefined or local symbols never count as exported, and symbols no library exports are left as stubs or placeholders, and a variable that is static in the source keeps its own value although a library exports one of its name. Preloaded libraries are loaded before anything else in the module, with global visibility, under the names the user gave.",
["configurations"],"every assignment of symbol kinds to up to three libraries, every listing order and preload list",
"One test lists one library; order, duplicates, symbol kinds and preloads are not covered.",
[LB,CG,CF],[("symbol table reading",LB+":Library._get_symbols"),("search",CG+":find_library_with_func/get_sharedlib")])
p("C20","Generated records behave as documented value objects",
"Positional arguments of a generated structure initialise its C members in order and never its padding, keyword and positional forms agree, as_dict returns every member with nested records and arrays converted and padding left out, get_type returns the declared type, and bind installs the given callbacks, default callbacks and initial values and rejects unknown names.",
["inputs","histories"],"every record shape over an alphabet of member kinds up to a length, times every argument split and every subset of bound names",
"Three tests exercise one record each; behaviour depends on where padding, arrays, pointers, nesting and callbacks fall.",
[D+"structure_type.tpl",CG],[("helper mixins",D+"structure_type.tpl")])
p("C21","Cross-target pointer types are sized, distinct and stable",
"In a module generated for a target whose pointer size differs from the host, every pointer member has the target's size, two pointer types are the same type exactly when their pointees are, and loading or using other generated modules, in any order, changes neither. Integer addresses can be stored in and read back from such members.",
["histories","configurations"],"every set of pointee types of an alphabet times targets, and every load order of up to three generated modules",
"One cross-target test checks member sizes; identity between pointee types and between modules is not observed.",
[D+"pointer_type.tpl",D+"headers.tpl",CG],[("pointer emulation",D+"pointer_type.tpl"),("switch",CG+":enable_pointer_type")],
state=[("_pointer_t_type_cache","process-wide cache keyed by class name",D+"pointer_type.tpl")])
p("C22","Redeclarations and declaration order do not change the meaning",
"Declaring a type, function or variable again, before or after its definition, through forward declarations, extern declarations, repeated prototypes or repeated typedefs, and reordering independent declarations, yields the same types, layouts, prototypes and values as the single definition.",
["programs","histories"],"every sequence up to a depth of declarations and definitions of a few entities",
"Tests contain a few forward declarations in fixed places; order sensitivity is over permutations.",
[CP,CH],[("registry",CP+":register"),("definition merge",CH+":_record_decl")],state=[("all/all_set","name to description registry",CP)])
p("C23","All entry points give the same bindings for the same request",
"Translating a source from a string, an open stream, a file name, a list of file names or the command line, returned as a namespace or written out, gives equivalent modules for the same configuration, and the compiler options in the configuration (target, defines, include paths, language and ABI switches) reach the compiler in each of them.",
["configurations"],"every entry point times every configuration of an alphabet of targets, defines, include paths, ABI switches and kinds",
"Tests exercise each entry point with default configuration or one option.",
[CG,CP,CF,CL,UT],[("string path",CG+":translate/parse_input_string"),("file path",CG+":translate_files"),("flags",CF+":_parse_options_clang_opts")])
p("C24","Generated string helpers convert faithfully",
"The string helpers that a generated module provides turn a C character pointer into the Python string it encodes and back without losing or altering a character, for every encoding and error mode, pass byte strings through when no encoding is given, and map a null pointer to None.",
["inputs"],"every string up to a length over a character alphabet times encodings and pointer representations",
"One test converts one ASCII literal.",
[D+"string_cast.tpl",CG],[("string_cast/char_pointer_cast",D+"string_cast.tpl")])
p("C25","C++ declarations keep C++ layout and naming",
"For C++ sources, plain structs, classes and unions in global scope and in namespaces, with static members, methods, access specifiers, and single inheritance, are generated with the compiler's size and member offsets under their unqualified names, and non-layout members never disturb the layout. Constants that are initialised with C++ literals, raw strings included, keep their values.",
["programs"],"every class over an alphabet of member declarations up to a length, optionally in a namespace and with a base",
"Two C++ tests check that names exist.",
[CH,HD,CG],[("class handling",CH+":CLASS_DECL/NAMESPACE"),("bases",CH+":_record_decl")])
p("C26","A module for a named target means the same on every host",
"A module that was generated for a named target (clang's -target option) loads on every host, whatever the host's sizes of pointers, long and long double are, and gives the same record sizes, member offsets, integer member values, pointer sizes and function prototypes there: those of the target.",
["programs","configurations"],"every sequence of member types up to a length, times targets, times hosts of the data models LP64, ILP32 and LLP64",
"The tests run on one host, so a ctypes type whose size depends on the host goes unnoticed.",
[CG,CP,CF,D+"pointer_type.tpl",D+"fundamental_type_name.tpl"],[("choice of cross-architecture code",CF+":cross_arch"),("emulated pointers",CG+":enable_pointer_type"),("fixed-width types for the target",CP+":make_ctypes_convertor")],
observe=["ctypes.sizeof(cls)","cls.<field>.offset","values of an image"])
p("C27","The package works with the right one of the installed clang libraries",
"Importing the package chooses the library that CLANG_LIBRARY_PATH names, as a file or a directory, when it can be used, otherwise one of the version of the clang Python package, otherwise any that is installed. Files that are missing, damaged or no clang library are passed over with a warning, never with an exception; a library of another major version is used with a warning; without any library the import still succeeds with a warning, and the caller can set one. clang_version gives the version number of the library for every text that it describes itself with.",
["configurations"],"every value of CLANG_LIBRARY_PATH of an alphabet times every assignment of kinds of findings to up to two (thorough: three) library names, every version text of a grammar",
"One test compares the versions of the one installed pair.",
["ctypeslib/__init__.py"],[("candidates","ctypeslib/__init__.py:__find_clang_libraries"),("configuration","ctypeslib/__init__.py:__configure_clang_cindex"),("version","ctypeslib/__init__.py:clang_version")])
p("C28","Sources of any size are translated",
"The number, the length and the depth of the constructs of a source do not matter: chains of records through pointers, callbacks and values, nesting, typedefs, pointers, array dimensions, members, bit-fields, enumerators, arguments, declarations of each kind, initialisers, expressions, strings, names, comments, includes, files and symbol options of any size that the compiler accepts give a module that loads and in which every one of them has its own type, layout and value.",
["programs"],"every shape of a table of scalable shapes at every size up to a bound and around powers of two",
"Tests are small: none has a chain of more than three records.",
[CG,CP,CH,TH],[("worklist and recursion limit",CG+":CodeTranslator/generate_all"),("registry",CP+":register")])
p("C29","Exported variables are the memory of the library",
"A variable of a C source that a listed library exports is bound to the memory of that library: the Python object has the address of the variable and the compiler's size, and after every sequence of writes by either side C and Python read the same value, whatever the type of the variable (integers, floating-point types, booleans, characters, enumerations, pointers, function pointers, and arrays, records, unions and typedefs of these) and however the source declares it.",
["programs","histories"],"every leaf type times shapes times forms of the declaration, times every sequence of writes by C and Python up to a length",
"One test reads one exported integer.",
[CG,CH,"ctypeslib/library.py"],[("binding of variables",CG+":Variable"),("types of variables",CH+":VAR_DECL")])
p("C30","The SDK of macOS is found, skipped or reported",
"On macOS clang is given the path of the SDK exactly as xcrun prints it, once and before the options of the user; when xcrun fails or is missing, a RuntimeError explains it and names CTYPESLIB2_SKIP_MACOS_SDK. When this variable is set to a non-empty value, and on every other platform, xcrun is never run and clang is given no path of an SDK. What was done in the process before, or in another environment, does not matter.",
["configurations","fault_sequences","histories"],"every platform times every value of the variable times every behaviour of xcrun of an alphabet times every entry point, after every other of a smaller alphabet",
"The tests run on one platform, where the code of the SDK is never executed.",
[CF],[("search of the SDK",CF+":__init__")])
p("C31","Types of given modules are imported, not generated",
"With modules given by -m (or known symbols in the configuration), every type of the source that one of them has is imported from it: the generated module has that very object under its name, generates no second one, and everything that refers to the type (members, arrays, pointers, callbacks, prototypes, typedefs) refers to that object. All other types of the source are generated with the compiler's layout, in an order in which they load.",
["programs","configurations","histories"],"every set of known types up to a size of a source with all kinds of declarations, and every dependency graph of three records with every set of known records",
"No test gives a module.",
[CF,CG],[("names of the modules",CF+":_parse_options_modules"),("imports",CG+":_generate")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
