#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Line records of a function are sorted, gap-free and lossless",
 "For every FUNC record, the line records below it are the line entries collected for that function (same address, line number and file, entries with equal addresses in collection order), sorted by address. Each record's length is the distance to the next record's address; the last one's length reaches the end of the function, and is 0 when it starts at or past that end or that end does not fit in 32 bits.",
 ["inputs"],"every sequence of line entries (any order, duplicates, entries outside the function) and every function address and size",
 "The one unit test has 4 lines in one order; sortedness, the length of every record and losslessness must hold for every number and order of entries.",
 ["src/line.rs","src/collector.rs"],
 [("Lines::add_line / finalize / ensure_order / compute_len","src/line.rs")],
 [("Lines.lines","collected line entries","src/line.rs"),("Lines.are_lines_sorted","whether a sort can be skipped","src/line.rs")],
 ["line records of the .sym output"])
p("C02","Inline records keep exactly the collected address ranges, merged and ordered",
 "For every inlined call site (same origin, depth, call line and call file) of a function there is exactly one INLINE record, whose address ranges cover exactly the addresses collected for that site, sorted by address, with a range that ends exactly where the next one starts merged into it and nothing else merged. The INLINE records of a function come before its line records, ordered by the address of their first range and then by nesting depth.",
 ["inputs"],"every set of call sites and every sequence of address ranges collected for them, including adjacent, overlapping and duplicate ranges, whose ends fit in 32 bits",
 "Existing tests compare a few whole dumps; no test varies the order, adjacency or overlap of the ranges.",
 ["src/line.rs"],[("Lines::add_inline / ensure_order","src/line.rs"),("Display for Lines","src/line.rs")],
 [("Lines.inlines","ranges per call site","src/line.rs")],["INLINE records of the .sym output"])
p("C03","With inlines on, every address is attributed to its innermost frame",
 "When inlines are emitted, for a function whose line entries are sorted and disjoint and whose inlined calls' line entries are non-empty, disjoint and each lie within one line entry of the caller (all below 4 GiB): every line entry of an inlined call becomes a range of exactly one INLINE record that carries the origin of that call, its nesting depth, and the line and file of the caller's entry it lies in. The function's own line records start exactly at the addresses where code not belonging to an inlined call begins or changes line or file, with the right line and file. The same holds at every nesting level, and whatever the input, the call terminates without a record for an entry that does not exist.",
 ["inputs"],"every function tree (lines and nested inlinees); exact attribution for the well-formed ones described",
 "The comparison tests use a handful of binaries (most of them cannot run offline); the walk over two interleaved lists has unboundedly many interleavings.",
 ["src/collector.rs"],[("Collector::collect_function_with_inlines_recursive","src/collector.rs"),("Collector::collect_function","src/collector.rs")],
 [],["INLINE and line records of the .sym output"])
p("C04","Without inlines, line entries are kept except line 0 and repetitions",
 "When inlines are not emitted, the output has no INLINE and no INLINE_ORIGIN record, and the line records of a function are exactly its line entries, in order and with their file, minus the entries with line number 0 and minus each entry with the same line and file as the last kept entry before it.",
 ["inputs"],"every function tree, every sequence of line entries",
 "No test runs a function with line-0 entries or repeated entries separated by others.",
 ["src/collector.rs"],[("Collector::collect_function_without_inlines","src/collector.rs"),("Collector::collect_function","src/collector.rs")],
 [],["line records of the .sym output"])
p("C05","FILE table: dense ids, one per path, and every reference resolves to its path",
 "FILE ids are 0,1,2,... without gaps, each used file of the debug information has exactly one id, two different paths never share an id, and the file id of every line record and of every inlined call denotes the path of the file the debug information gives for it (after path mapping), including files whose names are not valid UTF-8. Only files of used line entries get a FILE record.",
 ["inputs","histories"],"every sequence of file lookups over any set of compilation directories, directories and names (borrowed or temporary strings)",
 "An id must stay right after every later lookup; tests look at single dumps and never at names sharing storage or needing lossy conversion.",
 ["src/source.rs","src/collector.rs"],[("SourceFiles::get_id / get_true_id / get_mapping","src/source.rs")],
 [("SourceFiles.ref_to_id / fake_id_to_ref / id_to_ref / cache","path interning tables","src/source.rs")],["FILE records and file ids in the .sym output"],"dump_syms_verif")
p("C06","INLINE_ORIGIN table: dense ids and every inlined call resolves to its name",
 "INLINE_ORIGIN ids are 0,1,2,... without gaps, each distinct inlined function gets exactly one id however often and at whatever depth it is inlined, and the origin id of every INLINE record denotes the display name of the function that was inlined, without control characters; an empty name is printed as <name omitted>.",
 ["inputs","histories"],"every sequence of inlined function names, every function tree",
 "Tests check one or two names; the id of each of n names must stay right after any later lookups.",
 ["src/inline_origins.rs","src/collector.rs","src/object_info.rs"],[("InlineOrigins::get_id / get_list","src/inline_origins.rs"),("Display for ObjectInfo","src/object_info.rs")],
 [("InlineOrigins.index_for_mangled_name","name to id","src/inline_origins.rs")],["INLINE_ORIGIN and INLINE records of the .sym output"])
p("C07","One symbol per address, functions win, and no PUBLIC inside a function",
 "A dump of one object has at most one FUNC or PUBLIC record per address (32-bit), in increasing address order; functions at address 0 are left out and every other function address has its FUNC record, with the first function's name and size. A public symbol gets a PUBLIC record exactly when no record already there has its address, the record with the nearest lower address does not extend over it, and it is not a compiler-generated constant; the m flag is set exactly when a second function is met at a FUNC's address or a second public symbol at a PUBLIC's address.",
 ["inputs"],"every list of functions and every list of public symbols, in any order, with any addresses and sizes (also sizes reaching past 4 GiB)",
 "Dump comparison tests contain no overlapping, duplicated or 4-GiB-crossing symbols in varied order.",
 ["src/collector.rs","src/symbol.rs"],[("Collector::collect_function / collect_publics","src/collector.rs"),("ContainsSymbol::is_inside_symbol","src/symbol.rs")],
 [("Collector.syms","address to symbol","src/collector.rs")],["FUNC and PUBLIC records of the .sym output"])
p("C08","Windows name decorations are decoded exactly and constants are skipped",
 "On Windows a public name that has neither ':' nor '(' is decoded as: X@@N (N a decimal 32-bit number after the last @@) to name X and parameter size N; otherwise _X@N or @X@N (after the last @) to X and N; otherwise _X to X with no size; any other name stays as it is, without size. Any string is accepted without a panic, names starting with ??_C, __real@, __xmm@ or __ymm@ give no record, and at a function's address the decoded size replaces the function's parameter size, and the decoded name its name when that has no parameter list.",
 ["inputs"],"every string as symbol name, every combination of function and public symbol at an address",
 "There is no test of the decoder; the string space is unbounded (multi-byte prefixes, several @, huge numbers, signs).",
 ["src/symbol.rs","src/collector.rs"],[("ParsedWinFuncName::parse_unknown / parse_c_decorated","src/symbol.rs"),("should_skip_symbol","src/symbol.rs"),("Collector::collect_publics","src/collector.rs")],
 [],["FUNC and PUBLIC records of the .sym output"],"dump_syms_verif")
p("C09","Merging two dumps of a module loses no symbol and prefers the better one",
 "Merging two dumps fails exactly when their debug ids differ. Otherwise every FUNC address of both sides keeps a FUNC (except that a synthetic placeholder FUNC gives way to a real PUBLIC of the dump with fewer symbols), a FUNC of that dump replaces a PUBLIC at its address and is flagged m, and at an address with a FUNC on both sides one is kept and flagged m. A PUBLIC of the dump with fewer symbols is left out exactly when the nearest lower symbol covers its address, is added where there is no symbol, and at an address with two publics a real name is never replaced by a synthetic placeholder and always replaces one, with m set when two real names differ.",
 ["inputs","histories"],"every pair of dumps, also ones that are themselves merge results, in both argument orders",
 "No existing test merges two objects with overlapping symbols.",
 ["src/object_info.rs","src/symbol.rs"],[("ObjectInfo::merge","src/object_info.rs"),("ContainsSymbol::is_inside_symbol","src/symbol.rs")],
 [("ObjectInfo.symbols","address to symbol","src/object_info.rs")],["FUNC and PUBLIC records after a merge"])
p("C10","Merging keeps every file and inline reference pointing at the same name",
 "After a merge, every line record and every INLINE record that was taken from either dump refers, through the merged FILE and INLINE_ORIGIN tables, to the same path and the same function name as in the dump it came from; no table has gaps, a path present on both sides has one FILE record, and this holds for results of earlier merges too. The same inputs always give the same tables.",
 ["inputs","histories"],"every pair of dumps with any overlap of their file sets and origin tables, and every sequence of merges",
 "No existing test merges two dumps that both have files; a wrong id shows only through the tables.",
 ["src/source.rs","src/inline_origins.rs","src/symbol.rs","src/object_info.rs"],[("SourceMap::merge","src/source.rs"),("merge_inline_origins","src/inline_origins.rs"),("Symbol::remap_lines / remap_inlines","src/symbol.rs"),("ObjectInfo::merge","src/object_info.rs")],
 [("SourceMap.ref_to_id / id_to_ref","file tables","src/source.rs")],["FILE, INLINE_ORIGIN, INLINE and line records after a merge"])
p("C11","Merging keeps all unwind records and the module's identity",
 "The merged dump contains the unwind (STACK) records of both dumps, complete and each on its own line, keeps the common debug id, has a code id when either side has one (that of the side with more symbols if both do), and when the side with fewer symbols is a stripped binary (no debug information) the merged module has that side's file name, otherwise the other side's.",
 ["inputs"],"every pair of dumps with any stack text (with or without a final newline, empty or not), code ids and names",
 "No existing test merges dumps with unwind information on both sides.",
 ["src/object_info.rs"],[("ObjectInfo::merge","src/object_info.rs")],[],["MODULE, INFO and STACK records after a merge"])
p("C12","The output follows the Breakpad grammar, one record per line, in section order",
 "A dump is MODULE, then INFO CODE_ID (if there is a code id; followed by the PE name if known) and the extra INFO lines, then FILE records, INLINE_ORIGIN records, then per symbol in address order its PUBLIC record or its FUNC record with its INLINE and line records, then the unwind text. Every record is one line with the fields in Breakpad order: addresses, sizes and parameter sizes in lower-case hexadecimal without prefix, line numbers, file ids, origin ids and depths in decimal, the flag m before the address exactly for symbols marked as multiple, and symbol names contain no line breaks.",
 ["inputs"],"every dump content (names, numbers up to 32 bits, any number of records)",
 "Tests check a few numbers; format must be right for every value of every field.",
 ["src/object_info.rs","src/symbol.rs","src/line.rs","src/platform.rs","src/collector.rs"],[("Display for ObjectInfo","src/object_info.rs"),("Display for Symbol","src/symbol.rs"),("Display for Lines","src/line.rs"),("Display for Platform","src/platform.rs")],
 [],["the whole .sym output"])
p("C13","Source paths are assembled correctly for the target platform",
 "A file's path is its directory (prefixed with the compilation directory when it is not absolute and one is known) joined with its name; joining puts exactly one separator between the parts, changes nothing else in them, and uses '/' for Linux and Mac and for Windows when the left part starts with '/', else '\\\\'. On Linux and Mac a path is absolute when it starts with '/', on Windows also when it starts with '\\\\' or its first component ends with ':', or when it is empty.",
 ["inputs"],"every pair of strings and every platform",
 "Unit tests cover about 20 path pairs; separators can be repeated, mixed or missing, parts empty.",
 ["src/platform.rs","src/source.rs"],[("Platform::is_absolute_path / join_paths","src/platform.rs"),("SourceFiles::get_path","src/source.rs")],
 [],["FILE records"],"dump_syms_verif")
p("C14","Path-mapping templates expand to exactly the documented text",
 "A mapping template expands to its own text with each {N} replaced by the N-th group of the regular expression, each {DIGEST} or {digest} by the file's SHA-512 in upper or lower case, and each {name} by the value of that variable (which takes precedence over a group of the same number), everything else byte for byte unchanged, including unmatched braces. A template with any other {...} is rejected when it is loaded, and a path is left unmapped when a referenced group did not take part in the match.",
 ["inputs"],"every template string, variable set, expression and path",
 "Unit tests use five templates; brace placement, adjacent placeholders and multi-byte text are unbounded.",
 ["src/mapping.rs"],[("PathMappingGenerator::new / apply","src/mapping.rs")],[],["FILE records when mappings are given"],"dump_syms_verif")
p("C15","The first applicable mapping decides, with the documented precedence",
 "The mapped path is the expansion of the first mapping that applies, trying the file's mappings restricted to listed files, then its unrestricted mappings, then those of the command line, each in the order given; a restricted mapping applies only to its listed files, and a path no mapping applies to stays unchanged. Variables given on the command line override those of the mapping file, a variable without '=' and source and destination lists of different length are rejected, and asking again for the same path gives the same answer.",
 ["inputs","histories","configurations"],"every list of mappings and variables, every sequence of paths",
 "Unit tests use one or two mappings at a time; precedence needs several overlapping ones and repeated queries.",
 ["src/mapping.rs","src/source.rs"],[("PathMappings::new / get_variables / get_mappings / get_mappings_from_file / map","src/mapping.rs"),("SourceFiles::get_id","src/source.rs")],
 [("PathMappings.cache","path to mapped path","src/mapping.rs")],["FILE records when mappings are given"],"dump_syms_verif")
p("C16","Symbol-store layout",
 "A dump of module NAME with debug id ID is stored at NAME'/ID/FILE, where NAME' is NAME with a final extension pd_, ex_ or dl_ (in any case) replaced by pdb, exe or dll, and FILE is NAME with a final extension pdb (in any case) replaced by sym, or else NAME followed by .sym.",
 ["inputs"],"every module name that is a plain file name and every id",
 "There are two unit tests of the layout with fixed names.",
 ["src/utils.rs"],[("get_base / get_path_for_sym","src/utils.rs")],[],["path of the stored .sym file"])
p("C17","A successful dump is complete at every requested destination",
 "When a dump succeeds, the complete text has been written to every requested destination - the output file, and the symbol store when one is given - and when a write fails, also of the last buffered bytes, the dump fails. With the check for unwind information on, a dump without any fails and writes nothing; an empty store directory means no store.",
 ["inputs","configurations","fault_sequences"],"every output configuration, every write fault point",
 "Tests never make a write fail.",
 ["src/dumper.rs","src/object_info.rs"],[("store / get_writer_for_sym","src/dumper.rs"),("ObjectInfo::dump","src/object_info.rs")],[],["files written and exit status"])
p("C18","Dumping several files dumps every module once and always ends",
 "Given several files and any number of worker threads, under every schedule the run ends; when every file can be dumped, each module (debug id) is merged from all its files and written exactly once; when some file cannot be dumped, the run reports an error.",
 ["schedules","inputs","fault_sequences"],"every interleaving of the workers, every list of files, every number of jobs, any of the files failing",
 "The existing tests dump one file; the hand-over between the workers depends on the schedule.",
 ["src/dumper.rs"],[("several_files / consumer / send_store_jobs / poison_queue","src/dumper.rs")],
 [("counter","files not yet processed","src/dumper.rs"),("results","modules so far","src/dumper.rs")],["files written, exit status"])
p("C19","Symbol-server configuration and lookup follow the srv* syntax",
 "A symbol path is the list of its entries separated by ';' or line breaks, where srv means the default Microsoft server, srv*URL that server and srv*CACHE*URL that server with a local cache (srv in any case, blanks around parts ignored, a leading ~ of the cache replaced by the home directory), and every other entry is ignored. A file is taken from the first cache that has it at CACHE/BASE/ID/NAME, and only otherwise requested as URL/NAME/ID/NAME and, unless NAME ends with '_', also with its last character replaced by '_', from any server that has it; an empty or 'Symbol Not Found' answer is not a file and is not cached.",
 ["inputs","configurations"],"every symbol path string, file name, id and server list",
 "The unit tests parse a few strings and the rest needs the network.",
 ["src/cache.rs"],[("parse_srv / parse_sympath / search_in_cache / get_jobs / copy_in_cache / search_file","src/cache.rs")],[],["requests sent, cache files read and written"],"dump_syms_verif")
p("C20","A PDB and its PE are paired only when they belong together, in the fixed order",
 "For a PDB, the binary used for unwind information and code id is the first existing file among NAME.dll, NAME.dl_, NAME.exe, NAME.ex_ next to it that is a PE with the same debug id, reported under its uncompressed name, and none if there is no such file. For a PE, the PDB is searched at the recorded path, then next to the PE under its file name and as .pd_, then in the current directory, and only then on the symbol servers.",
 ["inputs","configurations"],"every set of files present and every debug id",
 "Tests have one file pair; the lookup order and the id check need several candidate files.",
 ["src/windows/utils.rs"],[("find_pe_for_pdb / fix_extension / try_to_find_pdb / os_specific_try_to_find_pdb / get_pe_pdb_buf","src/windows/utils.rs")],[],["which PE/PDB is read"],"dump_syms_verif")
p("C21","Symbol names are cleaned the same way everywhere",
 "The name of every function and inlined function in the output is the debug information's name without the trailing compiler suffixes (.cold, .constprop, .llvm, .localalias, .lto_priv, .isra, .part, .str with optional number, [clone ...]), with `anonymous namespace' written (anonymous namespace), demangled without return type unless it is a C name (the cleaned name itself if it cannot be demangled), and without control characters. The name of a public symbol is treated in the same way when its spelling is that of a mangled name, and otherwise only loses its control characters.",
 ["inputs"],"every name, language and mangling state",
 "Unit tests check about ten names of one kind of record.",
 ["src/common.rs","src/collector.rs","src/inline_origins.rs"],[("fix_symbol_name / normalize_anonymous_namespace / remove_control_chars","src/common.rs"),("Collector::demangle / demangle_str","src/collector.rs"),("InlineOrigins::demangle_and_sanitize","src/inline_origins.rs")],[],["names in FUNC, PUBLIC and INLINE_ORIGIN records"])
p("C22","Path normalisation removes . and .. and nothing else",
 "Normalising a path on the platform of its files drops every '.' component, lets every '..' component cancel the normal component before it (and drops it when there is none), and keeps all other components and their order and whether the path is absolute; the result has no '.' or '..' component and normalising it again changes nothing.",
 ["inputs"],"every path",
 "There is no direct test; the component sequences are unbounded.",
 ["src/utils.rs","src/source.rs"],[("normalize_path","src/utils.rs"),("SourceFiles::get_path","src/source.rs")],[],["FILE records"])
p("C23","The right object of a file is dumped, under its own identity",
 "The content of a file, not its name, decides how it is read. An ELF file gives the dump of its object, a Mach-O file that of its only object or, when it holds several, of the first readable one of the requested architecture, a PDB file that of the PDB, and a PE file that of its PDB or, when there is none that can be read, of the PE itself; for anything else (another format, a damaged file, no object of the architecture) the run fails and writes nothing. The MODULE record of the dump carries the operating system of the format, the architecture and the debug id of that object, and as name the last component of the name the object gives itself (SONAME, dylib id, the PDB name recorded in a PE dumped without PDB) or else of the name of the file dumped (the PDB, when a PE has one); the CODE_ID record carries, in upper case, the code id of the PE that belongs to a PDB or else that of the object, followed by the PE's file name; the STACK records are those of that PE if it has unwind information and else those of the object.",
 ["inputs","configurations"],"every content of the file and every requested architecture; the parsers of the formats are given",
 "The tests dump a handful of sample files, none of them a fat Mach-O file, and mostly compare functions and lines.",
 ["src/dumper.rs","src/mac.rs","src/linux.rs","src/windows/pdb.rs","src/object_info.rs"],
 [("get_object_info / get_pdb_object_info / get_pe_pdb_object_info / get_pe_object_info / single_file","src/dumper.rs"),("ObjectInfo::from_macho","src/mac.rs"),("ObjectInfo::from_elf","src/linux.rs"),("ObjectInfo::from_pdb / from_pe / win_path_file_name","src/windows/pdb.rs"),("ObjectInfo::from_object / file_name_only / get_stack_info","src/object_info.rs")],
 [],["MODULE, INFO CODE_ID and STACK records; exit status"])
p("C24","What is read for an input file: bundles and cabinets are looked into",
 "Every file that is dumped or used for a dump (the given file, the PE next to a PDB, the PDB of a PE, a file of a symbol cache or server) is read in the same way: a directory stands for the only file in its Contents/Resources/DWARF directory and is refused when there is none or more than one; bytes that are a cabinet stand for the first of its members whose name, without directories, is the file's name with an extension starting with pd, dl, ex or db replaced by pdb, dll, exe or dbg, and are refused when there is no such member or it cannot be unpacked; all other bytes are used exactly as they are, whatever the file is called.",
 ["inputs","configurations"],"every content and name of the file, every list of cabinet members, every content of the bundle directory; the unpacking of a member is given",
 "No test has a bundle or a cabinet with more than one member.",
 ["src/utils.rs","src/cache.rs"],
 [("get_mac_bundle / read_file / read_cabinet / get_cabinet_files / get_corrected_path","src/utils.rs"),("search_file","src/cache.rs")],
 [],["the bytes that are parsed; exit status"],"dump_syms_verif")
p("C25","The command line: every option reaches the dump as documented, and the exit status tells whether it was done",
 "Whatever options are given, in any combination and order: the symbols go to the file named by -o (- means the standard output), to the store directory named by -s, to both when both are given and to the standard output when neither is, and nothing else is printed on the standard output (messages go to the standard error); --arch, --inlines, --check-cfi, --mapping-var, --mapping-src, --mapping-dest (each repeated in the given order), --mapping-file and, for a single file, --symbol-server, --debug-id and --code-id act on the dump with exactly the values given and have no effect when absent (the architecture is then the one dump_syms was built for; -j that is absent or not a number means one job per cpu); a single file is dumped alone, several are dumped together; behind the CODE_ID the dump has one INFO line per --extra-info in the given order, then the GENERATOR line with the version unless --no-generator is given, and an --extra-info that is not an uppercase keyword, a blank and a text makes the run fail before anything is written; --list-arch only prints, per file and in order, its name and the architectures of its objects; the exit status is 0 exactly when all that was asked for was done.",
 ["inputs","configurations"],"every combination, order and value of the options, every list of files; the parsing of the arguments is clap's, driven by the declared options",
 "The tests start from a ready-made configuration; nothing tests main, the option names or the INFO lines.",
 ["src/main.rs","src/action.rs","src/mac.rs"],
 [("cli / main / to_vec / get_extra_info","src/main.rs"),("Action::action / single_file / several_files","src/action.rs"),("FileOutput::from","src/dumper.rs"),("print_macho_architectures","src/mac.rs")],
 [],["standard output, output file, store, exit status"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
