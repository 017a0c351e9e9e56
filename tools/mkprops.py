#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["exit status of the csvpp process","bytes of the output file"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A build using cached .csvpo files equals a clean build",
 "For every history of edits, moves and earlier builds of a project, compiling a file with whatever .csvpo files those builds left behind gives the same exit status, the same output and, where it fails, the same error messages as compiling the same sources with no cache at all. This holds whatever the file timestamps are, whichever files were compiled as the main file or imported by others before, and whatever key/values or options earlier builds were given.",
 ["histories","configurations","inputs"],
 "all histories of source edits, added/removed/renamed imports, project moves, clock jumps and builds of any file with any options",
 "Tests compile each fixture once in a fresh directory; none compiles twice, edits a dependency, shares a dependency between two mains or moves the clock.",
 ["src/module/mod.rs","src/module_loader/mod.rs","src/compiler/mod.rs"],
 [("object file load and freshness check","src/module/mod.rs load_from_cache*, check_if_is_dirty"),("dependency loading","src/module_loader/mod.rs load_main"),("object file write","src/module/mod.rs write_object_file")],
 [(".csvpo files","serialised modules next to their source","SourceCode::object_code_filename")])
p("C02","--no-cache neither reads nor writes cached object files",
 "A build run with --no-cache gives the result (output, exit status and error messages) determined by the source files alone, whatever .csvpo files exist and whatever they contain, and it creates, changes and removes no .csvpo file.",
 ["histories","configurations","fault_sequences"],
 "all projects, all contents of .csvpo files (absent, valid but stale, damaged, unreadable), main file and imported modules alike",
 "No test runs with --no-cache next to existing object files, or looks at which files a build touched.",
 ["src/compiler/mod.rs","src/module_loader/mod.rs","src/module/mod.rs","src/cli_args.rs"],
 [("use_cache flag","src/config/try_from.rs, src/compiler/mod.rs, src/module_loader/mod.rs load_module")],
 observe=["exit status","output bytes",".csvpo files before and after","file operations of the run"])
p("C03","After a crash or power loss the next build is correct",
 "If a build is killed at any instant, or the machine loses power so that unsynced file data is lost or torn, then the next fault-free build of the unchanged sources succeeds exactly when a clean build would, and gives the same output as a clean build.",
 ["crash_points","histories"],
 "every file-system operation of a build as kill point (including part-way through a write), with and without loss of unsynced data, then a rebuild with the same or other options",
 "No test interrupts a build.",
 ["src/module/mod.rs","src/target/csv/compilation_target.rs","src/target/excel/compilation_target.rs"],
 [("object file write","src/module/mod.rs write_object_file"),("object file validation on load","src/module/mod.rs load_from_object_code_from_filename")],
 [(".csvpo files","may be partial after a crash","next to the source")])
p("C04","Damaged, foreign or old-version cache files never affect a build",
 "When a .csvpo file is truncated, bit-flipped, zero-filled, empty, overwritten with foreign bytes, copied from another module, written by another compiler version or unreadable, a build behaves as if that file did not exist: same exit status and output as a clean build, no crash and no hang.",
 ["fault_sequences","inputs"],
 "all corruptions of all object files a build would consult, storage faults while reading them included",
 "Tests never load an object file they did not just write.",
 ["src/module/mod.rs"],
 [("deserialisation failure is treated as a cache miss","src/module/mod.rs load_from_object_code_from_filename"),("compiler version check","src/module/mod.rs check_if_is_dirty")])
p("C05","Concurrent builds in one project do not disturb each other",
 "When several builds run at the same time over the same project (as make -j does: shared imports, one main compiled to several outputs), each one exits and writes its output exactly as if it had run alone; two builds racing on the same output leave the complete output of one of them. Builds started afterwards are equally unaffected.",
 ["schedules","histories"],
 "all interleavings of the processes' file operations and threads, with warm, cold and stale caches",
 "Tests run one compile at a time per directory and decide no interleaving; a race needs a precise overlap of two processes.",
 ["src/module/mod.rs","src/module_loader/mod.rs","src/target/csv/compilation_target.rs","src/target/excel/compilation_target.rs"],
 [("object file written while others may read it","src/module/mod.rs write_object_file"),("output file write","src/target/*/compilation_target.rs")],
 [(".csvpo files","shared between processes","next to the source")])
p("C06","Same sources and options give the same bytes on every run",
 "The exit status and the bytes of a CSV output, and the cells of an Excel output (contents, formats, validations, notes), depend only on the sources, options and existing target: not on thread scheduling, the number of worker threads, hash seeds, the time of day or directory order. A failing build reports the same set of errors on every run.",
 ["schedules","configurations"],
 "all schedules of the loader and evaluation threads, 1..n cpus, all hash seeds, all clock values",
 "A test run samples one schedule and one hash seed; a divergence that needs a particular map order or wake-up order is seen by luck only.",
 ["src/module_loader/mod.rs","src/module/mod.rs","src/ast/eval.rs","src/scope/mod.rs"],
 [("parallel module loading","src/module_loader/mod.rs load"),("parallel row evaluation","src/module/mod.rs eval_spreadsheet"),("expansion to a fixed point","src/ast/eval.rs")])
p("C07","Every build terminates, whatever the import graph and schedule",
 "For every import graph - chains, diamonds, repeated imports, cycles, a module importing itself or the main file, missing modules - and every thread schedule, a build of modules whose definitions are not circular ends within bounded steps with either success or a reported error: it never deadlocks, loops or crashes.",
 ["schedules","inputs"],
 "all import graphs up to 8 modules, warm and cold caches, all thread schedules",
 "The cyclic-import test is an empty TODO, deadlocks need particular interleavings or a warm cache, and no test bounds running time.",
 ["src/module_loader/mod.rs"],
 [("attempted set stops re-loading","src/module_loader/mod.rs load"),("lock discipline","src/module_loader/mod.rs")],
 [("attempted/loaded/failed","shared maps guarded by RwLocks","src/module_loader/mod.rs")])
p("C08","Imported names resolve by scope, for every graph and schedule",
 "In the compiled file a name means the file's own definition if there is one, otherwise the one defined by a module it imports directly, and is never taken from a module it does not import directly. An imported definition keeps the meaning its defining module gives to the names which that module defines or imports, even where the importer defines the same names differently. This holds for every acyclic import graph, import order, cache state and thread schedule.",
 ["schedules","programs","histories"],
 "all acyclic import graphs with shadowing at each level, cached and uncached, all loader schedules",
 "Three unit tests cover one chain of three modules with variables; functions, diamonds, shadowing and cached modules are not covered, nor any order of loading threads.",
 ["src/module_loader/mod.rs","src/scope/mod.rs","src/ast/eval.rs"],
 [("topological evaluation and merge of exports","src/module_loader/mod.rs eval_dependencies, merge_direct_dependencies"),("exports","src/scope/mod.rs merge")])
p("C09","Every module that fails to load is reported and nothing is written",
 "If any module reachable through imports is missing, unreadable or does not parse, the build exits non-zero, names every such module in its error output in the same run, and leaves the output target exactly as it was.",
 ["schedules","fault_sequences","inputs"],
 "all sets of failing modules at any depth of the import graph, load order, cache state, and read faults on module files",
 "One unit test has a single missing direct import; it does not check the message, the target or transitive imports.",
 ["src/module_loader/mod.rs","src/error/display.rs","src/main.rs"],
 [("failure accumulation","src/module_loader/mod.rs load_module"),("failures turn into one error","src/module_loader/mod.rs merge_direct_dependencies")],
 observe=["exit status","standard error","output target bytes"])
p("C10","A failed or killed build leaves the output file old or new, never torn",
 "At every instant of a build, and after it fails, is killed or the machine loses power, the CSV or Excel output file holds either exactly what it held before (absent if it was absent) or the complete new output.",
 ["crash_points","fault_sequences"],
 "every file-system operation of the build as kill or failure point, full disks at every byte count, power loss, existing or absent target",
 "Tests only look at the output after a successful run.",
 ["src/target/csv/compilation_target.rs","src/target/excel/compilation_target.rs"],
 [("output file write","src/target/csv/compilation_target.rs write, src/target/excel/compilation_target.rs write")],
 observe=["output file after every file-system operation","exit status"])
p("C11","Exit status 0 means the complete output is in place",
 "Whenever a build exits 0, the output file holds the complete, correct output - whatever short reads and writes, interrupted calls, delayed or transient errors, full disks or clock jumps happened on the way.",
 ["fault_sequences","schedules"],
 "all sequences of up to three I/O faults at any file-system call of the build, all disk budgets",
 "Tests never inject an I/O error, a short write or a full disk.",
 ["src/main.rs","src/target/csv/compilation_target.rs","src/target/excel/compilation_target.rs","src/compiler/mod.rs"],
 [("errors propagate to the exit status","src/main.rs"),("flush before success","src/target/*/compilation_target.rs")])
p("C12","I/O failures end in a reported error, never a panic, abort or hang",
 "Any failing file-system call during a build - permission denied, I/O error, too many open files, full disk, file vanishing between two calls - leads either to success or to exit status 1 with a message on standard error: never to a panic, an abort, a signal or a hang.",
 ["fault_sequences"],
 "every file-system call of a build as failure point with every applicable errno, pairs of failures, and files removed or replaced by a concurrent actor",
 "Tests never make a system call fail.",
 ["src/module/mod.rs","src/source_code/try_from.rs","src/target/file_backer_upper.rs","src/target/csv/mod.rs","src/target/excel/mod.rs","src/lib.rs"],
 [("io errors mapped to Error","src/source_code/try_from.rs, src/module/mod.rs, src/target/*")],
 observe=["exit status","standard error"])
p("C13","--safe never loses or changes a value already in the target",
 "A build with --safe leaves every non-empty cell of the existing CSV or Excel target with its value and position, wherever that cell lies relative to the compiled sheet, and only fills in cells that were empty; this holds across any history of builds, edits to the target and interrupted builds.",
 ["histories","inputs","fault_sequences"],
 "all shapes of existing targets (longer, wider, ragged, other worksheets), all sequences of safe and ordinary builds, with faults and kills in between",
 "Unit tests cover the merge of one cell with one cell; none checks cells outside the compiled area, Excel, or a sequence of builds.",
 ["src/target/mod.rs","src/target/csv/compilation_target.rs","src/target/excel/mod.rs"],
 [("merge of existing and new cells","src/target/mod.rs merge_cell, merge_rows")],
 observe=["cells of the target before and after each build"])
p("C14","With --backup the previous target survives under its own name",
 "Before a build with --backup changes an existing target, a file beside it holds an exact copy of what the target held when that build made its backup; no later or concurrent build ever overwrites or removes an earlier backup; and if the backup cannot be made, the target is left untouched and the build fails. A build that ends by itself leaves no incomplete backup behind, and a backup has the permissions of the target.",
 ["histories","crash_points","fault_sequences","schedules"],
 "all sequences of builds at any times (same day, minute, second; clock set back), concurrent builds, kills and I/O faults at every operation",
 "The backup test is an empty TODO.",
 ["src/target/file_backer_upper.rs","src/main.rs"],
 [("name selection and copy","src/target/file_backer_upper.rs backup_file"),("backup before write","src/main.rs")],
 observe=["directory of the target after every file-system operation"])
p("C15","Google Sheets: success means every cell is at its place, exactly once",
 "When a build to Google Sheets exits 0, the remote sheet holds every compiled cell at its row and column (shifted by the given offsets) with the value, format, validation and note the same build gives in an empty sheet, and every remote cell outside the compiled area is unchanged; when it exits non-zero, the remote sheet is either unchanged or completely updated. This holds under any network delay, fragmentation, reset, refused connection, truncated or error response, and whatever the credentials file holds: such a build ends with success or a reported error, never a crash or a hang, and on a healthy network a valid sheet is written with success.",
 ["fault_sequences","inputs"],
 "all sheet sizes (beyond one request's row limit), offsets, existing remote contents, and network faults at every message of the exchange",
 "No test talks to a Sheets server; the only test counts the requests for a one-cell sheet.",
 ["src/target/google_sheets/mod.rs","src/target/google_sheets/batch_update_builder.rs"],
 [("update requests","src/target/google_sheets/batch_update_builder.rs"),("one batch update","src/target/google_sheets/mod.rs write_sheet")],
 observe=["requests received by the simulated Sheets service","its cells","exit status"])
p("C16","Google Sheets: --backup and --safe protect what is in the sheet",
 "With --backup the remote file is copied before anything in it changes, and if the copy fails nothing changes and the build fails; with --safe no non-empty remote cell ever changes its value, format, validation or note, and empty ones are filled in, at any offset. This holds under any network fault, and on a healthy network such builds succeed.",
 ["fault_sequences","histories"],
 "all remote contents and offsets, network faults at every message, repeated builds",
 "No test covers the Drive copy or the merge of remote cells.",
 ["src/target/google_sheets/mod.rs","src/target/google_sheets/batch_update_builder.rs","src/main.rs"],
 [("Drive copy","src/target/google_sheets/mod.rs backup_sheet"),("existing cells","src/target/google_sheets/mod.rs read_existing_cells")],
 observe=["order of requests at the simulated services","cells of the simulated sheet"])
p("C17","Each cell is evaluated once, for its own final position, on any schedule",
 "In the output every source row appears in order, filled rows the stated number of times, and every reference to a cell, row or fill variable denotes the position it has for that very output cell, and in Excel output every note, format and validation stands on exactly the cells it was written for - for every number of worker threads and every division of the rows among them.",
 ["schedules","programs","configurations"],
 "all thread counts and schedules of the parallel evaluation, sheets up to 1000 rows with fills, cell, row and fill variables",
 "Tests check small sheets on whatever schedule the machine gives.",
 ["src/module/mod.rs","src/spreadsheet/mod.rs","src/row/mod.rs","src/ast/variable_value.rs"],
 [("parallel evaluation keeps row order and index","src/module/mod.rs eval_spreadsheet"),("fills expanded before evaluation","src/spreadsheet/mod.rs eval_fills")])
p("C18","A build changes nothing but what it is for",
 "A build changes no file but its output, the object files of its modules and its own temporary and backup files: every other file, wherever it lies and whatever it is called, is left as it was. A build that ends by itself leaves no file behind but its output, object files and, with --backup, one complete backup, and an existing target keeps its permissions and, if it was reached through a symbolic link, the link. This holds for every history of builds, and under I/O faults, kills and power loss at any point, also beside other builds and edits.",
 ["histories","crash_points","fault_sequences","schedules"],
 "all options, targets (also links and other directories), files of other people beside them, histories, concurrent builds, kills, power loss and I/O faults at every operation",
 "The tests look at the files they expect, never at others, and none of them lets an operation fail.",
 ["src/target/mod.rs","src/target/file_backer_upper.rs","src/atomic_file.rs","src/module_loader/mod.rs","src/main.rs"],
 [("writing the target","src/target/csv/compilation_target.rs, src/target/excel/compilation_target.rs"),("object files","src/module_loader/mod.rs, src/atomic_file.rs"),("backups","src/target/file_backer_upper.rs")],
 observe=["whole file system after every file-system operation and after the build"])
p("C19","What a target held before does not show in the cells a build writes",
 "After a successful build without --safe into an existing CSV or Excel file, every cell of the compiled area has exactly the value, formula, formatting, validation and note that the same build gives in a new file, whatever stood there before and however often it was built, also after builds which failed or were killed; in Excel all other cells and worksheets keep their values, notes and validations. Building the same sources again, with or without --safe, changes no cell.",
 ["histories","crash_points","fault_sequences","inputs"],
 "all histories of ordinary and --safe builds of changing sources over the same target, edits of the target, kills and I/O faults between",
 "The tests build once, into a new file.",
 ["src/target/mod.rs","src/target/excel/mod.rs","src/target/csv/mod.rs"],
 [("writing over existing cells","src/target/excel/mod.rs build_worksheet"),("merge of rows","src/target/mod.rs merge_rows")],
 observe=["cells, formats, validations and notes of the target after each build and after building once more"])
# not claimed: pure functions of the input
def na(id,title,statement,files,mech,why):
    p(id,title,statement,["inputs"],"all inputs",why,files,mech)
na("C20","Any CSV document is a valid csv++ document",
 "Compiling a plain CSV document (no code section, no options, no formulas) to CSV gives the same records.",
 ["csvp/src/parser.rs","src/parser/cell_lexer/mod.rs"],[("CSV and cell parsing","csvp/src/parser.rs")],
 "Tests sample a handful of documents.")
na("C21","A formula keeps its meaning through parsing and printing",
 "A formula in a cell that uses no csv++ definitions is written to the target with the same operators, precedence, literals and references.",
 ["src/parser/ast_parser.rs","src/ast/display.rs"],[("pratt parser and printer","src/parser/ast_parser.rs")],
 "Tests sample a few formulas per operator.")
na("C22","Function calls substitute their arguments without capture",
 "Calling a user-defined function yields its body with every parameter replaced by the argument given for it, even where arguments mention names equal to parameters or variables.",
 ["src/ast/eval.rs"],[("call_function","src/ast/eval.rs")],
 "Tests use distinct names.")
na("C23","Cell and row options map faithfully to the target's formatting",
 "Each formatting, validation, note and colour option on a cell or row appears as the corresponding property of the same cell in Excel and Google Sheets.",
 ["src/parser/cell_parser/mod.rs","src/target/excel/excel_cell.rs","src/target/google_sheets/google_sheets_cell.rs"],[("option mapping","src/target/excel/excel_cell.rs")],
 "Tests sample one value per option.")
na("C24","Syntax errors point at the offending text",
 "A syntax error names the file, line and column of the first offending token and highlights it.",
 ["src/source_code/errors.rs","src/error/display.rs"],[("position tracking","src/source_code/errors.rs")],
 "Tests sample a few errors.")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
