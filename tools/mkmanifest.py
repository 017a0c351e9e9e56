#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,sys
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
CLAIMED=sys.argv[1].split(",") if len(sys.argv)>1 else [p["id"] for p in props if p["id"]<"C20"]
COMMON=("Seeded search, not proof: what the runs of this seed did not reach is not covered. Trusts the simulator "
 "(file system, scheduler, clock and, for Sheets, server models in /verif/sim) and the oracle; file-system model: "
 "POSIX semantics of the calls the program makes, one flat namespace, directory updates ordered, unsynced data "
 "lost or torn at power loss.")
NOTE={
"C01":"Real csvpp binary under the simulator over random histories of edits, moves, clock jumps and builds; each build is compared (exit status, output bytes or Excel cells) with a build of the same tree without object files.",
"C02":"As C01 with --no-cache builds next to valid, stale, damaged and unreadable object files; also looks at every file operation of the build.",
"C03":"Kills at file operations of a build (before, after, in the middle of a write), optionally with loss of unsynced data, then fault-free builds compared with a clean build.",
"C04":"Random damage to object files (truncation, flips, zeroes, noise, foreign, other version, unreadable, storage errors), then a build compared with a clean build.",
"C05":"2-3 real processes interleaved by seeded random and PCT schedules over one simulated file system; outputs compared with builds run alone.",
"C06":"One build run under many schedules, thread counts, hash seeds, clocks and directory orders; outcome, output and error set must be identical.",
"C07":"Random import graphs (cycles, self-imports, repeated, missing) cold and warm under random schedules; deadlock and step-budget detection by the simulator.",
"C08":"Printed formulas compared with a reference model of scoping, over random graphs, edits, cached builds and schedules.",
"C09":"Random sets of failing modules (missing, unparsable, unreadable, read faults); exit status, names in the error output and the target after every operation.",
"C10":"Kill, failure, full disk or power loss at operations of a build; content of the target after every file operation is old or the complete new output.",
"C11":"Errors, short transfers, interruptions, full disks and clock jumps; a build that exits 0 must have left the output of a fault-free build.",
"C12":"Every file operation of builds failed with applicable errnos, pairs of failures, files vanishing or replaced; no panic, abort, signal or hang, and a message with exit 1.",
"C13":"Reference merge model for CSV and Excel targets over histories of safe and ordinary builds, user edits, faults and kills.",
"C14":"Contents of all files beside the target tracked over every operation of histories of --backup builds, with clock steps, concurrency, faults, kills and power loss.",
"C15":"Real HTTP/TLS client code against simulated OAuth, Sheets and Drive servers with network faults; the simulated sheet is compared with the expected cells.",
"C16":"As C15 for --backup (Drive copy before any change) and --safe (no non-empty remote cell changes).",
"C17":"Reference model of fills and cell, row and fill variables, compared on random thread counts and schedules, up to 1000 rows.",
"C18":"The histories, schedules and faults of C01, C03, C05 and C10-C14 with other people's files beside the program's own; the whole simulated file system is watched over every operation and compared after every build.",
"C19":"Histories of builds over the same CSV or Excel target; every build is compared cell by cell (value, formula, format, validation, notes) with the same build into a new file and with building once more.",
}
NA={
"C20":"A pure function of one input file: no schedule, clock, I/O fault or second party changes which records a plain CSV document compiles to, so simulation adds nothing to running the parser on inputs.",
"C21":"Parsing and printing a formula is a pure, single-threaded function of the text; nothing to schedule and no fault reaches it.",
"C22":"Argument substitution is a pure function of the expression; schedules and faults cannot change it (that evaluation order and threads do not matter is decided by C06 and C17).",
"C23":"The mapping of an option to a target's attribute is a pure function of the option; no time, I/O or concurrency is involved.",
"C24":"The position in a syntax error is a pure function of the source text (that errors are reported at all, under faults and schedules, is decided by C09 and C12).",
}
for i in ["C%02d"%k for k in range(1,20)]:
    if i not in CLAIMED: NA[i]="Check under construction."
m={"version":1,"setup_cmd":"./build.sh",
"hooks":{"guard":"none","enable":"No hook in /repo is needed: the unmodified binary runs under a preloaded simulator; edge instrumentation comes from a rustc wrapper in /verif/sut.","source_commits":[]},
"checks":[{"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"VERIF_TIER=thorough ./check {i}","evidence_file":f"evidence/{i}.json",
 "technique":"deterministic simulation with fault injection: seeded search over schedules, faults and histories of the real binary",
 "level":"exploration","level_note":NOTE[i]+" "+COMMON} for i in CLAIMED],
"not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())],
"notes":"One simulator for all checks; see DESIGN.md. './replay FILE' re-runs a violation."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
