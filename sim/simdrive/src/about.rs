//! Words for the evidence files.
pub fn rule(p: &str) -> String {
    let what = match p {
        "C01" => "a project, then edits (with new, equal or old time stamps), restores, moves, swaps, clock jumps and builds of any file with random options; non-trivial: a build that found at least one object file",
        "C02" => "builds, edits and damage to object files, then builds with --no-cache; non-trivial: object files existed",
        "C03" => "a build (cold, warm or stale cache) killed at one of its file operations, optionally with power loss, then builds; non-trivial: a run that was killed or lost power",
        "C04" => "a build, damage to its object files or storage faults on them, then builds; non-trivial: object files existed",
        "C05" => "2-3 builds at once under a random or PCT schedule, then sometimes another build; non-trivial: more context switches than processes",
        "C06" => "one build repeated under other schedules, thread counts, hash seeds, clocks, directory orders; non-trivial: a run of more than one task with at least one switch",
        "C07" => "random import graphs, cold and warm, random schedules; non-trivial: the graph has a cycle, a repeated or a missing import",
        "C08" => "random acyclic projects with shadowing, cold, edited and warm, random schedules; non-trivial: a formula of the output used an imported name",
        "C09" => "a project with a set of failing modules, cold or warm, random schedules; non-trivial: at least one failing module is reachable",
        "C10" => "a build with one or more kills, failures, a disk limit or power loss; non-trivial: a fault fired",
        "C11" => "a build with one to three faults or turbulence; non-trivial: a fault fired",
        "C12" => "a build with one or two failing calls or an outside change at some operation; non-trivial: a fault fired",
        "C13" => "an existing target, then builds with and without --safe, edits of the target, kills and faults; non-trivial: a --safe build over a target with cells",
        "C14" => "histories of builds with --backup: repeated, concurrent, clock set back, kills, faults, power loss; non-trivial: a target existed",
        "C15" => "a build to simulated Google Sheets with random contents, offsets and network faults; non-trivial: the service received at least one update",
        "C16" => "as C15 with --safe and --backup; non-trivial: the sheet had cells before",
        "C17" => "sheets with fills, cell, row and fill variables under random thread counts and schedules; non-trivial: the sheet has a fill or a variable",
        "C19" => "histories of ordinary and --safe builds of changing sources over the same target; non-trivial: an ordinary build over an existing target",
        "C18" => "cases of C01, C03, C05, C10-C16 with bystanding files around; non-trivial: a run that changed the file system",
        _ => "",
    };
    format!("Each case is drawn from (VERIF_SEED, property, case number): {what}. Runs are counted distinct by a hash of their complete history (operations, results, output, schedule).")
}
pub fn how(_p: &str) -> String {
    "Every evaluation is one complete execution of the real csvpp binary (1-4 processes with all their threads) inside the simulator; a run is a pure function of its plan. Faults counted are those that actually fired.".into()
}
/// are (some of) its builds made to Google Sheets?
fn sheets(p: &str) -> bool {
    matches!(p, "C01" | "C02" | "C03" | "C04" | "C06" | "C09" | "C12" | "C15" | "C16" | "C18")
}
pub fn real(p: &str) -> Vec<String> {
    let mut v = vec![
        "csvpp and csvp: all code, release profile, unmodified source of /repo".to_string(),
        "Rust std, rayon, clap, csv, bincode, umya-spreadsheet and all other dependencies".into(),
    ];
    if sheets(p) {
        v.push("tokio, hyper, rustls, google-sheets4, google-drive3, yup-oauth2: real client code down to the socket calls".into());
    }
    v
}
pub fn stubs(p: &str) -> Vec<String> {
    let mut v = vec![
        "file system, clock, randomness, thread scheduling and blocking, process identity and exit: simulated at the libc boundary (sim/simlib)".to_string(),
        "stdin is empty; stdout and stderr are recorded".into(),
    ];
    if sheets(p) {
        v.push("sockets, DNS and the OAuth, Sheets and Drive services: simulated (sim/simdrive/src/net*.rs)".into());
    }
    v
}
pub fn assumptions(p: &str) -> Vec<String> {
    let mut v = vec![
        "threads interleave at file operations, futex operations and instrumented basic-block edges of csvpp and csvp, with sequentially consistent memory".to_string(),
        "the file system behaves as POSIX promises for the calls used; directory updates reach the disk in order; file data not synced before power loss may be lost, torn or zeroed".into(),
        "one user; no resource limits other than those injected".into(),
    ];
    if sheets(p) {
        v.push("the Sheets and Drive models apply a batch atomically, as the services document".into());
    }
    v
}
