//! Scenarios: what happens to a project, step by step; executing them; the clean-build oracle.
use crate::engine::*;
use crate::fs::{Fs, Node};
use crate::xlsx;
use serde::{Deserialize, Serialize};
use simworld::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const WALL0: i64 = 1_700_000_000_000_000_000;
pub const SEC: i64 = 1_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Corrupt {
    Truncate(u64),
    FlipBit(u64),
    Zero { from: u64, len: u64 },
    Content(#[serde(with = "crate::fs::bytes")] Vec<u8>),
    /// overwrite the tail after a good beginning with noise
    Noise { from: u64, seed: u64 },
    /// two blocks exchanged
    Swap { a: u64, b: u64, len: u64 },
    /// one byte up and another one down
    Shift { a: u64, b: u64, by: u8 },
    Append(#[serde(with = "crate::fs::bytes")] Vec<u8>),
    /// an intact file as another version of the compiler would have written it: in the body, the
    /// number `find` is replaced by `repl`
    OtherVersion { find: i64, repl: i64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Run(Plan),
    Write {
        path: String,
        #[serde(with = "crate::fs::bytes")]
        data: Vec<u8>,
        /// how far in the past its modification time lies
        #[serde(default)]
        age: i64,
    },
    Remove(String),
    Rename(String, String),
    Copy(String, String),
    Chmod(String, u32),
    Mkdir(String),
    Clock(i64),
    /// back to the files as they were at the start
    Reset,
    Damage { path: String, how: Corrupt },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub property: String,
    pub seed: u64,
    pub note: String,
    pub wall: i64,
    /// steps and files may not be dropped when minimising (the expectation depends on them)
    #[serde(default)]
    pub fixed: bool,
    #[serde(default)]
    pub aux: serde_json::Value,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub net: Option<crate::net::NetPlan>,
    pub steps: Vec<Step>,
    pub start: Fs,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Viol {
    pub step: usize,
    /// what kind of violation: minimising keeps it
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cls {
    Ok,
    Fail,
    Crash,
    Hang,
    Killed,
}
pub fn cls(r: &RunResult, p: usize) -> Cls {
    let q = &r.procs[p];
    if q.state == ps::LIVE || q.state == ps::UNUSED {
        return Cls::Hang;
    }
    if q.killed() {
        return Cls::Killed;
    }
    if q.panicked() {
        return Cls::Crash;
    }
    if q.ok() {
        Cls::Ok
    } else {
        Cls::Fail
    }
}

/// The output of a build, as far as the properties speak about it.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Absent,
    Csv(Vec<u8>),
    Cells(xlsx::Book),
    Bad(String),
}
impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Absent => "absent".into(),
            Out::Csv(b) => format!("{:?}", clip(&String::from_utf8_lossy(b), 600)),
            Out::Cells(b) => clip(&format!("{b:?}"), 1500),
            Out::Bad(e) => format!("unreadable ({e})"),
        }
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}...")
    }
}
pub fn out_of(fs: &Fs, path: &str) -> Out {
    match fs.0.get(path) {
        None => Out::Absent,
        Some(Node::Dir { .. }) => Out::Bad("a directory".into()),
        _ => match fs.file_follow(path) {
            None => Out::Absent,
            Some(b) => out_bytes(b, path),
        },
    }
}
/// what a target is goes by its extension, in any case
pub fn is_csv(p: &str) -> bool {
    p.to_ascii_lowercase().ends_with(".csv")
}
pub fn is_excel(p: &str) -> bool {
    let p = p.to_ascii_lowercase();
    [".xlsx", ".xlsm", ".xltx", ".xltm"].iter().any(|e| p.ends_with(e))
}

pub fn out_bytes(b: &[u8], path: &str) -> Out {
    if is_csv(path) {
        Out::Csv(b.to_vec())
    } else {
        match xlsx::read_full(b) {
            Ok(c) => Out::Cells(c),
            Err(e) => Out::Bad(e),
        }
    }
}

pub fn abs(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{cwd}/{p}") };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
/// where a build writes to
pub fn target_of(p: &ProcSpec) -> Option<String> {
    let i = p.args.iter().position(|a| a == "-o")?;
    Some(abs(&p.cwd, p.args.get(i + 1)?))
}
pub fn is_obj(p: &str) -> bool {
    p.ends_with(".csvpo")
}

/// What the user has put there: sources, targets (and backups), credentials. All else was left by
/// builds: object files, but whatever else a build may leave behind as well.
pub fn without_leftovers(fs: &Fs, p: &ProcSpec) -> Fs {
    const OURS: [&str; 3] = [".csvpp", ".json", ".pem"];
    let theirs = |k: &str| OURS.iter().any(|e| k.ends_with(e)) || is_csv(k) || is_excel(k);
    let mut f = fs.clone();
    f.0.retain(|k, n| matches!(n, Node::Dir { .. }) || theirs(k));
    let mut used: BTreeSet<String> = Fs::new().0.keys().cloned().collect();
    let mut need = |k: &str| {
        let mut k = k;
        while let Some(i) = k.rfind('/') {
            used.insert(k.to_string());
            k = &k[..i];
        }
    };
    need(&p.cwd);
    if let Some(t) = target_of(p) {
        need(&t);
    }
    for (k, n) in &f.0 {
        match n {
            Node::Link { target } => {
                need(k);
                need(&abs(&k[..k.rfind('/').unwrap_or(0)], target));
            }
            _ if theirs(k) => need(k),
            _ => {}
        }
    }
    f.0.retain(|k, n| !matches!(n, Node::Dir { .. }) || used.contains(k));
    f
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub scenarios: u64,
    pub oracle_runs: u64,
    pub sim_ns: i128,
    pub points: u64,
    pub switches: u64,
    pub ops: u64,
    pub faults: BTreeMap<String, u64>,
    pub scheds: HashSet<u64>,
    pub hists: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub exits: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub max_tasks: u32,
    pub harness: u64,
    pub harness_msgs: BTreeSet<String>,
    pub replays_checked: u64,
    pub replay_mismatch: u64,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn note(&mut self, k: &str) {
        *self.notes.entry(k.into()).or_insert(0) += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.scenarios += o.scenarios;
        self.oracle_runs += o.oracle_runs;
        self.sim_ns += o.sim_ns;
        self.points += o.points;
        self.switches += o.switches;
        self.ops += o.ops;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        self.scheds.extend(o.scheds);
        self.hists.extend(o.hists);
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.exits {
            *self.exits.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_insert(0) += v;
        }
        self.max_tasks = self.max_tasks.max(o.max_tasks);
        self.harness += o.harness;
        self.harness_msgs.extend(o.harness_msgs);
        self.replays_checked += o.replays_checked;
        self.replay_mismatch += o.replay_mismatch;
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Clean {
    pub cls: Cls,
    pub out: Out,
    pub err: String,
    pub fs: Fs,
    pub res: ProcRes,
}

pub struct Ctx {
    pub eng: Engine,
    memo: HashMap<u64, Rc<Clean>>,
    pub st: Stats,
    pub harness: Option<String>,
    pub thorough: bool,
}

/// state carried along one execution by the property checks
#[derive(Default)]
pub struct Mem {
    /// files which must stay as they are from now on
    pub keep: BTreeMap<String, u64>,
    pub nums: Vec<u64>,
    pub base: Option<(Cls, Out, BTreeSet<String>)>,
}

pub struct ExecOut {
    pub viol: Option<Viol>,
    pub hist: u64,
    pub trace: Vec<String>,
}

impl Ctx {
    pub fn new(eng: Engine, thorough: bool) -> Ctx {
        Ctx { eng, memo: HashMap::new(), st: Stats::default(), harness: None, thorough }
    }

    /// One run, with its statistics.
    pub fn run(&mut self, fs: &Fs, plan: &Plan, wall: i64) -> RunResult {
        let began = std::time::Instant::now();
        let mut r = self.eng.run(fs, plan, wall);
        if std::env::var("SIM_SLOW").is_ok() && began.elapsed().as_millis() > 1000 {
            eprintln!(
                "slow: {:?} {} points {} events, {} switches: {}",
                began.elapsed(),
                r.points,
                r.evs.len(),
                r.switches,
                serde_json::to_string(plan).unwrap_or_default()
            );
        }
        if r.outcome == oc::HARNESS {
            // a fork server can be lost to the memory guard; once more before giving up
            r = self.eng.run(fs, plan, wall);
        }
        // (events get lost where a build goes round in circles, which is what matters then)
        let own = r.procs.iter().any(|q| String::from_utf8_lossy(&q.err).contains("panicked at simlib/"));
        if r.outcome == oc::HARNESS || r.warn.0 != 0 || (r.ev_lost > 0 && r.outcome != oc::BUDGET) || own {
            self.st.harness += 1;
            let m = format!("outcome {} warn {:?} lost events {} simulator panic {own}", oc::name(r.outcome), r.warn, r.ev_lost);
            if self.st.harness_msgs.len() < 10 {
                self.st.harness_msgs.insert(m.clone());
            }
            self.harness = Some(m);
        }
        let s = &mut self.st;
        s.runs += 1;
        s.sim_ns += r.elapsed as i128;
        s.points += r.points;
        s.switches += r.switches;
        s.max_tasks = s.max_tasks.max(r.tasks);
        for p in &r.procs {
            s.ops += u64::from(p.ops);
            *s.exits.entry(p.describe()).or_insert(0) += 1;
        }
        for (f, n) in plan.faults.iter().zip(&r.fired) {
            if *n > 0 {
                let k = if f.kind == "errno" { format!("errno {}", errno_name(f.arg as i32)) } else { f.kind.clone() };
                *s.faults.entry(k).or_insert(0) += u64::from(*n);
            }
        }
        if r.short_fired > 0 {
            *s.faults.entry("short-transfer".into()).or_insert(0) += r.short_fired;
        }
        if r.eintr_fired > 0 {
            *s.faults.entry("interrupted-call".into()).or_insert(0) += r.eintr_fired;
        }
        if r.power_lost {
            *s.faults.entry("power-loss".into()).or_insert(0) += 1;
        }
        if plan.disk_free >= 0 && r.evs.iter().any(|e| e.res == -i64::from(ENOSPC)) {
            *s.faults.entry("full-disk".into()).or_insert(0) += 1;
        }
        if let Some(n) = crate::net::of(&mut self.eng) {
            for (k, c) in &n.fired {
                *s.faults.entry(k.clone()).or_insert(0) += u64::from(*c);
            }
            for q in &n.log {
                *s.notes.entry(format!("requests: {}", q.service)).or_insert(0) += 1;
            }
        }
        s.scheds.insert(r.sched_hash);
        s.hists.insert(r.hist_hash);
        r
    }

    /// The same build of the same sources with nothing cached, one thread, no faults.
    pub fn clean(&mut self, fs: &Fs, p: &ProcSpec, wall: i64) -> Rc<Clean> {
        self.alone(&without_leftovers(fs, p), p, wall, true)
    }
    pub fn alone(&mut self, fs: &Fs, p: &ProcSpec, wall: i64, ignore_mtime: bool) -> Rc<Clean> {
        let mut h = 7u64;
        let mut mix = |x: u64| h = (h.rotate_left(9) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        for (k, n) in &fs.0 {
            mix(hash_bytes(k.as_bytes()));
            match n {
                Node::Dir { mode } => mix(1 + u64::from(*mode) * 4),
                Node::File { data, mode, mtime } => {
                    mix(hash_bytes(data));
                    mix(2 + u64::from(*mode) * 4);
                    if !ignore_mtime {
                        mix(*mtime as u64);
                    }
                }
                Node::Link { target } => mix(hash_bytes(target.as_bytes()) + 3),
            }
        }
        mix(hash_bytes(p.args.join("\0").as_bytes()));
        mix(hash_bytes(p.cwd.as_bytes()));
        if p.args.iter().any(|a| a == "-b") {
            mix(wall as u64);
        }
        if let Some(c) = self.memo.get(&h) {
            return c.clone();
        }
        let q = ProcSpec { cpus: 1, hash_seed: 1, pid: 77, ..p.clone() };
        let mut plan = Plan::simple(vec![q]);
        plan.budget = 250_000_000;
        let net = self.eng.net.take();
        let r = self.run(fs, &plan, wall);
        self.eng.net = net;
        self.st.oracle_runs += 1;
        let c = Rc::new(Clean {
            cls: cls(&r, 0),
            out: target_of(p).map_or(Out::Absent, |t| out_of(&r.fs, &t)),
            err: String::from_utf8_lossy(&r.procs[0].err).into_owned(),
            res: r.procs[0].clone(),
            fs: r.fs,
        });
        if self.memo.len() > 3000 {
            self.memo.clear();
        }
        self.memo.insert(h, c.clone());
        c
    }

    pub fn exec(&mut self, sc: &Scenario, want_trace: bool) -> ExecOut {
        let mut fs = sc.start.clone();
        let mut wall = sc.wall;
        let mut hist = 0u64;
        let mut mem = Mem::default();
        let mut trace = vec![];
        self.harness = None;
        crate::net::install(self, sc.net.as_ref());
        let mut viol = crate::props::begin(self, sc, &mut mem);
        for (i, s) in sc.steps.iter().enumerate() {
            if viol.is_some() {
                break;
            }
            match s {
                Step::Run(plan) => {
                    let r = self.run(&fs, plan, wall);
                    if want_trace {
                        trace.push(format!("step {i}: {}", show_plan(plan)));
                        trace_run(plan, &r, &mut trace);
                        crate::net::trace(self, &mut trace);
                    }
                    hist = (hist ^ r.hist_hash).wrapping_mul(0x94d0_49bb_1331_11eb).rotate_left(23);
                    if self.harness.is_some() {
                        break;
                    }
                    viol = crate::props::after(self, sc, &mut mem, i, &fs, wall, plan, &r);
                    wall = r.wall_end;
                    fs = r.fs;
                }
                other => {
                    if want_trace {
                        trace.push(format!("step {i}: {}", show_step(other)));
                    }
                    if matches!(other, Step::Reset) {
                        fs = sc.start.clone();
                        crate::net::install(self, sc.net.as_ref());
                    } else {
                        apply(&mut fs, &mut wall, other);
                    }
                }
            }
            wall += SEC / 50;
        }
        if viol.is_none() && self.harness.is_none() {
            viol = crate::props::finish(self, sc, &mut mem, &fs, wall);
        }
        self.eng.net = None;
        if self.harness.is_some() {
            viol = None;
        }
        ExecOut { viol, hist, trace }
    }
}

pub fn apply(fs: &mut Fs, wall: &mut i64, s: &Step) {
    match s {
        Step::Run(_) | Step::Reset => {}
        Step::Write { path, data, age } => fs.put(path, data, *wall - age),
        Step::Remove(p) => fs.remove(p),
        Step::Rename(a, b) => {
            if fs.0.contains_key(a) {
                fs.rename(a, b);
            }
        }
        Step::Copy(a, b) => {
            if let Some(n) = fs.0.get(a).cloned() {
                fs.0.insert(b.clone(), n);
            }
        }
        Step::Chmod(p, m) => match fs.0.get_mut(p) {
            Some(Node::File { mode, .. } | Node::Dir { mode }) => *mode = *m,
            _ => {}
        },
        Step::Mkdir(p) => fs.mkdir(p),
        Step::Clock(d) => *wall += d,
        Step::Damage { path, how } => {
            if let Some(Node::File { data, .. }) = fs.0.get_mut(path) {
                damage(data, how);
            }
        }
    }
}

pub fn fnv(d: &[u8]) -> u64 {
    d.iter().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3))
}

pub fn damage(data: &mut Vec<u8>, how: &Corrupt) {
    let n = data.len() as u64;
    match how {
        Corrupt::Truncate(k) => data.truncate((k % n.max(1)) as usize),
        Corrupt::FlipBit(k) => {
            if n > 0 {
                let b = k % (n * 8);
                data[(b / 8) as usize] ^= 1 << (b % 8);
            }
        }
        Corrupt::Zero { from, len } => {
            if n > 0 {
                let a = (from % n) as usize;
                let b = (a + (*len).max(1) as usize).min(n as usize);
                data[a..b].fill(0);
            }
        }
        Corrupt::Content(c) => *data = c.clone(),
        Corrupt::Swap { a, b, len } => {
            if n > 0 {
                let (a, b) = ((a % n) as usize, (b % n) as usize);
                for i in 0..*len as usize {
                    if a + i < n as usize && b + i < n as usize {
                        data.swap(a + i, b + i);
                    }
                }
            }
        }
        Corrupt::Shift { a, b, by } => {
            if n > 0 {
                let (a, b) = ((a % n) as usize, (b % n) as usize);
                data[a] = data[a].wrapping_add(*by);
                data[b] = data[b].wrapping_sub(*by);
            }
        }
        Corrupt::Noise { from, seed } => {
            let mut r = Rng::new(*seed);
            if n > 0 {
                for b in data[(from % n) as usize..].iter_mut() {
                    *b = r.next() as u8;
                }
            }
        }
        Corrupt::Append(c) => data.extend_from_slice(c),
        Corrupt::OtherVersion { find, repl } => {
            // only where the layout is known: "csvpo 2 <version>\n", checksum, body
            let Some(nl) = data.iter().position(|b| *b == b'\n') else { return };
            if !data.starts_with(b"csvpo 2 ") || data.len() < nl + 9 {
                return;
            }
            let body = data[nl + 9..].to_vec();
            if data[nl + 1..nl + 9] != fnv(&body).to_le_bytes() {
                return;
            }
            let mut body = body;
            let f = find.to_le_bytes();
            if let Some(k) = body.windows(8).position(|w| w == f) {
                body[k..k + 8].copy_from_slice(&repl.to_le_bytes());
            }
            // what the version looks like inside the body
            let ver: Vec<u8> = data[8..nl].to_vec();
            let mut other = ver.clone();
            if let Some(l) = other.last_mut() {
                *l = if *l == b'9' { b'8' } else { *l + 1 };
            }
            let mut k = 0;
            while k + ver.len() <= body.len() {
                if body[k..k + ver.len()] == ver[..] {
                    body[k..k + ver.len()].copy_from_slice(&other);
                    break;
                }
                k += 1;
            }
            let mut out = b"csvpo 2 ".to_vec();
            out.extend_from_slice(&other);
            out.push(b'\n');
            out.extend_from_slice(&fnv(&body).to_le_bytes());
            out.extend_from_slice(&body);
            *data = out;
        }
    }
}

pub fn errno_name(e: i32) -> String {
    match e {
        EPERM => "EPERM",
        ENOENT => "ENOENT",
        EIO => "EIO",
        EACCES => "EACCES",
        ENOSPC => "ENOSPC",
        EMFILE => "EMFILE",
        ENFILE => "ENFILE",
        ENOMEM => "ENOMEM",
        EROFS => "EROFS",
        EFBIG => "EFBIG",
        122 => "EDQUOT",
        16 => "EBUSY",
        18 => "EXDEV",
        26 => "ETXTBSY",
        ELOOP => "ELOOP",
        EXDEV => "EXDEV",
        EINVAL => "EINVAL",
        ENOSYS => "ENOSYS",
        EOPNOTSUPP => "EOPNOTSUPP",
        ENAMETOOLONG => "ENAMETOOLONG",
        ENOTEMPTY => "ENOTEMPTY",
        e => return e.to_string(),
    }
    .into()
}

pub fn show_plan(p: &Plan) -> String {
    let mut s = String::from("run");
    for q in &p.procs {
        s.push_str(&format!(" [{}$ csvpp {} (cpus {})]", q.cwd, q.args.join(" "), q.cpus));
    }
    match &p.sched {
        SchedSpec::Default => {}
        SchedSpec::Random { seed, op_switch, edge_mean } => {
            s.push_str(&format!(" schedule random {seed} op {op_switch} edges {edge_mean}"));
        }
        SchedSpec::Sites { seed, op_switch, density, times } => {
            s.push_str(&format!(" schedule sites {seed} op {op_switch} density {density} times {times}"));
        }
        SchedSpec::Pct { seed, at } => s.push_str(&format!(" schedule pct {seed} {at:?}")),
        SchedSpec::Replay { decs } => {
            s.push_str(&format!(" schedule replay with {} decisions", decs.len()));
        }
    }
    for f in &p.faults {
        s.push_str(&format!(" fault {}", show_fault(f)));
    }
    if p.disk_free >= 0 {
        s.push_str(&format!(" disk has {} bytes free", p.disk_free));
    }
    if let Some(x) = p.power_loss {
        s.push_str(&format!(" then power loss ({x})"));
    }
    s
}
pub fn show_fault(f: &FaultSpec) -> String {
    let mut s = f.kind.clone();
    if f.kind == "errno" {
        s.push_str(&format!(" {}", errno_name(f.arg as i32)));
    } else if f.arg != 0 {
        s.push_str(&format!(" {}", f.arg));
    }
    if f.at_op > 0 {
        s.push_str(&format!(" at op {} of process {}", f.at_op, f.proc));
    } else {
        let names: Vec<&str> = (1..32u8).filter(|c| f.classes & op::bit(*c) != 0).map(op::name).collect();
        s.push_str(&format!(" on {} of *{} (skip {}, {} times) process {}", names.join("|"), f.suffix, f.skip, f.count, f.proc));
    }
    if let Some(e) = &f.ext {
        s.push_str(&clip(&format!(" {e:?}"), 120));
    }
    s
}
pub fn show_step(s: &Step) -> String {
    match s {
        Step::Run(p) => show_plan(p),
        Step::Reset => "restore all files".into(),
        Step::Write { path, data, age } => {
            format!("write {path} (mtime {}s ago): {:?}", age / SEC, clip(&String::from_utf8_lossy(data), 300))
        }
        Step::Remove(p) => format!("remove {p}"),
        Step::Rename(a, b) => format!("rename {a} to {b}"),
        Step::Copy(a, b) => format!("copy {a} to {b}"),
        Step::Chmod(p, m) => format!("chmod {m:o} {p}"),
        Step::Mkdir(p) => format!("mkdir {p}"),
        Step::Clock(d) => format!("clock {:+}s", *d as f64 / 1e9),
        Step::Damage { path, how } => clip(&format!("damage {path}: {how:?}"), 200),
    }
}

pub fn trace_run(plan: &Plan, r: &RunResult, t: &mut Vec<String>) {
    let mut n = 0;
    for e in &r.evs {
        if matches!(e.class, op::FUTEX | op::STDIO) && e.fault == 0 {
            continue;
        }
        n += 1;
        if n > 400 {
            t.push("  ...".into());
            break;
        }
        let mut s = format!("  p{} t{} #{} {} {}", e.proc, e.task, e.op, op::name(e.class), e.path);
        if !e.path2.is_empty() {
            s.push_str(&format!(" -> {}", e.path2));
        }
        if e.arg != 0 {
            s.push_str(&format!(" ({})", e.arg));
        }
        s.push_str(&if e.res < 0 { format!(" = {}", errno_name(-e.res as i32)) } else { format!(" = {}", e.res) });
        if e.fault != 0 {
            s.push_str(&format!("   <== {}", fk::name(u32::from(e.fault))));
        }
        t.push(s);
    }
    for (i, p) in r.procs.iter().enumerate() {
        t.push(format!("  process {i}: {} stderr {:?}", p.describe(), clip(&String::from_utf8_lossy(&p.err), 400)));
        if let Some(o) = target_of(&plan.procs[i]) {
            t.push(format!("  {o}: {}", out_of(&r.fs, &o).show()));
        }
    }
    t.push(format!("  {} after {} points, {} switches, {} tasks", oc::name(r.outcome), r.points, r.switches, r.tasks));
}
