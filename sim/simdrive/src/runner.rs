//! Seeded search, minimising, replay files and evidence.
use crate::engine::*;
use crate::fs::Node;
use crate::props;
use crate::scen::*;
use serde::{Deserialize, Serialize};
use simworld::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub violation: Viol,
    /// fingerprint of everything observed while it ran
    pub history: String,
    pub minimised: String,
    pub scenario: Scenario,
    /// for reading; not used when replaying
    pub trace: Vec<String>,
}

pub struct Cfg {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub sut: String,
    pub simlib: String,
    pub verif: String,
    pub secs: u64,
    pub cases: u64,
    pub workers: usize,
    pub confirm: bool,
    pub known: Vec<Known>,
}

/// A genuine defect which was recorded rather than repaired.
#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub needs: String,
    pub text: String,
}

/// lines `finding: property=C01 sig=<words> needs=<text in the message>: <what fails>`
pub fn known(path: &str, prop: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    let mut v = vec![];
    for l in t.lines() {
        let Some(x) = l.strip_prefix("finding: property=") else { continue };
        let get = |k: &str| -> String {
            x.split_once(&format!("{k}=\"")).and_then(|(_, y)| y.split_once('"')).map(|(a, _)| a.to_string()).unwrap_or_default()
        };
        let p = x.split_whitespace().next().unwrap_or("");
        if p == prop {
            v.push(Known { property: p.into(), sig: get("sig"), needs: get("needs"), text: x[p.len()..].trim().into() });
        }
    }
    v
}
fn matches_known<'a>(k: &'a [Known], v: &Viol) -> Option<&'a Known> {
    k.iter().find(|x| x.sig == v.sig && v.msg.contains(&x.needs))
}

pub fn case_rng(seed: u64, prop: &str, idx: u64) -> Rng {
    Rng::new(hash_bytes(format!("{seed}/{prop}/{idx}").as_bytes()))
}

struct Found {
    idx: u64,
    sc: Scenario,
    viol: Viol,
}

pub fn check(cfg: &Cfg) -> i32 {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let total: Mutex<(Stats, Vec<u8>, u64)> = Mutex::new((Stats::default(), vec![0; COV], 0));
    let last_idx = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..cfg.workers {
            s.spawn(|| {
                let mut cx = Ctx::new(Engine::new(&cfg.sut, &cfg.simlib), cfg.tier == "thorough");
                'out: loop {
                    let idx = next.fetch_add(1, SeqCst);
                    if idx >= cfg.cases || stop.load(SeqCst) || t0.elapsed() > Duration::from_secs(cfg.secs) {
                        break;
                    }
                    last_idx.fetch_max(idx + 1, SeqCst);
                    let mut r = case_rng(cfg.seed, &cfg.prop, idx);
                    let scs = props::gen(&mut cx, &cfg.prop, &mut r, idx);
                    for (k, mut sc) in scs.into_iter().enumerate() {
                        if stop.load(SeqCst) || t0.elapsed() > Duration::from_secs(cfg.secs + 5) {
                            break 'out;
                        }
                        sc.seed = cfg.seed;
                        cx.st.scenarios += 1;
                        let e = cx.exec(&sc, false);
                        if cx.st.samples.is_empty() && e.viol.is_none() && cx.harness.is_none() {
                            let s: Vec<String> = sc.steps.iter().map(|s| clip(&show_step(s), 300)).collect();
                            cx.st.samples.push(format!("case {idx}.{k} ({}): {}", sc.note, s.join(" ; ")));
                        }
                        if cx.harness.is_none() && (cx.st.scenarios % 40 == 7) {
                            cx.st.replays_checked += 1;
                            let e2 = cx.exec(&sc, false);
                            if e2.hist != e.hist {
                                cx.st.replay_mismatch += 1;
                                if std::env::var("SIM_DEBUG").is_ok() {
                                    let _ = std::fs::write(
                                        format!("/tmp/mismatch-{}-{idx}-{k}.json", cfg.prop),
                                        serde_json::to_string_pretty(&sc).unwrap(),
                                    );
                                }
                            }
                        }
                        if let Some(v) = e.viol {
                            if let Some(k) = matches_known(&cfg.known, &v) {
                                *known_hits.lock().unwrap().entry(k.text.clone()).or_insert(0) += 1;
                                continue;
                            }
                            // the same again, or it does not count
                            let e2 = cx.exec(&sc, false);
                            if e2.viol.as_ref().map(|x| &x.sig) != Some(&v.sig) {
                                cx.st.note("violation did not repeat");
                                cx.st.replay_mismatch += 1;
                                continue;
                            }
                            stop.store(true, SeqCst);
                            found.lock().unwrap().push(Found { idx, sc, viol: v });
                            break 'out;
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                let st = std::mem::take(&mut cx.st);
                t.0.merge(st);
                for (i, c) in cx.eng.cov.iter().enumerate() {
                    if *c != 0 {
                        t.1[i] = 1;
                    }
                }
                t.2 = cx.eng.guards();
            });
        }
    });
    let (st, cov, guards) = total.into_inner().unwrap();
    let known_hits = known_hits.into_inner().unwrap();
    let edges = cov.iter().filter(|c| **c != 0).count() as u64;
    let search_s = t0.elapsed().as_secs_f64();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| (f.sc.steps.len(), f.idx));
    let mut rc = 0;
    let mut nviol = 0;
    for f in found.into_iter().take(3) {
        match report(cfg, &f) {
            Some(path) => {
                println!("VIOLATION property={} replay={path}", cfg.prop);
                nviol += 1;
                rc = 1;
                break;
            }
            None => eprintln!("{}: case {} ({}) did not replay in a fresh process", cfg.prop, f.idx, f.viol.sig),
        }
    }
    for (k, n) in &known_hits {
        println!("KNOWN-FINDING: property={} {k} (seen {n} times)", cfg.prop);
    }
    if rc == 0 && st.harness * 20 > st.runs {
        eprintln!("{}: {} of {} runs ended in a harness error: {:?}", cfg.prop, st.harness, st.runs, st.harness_msgs);
        rc = 3;
    }
    if rc == 0 && st.runs < 20 {
        eprintln!("{}: only {} runs", cfg.prop, st.runs);
        rc = 3;
    }
    evidence(cfg, &st, edges, guards, search_s, t0.elapsed().as_secs_f64(), nviol, last_idx.load(SeqCst), &known_hits);
    eprintln!(
        "{} {} seed {}: {} cases, {} scenarios, {} runs ({} oracle), {} distinct schedules, {} distinct histories, {} edges, faults {:?}, exits {:?}, notes {:?}, harness errors {} {:?}, replays {}/{} bad, {:.1}s",
        cfg.prop, cfg.tier, cfg.seed, last_idx.load(SeqCst), st.scenarios, st.runs, st.oracle_runs, st.scheds.len(), st.hists.len(), edges,
        st.faults, st.exits, st.notes, st.harness, st.harness_msgs, st.replay_mismatch, st.replays_checked, search_s
    );
    rc
}

fn report(cfg: &Cfg, f: &Found) -> Option<String> {
    let mut cx = Ctx::new(Engine::new(&cfg.sut, &cfg.simlib), false);
    let e = cx.exec(&f.sc, false);
    let v = e.viol.filter(|v| v.sig == f.viol.sig)?;
    let (sc, v, how) = minimise(&mut cx, f.sc.clone(), v, &cfg.known, Duration::from_secs(if cfg.tier == "thorough" { 180 } else { 45 }));
    let dir = format!("{}/replays", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    for (scx, vx, note) in [(sc, v, how), (f.sc.clone(), f.viol.clone(), "not minimised".to_string())] {
        let mut c2 = Ctx::new(Engine::new(&cfg.sut, &cfg.simlib), false);
        let e = c2.exec(&scx, true);
        if e.viol.as_ref().map(|x| &x.sig) != Some(&vx.sig) {
            continue;
        }
        let vv = e.viol.unwrap();
        let rf = ReplayFile {
            property: cfg.prop.clone(),
            seed: cfg.seed,
            index: f.idx,
            violation: vv.clone(),
            history: format!("{:016x}", e.hist),
            minimised: note,
            scenario: scx,
            trace: e.trace,
        };
        let path = format!("{dir}/{}-{}-{}.json", cfg.prop, cfg.seed, f.idx);
        std::fs::write(&path, serde_json::to_string_pretty(&rf).unwrap()).ok()?;
        if !cfg.confirm {
            return Some(path);
        }
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", "--sut", &cfg.sut, "--simlib", &cfg.simlib, &path])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .ok()?;
        if st.code() == Some(1) {
            println!("{}: {} -- {}", cfg.prop, vv.sig, clip(&vv.msg, 1500));
            return Some(path);
        }
    }
    None
}

pub fn replay(sut: &str, simlib: &str, path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 3;
        }
    };
    let rf: ReplayFile = match serde_json::from_str(&t) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 3;
        }
    };
    let mut cx = Ctx::new(Engine::new(sut, simlib), false);
    let e = cx.exec(&rf.scenario, true);
    for l in &e.trace {
        println!("{l}");
    }
    if let Some(h) = &cx.harness {
        eprintln!("harness error: {h}");
        return 3;
    }
    match e.viol {
        None => {
            println!("no violation");
            0
        }
        Some(v) => {
            let same = format!("{:016x}", e.hist) == rf.history;
            println!("{}: {} (step {})", v.sig, v.msg, v.step);
            println!("history {:016x}, {}", e.hist, if same { "exactly as recorded" } else { "differs from the recorded one" });
            println!("VIOLATION property={} replay={path}", rf.property);
            if v.sig == rf.violation.sig && same {
                1
            } else {
                4
            }
        }
    }
}

// ------------------------------------------------------------------ minimising

struct Min<'a> {
    cx: &'a mut Ctx,
    best: Scenario,
    viol: Viol,
    known: &'a [Known],
    until: Instant,
    tries: u64,
}
impl Min<'_> {
    fn over(&self) -> bool {
        Instant::now() > self.until
    }
    fn attempt(&mut self, sc: Scenario) -> bool {
        if self.over() || sc == self.best {
            return false;
        }
        self.tries += 1;
        let e = self.cx.exec(&sc, false);
        if let Some(v) = e.viol {
            if v.sig == self.viol.sig && matches_known(self.known, &v).is_none() {
                self.best = sc;
                self.viol = v;
                return true;
            }
        }
        false
    }
}

pub fn minimise(cx: &mut Ctx, sc: Scenario, v: Viol, known: &[Known], lim: Duration) -> (Scenario, Viol, String) {
    let before = size(&sc);
    let mut m = Min { cx, best: sc, viol: v, known, until: Instant::now() + lim, tries: 0 };
    // everything after the violation
    let mut s = m.best.clone();
    s.steps.truncate(m.viol.step + 1);
    m.attempt(s);
    loop {
        let start = size(&m.best);
        // steps
        if !m.best.fixed {
            let mut i = m.best.steps.len();
            while i > 0 {
                i -= 1;
                if i < m.best.steps.len() {
                    let mut s = m.best.clone();
                    s.steps.remove(i);
                    m.attempt(s);
                }
            }
        }
        // faults, options of the runs
        for i in 0..m.best.steps.len() {
            let Step::Run(p0) = &m.best.steps[i] else { continue };
            let mut k = p0.faults.len();
            while k > 0 {
                k -= 1;
                edit_plan(&mut m, i, |p| {
                    if k < p.faults.len() {
                        p.faults.remove(k);
                    }
                });
            }
            edit_plan(&mut m, i, |p| p.sched = SchedSpec::Default);
            edit_plan(&mut m, i, |p| p.short_permille = 0);
            edit_plan(&mut m, i, |p| p.eintr_permille = 0);
            edit_plan(&mut m, i, |p| p.spurious = 0);
            edit_plan(&mut m, i, |p| p.readdir_shuffle = 0);
            edit_plan(&mut m, i, |p| p.disk_free = -1);
            edit_plan(&mut m, i, |p| p.mtime_gran = 1);
            edit_plan(&mut m, i, |p| p.op_cost = 20_000);
            edit_plan(&mut m, i, |p| p.power_loss = None);
            edit_plan(&mut m, i, |p| p.copy_range_mode = 0);
            edit_plan(&mut m, i, |p| p.procs.iter_mut().for_each(|q| q.cpus = 1));
            edit_plan(&mut m, i, |p| p.procs.iter_mut().for_each(|q| q.hash_seed = 1));
            let np = match &m.best.steps[i] {
                Step::Run(p) => p.procs.len(),
                _ => 0,
            };
            for q in (0..np).rev() {
                edit_plan(&mut m, i, |p| {
                    if p.procs.len() > 1 && q < p.procs.len() && matches!(p.sched, SchedSpec::Default | SchedSpec::Random { .. } | SchedSpec::Pct { .. }) {
                        p.procs.remove(q);
                        p.faults.retain(|f| f.proc != q as i32);
                        for f in &mut p.faults {
                            if f.proc > q as i32 {
                                f.proc -= 1;
                            }
                        }
                    }
                });
            }
        }
        // the network
        if m.best.net.is_some() {
            for cand in crate::net::simpler(&m.best) {
                m.attempt(cand);
            }
            let n = m.best.net.as_ref().map_or(0, |n| n.faults.len());
            for k in (0..n).rev() {
                let mut s = m.best.clone();
                if let Some(n) = &mut s.net {
                    if k < n.faults.len() {
                        n.faults.remove(k);
                    }
                }
                m.attempt(s);
            }
        }
        // the schedule: explicit decisions, as few as possible
        for i in 0..m.best.steps.len() {
            if m.over() {
                break;
            }
            let Step::Run(p) = &m.best.steps[i] else { continue };
            let decs = match &p.sched {
                SchedSpec::Default => continue,
                SchedSpec::Replay { decs } => decs.clone(),
                _ => match decisions(m.cx, &m.best, i) {
                    Some(d) => d,
                    None => continue,
                },
            };
            let set = |d: Vec<(u64, u32)>| {
                move |p: &mut Plan| {
                    p.sched = SchedSpec::Replay { decs: d.clone() };
                    p.spurious = 0;
                }
            };
            if !matches!(p.sched, SchedSpec::Replay { .. }) && !edit_plan(&mut m, i, set(decs.clone())) {
                continue;
            }
            let mut cur = decs;
            let mut chunk = (cur.len() + 1) / 2;
            while chunk >= 1 && !cur.is_empty() && !m.over() {
                let mut at = 0;
                let mut any = false;
                while at < cur.len() && !m.over() {
                    let mut d = cur.clone();
                    d.drain(at..(at + chunk).min(d.len()));
                    if edit_plan(&mut m, i, set(d.clone())) {
                        cur = d;
                        any = true;
                    } else {
                        at += chunk;
                    }
                }
                if chunk == 1 && !any {
                    break;
                }
                chunk = if chunk == 1 { 1 } else { (chunk + 1) / 2 };
                if chunk == 1 && !any && cur.len() > 200 {
                    break;
                }
            }
        }
        // files and lines of sources
        if !m.best.fixed {
            let files: Vec<String> = m.best.start.0.iter().filter(|(_, n)| !matches!(n, Node::Dir { .. })).map(|(k, _)| k.clone()).collect();
            for f in files {
                if m.best.net.is_some() && !f.ends_with(".csvpp") && !is_obj(&f) {
                    continue;
                }
                let mut s = m.best.clone();
                s.start.0.remove(&f);
                if m.attempt(s) {
                    continue;
                }
                if !f.ends_with(".csvpp") {
                    continue;
                }
                let n = m.best.start.file(&f).map_or(0, |d| d.split(|b| *b == b'\n').count());
                for l in (0..n).rev() {
                    let mut s = m.best.clone();
                    let Some(Node::File { data, .. }) = s.start.0.get_mut(&f) else { break };
                    drop_line(data, l);
                    m.attempt(s);
                }
            }
            for i in 0..m.best.steps.len() {
                let n = match &m.best.steps[i] {
                    Step::Write { data, path, .. } if path.ends_with(".csvpp") => data.split(|b| *b == b'\n').count(),
                    _ => continue,
                };
                for l in (0..n).rev() {
                    let mut s = m.best.clone();
                    if let Step::Write { data, .. } = &mut s.steps[i] {
                        drop_line(data, l);
                    }
                    m.attempt(s);
                }
            }
        }
        if size(&m.best) >= start || m.over() {
            break;
        }
    }
    let note = format!("size {before} -> {} in {} attempts{}", size(&m.best), m.tries, if m.over() { " (time limit)" } else { "" });
    (m.best, m.viol, note)
}

fn drop_line(data: &mut Vec<u8>, l: usize) {
    let lines: Vec<&[u8]> = data.split(|b| *b == b'\n').collect();
    if l >= lines.len() {
        return;
    }
    let kept: Vec<&[u8]> = lines.iter().enumerate().filter(|(i, _)| *i != l).map(|(_, x)| *x).collect();
    *data = kept.join(&b'\n');
}

fn edit_plan(m: &mut Min, i: usize, f: impl Fn(&mut Plan)) -> bool {
    let mut s = m.best.clone();
    if let Some(Step::Run(p)) = s.steps.get_mut(i) {
        f(p);
    }
    m.attempt(s)
}

fn size(s: &Scenario) -> usize {
    let mut n = s.steps.len() * 10 + s.start.0.len() * 3;
    if let Some(x) = &s.net {
        n += x.faults.len() * 5 + x.edits.len() + x.sheet.iter().flatten().map(|r| 1 + r.len()).sum::<usize>();
        n += usize::from(x.frag > 0) + usize::from(x.jitter > 0) + usize::from(x.more > 0) + usize::from(x.style > 0);
    }
    for (k, x) in &s.start.0 {
        if let Node::File { data, .. } = x {
            if k.ends_with(".csvpp") {
                n += data.iter().filter(|b| **b == b'\n').count();
            }
        }
    }
    for t in &s.steps {
        match t {
            Step::Run(p) => {
                n += p.faults.len() * 5 + p.procs.len() * 5;
                n += match &p.sched {
                    SchedSpec::Default => 0,
                    SchedSpec::Replay { decs } => decs.len(),
                    _ => 5000,
                };
                n += usize::from(p.short_permille > 0) + usize::from(p.eintr_permille > 0) + usize::from(p.spurious > 0);
                n += p.procs.iter().map(|q| usize::from(q.cpus > 1) + usize::from(q.hash_seed != 1)).sum::<usize>();
            }
            Step::Write { data, .. } => n += data.iter().filter(|b| **b == b'\n').count(),
            _ => {}
        }
    }
    n
}

/// the decisions the scheduler took at step `i`
fn decisions(cx: &mut Ctx, sc: &Scenario, i: usize) -> Option<Vec<(u64, u32)>> {
    let mut fs = sc.start.clone();
    let mut wall = sc.wall;
    crate::net::install(cx, sc.net.as_ref());
    for (k, s) in sc.steps.iter().enumerate() {
        match s {
            Step::Run(p) => {
                let r = cx.run(&fs, p, wall);
                if k == i {
                    return if r.dec_over { None } else { Some(r.decs) };
                }
                fs = r.fs;
                wall = r.wall_end;
            }
            Step::Reset => fs = sc.start.clone(),
            o => apply(&mut fs, &mut wall, o),
        }
        wall += SEC / 50;
    }
    None
}

// ------------------------------------------------------------------ evidence

#[allow(clippy::too_many_arguments)]
fn evidence(cfg: &Cfg, st: &Stats, edges: u64, guards: u64, search_s: f64, wall_s: f64, viol: u64, cases: u64, known: &BTreeMap<String, u64>) {
    let per_h = if search_s > 0.0 { 3600.0 / search_s } else { 0.0 };
    let j = serde_json::json!({
        "property": cfg.prop,
        "tier": cfg.tier,
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": crate::about::rule(&cfg.prop),
            "samples": st.samples,
            "explanation": crate::about::how(&cfg.prop),
            "exhaustive": false,
            "seeds": cases,
            "scenarios": st.scenarios,
            "oracle_runs": st.oracle_runs,
            "simulated_runs_per_hour": (st.runs as f64 * per_h) as u64,
            "seeds_per_hour": (cases as f64 * per_h) as u64,
            "simulated_seconds": (st.sim_ns as f64 / 1e9),
            "faults_injected": st.faults,
            "distinct_schedules": st.scheds.len(),
            "distinct_histories": st.hists.len(),
            "file_operations": st.ops,
            "scheduling_points": st.points,
            "context_switches": st.switches,
            "most_tasks_in_a_run": st.max_tasks,
            "code_edges_reached": edges,
            "code_edges_total": guards,
            "process_endings": st.exits,
            "notes": st.notes,
            "harness_errors": st.harness,
            "determinism_checks": st.replays_checked,
            "determinism_mismatches": st.replay_mismatch,
            "known_findings_seen": known,
            "real_code": crate::about::real(&cfg.prop),
            "stubs": crate::about::stubs(&cfg.prop),
        },
        "assumptions": crate::about::assumptions(&cfg.prop),
        "wall_s": wall_s,
        "violations": viol,
    });
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{}.json", cfg.prop);
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()) {
        eprintln!("{p}: {e}");
    }
}
