//! C13, C14, C17: merging with --safe, backups, positions.
use crate::engine::*;
use crate::fs::{Fs, Node};
use crate::proj::*;
use crate::props::*;
use crate::props2::*;
use crate::scen::*;
use crate::xlsx;
use simworld::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C13

/// an existing CSV file as other programs and people write it
pub fn any_csv(r: &mut Rng) -> Vec<u8> {
    let eol = if r.chance(200) { "\r\n" } else { "\n" };
    let mut s = String::new();
    let rows = r.below(9);
    let wide = if r.chance(100) { 40 } else { 7 };
    let far = if r.chance(40) { *pick(r, &[60, 130, 999, 1000, 1100, 2100]) } else { 0 };
    let far_at = r.below(rows + 1);
    for i in 0..rows {
        if i == far_at {
            for k in 0..far {
                s.push_str(&if k % 50 == 7 { format!("far{k},,x{k}{eol}") } else { format!("f{k}{eol}") });
            }
        }
        if r.chance(120) {
            s.push_str(eol);
            continue;
        }
        let n = 1 + r.below(wide);
        let row: Vec<String> = (0..n)
            .map(|j| match r.below(12) {
                0..=2 => String::new(),
                3 => format!("\"q,{i}{j}\""),
                4 => format!("\"say \"\"{i}{j}\"\"\""),
                5 => format!("\"two{eol}lines {i}{j}\""),
                6 => format!("=SUM(A{i}:B{j})"),
                7 => format!("\u{e9}\u{4e2d}{i}{j}"),
                8 if r.chance(600) => pick(
                    r,
                    &[" ", "  ", "\t", "0", "FALSE", "-", " lead", "trail ", "'", "=A1", "\" \"", "N/A", "null", "\"\n\""],
                )
                .to_string(),
                8 => format!(" pad {i}{j} "),
                _ => format!("old{i}{j}"),
            })
            .collect();
        s.push_str(&row.join(","));
        if i + 1 < rows || r.chance(800) {
            s.push_str(eol);
        }
    }
    s.into_bytes()
}

/// the same, further down and to the right
pub fn csv_at(d: Vec<u8>, shift: (u32, u32)) -> Vec<u8> {
    if shift == (0, 0) || d.contains(&b'"') {
        return d;
    }
    let mut o = "up\n".repeat(shift.0 as usize).into_bytes();
    for line in d.split_inclusive(|c| *c == b'\n') {
        if !matches!(line, b"\n" | b"\r\n") {
            o.extend(std::iter::repeat(b',').take(shift.1 as usize));
        }
        o.extend_from_slice(line);
    }
    o
}

fn junk(r: &mut Rng, xl: bool) -> Vec<u8> {
    if xl {
        let mut d = old_xlsx(r);
        match r.below(3) {
            0 => d.truncate(r.below(d.len() as u64) as usize),
            1 => d = b"not a workbook".to_vec(),
            _ => d.clear(),
        }
        d
    } else {
        let mut d = any_csv(r);
        d.extend_from_slice(b"caf\xe9,\xff\n");
        d
    }
}

pub fn gen_c13(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let mut o = proj_opts(r);
    o.cyclic = false;
    o.mods = (1, 2);
    o.mains = 2;
    o.rows = (1, 6);
    o.cols = (1, 6);
    let mut p = gen_proj(r, &o);
    let shift = some_shift(r);
    shift_proj(&mut p, shift);
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let xl = r.chance(400);
    let name = some_name(r, if xl { "xlsx" } else { "csv" });
    let tdir = if r.chance(200) { "/data" } else { dir };
    fs.mkdirs(tdir);
    let t = format!("{tdir}/{name}");
    let mut real = t.clone();
    if r.chance(80) {
        real = crate::props2::behind_link(r, &mut fs, &t);
    }
    let make = |r: &mut Rng| if xl { old_xlsx_at(r, shift) } else { csv_at(any_csv(r), shift) };
    if r.chance(850) {
        let d = make(r);
        fs.put(&real, &d, WALL0 - 7200 * SEC);
    }
    let mut l = Live::new(cx, fs, WALL0);
    let n = 2 + r.below(if l.cx.thorough { 10 } else { 5 });
    for k in 0..n {
        // the user works on it
        if k > 0 || !l.fs.0.contains_key(&real) {
            match r.below(10) {
                0..=2 => {
                    let data = make(r);
                    l.push(Step::Write { path: real.clone(), data, age: 0 });
                }
                3 => {
                    let data = junk(r, xl);
                    l.push(Step::Write { path: real.clone(), data, age: 0 });
                }
                4 => {
                    l.push(Step::Remove(real.clone()));
                }
                _ => {}
            }
            if r.chance(500) {
                for name in edit(r, &mut p, &o) {
                    let data = p.get(&name).unwrap().text().into_bytes();
                    l.push(Step::Write { path: Proj::path(dir, &name), data, age: 0 });
                }
            }
        }
        let main = if r.chance(700) { "main" } else { "main1" };
        let (cwd, file) = spell(r, dir, main);
        let mut a = vec!["-s".to_string()];
        if r.chance(150) && l.fs.0.contains_key(&real) {
            a.push("-b".into());
        }
        if r.chance(150) {
            a.push("--no-cache".into());
        }
        if xl && r.chance(500) {
            a.extend(["-n".to_string(), pick(r, &["main", "other", "third", "new"]).to_string()]);
        }
        a.extend(["-o".to_string(), t.clone(), file]);
        let mut q = proc(&cwd, &[], r);
        q.args = a;
        let mut b = Plan::simple(vec![q.clone()]);
        vary(r, &mut b);
        if r.chance(120) {
            let mut q2 = q.clone();
            q2.pid += 50;
            q2.hash_seed = r.next();
            b.procs.push(q2);
            b.sched = rand_sched(r, 150_000);
        } else if r.chance(450) {
            // interrupted or failing builds
            let mut probe = Plan::simple(vec![q]);
            probe.budget = b.budget;
            let (f, w) = (l.fs.clone(), l.wall);
            let base = l.cx.run(&f, &probe, w);
            let ops = ops_of(&base, 0);
            if ops.is_empty() {
                continue;
            }
            match r.below(4) {
                0 => {
                    let m = 1 + r.below(ops.len() as u64 + 1) as u32;
                    let mut f = FaultSpec::at(*pick(r, &[fk::KILL_BEFORE, fk::KILL_AFTER]), 0, m, 0);
                    if r.chance(500) {
                        f.all = true;
                        b.power_loss = Some(r.next());
                    }
                    b.faults.push(f);
                }
                1 => b.disk_free = r.below(400) as i64,
                _ => {
                    for _ in 0..1 + r.below(2) {
                        b.faults.extend(rand_fault(r, &ops));
                    }
                }
            }
        }
        l.push(Step::Run(b));
    }
    let (start, wall, steps) = (l.start.clone(), l.wall0, std::mem::take(&mut l.steps));
    vec![scenario("C13", "builds with --safe", &start, wall, steps)]
}

type Cells = BTreeMap<xlsx::Pos, String>;

/// the cells of a target by sheet; `None`: cannot be read
fn cells_of(fs: &Fs, t: &str) -> Option<BTreeMap<String, Cells>> {
    let Some(d) = fs.file_follow(t) else { return Some(BTreeMap::new()) };
    if is_csv(&t) {
        let c = xlsx::csv_cells(d).ok()?;
        Some([(String::new(), c)].into())
    } else {
        xlsx::read(d).ok()
    }
}

pub fn chk_c13(cx: &mut Ctx, before: &Fs, wall: i64, plan: &Plan, r: &RunResult) -> V {
    if !plan.procs.iter().all(|p| p.args.iter().any(|a| a == "-s")) {
        return None;
    }
    let t = target_of(&plan.procs[0])?;
    let real = real_target(before, &plan.procs[0])?;
    let existed = before.0.contains_key(&real);
    if existed {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    let Some(old) = cells_of(before, &t) else {
        cx.st.note("unreadable target");
        return if node_hash(before, &real) == node_hash(&r.fs, &real) {
            None
        } else {
            v("unreadable target replaced", format!("{t}: {} before, {} after", out_of(before, &t).show(), out_of(&r.fs, &t).show()))
        };
    };
    if node_hash(before, &real) == node_hash(&r.fs, &real) && !(0..plan.procs.len()).any(|p| cls(r, p) == Cls::Ok) {
        return None;
    }
    if existed && !r.fs.0.contains_key(&real) {
        return v("existing target removed", format!("{t} is gone; {}", r.procs[0].describe()));
    }
    let Some(now) = cells_of(&r.fs, &t) else {
        return v("target unreadable after the build", format!("{t}: {} before, {} after", out_of(before, &t).show(), out_of(&r.fs, &t).show()));
    };
    let mut error_rewritten = None;
    for (s, cells) in &old {
        for (p, val) in cells {
            let n = now.get(s).and_then(|c| c.get(p));
            if n != Some(val) {
                if is_excel(&t) && val.starts_with('#') && n.is_some_and(|n| n == "#VALUE!") {
                    // a finding on record: looked at last, so that it hides nothing else
                    error_rewritten = v(
                        "error value of an existing cell rewritten",
                        format!("{t} {s} {}: {val:?} before, {n:?} after", xlsx::a1(*p)),
                    );
                    continue;
                }
                return v(
                    "existing value lost or changed",
                    format!("{t} {s} {}: {val:?} before, {n:?} after ({})", xlsx::a1(*p), r.procs[0].describe()),
                );
            }
        }
    }
    // what a build into nothing gives
    let mut empty = before.clone();
    empty.remove(&real);
    let mut fresh: Vec<Option<BTreeMap<String, Cells>>> = vec![];
    for p in &plan.procs {
        let mut q = p.clone();
        q.args.retain(|a| a != "-b");
        let c = cx.clean(&empty, &q, wall);
        fresh.push(if c.cls == Cls::Ok { cells_of(&c.fs, &t) } else { None });
    }
    for (s, cells) in &now {
        for (p, val) in cells {
            if old.get(s).is_some_and(|c| c.contains_key(p)) {
                continue;
            }
            if !fresh.iter().flatten().any(|f| f.get(s).and_then(|c| c.get(p)) == Some(val)) {
                return v("a value from nowhere", format!("{t} {s} {}: {val:?}; a build into a new file has {:?}", xlsx::a1(*p), fresh));
            }
        }
    }
    if plan.procs.len() == 1 && cls(r, 0) == Cls::Ok && plan.power_loss.is_none() {
        let Some(f) = &fresh[0] else { return None };
        for (s, cells) in f {
            for (p, val) in cells {
                let n = now.get(s).and_then(|c| c.get(p));
                if n.is_none() {
                    return v("empty cell not filled in", format!("{t} {s} {}: compiled to {val:?}, nothing in the output", xlsx::a1(*p)));
                }
            }
        }
    }
    error_rewritten
}

// ------------------------------------------------------------------ C14

pub fn gen_c14(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let mut o = proj_opts(r);
    o.cyclic = false;
    o.mods = (1, 2);
    o.rows = (1, 5);
    let mut p = gen_proj(r, &o);
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let xl = r.chance(200);
    let name = match r.below(4) {
        0 => format!("a.b-c.{}", if xl { "xlsx" } else { "csv" }),
        _ => some_name(r, if xl { "xlsx" } else { "csv" }),
    };
    let tdir = if r.chance(300) { "/data" } else { dir };
    fs.mkdirs(tdir);
    let t = format!("{tdir}/{name}");
    let mut real = t.clone();
    if r.chance(80) {
        real = crate::props2::behind_link(r, &mut fs, &t);
    }
    // (now and then one that takes more than a few reads and writes to copy)
    let make = |r: &mut Rng| {
        if xl {
            old_xlsx(r)
        } else if r.chance(80) {
            let (n, w) = ((60 + r.below(240)) * 1024, 4 + r.below(400) as usize);
            let mut d = vec![];
            while d.len() < n as usize {
                let cell: String = (0..w).map(|_| *pick(r, &['a', 'b', 'c', ' ', '1', '2', 'é'])).collect();
                d.extend(format!("{},{cell}\n", d.len()).bytes());
            }
            d
        } else {
            old_csv(r)
        }
    };
    let d = make(r);
    fs.put(&real, &d, WALL0 - 7200 * SEC);
    if r.chance(100) {
        if let Some(Node::File { mode, .. }) = fs.0.get_mut(&real) {
            *mode = *pick(r, &[0o600, 0o444, 0]);
        }
    }
    let mut l = Live::new(cx, fs, WALL0 + r.below(86_400) as i64 * SEC);
    let n = 2 + r.below(if l.cx.thorough { 12 } else { 6 });
    for k in 0..n {
        if k > 0 {
            if r.chance(700) {
                for name in edit(r, &mut p, &o) {
                    let data = p.get(&name).unwrap().text().into_bytes();
                    l.push(Step::Write { path: Proj::path(dir, &name), data, age: 0 });
                }
            }
            if r.chance(300) {
                let data = make(r);
                l.push(Step::Write { path: real.clone(), data, age: 0 });
            }
            if r.chance(400) {
                // time passes; or the clock is set back to when the last backup was made
                let d = match r.below(8) {
                    0 => 86_400 * SEC,
                    1 => 61 * SEC,
                    2 => SEC,
                    3 => -SEC,
                    4 => -61 * SEC,
                    5 => WALL0 - l.wall,
                    6 => -86_400 * SEC,
                    _ => 7,
                };
                l.push(Step::Clock(d));
            }
        }
        let procs = if r.chance(250) { 2 + r.below(3) as usize } else { 1 };
        let mut b = Plan::simple(vec![]);
        for i in 0..procs {
            let (cwd, file) = spell(r, dir, "main");
            let mut a = vec![];
            if r.chance(850) {
                a.push("-b".to_string());
            }
            if r.chance(200) {
                a.push("-s".to_string());
            }
            if r.chance(100) {
                a.push("--no-cache".to_string());
            }
            a.extend(["-o".to_string(), t.clone(), file]);
            let mut q = proc(&cwd, &[], r);
            q.args = a;
            q.pid = 100 + 7 * i as u32;
            b.procs.push(q);
        }
        vary(r, &mut b);
        if procs > 1 {
            b.sched = rand_sched(r, 60_000 * procs as u64);
        }
        if r.chance(200) {
            b.copy_range_mode = r.below(4) as u32;
        }
        // a clock that hardly moves, so that names collide
        if r.chance(300) {
            b.op_cost = 0;
            b.clock_cost = 0;
        }
        if r.chance(550) {
            let mut probe = b.clone();
            probe.procs.truncate(1);
            probe.sched = SchedSpec::Default;
            let (f, w) = (l.fs.clone(), l.wall);
            let base = l.cx.run(&f, &probe, w);
            let ops = ops_of(&base, 0);
            if !ops.is_empty() {
                match r.below(4) {
                    0 => {
                        let m = 1 + r.below(ops.len() as u64 + 1) as u32;
                        let kind = *pick(r, &[fk::KILL_BEFORE, fk::KILL_AFTER]);
                        let mut f = FaultSpec::at(kind, 0, m, 0);
                        if r.chance(500) {
                            f.all = true;
                            b.power_loss = Some(r.next());
                        }
                        b.faults.push(f);
                    }
                    1 => b.disk_free = r.below(1 + 2 * d.len() as u64) as i64,
                    2 => {
                        // around the backup
                        let (stem, e) = name.rsplit_once('.').unwrap();
                        let _ = e;
                        let hot: Vec<_> = ops.iter().filter(|o| o.2.contains(&format!("/{stem}")) && !o.2.ends_with(".csvpo")).cloned().collect();
                        if !hot.is_empty() {
                            for _ in 0..1 + r.below(2) {
                                b.faults.extend(rand_fault(r, &hot));
                            }
                        }
                    }
                    _ => {
                        for _ in 0..1 + r.below(2) {
                            b.faults.extend(rand_fault(r, &ops));
                        }
                    }
                }
            }
        }
        l.push(Step::Run(b));
    }
    let (start, wall, steps) = (l.start.clone(), l.wall0, std::mem::take(&mut l.steps));
    vec![scenario("C14", "builds with --backup", &start, wall, steps)]
}

/// files the program may replace as it likes
fn scratch(p: &str) -> bool {
    is_obj(p) || p.ends_with(".csvpo") || p.ends_with(".tmp")
}

pub fn chk_c14(cx: &mut Ctx, _mem: &mut Mem, before: &Fs, plan: &Plan, r: &RunResult) -> V {
    let t = target_of(&plan.procs[0])?;
    let real = real_target(before, &plan.procs[0])?;
    let dir = t[..t.rfind('/').unwrap_or(0) + 1].to_string();
    let backs: Vec<bool> = plan.procs.iter().map(|p| p.args.iter().any(|a| a == "-b")).collect();
    let existed = before.0.contains_key(&real);
    if !existed || !backs.contains(&true) {
        return None;
    }
    cx.st.nontrivial.insert(r.hist_hash);
    let keep = |n: &str| n != real && n != t && !scratch(n);
    let n = plan.procs.len();
    let mut cur: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let old = node_hash(before, &real);
    // contents the target has had so far
    let mut held: BTreeSet<(u64, u64)> = [old].into();
    cur.insert(real.clone(), old);
    let mut made: Vec<BTreeSet<String>> = vec![BTreeSet::new(); n];
    let mut by: BTreeMap<String, usize> = BTreeMap::new();
    // by processes that have changed the target
    let mut changed_by: BTreeSet<usize> = BTreeSet::new();
    let has = |made: &BTreeSet<String>, cur: &BTreeMap<String, (u64, u64)>, held: &BTreeSet<(u64, u64)>| {
        made.iter().any(|b| cur.get(b).is_some_and(|h| held.contains(h)))
    };
    for e in &r.evs {
        for name in [&e.path, &e.path2] {
            if name.is_empty() {
                continue;
            }
            let Some(h) = changed(e, name) else { continue };
            let p = e.proc as usize;
            if p >= n {
                continue;
            }
            if *name == real {
                if cur[&real] != h {
                    if backs[p] && !has(&made[p], &cur, &held) {
                        return v(
                            "target changed without a backup",
                            format!(
                                "{} of {real} (operation {} of process {p}) and no file beside it holds what it held before; made {:?}",
                                op::name(e.class),
                                e.op,
                                made[p]
                            ),
                        );
                    }
                    changed_by.insert(p);
                    held.insert(h);
                    cur.insert(real.clone(), h);
                }
                continue;
            }
            if !keep(name) || !(name.starts_with(&dir)) && !before.0.contains_key(name) {
                continue;
            }
            if before.0.contains_key(name) {
                if node_hash(before, name) != h {
                    return v("an existing file is overwritten or removed", format!("{} of {name} (operation {} of process {p}) by `{}`", op::name(e.class), e.op, plan.procs[p].args.join(" ")));
                }
                continue;
            }
            match by.get(name) {
                None => {
                    if h.0 != 0 {
                        by.insert(name.clone(), p);
                        made[p].insert(name.clone());
                    }
                }
                Some(q) if *q != p => {
                    return v("another build's backup is overwritten or removed", format!("{} of {name} (operation {} of process {p}), made by process {q}", op::name(e.class), e.op));
                }
                Some(_) if h.0 == 0 => {
                    by.remove(name);
                    made[p].remove(name);
                }
                Some(_) => {}
            }
            cur.insert(name.clone(), h);
        }
    }
    // and at the end
    for name in before.0.keys() {
        if keep(name) && node_hash(before, name) != node_hash(&r.fs, name) {
            return v("an existing file is overwritten or removed", format!("{name}"));
        }
    }
    let now = node_hash(&r.fs, &real);
    let survivors: BTreeSet<(u64, u64)> =
        r.fs.0.keys().filter(|k| k.starts_with(&dir) && keep(k) && !before.0.contains_key(*k)).map(|k| node_hash(&r.fs, k)).collect();
    if r.power_lost {
        // all are gone; whatever changed the target for good must have left a backup
        if now != old && backs.iter().all(|b| *b) && !survivors.contains(&old) {
            return v("no backup after power loss", format!("{real}: {} before, {} after; beside it nothing with the old contents", out_of(before, &real).show(), out_of(&r.fs, &real).show()));
        }
        return None;
    }
    let undeleted: BTreeSet<&String> = r.evs.iter().filter(|e| e.class == op::UNLINK && e.res < 0).map(|e| &e.path).collect();
    let mode = |fs: &Fs, p: &str| match fs.0.get(p) {
        Some(Node::File { mode, .. }) => *mode,
        _ => 0,
    };
    for p in 0..n {
        if !backs[p] {
            continue;
        }
        if r.procs[p].state == ps::EXITED {
            // what looks like a backup is one
            for b in &made[p] {
                if r.fs.0.contains_key(b) && !undeleted.contains(b) {
                    if !held.contains(&node_hash(&r.fs, b)) {
                        return v("a backup is not what the target held", format!("{b} was left by process {p} ({}); it is {}", r.procs[p].describe(), out_of(&r.fs, b).show()));
                    }
                    if mode(&r.fs, b) != mode(before, &real) {
                        return v("a backup has other permissions", format!("{b}: mode {:o}; {real} has {:o}", mode(&r.fs, b), mode(before, &real)));
                    }
                }
            }
        }
        let alive = made[p].iter().any(|b| held.contains(&node_hash(&r.fs, b)));
        if changed_by.contains(&p) && !alive {
            return v("target changed without a backup", format!("process {p} ({}) left no file with what {real} held", r.procs[p].describe()));
        }
        if cls(r, p) == Cls::Ok && !alive {
            return v("exit 0 without a backup", format!("process {p} (`{}`) left no file with what {real} held; made {:?}", plan.procs[p].args.join(" "), made[p]));
        }
    }
    None
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug)]
enum PosVar {
    Cell { row: u32, col: u32, fill: Option<(u32, u32)> },
    Row { row: u32, fill: Option<(u32, u32)> },
}
impl PosVar {
    fn at(&self, row: u32) -> String {
        match self {
            PosVar::Cell { row: r0, col, fill: None } => xlsx::a1((*r0, *col)),
            PosVar::Cell { col, fill: Some((s, n)), .. } => {
                if (*s..s + n).contains(&row) {
                    xlsx::a1((row, *col))
                } else {
                    format!("{}:{}", xlsx::a1((*s, *col)), xlsx::a1((s + n - 1, *col)))
                }
            }
            PosVar::Row { row: r0, fill: None } => format!("{0}:{0}", r0 + 1),
            PosVar::Row { fill: Some((s, n)), .. } => {
                if (*s..s + n).contains(&row) {
                    format!("{0}:{0}", row + 1)
                } else {
                    format!("{}:{}", s + 1, s + n)
                }
            }
        }
    }
}

fn value(p: &Module, vars: &BTreeMap<String, PosVar>, e: &Expr, row: u32, env: &BTreeMap<String, Norm>) -> Norm {
    match e {
        Expr::Int(i) => Norm { k: *i, ..Default::default() },
        Expr::Str(s) => Norm::atom(format!("\"{s}\"")),
        Expr::Op(..) | Expr::Raw(_) => Norm::atom("?".into()),
        Expr::Add(a, b) => value(p, vars, a, row, env).plus(value(p, vars, b, row, env)),
        Expr::Ref(n) => {
            if let Some(v) = env.get(n) {
                v.clone()
            } else if let Some(v) = vars.get(n) {
                Norm::atom(v.at(row))
            } else if let Some(d) = p.def(n, false) {
                value(p, vars, &d.body, row, &BTreeMap::new())
            } else {
                Norm::atom(n.clone())
            }
        }
        Expr::Call(f, args) => {
            let a: Vec<Norm> = args.iter().map(|x| value(p, vars, x, row, env)).collect();
            match p.def(f, true) {
                Some(Def { params: Some(ps), body, .. }) => value(p, vars, body, row, &ps.iter().cloned().zip(a).collect()),
                _ => Norm::atom(format!("{f}({})", a.iter().map(Norm::show).collect::<Vec<_>>().join(","))),
            }
        }
    }
}

/// (rows of the output, non-empty cells: text or `=` and the sum it stands for,
/// and the options of the rows and cells)
fn layout(m: &Module) -> (u32, BTreeMap<xlsx::Pos, String>, Vec<(u32, u32, String, String)>) {
    let fixed: u32 = m.rows.iter().map(|r| r.fill.map_or(1, |f| f.unwrap_or(0))).sum();
    let rest = 1000u32.saturating_sub(fixed);
    let mut vars = BTreeMap::new();
    let mut at = 0;
    let mut starts = vec![];
    for row in &m.rows {
        let n = row.fill.map_or(1, |f| f.unwrap_or(rest));
        starts.push((at, n));
        let fill = row.fill.map(|_| (at, n));
        if n > 0 {
            if let Some(v) = &row.var {
                vars.insert(v.clone(), PosVar::Row { row: at, fill });
            }
            for (j, c) in row.cells.iter().enumerate() {
                if let CellSrc::Var(v, _) | CellSrc::Mixed(Some(v), ..) = c {
                    vars.insert(v.clone(), PosVar::Cell { row: at, col: j as u32, fill });
                }
            }
        }
        at += n;
    }
    let mut out = BTreeMap::new();
    let mut opts = vec![];
    for (row, (s, n)) in m.rows.iter().zip(starts) {
        for i in s..s + n {
            for (j, c) in row.cells.iter().enumerate() {
                let o = if let CellSrc::Opt(o, _) | CellSrc::Mixed(_, o, _) = c { o.clone() } else { String::new() };
                if !o.is_empty() || !row.opts.is_empty() {
                    opts.push((i, j as u32, row.opts.join(" "), o));
                }
                let t = match c {
                    CellSrc::Text(t) | CellSrc::Var(_, t) | CellSrc::Opt(_, t) => t.clone(),
                    CellSrc::Formula(e) | CellSrc::Mixed(_, _, e) => format!("={}", value(m, &vars, e, i, &BTreeMap::new()).show()),
                    CellSrc::Empty => continue,
                };
                if !t.is_empty() {
                    out.insert((i, j as u32), t);
                }
            }
        }
    }
    (at, out, opts)
}

const CELLV: [&str; 5] = ["c_one", "c_two", "c_three", "c_four", "c_five"];
const ROWV: [&str; 4] = ["r_one", "r_two", "r_three", "r_four"];

pub fn gen_c17(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let mut g = Gen::new();
    let mut m = Module { name: "main".into(), ..Default::default() };
    let (nc, nr) = (r.below(6) as usize, r.below(5) as usize);
    let mut names: Vec<String> = CELLV[..nc].iter().chain(&ROWV[..nr]).map(|s| s.to_string()).collect();
    // definitions that speak about cells
    let mut fns: Vec<(String, usize)> = vec![];
    for k in 0..r.below(3) {
        let n = format!("v_{k}");
        m.defs.push(Def { name: n.clone(), params: None, body: g.expr(r, 2, &names, &[], &[]) });
        names.push(n);
    }
    for k in 0..r.below(3) {
        let n = format!("f_{k}");
        let ps: Vec<String> = (0..1 + r.below(2)).map(|i| format!("p_{k}_{i}")).collect();
        let body = g.expr(r, 2, &names, &fns, &ps);
        let len = ps.len();
        m.defs.push(Def { name: n.clone(), params: Some(ps), body });
        fns.push((n, len));
    }
    let mut calls = fns.clone();
    calls.push(("SUM".into(), 2));
    let top = if r.chance(250) { 40 } else { 9 };
    let rows = 1 + r.below(top) as usize;
    let cols = 1 + r.below(6) as usize;
    let big = r.chance(60);
    let looks = ["t=bold".to_string(), "lock".into(), "note='hi'".into(), cell_opt(r)];
    let mut inf = false;
    let mut total = 0;
    let tall_fills = r.chance(6);
    for i in 0..rows {
        let mut row = RowSrc::default();
        if r.chance(350) {
            row.fill = Some(Some(match r.below(12) {
                0 => 0,
                1 => 1,
                2 => 20 + r.below(60) as u32,
                3..=5 if tall_fills => 300 + r.below(900) as u32,
                3 if big => 200 + r.below(300) as u32,
                _ => 2 + r.below(6) as u32,
            }));
            total += row.fill.unwrap().unwrap();
            if total > 900 && !(tall_fills && total < 3000) {
                row.fill = Some(Some(2));
            }
            if !inf && big && !tall_fills && r.chance(400) {
                inf = true;
                row.fill = Some(None);
            }
        }
        let n = if r.chance(300) { 1 + r.below(cols as u64) as usize } else { cols };
        let pad = if !r.chance(50) { 0 } else if total < 60 && r.chance(120) { 700 } else { *pick(r, &[24, 24, 25, 50]) };
        for _ in 0..pad {
            row.cells.push(CellSrc::Empty);
        }
        for j in 0..n {
            row.cells.push(match r.below(12) {
                0..=1 if r.chance(80) => CellSrc::Text(pick(r, &["0", "000", "1.50", "007", "TRUE", "a;b", "-12", "+", "é", "0.0"]).to_string()),
                0..=1 => CellSrc::Text(format!("t{i}x{j}")),
                2 if j > 0 => CellSrc::Empty,
                3 => CellSrc::Opt(if r.chance(400) { pick(r, &looks).clone() } else { cell_opt(r) }, format!("o{i}x{j}")),
                c => {
                    let d = 1 + r.below(2) as u32;
                    let e = g.expr(r, d, &names, &calls, &[]);
                    if c == 4 && r.chance(500) {
                        CellSrc::Mixed(None, cell_opt(r), e)
                    } else {
                        CellSrc::Formula(e)
                    }
                }
            });
        }
        if row.cells[0] == CellSrc::Empty && row.cells.len() == 1 {
            row.cells[0] = CellSrc::Text("x".into());
        }
        if r.chance(150) {
            row.opts.push(if r.chance(400) { pick(r, &looks).clone() } else { cell_opt(r) });
        }
        m.rows.push(row);
    }
    if total < 100 && !inf && r.chance(12) {
        // many rows (more than a fill can make)
        let n = *pick(r, &[130, 300, 700, 1003, 1100, 2050]);
        let at = r.below(m.rows.len() as u64 + 1) as usize;
        let rest = m.rows.split_off(at);
        m.rows.extend((0..n).map(|i| RowSrc { cells: vec![CellSrc::Text(format!("l{i}"))], ..Default::default() }));
        m.rows.extend(rest);
    }
    let rows = m.rows.len();
    // where the variables are bound: not in rows that do not exist in the end
    let ok: Vec<usize> = (0..rows).filter(|i| m.rows[*i].fill != Some(Some(0))).collect();
    if ok.is_empty() {
        return vec![];
    }
    for v in &CELLV[..nc] {
        let i = *pick(r, &ok);
        let j = r.below(m.rows[i].cells.len() as u64) as usize;
        if let (CellSrc::Formula(e), true) = (&m.rows[i].cells[j], r.chance(400)) {
            m.rows[i].cells[j] = CellSrc::Mixed(Some(v.to_string()), String::new(), e.clone());
        } else if let (CellSrc::Mixed(None, o, e), true) = (&m.rows[i].cells[j], r.chance(800)) {
            m.rows[i].cells[j] = CellSrc::Mixed(Some(v.to_string()), o.clone(), e.clone());
        } else if matches!(m.rows[i].cells[j], CellSrc::Var(..) | CellSrc::Mixed(Some(_), ..)) {
            m.rows[i].cells.push(CellSrc::Var(v.to_string(), String::new()));
        } else {
            m.rows[i].cells[j] = CellSrc::Var(v.to_string(), if r.chance(500) { format!("w{i}") } else { String::new() });
        }
    }
    for v in &ROWV[..nr] {
        let i = *pick(r, &ok);
        if m.rows[i].var.is_none() {
            m.rows[i].var = Some(v.to_string());
        } else {
            // nothing is bound to it: it stays a name
        }
    }
    let many = layout(&m).1.len();
    if r.chance(100) && many < 400 {
        // long chains of definitions, in small sheets (each cell follows the chain)
        crate::proj::deepen(r, &mut m, many < 40);
    }
    let (n, cells, opts) = layout(&m);
    let dir = some_dir(r);
    let mut fs = Fs::new();
    fs.mkdirs(dir);
    fs.put(&Proj::path(dir, "main"), m.text().as_bytes(), WALL0 - 3600 * SEC);
    let mut steps = vec![];
    let k = 2 + r.below(if cx.thorough { 8 } else { 4 });
    let k = if n > 300 { 2 } else { k };
    for i in 0..k {
        let ext = if r.chance(250) && n < 100 { "xlsx" } else { "csv" };
        let mut q = proc(dir, &["-o", &format!("o{i}.{ext}"), "main.csvpp"], r);
        let top = if r.chance(300) { 16 } else { 5 };
        q.cpus = 1 + r.below(top) as u32;
        if r.chance(200) {
            q.args.insert(0, "--no-cache".into());
        }
        let mut b = Plan::simple(vec![q]);
        vary(r, &mut b);
        if b.sched == SchedSpec::Default && r.chance(700) {
            b.sched = rand_sched(r, 30_000 + 2_000 * cells.len() as u64);
        }
        b.budget = 400_000_000;
        steps.push(Step::Run(b));
    }
    let mut sc = scenario("C17", "positions", &fs, WALL0, steps);
    sc.fixed = true;
    sc.aux = serde_json::json!({"rows": n, "opts": opts, "cells": cells.iter().map(|(p, t)| serde_json::json!([p.0, p.1, t])).collect::<Vec<_>>()});
    vec![sc]
}

/// Every cell of a workbook looks like the only cell of one whose row and cell have the same options.
fn looks_of_cells(cx: &mut Ctx, sc: &Scenario, data: &[u8]) -> V {
    let whole = match xlsx::whole(data) {
        Ok(w) => w.into_values().next().unwrap_or_default(),
        Err(e) => return v("no readable output", e),
    };
    let opts: Vec<(u32, u32, String, String)> = serde_json::from_value(sc.aux["opts"].clone()).unwrap_or_default();
    let opts: BTreeMap<xlsx::Pos, (String, String)> = opts.into_iter().map(|(y, x, a, b)| ((y, x), (a, b))).collect();
    let texts: BTreeSet<xlsx::Pos> = sc.aux["cells"].as_array()?.iter().filter_map(|c| Some((c[0].as_u64()? as u32, c[1].as_u64()? as u32))).collect();
    let mut known: BTreeMap<(String, String), xlsx::Whole> = BTreeMap::new();
    let at: BTreeSet<xlsx::Pos> = whole.iter().filter(|(_, w)| w.is_there || !w.notes.is_empty() || !w.valid.is_empty()).map(|(p, _)| *p).chain(opts.keys().copied()).collect();
    for p in at {
        let key = opts.get(&p).cloned().unwrap_or_default();
        if !known.contains_key(&key) {
            let part = |mark: &str, o: &str| if o.is_empty() { String::new() } else { format!("{mark}[[{o}]]") };
            let text = format!("---\n\"{}{}x\"\n", part("!", &key.0), part("", &key.1));
            let mut fs = Fs::new();
            fs.mkdirs("/lone");
            fs.put("/lone/lone.csvpp", text.as_bytes(), WALL0 - 3600 * SEC);
            let q = ProcSpec { cwd: "/lone".into(), args: ["--no-cache", "-o", "lone.xlsx", "lone.csvpp"].map(String::from).to_vec(), ..plan_proc(sc)? };
            let c = cx.clean(&fs, &q, WALL0);
            let w = c.fs.file_follow("/lone/lone.xlsx").and_then(|d| xlsx::whole(d).ok()).and_then(|w| w.into_values().next()?.remove(&(0, 0)));
            let Some(w) = w else { return v("build fails", format!("{text:?} alone: {:?} {}", c.cls, clip(&c.err, 300))) };
            known.insert(key.clone(), w);
        }
        let want = &known[&key];
        let mut got = whole.get(&p).cloned().unwrap_or_default();
        // some conditions speak of the cell itself
        for c in &mut got.valid {
            *c = own_address(c, &xlsx::a1(p));
        }
        // (an empty field at the end of a row is none)
        if !got.is_there && got.notes.is_empty() && got.valid.is_empty() && key.1.is_empty() && !texts.contains(&p) {
            continue;
        }
        if want.format != got.format || want.notes != got.notes || want.valid != got.valid {
            return v(
                "wrong format, note or validation",
                format!("{} with options {key:?}: {:?} {:?} {:?}; alone: {:?} {:?} {:?}", xlsx::a1(p), got.format, got.notes, got.valid, want.format, want.notes, want.valid),
            );
        }
    }
    None
}
/// `t` with the reference `a` in it replaced by A1
fn own_address(t: &str, a: &str) -> String {
    let mut o = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(a) {
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '$' || c == '_');
        let whole = !word(rest[..i].chars().next_back()) && !word(rest[i + a.len()..].chars().next());
        o.push_str(&rest[..i]);
        o.push_str(if whole { "A1" } else { a });
        rest = &rest[i + a.len()..];
    }
    o + rest
}
fn plan_proc(sc: &Scenario) -> Option<ProcSpec> {
    sc.steps.iter().find_map(|s| if let Step::Run(b) = s { b.procs.first().cloned() } else { None })
}

pub fn chk_c17(cx: &mut Ctx, sc: &Scenario, _i: usize, plan: &Plan, r: &RunResult) -> V {
    if r.tasks > 1 && r.switches > 0 {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    if cls(r, 0) != Cls::Ok {
        return v("build fails", format!("{} {} {:?}", r.procs[0].describe(), oc::name(r.outcome), clip(&String::from_utf8_lossy(&r.procs[0].err), 400)));
    }
    let t = target_of(&plan.procs[0])?;
    let csv = is_csv(&t);
    let data = r.fs.file_follow(&t)?;
    let got: Cells = if csv {
        match xlsx::csv_cells(data) {
            Ok(c) => c,
            Err(e) => return v("no readable output", e),
        }
    } else {
        match xlsx::read(data) {
            Ok(b) => b.into_values().next().unwrap_or_default(),
            Err(e) => return v("no readable output", e),
        }
    };
    if !csv {
        if let Some(x) = looks_of_cells(cx, sc, data) {
            return Some(x);
        }
    }
    if csv {
        let rows = xlsx::csv(data).map(|x| x.len() as u64).unwrap_or(0);
        let want = sc.aux["rows"].as_u64()?;
        if rows != want {
            return v("wrong number of rows", format!("{rows} instead of {want}"));
        }
    }
    let mut seen = 0;
    for c in sc.aux["cells"].as_array()? {
        let p = (c[0].as_u64()? as u32, c[1].as_u64()? as u32);
        let want = c[2].as_str()?;
        let g = got.get(&p).cloned().unwrap_or_default();
        seen += 1;
        let same = match want.strip_prefix('=') {
            Some(w) => norm_of_text(g.strip_prefix('=').unwrap_or(&g)).map(|n| n.show()).as_deref() == Some(w),
            // (in Excel text which looks like a number, or the like, is text all the same)
            None => g == want || (!csv && g.strip_prefix('\'') == Some(want)),
        };
        if !same {
            return v("wrong cell", format!("{} is {g:?}, it should be {want:?}", xlsx::a1(p)));
        }
    }
    if got.len() != seen {
        let extra: Vec<_> = got.iter().filter(|(p, _)| !sc.aux["cells"].as_array().unwrap().iter().any(|c| c[0] == p.0 && c[1] == p.1)).take(5).collect();
        return v("cells that are not in the source", format!("{extra:?}"));
    }
    None
}
