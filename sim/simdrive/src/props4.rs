//! C18: a build changes nothing but what it is for; C19: what was there does not show.
use crate::engine::*;
use crate::fs::{Fs, Node};
use crate::props::*;
use crate::props2::{self, changed};
use crate::props3;
use crate::proj::*;
use crate::scen::*;
use crate::xlsx;
use simworld::*;
use std::collections::{BTreeMap, BTreeSet};

fn dir_of(p: &str) -> &str {
    match p.rfind('/') {
        Some(0) | None => "/",
        Some(i) => &p[..i],
    }
}
fn stem(p: &str) -> &str {
    let b = p.rfind('/').map_or(0, |i| i + 1);
    match p[b..].rfind('.') {
        Some(i) if i > 0 => &p[..b + i],
        _ => p,
    }
}
/// where a name leads to through symbolic links
pub fn resolve(fs: &Fs, p: &str) -> String {
    let mut p = p.to_string();
    for _ in 0..10 {
        match fs.0.get(&p) {
            Some(Node::Link { target }) => p = abs(dir_of(&p), target),
            _ => break,
        }
    }
    p
}

/// The histories, faults and schedules of other properties, with other people's files around.
pub fn gen_c18(cx: &mut Ctx, r: &mut Rng, idx: u64) -> Vec<Scenario> {
    let mut all = match r.below(10) {
        0 => gen(cx, "C01", r, idx),
        1 => gen(cx, "C03", r, idx),
        2 => gen(cx, "C05", r, idx),
        3 | 4 => props2::gen_c10(cx, r),
        5 => props2::gen_c11(cx, r),
        6 | 7 => props2::gen_c12(cx, r),
        8 => props3::gen_c13(cx, r),
        _ => props3::gen_c14(cx, r),
    };
    // many variations of one and the same project: some of them will do
    while all.len() > 40 {
        let i = r.below(all.len() as u64) as usize;
        all.swap_remove(i);
    }
    for sc in &mut all {
        sc.property = "C18".into();
        let mut ts = BTreeSet::new();
        for s in &sc.steps {
            if let Step::Run(b) = s {
                for p in &b.procs {
                    ts.extend(target_of(p).map(|t| resolve(&sc.start, &t)));
                }
            }
        }
        let mut names = vec!["/proj/notes.tmp".to_string(), "/proj/gone.csvpo".into(), "/proj/.csvpp".into(), "/tmp/x.tmp".into(), "/proj/README".into()];
        for t in ts {
            let (d, f) = (dir_of(&t).to_string(), t[t.rfind('/').unwrap_or(0) + 1..].to_string());
            names.extend([format!("{t}.bak"), format!("{t}~"), format!("{t}.31007-0.tmp"), format!("{t}.tmp"), format!("{d}/.{f}.swp"), format!("{d}/old-{f}"), format!("{}-2020_01_01.csv", stem(&t))]);
        }
        for n in names {
            if r.chance(500) && sc.start.0.contains_key(dir_of(&n)) && !sc.start.0.contains_key(&n) {
                sc.start.put(&n, format!("somebody's {n}\n").as_bytes(), WALL0 - 90 * 86_400 * SEC);
            }
        }
        // targets with other permissions
        if r.chance(300) {
            let m = *pick(r, &[0o600, 0o640, 0o664, 0o666]);
            let t = sc.steps.iter().find_map(|s| match s {
                Step::Run(b) => target_of(&b.procs[0]),
                _ => None,
            });
            if let Some(Node::File { mode, .. }) = t.map(|t| resolve(&sc.start, &t)).and_then(|t| sc.start.0.get_mut(&t)) {
                *mode = m;
            }
        }
        // targets with nothing in them
        if r.chance(60) {
            let t = sc.steps.iter().find_map(|s| match s {
                Step::Run(b) => target_of(&b.procs[0]),
                _ => None,
            });
            let t = t.map(|t| resolve(&sc.start, &t));
            if let Some(Node::File { data, .. }) = t.filter(|t| is_csv(&t)).and_then(|t| sc.start.0.get_mut(&t)) {
                data.clear();
            }
        }
    }
    all
}

fn show(n: Option<&Node>) -> String {
    match n {
        None => "nothing".into(),
        Some(Node::Dir { mode }) => format!("a directory (mode {mode:o})"),
        Some(Node::Link { target }) => format!("a link to {target}"),
        Some(Node::File { data, mode, mtime }) => {
            format!("a file of {} bytes (mode {mode:o}, time {mtime}): {:?}", data.len(), clip(&String::from_utf8_lossy(data), 80))
        }
    }
}

pub fn chk_c18(cx: &mut Ctx, before: &Fs, plan: &Plan, r: &RunResult) -> V {
    let mut targets = BTreeSet::new();
    let mut tdirs = BTreeSet::new();
    let (mut cache, mut backups) = (false, 0);
    let mut dirs: BTreeSet<String> = ["/tmp".to_string()].into();
    for p in &plan.procs {
        if let Some(t) = target_of(p) {
            let to = resolve(before, &t);
            // (a backup lies beside the name given)
            dirs.extend([dir_of(&t).to_string(), dir_of(&to).to_string()]);
            tdirs.extend([dir_of(&t).to_string(), dir_of(&to).to_string()]);
            targets.insert(to);
        }
        cache |= !p.args.iter().any(|a| a == "--no-cache");
        backups += usize::from(p.args.iter().any(|a| a == "-b"));
    }
    // what others do meanwhile
    let mut others = BTreeSet::new();
    for f in &plan.faults {
        match &f.ext {
            Some(ExtSpec::Remove(p) | ExtSpec::Replace(p, _) | ExtSpec::ReplaceAtomic(p, _) | ExtSpec::Mkdir(p) | ExtSpec::Chmod(p, _)) => {
                others.insert(p.clone());
                others.insert(resolve(before, p));
                // what they do to a temporary file ends up in the target
                others.extend(targets.iter().filter(|t| p.starts_with(t.as_str())).cloned());
            }
            None => {}
        }
    }
    let stems: BTreeSet<&str> = before.0.iter().filter(|(p, n)| !is_obj(p) && !matches!(n, Node::Dir { .. })).map(|(p, _)| stem(p)).collect();
    for (p, n) in &before.0 {
        if p.ends_with(".csvpp") && !matches!(n, Node::Dir { .. }) {
            dirs.insert(dir_of(p).to_string());
        }
    }
    let object = |p: &str| cache && is_obj(p) && stems.contains(stem(p));
    let its = |p: &str| targets.contains(p) || object(p);
    let died = r.power_lost || r.procs.iter().any(|q| q.state != ps::EXITED);
    if r.evs.iter().any(|e| e.mutated) {
        cx.st.nontrivial.insert(r.hist_hash);
    }

    let mut undeleted = BTreeSet::new();
    for e in &r.evs {
        if e.class == op::UNLINK && e.res < 0 {
            undeleted.insert(e.path.clone());
        }
        for n in [&e.path, &e.path2] {
            if n.is_empty() || !e.mutated || others.contains(n) || its(n) {
                continue;
            }
            if changed(e, n).is_none() {
                continue;
            }
            if let Some(old) = before.0.get(n) {
                return v(
                    "changed a file which is none of its business",
                    format!("{} of {n} at operation {} of process {}; it was {}", op::name(e.class), e.op, e.proc, show(Some(old))),
                );
            }
            if !dirs.contains(dir_of(n)) {
                return v("writes to a place it has no business at", format!("{} of {n} at operation {} of process {}", op::name(e.class), e.op, e.proc));
            }
        }
    }
    for (p, n) in &before.0 {
        if others.contains(p) {
            continue;
        }
        let now = r.fs.0.get(p);
        if !its(p) {
            if now != Some(n) {
                return v("changed a file which is none of its business", format!("{p} was {}, is {}", show(Some(n)), show(now)));
            }
            continue;
        }
        if targets.contains(p) {
            match (n, now) {
                (Node::File { mode: a, .. }, Some(Node::File { mode: b, .. })) if a != b => {
                    return v("target has other permissions", format!("{p} was {}, is {}", show(Some(n)), show(now)));
                }
                (Node::File { .. }, Some(Node::File { .. })) => {}
                (a, Some(b)) if a == b => {}
                _ => return v("target is gone or something else", format!("{p} was {}, is {}", show(Some(n)), show(now))),
            }
        }
    }
    let mut extra = 0;
    for (p, n) in &r.fs.0 {
        if before.0.contains_key(p) || others.contains(p) {
            continue;
        }
        if !matches!(n, Node::File { .. }) {
            return v("made something which is no file", format!("{p}: {}", show(Some(n))));
        }
        if its(p) || died || undeleted.contains(p) {
            continue;
        }
        extra += 1;
        if extra > backups || !tdirs.contains(dir_of(p)) {
            return v("left a file behind", format!("{p}: {}", show(Some(n))));
        }
        // a backup is a whole one
        let held = |t: &String| node_hash(before, t) == node_hash(&r.fs, p) || r.evs.iter().any(|e| [&e.path, &e.path2].into_iter().any(|n| n == t && props2::changed(e, n) == Some(node_hash(&r.fs, p))));
        if others.is_empty() && !targets.iter().any(held) {
            return v("left a broken backup behind", format!("{p}: {}", show(Some(n))));
        }
    }
    None
}

// ------------------------------------------------------------------ C19

pub fn gen_c19(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let mut o = proj_opts(r);
    o.cyclic = false;
    o.mods = (1, 2);
    o.mains = 2;
    o.rows = (1, 6);
    o.cols = (1, 6);
    o.decor = r.chance(850);
    let mut p = gen_proj(r, &o);
    let shift = props2::some_shift(r);
    props2::shift_proj(&mut p, shift);
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let xl = r.chance(650);
    let t = format!("{dir}/{}", some_name(r, if xl { "xlsx" } else { "csv" }));
    let make = |r: &mut Rng| if xl { props2::old_xlsx_at(r, shift) } else { props3::csv_at(props3::any_csv(r), shift) };
    if r.chance(500) {
        let d = make(r);
        fs.put(&t, &d, WALL0 - 7200 * SEC);
    }
    let mut l = Live::new(cx, fs, WALL0);
    let n = 2 + r.below(if l.cx.thorough { 8 } else { 4 });
    for k in 0..n {
        if k > 0 {
            if r.chance(120) {
                let data = make(r);
                l.push(Step::Write { path: t.clone(), data, age: 0 });
            }
            if r.chance(650) {
                for name in edit(r, &mut p, &o) {
                    let data = p.get(&name).unwrap().text().into_bytes();
                    l.push(Step::Write { path: Proj::path(dir, &name), data, age: 0 });
                }
            }
        }
        let main = if r.chance(700) { "main" } else { "main1" };
        let (cwd, file) = spell(r, dir, main);
        let mut a = vec![];
        if r.chance(150) {
            a.push("-s".to_string());
        }
        if r.chance(100) && l.fs.0.contains_key(&t) {
            a.push("-b".into());
        }
        if r.chance(150) {
            a.push("--no-cache".into());
        }
        if xl && r.chance(400) {
            a.extend(["-n".to_string(), pick(r, &["main", "other", "new"]).to_string()]);
        }
        a.extend(["-o".to_string(), t.clone(), file]);
        let mut q = proc(&cwd, &[], r);
        q.args = a;
        let mut b = Plan::simple(vec![q.clone()]);
        vary(r, &mut b);
        if r.chance(250) {
            let mut probe = Plan::simple(vec![q]);
            probe.budget = b.budget;
            let (f, w) = (l.fs.clone(), l.wall);
            let base = l.cx.run(&f, &probe, w);
            let ops = ops_of(&base, 0);
            if !ops.is_empty() {
                if r.chance(500) {
                    let m = 1 + r.below(ops.len() as u64 + 1) as u32;
                    b.faults.push(FaultSpec::at(*pick(r, &[fk::KILL_BEFORE, fk::KILL_AFTER]), 0, m, 0));
                } else {
                    b.faults.extend(props2::rand_fault(r, &ops));
                }
            }
        }
        l.push(Step::Run(b));
    }
    let (start, wall, steps) = (l.start.clone(), l.wall0, std::mem::take(&mut l.steps));
    vec![scenario("C19", "builds over earlier builds", &start, wall, steps)]
}

/// Does the target hold what the build writes into a new file, over what was there `before`?
pub fn unlike_new(cx: &mut Ctx, before: &Fs, wall: i64, p: &ProcSpec, fs: &Fs) -> Option<String> {
    let t = target_of(p)?;
    let real = resolve(before, &t);
    let mut empty = before.clone();
    empty.remove(&t);
    empty.remove(&real);
    let mut q = p.clone();
    q.args.retain(|a| a != "-b");
    let fresh = cx.clean(&empty, &q, wall);
    if fresh.cls != Cls::Ok {
        return None;
    }
    let safe = p.args.iter().any(|a| a == "-s");
    let nothing = xlsx::Whole::default();
    if !is_csv(&t) {
        let (new, old, got) = (whole_of(&fresh.fs, &t)?, whole_of(before, &t)?, whole_of(fs, &t)?);
        for (s, cells) in &new {
            for (at, w) in cells.iter().filter(|(_, w)| w.is_there) {
                let was = old.get(s).and_then(|c| c.get(at)).unwrap_or(&nothing);
                let is = got.get(s).and_then(|c| c.get(at)).unwrap_or(&nothing);
                if is.value != w.value && !(safe && was.value.is_some()) {
                    return Some(format!("{t} {s} {}: {:?} in a new file, {:?} over the old one, which had {:?}", xlsx::a1(*at), w.value, is.value, was.value));
                }
            }
        }
        return None;
    }
    let read = |fs: &Fs| fs.file_follow(&t).map_or(Ok(vec![]), xlsx::csv).ok();
    let (new, mut old, mut got) = (read(&fresh.fs)?, read(before)?, read(fs)?);
    if safe {
        // (empty rows at the end are as good as none)
        for x in [&mut old, &mut got] {
            while x.len() > new.len() && x.last().is_some_and(|r| r.iter().all(String::is_empty)) {
                x.pop();
            }
        }
    }
    let rows = if safe { new.len().max(old.len()) } else { new.len() };
    if got.len() != rows {
        return Some(format!("{t} has {} rows where {} belong; {} in a new file, {} before", got.len(), rows, new.len(), old.len()));
    }
    let cell = |x: &[Vec<String>], i: usize, j: usize| x.get(i).and_then(|r| r.get(j)).cloned().unwrap_or_default();
    for (i, row) in got.iter().enumerate() {
        for j in 0..row.len().max(new.get(i).map_or(0, Vec::len)) {
            let (n, o, g) = (cell(&new, i, j), cell(&old, i, j), cell(&got, i, j));
            let ok = if safe && !o.is_empty() { g == o } else { g == n || n.is_empty() && g == o };
            if !ok {
                return Some(format!("{t} row {} column {}: {n:?} in a new file, {g:?} over the old one, which had {o:?}", i + 1, j + 1));
            }
        }
    }
    None
}

type Sheets = BTreeMap<String, BTreeMap<xlsx::Pos, xlsx::Whole>>;

fn whole_of(fs: &Fs, t: &str) -> Option<Sheets> {
    let Some(d) = fs.file_follow(t) else { return Some(Sheets::new()) };
    if is_csv(&t) {
        let c = xlsx::csv_cells(d).ok()?;
        let m = c.into_iter().map(|(p, v)| (p, xlsx::Whole { value: Some(v), is_there: true, ..Default::default() })).collect();
        Some([(String::new(), m)].into())
    } else {
        xlsx::whole(d).ok()
    }
}

pub fn chk_c19(cx: &mut Ctx, before: &Fs, wall: i64, plan: &Plan, r: &RunResult) -> V {
    if plan.procs.len() != 1 || plan.power_loss.is_some() || cls(r, 0) != Cls::Ok {
        return None;
    }
    let p = &plan.procs[0];
    let t = target_of(p)?;
    let Some(now) = whole_of(&r.fs, &t) else {
        return v("target unreadable after the build", out_of(&r.fs, &t).show());
    };
    let mut q = p.clone();
    q.args.retain(|a| a != "-b");
    // once more
    let again = cx.clean(&r.fs, &q, wall);
    if again.cls != Cls::Ok {
        return v("cannot be built again", format!("exit 0, then {:?} for the same sources", again.cls));
    }
    let two = whole_of(&again.fs, &t);
    if let Some(d) = two.as_ref().and_then(|two| differ(&now, two)) {
        return v("building again changes the target", d);
    }
    if two.is_none() || (is_csv(&t) && r.fs.file_follow(&t) != again.fs.file_follow(&t)) {
        return v("building again changes the target", format!("{} then {}", out_of(&r.fs, &t).show(), out_of(&again.fs, &t).show()));
    }
    if p.args.iter().any(|a| a == "-s") {
        return None;
    }
    let old = whole_of(before, &t)?;
    if !old.is_empty() {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    // into a new file
    let mut empty = before.clone();
    empty.remove(&t);
    let fresh = cx.clean(&empty, &q, wall);
    // (a new workbook knows which cells there are, a CSV file is padded)
    let mut q2 = q.clone();
    let i = q2.args.iter().position(|a| a == "-o")? + 1;
    q2.args[i] = "/proj/c19.xlsx".into();
    let area = cx.clean(&empty, &q2, wall);
    if fresh.cls != Cls::Ok || area.cls != Cls::Ok {
        return None;
    }
    let fresh = whole_of(&fresh.fs, &t)?;
    let area: BTreeSet<xlsx::Pos> =
        whole_of(&area.fs, "/proj/c19.xlsx")?.values().flat_map(|s| s.iter().filter(|(_, w)| w.is_there).map(|(p, _)| *p)).collect();
    if fresh.len() != 1 {
        return None;
    }
    let (name, new) = fresh.iter().next()?;
    let none = BTreeMap::new();
    let got = now.get(name).unwrap_or(&none);
    let nothing = xlsx::Whole::default();
    for at in &area {
        let (a, b) = (new.get(at).unwrap_or(&nothing), got.get(at).unwrap_or(&nothing));
        if a.value != b.value {
            return v("what was there shows", format!("{t} {name} {}: {:?} in a new file, {:?} over the old one", xlsx::a1(*at), a.value, b.value));
        }
        if a.notes != b.notes {
            return v("notes of before show", format!("{t} {name} {}: {:?} in a new file, {:?} over the old one", xlsx::a1(*at), a.notes, b.notes));
        }
        if a.valid != b.valid {
            return v("validations of before show", format!("{t} {name} {}: {:?} in a new file, {:?} over the old one", xlsx::a1(*at), a.valid, b.valid));
        }
        if a.format != b.format {
            return v("formats of before show", format!("{t} {name} {}: {} in a new file, {} over the old one", xlsx::a1(*at), a.format, b.format));
        }
    }
    if is_excel(&t) {
        for (s, cells) in &old {
            for (at, w) in cells {
                if s == name && area.contains(at) {
                    continue;
                }
                let b = now.get(s).and_then(|c| c.get(at)).unwrap_or(&nothing);
                // (error values: see known-findings.txt)
                let err = w.value.as_ref().is_some_and(|v| v.starts_with('#'));
                if (w.value != b.value && !err) || w.notes != b.notes || w.valid != b.valid || w.range_valid != b.range_valid {
                    return v("a cell beside the compiled ones changed", format!("{t} {s} {}: {w:?} before, {b:?} after", xlsx::a1(*at)));
                }
            }
        }
    }
    // (last, because it is a known one)
    for at in &area {
        if let Some(b) = got.get(at).filter(|b| !b.range_valid.is_empty()) {
            return v("the validation of a range shows", format!("{t} {name} {}: {:?} over the old one", xlsx::a1(*at), b.range_valid));
        }
    }
    None
}

fn differ(a: &Sheets, b: &Sheets) -> Option<String> {
    let none = BTreeMap::new();
    let nothing = xlsx::Whole::default();
    let names: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
    for s in names {
        let (x, y) = (a.get(s).unwrap_or(&none), b.get(s).unwrap_or(&none));
        let at: BTreeSet<&xlsx::Pos> = x.keys().chain(y.keys()).collect();
        for p in at {
            let (m, n) = (x.get(p).unwrap_or(&nothing), y.get(p).unwrap_or(&nothing));
            let err = m.value.as_ref().is_some_and(|v| v.starts_with('#'));
            if m != n && !err {
                return Some(format!("{s} {}: {m:?}, then {n:?}", xlsx::a1(*p)));
            }
        }
    }
    None
}
