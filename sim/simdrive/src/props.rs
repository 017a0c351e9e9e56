//! Property checks and scenario generators: dispatch, shared helpers, C01-C05.
use crate::engine::*;
use crate::fs::{Fs, Node};
use crate::proj::*;
use crate::props2;
use crate::props3;
use crate::scen::*;
use simworld::*;
use std::collections::{BTreeMap, BTreeSet};

pub const ALL: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19",
];

pub fn gen(cx: &mut Ctx, prop: &str, r: &mut Rng, idx: u64) -> Vec<Scenario> {
    let mut all = gen_files(cx, prop, r, idx);
    // some of them with the other kind of target
    let of_1000 = match prop {
        "C01" | "C02" => 100,
        "C03" | "C04" => 40,
        "C06" => 30,
        "C09" => 60,
        _ => return all,
    };
    for sc in &mut all {
        if sc.net.is_none() && r.chance(of_1000) {
            crate::net::sheetify(r, sc, matches!(prop, "C01" | "C02" | "C03" | "C04"));
        }
    }
    all
}

fn gen_files(cx: &mut Ctx, prop: &str, r: &mut Rng, idx: u64) -> Vec<Scenario> {
    if matches!(prop, "C12" | "C18") && r.chance(60) {
        return crate::net::gen_failing(cx, prop, r, if cx.thorough { 80 } else { 30 });
    }
    if prop == "C18" && r.chance(60) {
        let mut all = crate::net::gen(cx, pick(r, &["C15", "C16"]), r, idx);
        for sc in &mut all {
            sc.property = prop.into();
        }
        return all;
    }
    match prop {
        "C01" => gen_c01(cx, r),
        "C02" => gen_c02(cx, r),
        "C03" => gen_c03(cx, r, idx),
        "C04" => gen_c04(cx, r),
        "C05" => gen_c05(cx, r),
        "C06" => props2::gen_c06(cx, r),
        "C07" => props2::gen_c07(cx, r),
        "C08" => props2::gen_c08(cx, r),
        "C09" => props2::gen_c09(cx, r),
        "C10" => props2::gen_c10(cx, r),
        "C11" => props2::gen_c11(cx, r),
        "C12" => props2::gen_c12(cx, r),
        "C13" => props3::gen_c13(cx, r),
        "C14" => props3::gen_c14(cx, r),
        "C17" => props3::gen_c17(cx, r),
        "C18" => crate::props4::gen_c18(cx, r, idx),
        "C19" => crate::props4::gen_c19(cx, r),
        "C15" | "C16" => crate::net::gen(cx, prop, r, idx),
        p => panic!("no generator for {p}"),
    }
}

pub fn begin(_cx: &mut Ctx, _sc: &Scenario, _mem: &mut Mem) -> Option<Viol> {
    None
}

#[allow(clippy::too_many_arguments)]
pub fn after(cx: &mut Ctx, sc: &Scenario, mem: &mut Mem, i: usize, before: &Fs, wall: i64, plan: &Plan, r: &RunResult) -> Option<Viol> {
    let v = match sc.property.as_str() {
        "C01" => chk_clean(cx, before, wall, plan, r),
        "C02" => chk_c02(cx, before, wall, plan, r),
        "C03" => chk_c03(cx, before, wall, plan, r),
        "C04" => chk_clean(cx, before, wall, plan, r),
        "C05" => chk_c05(cx, before, wall, plan, r),
        "C06" => props2::chk_c06(cx, mem, before, plan, r),
        "C07" => props2::chk_c07(cx, before, plan, r),
        "C08" => props2::chk_c08(cx, sc, i, plan, r),
        "C09" => props2::chk_c09(cx, sc, i, before, plan, r),
        "C10" => props2::chk_c10(cx, before, wall, plan, r),
        "C11" => props2::chk_c11(cx, before, wall, plan, r),
        "C12" => props2::chk_c12(cx, plan, r),
        "C13" => props3::chk_c13(cx, before, wall, plan, r),
        "C14" => props3::chk_c14(cx, mem, before, plan, r),
        "C17" => props3::chk_c17(cx, sc, i, plan, r),
        "C18" => crate::props4::chk_c18(cx, before, plan, r),
        "C19" => crate::props4::chk_c19(cx, before, wall, plan, r),
        "C15" | "C16" => crate::net::after(cx, sc, mem, i, before, wall, plan, r),
        p => panic!("no check for {p}"),
    };
    v.map(|(sig, msg)| Viol { step: i, sig, msg })
}

pub fn finish(_cx: &mut Ctx, _sc: &Scenario, _mem: &mut Mem, _fs: &Fs, _wall: i64) -> Option<Viol> {
    None
}

pub type V = Option<(String, String)>;
pub fn v(sig: &str, msg: String) -> V {
    Some((sig.to_string(), msg))
}

// ------------------------------------------------------------------ helpers

pub struct Live<'a> {
    pub cx: &'a mut Ctx,
    pub start: Fs,
    pub wall0: i64,
    pub fs: Fs,
    pub wall: i64,
    pub steps: Vec<Step>,
}
impl<'a> Live<'a> {
    pub fn new(cx: &'a mut Ctx, fs: Fs, wall: i64) -> Live<'a> {
        Live { cx, start: fs.clone(), wall0: wall, fs, wall, steps: vec![] }
    }
    pub fn push(&mut self, s: Step) -> Option<RunResult> {
        let mut out = None;
        match &s {
            Step::Run(p) => {
                let r = self.cx.run(&self.fs, p, self.wall);
                self.fs = r.fs.clone();
                self.wall = r.wall_end;
                out = Some(r);
            }
            o => apply(&mut self.fs, &mut self.wall, o),
        }
        self.wall += SEC / 50;
        self.steps.push(s);
        out
    }
    /// forget how the state came about: start from here
    pub fn rebase(&mut self) {
        self.start = self.fs.clone();
        self.wall0 = self.wall;
        self.steps.clear();
    }
}

pub fn scenario(prop: &str, note: &str, start: &Fs, wall: i64, steps: Vec<Step>) -> Scenario {
    Scenario {
        property: prop.into(),
        seed: 0,
        note: note.into(),
        wall,
        fixed: false,
        aux: serde_json::Value::Null,
        net: None,
        steps,
        start: start.clone(),
    }
}

pub fn write_proj(fs: &mut Fs, dir: &str, p: &Proj, wall: i64) {
    fs.mkdirs(dir);
    for m in &p.mods {
        fs.put(&Proj::path(dir, &m.name), m.text().as_bytes(), wall);
    }
}

pub fn proc(dir: &str, args: &[&str], r: &mut Rng) -> ProcSpec {
    ProcSpec {
        args: args.iter().map(|s| s.to_string()).collect(),
        cwd: dir.into(),
        cpus: 1 + r.below(4) as u32,
        hash_seed: r.next(),
        pid: 100 + r.below(5) as u32,
    }
}

pub fn rand_sched(r: &mut Rng, points: u64) -> SchedSpec {
    match r.below(13) {
        10..=12 => rand_sites(r),
        0..=2 => SchedSpec::Random { seed: r.next(), op_switch: 300, edge_mean: 0 },
        3..=4 => SchedSpec::Random { seed: r.next(), op_switch: 80, edge_mean: 300 + r.below(20_000) },
        5 => SchedSpec::Random { seed: r.next(), op_switch: 30, edge_mean: 50 + r.below(200) },
        _ => {
            let d = 1 + r.below(6);
            SchedSpec::Pct { seed: r.next(), at: (0..d).map(|_| 1 + r.below(points.max(2))).collect() }
        }
    }
}

pub fn rand_sites(r: &mut Rng) -> SchedSpec {
    SchedSpec::Sites {
        seed: r.next(),
        op_switch: *pick(r, &[0, 30, 300]),
        density: *pick(r, &[20, 60, 200, 600]),
        times: *pick(r, &[1, 4, 20]),
    }
}

/// turbulence without a failure: schedule, hash seeds, short and interrupted calls
pub fn vary(r: &mut Rng, p: &mut Plan) {
    if r.chance(600) {
        p.sched = rand_sched(r, 150_000);
        p.wake_seed = r.next();
        if r.chance(150) {
            p.spurious = 100;
        }
    }
    if r.chance(200) {
        p.short_permille = 100 + r.below(700) as u32;
        p.io_seed = r.next();
    }
    if r.chance(150) {
        p.eintr_permille = 50 + r.below(200) as u32;
        p.io_seed = r.next();
    }
    if r.chance(50) {
        let v = *pick(r, &["-v", "-vv", "-vvv", "-vvvv"]);
        for q in &mut p.procs {
            q.args.insert(0, v.into());
        }
    }
    if r.chance(200) {
        p.readdir_shuffle = 1 + r.below(1000) as u32;
    }
    if r.chance(150) {
        p.mtime_gran = [1, 1_000_000, SEC, 2 * SEC][r.below(4) as usize];
    }
    if r.chance(100) {
        p.op_cost = 20_000 + r.below(200_000_000) as i64;
    }
}

pub fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.below(v.len() as u64) as usize]
}

/// a name for the main file as a user might give it, and the directory to start in
pub fn spell(r: &mut Rng, dir: &str, main: &str) -> (String, String) {
    let base = &dir[dir.rfind('/').unwrap() + 1..];
    match r.below(16) {
        0 => (dir.into(), format!("./{main}.csvpp")),
        3 => (dir.into(), format!("../{base}/{main}.csvpp")),
        4 => ("/home/u".into(), format!("../..{dir}/{main}.csvpp")),
        5 => (dir.into(), format!(".//.///{main}.csvpp")),
        6 => ("/home/u".into(), format!("/{dir}//{main}.csvpp")),
        7 => (dir.into(), format!("{dir}/./{main}.csvpp")),
        8 => ("/".into(), format!("{}/{main}.csvpp", &dir[1..])),
        1 => ("/home/u".into(), format!("{dir}/{main}.csvpp")),
        2 => {
            let k = dir.rfind('/').unwrap();
            let up = if k == 0 { "/".to_string() } else { dir[..k].to_string() };
            (up, format!("{}/{main}.csvpp", &dir[k + 1..]))
        }
        _ => (dir.into(), format!("{main}.csvpp")),
    }
}

/// where a project lies
pub fn some_dir(r: &mut Rng) -> &'static str {
    if r.chance(750) {
        return "/proj";
    }
    pick(r, &["/home/u/my work", "/v1.2.proj", "/srv/\u{e9}t\u{e9}", "/home/u/.hidden/p", "/a/b/c/d/e", "/home/u/p.csvpp", "/w-1"])
}
/// the name of a target
pub fn some_name(r: &mut Rng, ext: &str) -> String {
    let s = if r.chance(700) {
        "out"
    } else {
        // (`main` is what the sources are called, too)
        *pick(r, &["out.v2", "my report", ".out", "\u{e9}t\u{e9}", "Out", "out-2020_01_01", "main", "out.csvpp", "out.tmp", "o", "out.csv", "2024"])
    };
    let ext = match r.below(14) {
        0 if ext == "csv" => *pick(r, &["CSV", "Csv"]),
        0 if ext == "xlsx" => *pick(r, &["XLSX", "Xlsx", "xlsm", "xltx", "xltm"]),
        _ => ext,
    };
    format!("{s}.{ext}")
}

/// what a clean build does in the same situation
fn reference(cx: &mut Ctx, before: &Fs, p: &ProcSpec, wall: i64) -> std::rc::Rc<Clean> {
    if crate::net::is_sheet(p) {
        if let Some(c) = crate::net::clean(cx, before, p, wall) {
            return c.into();
        }
    }
    cx.clean(before, p, wall)
}

/// what is in the target of a build that has just run
pub fn output(cx: &mut Ctx, p: &ProcSpec, r: &RunResult) -> Option<Out> {
    if crate::net::is_sheet(p) {
        return Some(crate::net::out(cx));
    }
    target_of(p).map(|t| out_of(&r.fs, &t))
}

pub fn vs_clean(cx: &mut Ctx, before: &Fs, plan: &Plan, r: &RunResult, wall: i64, p: usize) -> V {
    let c = reference(cx, before, &plan.procs[p], wall);
    let k = cls(r, p);
    if matches!(c.cls, Cls::Hang | Cls::Crash | Cls::Killed) {
        cx.st.note("clean build hangs or crashes (not judged here)");
        return None;
    }
    let what = format!("`csvpp {}` in {}", plan.procs[p].args.join(" "), plan.procs[p].cwd);
    if k != c.cls {
        return v(
            &format!("{k:?} instead of {:?}", c.cls),
            format!(
                "{what}: {} ({}), a clean build: {}; stderr {:?}; clean stderr {:?}",
                r.procs[p].describe(),
                oc::name(r.outcome),
                c.res.describe(),
                clip(&String::from_utf8_lossy(&r.procs[p].err), 300),
                clip(&c.err, 300)
            ),
        );
    }
    let o = output(cx, &plan.procs[p], r);
    if let Some(o) = o {
        if o != c.out {
            return v(
                "output differs from clean build",
                format!("{what} exits {} with output {}; a clean build gives {}", r.procs[p].describe(), o.show(), c.out.show()),
            );
        }
    }
    None
}

pub fn chk_clean(cx: &mut Ctx, before: &Fs, wall: i64, plan: &Plan, r: &RunResult) -> V {
    if before.0.keys().any(|k| is_obj(k)) {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    vs_clean(cx, before, plan, r, wall, 0).or_else(|| same_errors(cx, before, plan, r, wall))
}

/// a build that fails says what a clean build says: the same lines, in whatever order
fn same_errors(cx: &mut Ctx, before: &Fs, plan: &Plan, r: &RunResult, wall: i64) -> V {
    let ps = &plan.procs[0];
    if cls(r, 0) != Cls::Fail || !plan.faults.is_empty() || plan.disk_free >= 0 || ps.args.iter().any(|a| a.starts_with("-v")) {
        return None;
    }
    let c = reference(cx, before, ps, wall);
    if c.cls != Cls::Fail {
        return None;
    }
    // (an object file goes for every spelling of the path with the same components)
    let one = |l: &str| {
        let mut l = l.trim().to_string();
        while l.contains("//") || l.contains("/./") {
            l = l.replace("//", "/").replace("/./", "/");
        }
        l
    };
    let set = |t: &str| t.lines().map(one).filter(|l| !l.is_empty()).collect::<BTreeSet<_>>();
    let (a, b) = (set(&String::from_utf8_lossy(&r.procs[0].err)), set(&c.err));
    if a != b {
        return v(
            "errors differ from clean build",
            format!("`csvpp {}` in {} says {:?}; a clean build says {:?}", ps.args.join(" "), ps.cwd, a.difference(&b).collect::<Vec<_>>(), b.difference(&a).collect::<Vec<_>>()),
        );
    }
    cx.st.note("failing builds whose messages were compared");
    None
}

/// every file operation of process `p`: (number, class, path, bytes asked for)
pub fn ops_of(r: &RunResult, p: u8) -> Vec<(u32, u8, String, i64)> {
    let mut v: Vec<(u32, u8, String, i64)> = r
        .evs
        .iter()
        .filter(|e| e.proc == p && e.op > 0 && op::is_fs(e.class))
        .map(|e| (e.op, e.class, e.path.clone(), e.res.max(e.arg).max(0)))
        .collect();
    v.sort();
    v.dedup_by_key(|x| x.0);
    v
}

pub fn errnos(class: u8) -> &'static [i32] {
    match class {
        op::OPEN => &[EACCES, EIO, EMFILE, ENFILE, ENOMEM, ENOSPC, EROFS, 26],
        op::READ => &[EIO],
        op::WRITE => &[EIO, ENOSPC, EFBIG, 122],
        op::STAT => &[EACCES, EIO, ENOMEM],
        op::RENAME => &[EACCES, EIO, ENOSPC, EROFS, 16, 18],
        op::UNLINK => &[EACCES, EIO, EROFS],
        op::FSYNC => &[EIO, ENOSPC, 122],
        op::READDIR => &[EIO, EMFILE, EACCES],
        op::TRUNC => &[EIO, EFBIG],
        op::CHMOD => &[EPERM, EIO, EROFS],
        op::LINK | op::SYMLINK => &[EACCES, EIO, ENOSPC, EROFS],
        op::MKDIR => &[EACCES, EIO, ENOSPC, EROFS],
        op::COPYRANGE => &[EIO, ENOSPC, EFBIG],
        op::READLINK => &[EACCES, EIO],
        op::UTIME => &[EACCES, EIO],
        op::CLOSE => &[EIO],
        _ => &[],
    }
}

// ------------------------------------------------------------------ C01

pub fn kv_args(r: &mut Rng) -> Vec<String> {
    if r.chance(150) {
        let n = 1 + r.below(2);
        let mut a = vec!["-k".to_string()];
        for _ in 0..n {
            a.push(format!("{}={}", pick(r, &VARS), 1 + r.below(9)));
        }
        a
    } else {
        vec![]
    }
}

pub fn some_build(r: &mut Rng, dir: &str, p: &Proj, any_main: bool) -> Plan {
    let mains: Vec<String> = p
        .mods
        .iter()
        .filter(|m| m.name.starts_with("main"))
        .map(|m| m.name.clone())
        .collect();
    let main = if (any_main && r.chance(150)) || mains.is_empty() { pick(r, &p.mods).name.clone() } else { pick(r, &mains).clone() };
    let (cwd, file) = spell(r, dir, &main);
    let mut a = kv_args(r);
    if r.chance(100) {
        a.push("-s".into());
    }
    if r.chance(60) {
        a.push("-v".into());
    }
    let ext = if r.chance(200) { "xlsx" } else { "csv" };
    a.push("-o".into());
    a.push(if r.chance(700) { format!("{dir}/{}", some_name(r, ext)) } else { format!("/home/u/o{}.{ext}", r.below(2)) });
    a.push(file);
    let mut q = proc(&cwd, &[], r);
    q.args = a;
    let mut plan = Plan::simple(vec![q]);
    vary(r, &mut plan);
    plan
}

pub fn proj_opts(r: &mut Rng) -> ProjOpts {
    ProjOpts {
        mods: (1, 1 + r.below(5)),
        mains: 1 + r.below(2),
        edge: 350 + r.below(500),
        cyclic: r.chance(80),
        scoping: r.chance(500),
        decor: r.chance(450),
        rich: r.chance(300),
        ..Default::default()
    }
}

/// break a module: it no longer parses, is empty, or is plain text
pub fn breakage(r: &mut Rng) -> String {
    pick(
        r,
        &[
            "v_aa := \n---\n",
            "v_aa := (1 + 2\n---\n",
            "fn f_aa( 1 2\n---\n",
            "v_aa := \"open\n---\n",
            "fn 5\n---\n",
            "---\nx,=1 +\n",
            "---\nx,=foo(1,\n",
            "!!! not a module @@\n---\n",
            "---\n![[fill=x]]a\n",
            "---\n[[nonsense=1]]a\n",
        ],
    )
    .to_string()
}

fn gen_c01(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let o = proj_opts(r);
    let mut p = gen_proj(r, &o);
    if r.chance(80) {
        crate::props2::add_eval_errors(r, &mut p);
    }
    let mut dir = "/proj".to_string();
    let mut fs = Fs::new();
    write_proj(&mut fs, &dir, &p, WALL0 - 3600 * SEC);
    let start = fs;
    let mut steps = vec![];
    let n = 3 + r.below(if cx.thorough { 12 } else { 6 });
    // texts that were there at some time, to be restored
    let mut old: Vec<(String, Proj)> = vec![];
    let first = some_build(r, &dir, &p, true);
    steps.push(Step::Run(first));
    for _ in 0..n {
        let k = 1 + r.below(2);
        for _ in 0..k {
            match r.below(16) {
                0..=6 => {
                    let prev = p.clone();
                    for name in edit(r, &mut p, &o) {
                        old.push((name.clone(), prev.clone()));
                        let age = match r.below(5) {
                            0..=1 => 0,
                            2 => SEC,
                            3 => 3600 * SEC,
                            _ => 86_400 * SEC * 400,
                        };
                        steps.push(Step::Write {
                            path: Proj::path(&dir, &name),
                            data: p.get(&name).unwrap().text().into_bytes(),
                            age,
                        });
                    }
                }
                // an earlier state comes back, with its old time stamp
                7..=8 => {
                    if let Some((_, q)) = old.last().cloned() {
                        for m in &q.mods {
                            if p.get(&m.name).is_some_and(|x| x != m) || p.get(&m.name).is_none() {
                                steps.push(Step::Write { path: Proj::path(&dir, &m.name), data: m.text().into_bytes(), age: 7200 * SEC });
                            }
                        }
                        let extra: Vec<String> = p.mods.iter().filter(|m| q.get(&m.name).is_none()).map(|m| m.name.clone()).collect();
                        for e in extra {
                            steps.push(Step::Remove(Proj::path(&dir, &e)));
                        }
                        p = q;
                        old.pop();
                    }
                }
                9 => steps.push(Step::Clock(*pick(r, &[-86_400 * SEC, -3 * SEC, 5 * SEC, 40 * 86_400 * SEC]))),
                // the project moves
                10 => {
                    let to = pick(r, &["/proj", "/work", "/home/u/p", "/proj2", "/home/u/v1.2 \u{e9}"]).to_string();
                    if to != dir {
                        steps.push(Step::Rename(dir.clone(), to.clone()));
                        dir = to;
                    }
                }
                // two modules change places, keeping their time stamps
                11..=12 => {
                    if p.mods.len() > 1 {
                        let i = r.below(p.mods.len() as u64) as usize;
                        let j = r.below(p.mods.len() as u64) as usize;
                        if i != j && p.mods[i].name.starts_with('m') {
                            let (a, b) = (p.mods[i].name.clone(), p.mods[j].name.clone());
                            let (pa, pb) = (Proj::path(&dir, &a), Proj::path(&dir, &b));
                            steps.push(Step::Rename(pa.clone(), "/tmp/x".into()));
                            steps.push(Step::Rename(pb.clone(), pa.clone()));
                            steps.push(Step::Rename("/tmp/x".into(), pb.clone()));
                            if r.chance(400) {
                                let (oa, ob) = (pa.replace(".csvpp", ".csvpo"), pb.replace(".csvpp", ".csvpo"));
                                steps.push(Step::Rename(oa.clone(), "/tmp/x".into()));
                                steps.push(Step::Rename(ob.clone(), oa));
                                steps.push(Step::Rename("/tmp/x".into(), ob));
                            }
                            p.mods[i].name = b;
                            p.mods[j].name = a;
                        }
                    }
                }
                // a module disappears or breaks
                13 => {
                    let i = r.below(p.mods.len() as u64) as usize;
                    let name = p.mods[i].name.clone();
                    if r.chance(500) {
                        steps.push(Step::Remove(Proj::path(&dir, &name)));
                    } else {
                        let t = breakage(r);
                        old.push((name.clone(), p.clone()));
                        p.mods[i].raw = Some(t.clone());
                        steps.push(Step::Write { path: Proj::path(&dir, &name), data: t.into_bytes(), age: 0 });
                    }
                }
                14 => {
                    for m in &p.mods {
                        steps.push(Step::Write { path: Proj::path(&dir, &m.name), data: m.text().into_bytes(), age: 100 * SEC });
                    }
                }
                // an object file from another module's build is put in place
                _ => {
                    let a = pick(r, &p.mods).name.clone();
                    let b = pick(r, &p.mods).name.clone();
                    steps.push(Step::Copy(
                        Proj::path(&dir, &a).replace(".csvpp", ".csvpo"),
                        Proj::path(&dir, &b).replace(".csvpp", ".csvpo"),
                    ));
                }
            }
        }
        steps.push(Step::Run(some_build(r, &dir, &p, true)));
    }
    vec![scenario("C01", "edits and builds", &start, WALL0, steps)]
}

// ------------------------------------------------------------------ C02

pub fn some_damage(r: &mut Rng, len: u64) -> Corrupt {
    match r.below(15) {
        12..=13 => Corrupt::Swap { a: r.next() >> 8, b: r.next() >> 8, len: *pick(r, &[1, 1, 2, 4, 8, 16, 64]) },
        14 => Corrupt::Shift { a: r.next() >> 8, b: r.next() >> 8, by: 1 + r.below(3) as u8 },
        0..=1 => Corrupt::Truncate(r.below(len.max(1))),
        2..=4 => Corrupt::FlipBit(r.next() >> 8),
        5 => Corrupt::Zero { from: r.next() >> 8, len: 1 + r.below(64) },
        6 => Corrupt::Zero { from: 0, len: 1 << 40 >> 10 },
        7 => Corrupt::Content(vec![]),
        8 => Corrupt::Content(pick(r, &[&b"garbage"[..], b"v_aa := 1\n---\n", b"csvpo 2 ", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"]).to_vec()),
        9 => Corrupt::Noise { from: r.next() >> 8, seed: r.next() },
        10 => Corrupt::Append(vec![0; 1 + r.below(16) as usize]),
        _ => Corrupt::Truncate(1 + r.below(40)),
    }
}

fn gen_c02(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let o = proj_opts(r);
    let mut p = gen_proj(r, &o);
    if r.chance(80) {
        crate::props2::add_eval_errors(r, &mut p);
    }
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let mut l = Live::new(cx, fs, WALL0);
    if r.chance(850) {
        for _ in 0..1 + r.below(2) {
            let b = some_build(r, dir, &p, true);
            l.push(Step::Run(b));
        }
    }
    for _ in 0..r.below(4) {
        match r.below(6) {
            0..=2 => {
                for name in edit(r, &mut p, &o) {
                    let data = p.get(&name).unwrap().text().into_bytes();
                    l.push(Step::Write { path: Proj::path(dir, &name), data, age: if r.chance(500) { 0 } else { 7200 * SEC } });
                }
            }
            3 => {
                let objs = l.fs.files_ending(".csvpo");
                if !objs.is_empty() {
                    let f = pick(r, &objs).clone();
                    let n = l.fs.file(&f).unwrap().len() as u64;
                    let how = some_damage(r, n);
                    l.push(Step::Damage { path: f, how });
                }
            }
            4 => {
                let objs = l.fs.files_ending(".csvpo");
                if objs.len() > 1 {
                    let (a, b) = (pick(r, &objs).clone(), pick(r, &objs).clone());
                    l.push(Step::Copy(a, b));
                }
            }
            _ => {
                let objs = l.fs.files_ending(".csvpo");
                if !objs.is_empty() {
                    let f = pick(r, &objs).clone();
                    l.push(Step::Chmod(f, 0o000));
                }
            }
        }
    }
    let mut steps = l.steps.clone();
    for _ in 0..1 + r.below(2) {
        let mut b = some_build(r, dir, &p, true);
        b.procs[0].args.insert(0, "--no-cache".into());
        steps.push(Step::Run(b));
    }
    let (start, wall) = (l.start.clone(), l.wall0);
    vec![scenario("C02", "build with --no-cache next to object files", &start, wall, steps)]
}

fn chk_c02(cx: &mut Ctx, before: &Fs, wall: i64, plan: &Plan, r: &RunResult) -> V {
    if !plan.procs[0].args.iter().any(|a| a == "--no-cache") {
        return None;
    }
    if before.0.keys().any(|k| is_obj(k)) {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    for e in &r.evs {
        if e.mutated && (is_obj(&e.path) || is_obj(&e.path2)) {
            return v("object file touched with --no-cache", format!("{} {} {}", op::name(e.class), e.path, e.path2));
        }
        if e.class == op::READ && e.res > 0 && is_obj(&e.path) {
            return v("object file read with --no-cache", format!("{} bytes of {}", e.res, e.path));
        }
    }
    let a: Vec<_> = before.0.iter().filter(|(k, _)| is_obj(k)).collect();
    let b: Vec<_> = r.fs.0.iter().filter(|(k, _)| is_obj(k)).collect();
    if a != b {
        let (ka, kb): (Vec<_>, Vec<_>) = (a.iter().map(|x| x.0).collect(), b.iter().map(|x| x.0).collect());
        return v("object files changed with --no-cache", format!("before {ka:?}, after {kb:?} (or their contents)"));
    }
    vs_clean(cx, before, plan, r, wall, 0).or_else(|| same_errors(cx, before, plan, r, wall))
}

// ------------------------------------------------------------------ C03

fn gen_c03(cx: &mut Ctx, r: &mut Rng, idx: u64) -> Vec<Scenario> {
    let mut o = proj_opts(r);
    o.mains = 1 + r.below(2);
    let mut p = gen_proj(r, &o);
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let mut l = Live::new(cx, fs, WALL0);
    // cold, warm or stale caches
    if idx % 3 > 0 {
        let b = some_build(r, dir, &p, false);
        l.push(Step::Run(b));
        if idx % 3 == 2 {
            for _ in 0..1 + r.below(2) {
                for name in edit(r, &mut p, &o) {
                    let data = p.get(&name).unwrap().text().into_bytes();
                    l.push(Step::Write { path: Proj::path(dir, &name), data, age: if r.chance(300) { 7200 * SEC } else { 0 } });
                }
            }
        }
        l.rebase();
    }
    let mut b = some_build(r, dir, &p, false);
    b.faults.clear();
    b.short_permille = 0;
    b.eintr_permille = 0;
    let base = l.cx.run(&l.fs, &b, l.wall);
    let ops = ops_of(&base, 0);
    let (start, wall) = (l.start.clone(), l.wall0);
    let mut out = vec![];
    let mut kills: Vec<FaultSpec> = vec![];
    for (n, class, _, len) in &ops {
        kills.push(FaultSpec::at(fk::KILL_BEFORE, 0, *n, 0));
        if matches!(*class, op::WRITE | op::OPEN | op::RENAME | op::UNLINK | op::TRUNC | op::FSYNC | op::COPYRANGE | op::LINK | op::CHMOD) {
            kills.push(FaultSpec::at(fk::KILL_AFTER, 0, *n, 0));
        }
        if *class == op::WRITE && *len > 1 {
            for _ in 0..3 {
                kills.push(FaultSpec::at(fk::KILL_MID, 0, *n, 1 + r.below((*len - 1) as u64) as i64));
            }
        }
    }
    // reads and stats leave nothing behind; keep a few of those
    let muts: BTreeSet<u32> = base.evs.iter().filter(|e| e.mutated).flat_map(|e| [e.op, e.op + 1]).collect();
    shuffle(r, &mut kills);
    kills.sort_by_key(|f| !muts.contains(&f.at_op));
    let limit = if l.cx.thorough { 80 } else { 30 };
    for f in kills.into_iter().take(limit) {
        let mut plan = b.clone();
        let mut f = f;
        if r.chance(500) {
            f.all = true;
            plan.power_loss = Some(r.next());
        }
        plan.faults = vec![f];
        let mut steps = vec![Step::Run(plan)];
        // sometimes a second crash before the build that is judged
        if r.chance(200) {
            let mut p2 = some_build(r, dir, &p, false);
            p2.faults = vec![FaultSpec::at(
                *pick(r, &[fk::KILL_BEFORE, fk::KILL_AFTER]),
                0,
                1 + r.below(u64::from(base.procs[0].ops)) as u32,
                0,
            )];
            if r.chance(400) {
                p2.faults[0].all = true;
                p2.power_loss = Some(r.next());
            }
            steps.push(Step::Run(p2));
        }
        // the same build again, or another one
        let mut again = if r.chance(500) { b.clone() } else { some_build(r, dir, &p, true) };
        again.faults.clear();
        again.short_permille = 0;
        again.eintr_permille = 0;
        steps.push(Step::Run(again));
        if r.chance(300) {
            let mut b2 = some_build(r, dir, &p, true);
            b2.short_permille = 0;
            b2.eintr_permille = 0;
            steps.push(Step::Run(b2));
        }
        out.push(scenario("C03", "kill or power loss, then build", &start, wall, steps));
    }
    // power goes some time after a build that finished
    for _ in 0..4 {
        let mut plan = b.clone();
        plan.power_loss = Some(r.next());
        out.push(scenario("C03", "power loss after a build, then build", &start, wall, vec![Step::Run(plan), Step::Run(b.clone())]));
    }
    out
}

fn chk_c03(cx: &mut Ctx, before: &Fs, wall: i64, plan: &Plan, r: &RunResult) -> V {
    if cls(r, 0) == Cls::Killed || plan.power_loss.is_some() {
        cx.st.nontrivial.insert(r.hist_hash);
        return None;
    }
    vs_clean(cx, before, plan, r, wall, 0)
}

// ------------------------------------------------------------------ C04

fn gen_c04(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let o = proj_opts(r);
    let mut p = gen_proj(r, &o);
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let mut l = Live::new(cx, fs, WALL0);
    let mut b = some_build(r, dir, &p, false);
    l.push(Step::Run(b.clone()));
    l.rebase();
    let objs: Vec<String> = l.fs.files_ending(".csvpo");
    let (start, wall) = (l.start.clone(), l.wall0);
    if objs.is_empty() {
        return vec![];
    }
    let mut out = vec![];
    let sc = |note: &str, steps: Vec<Step>| scenario("C04", note, &start, wall, steps);
    b.faults.clear();
    let last = |r: &mut Rng, p: &Proj| {
        let mut x = if r.chance(700) { b.clone() } else { some_build(r, dir, p, true) };
        if r.chance(500) {
            x.sched = SchedSpec::Default;
        }
        Step::Run(x)
    };
    let n = if l.cx.thorough { 60 } else { 24 };
    for _ in 0..n {
        let mut steps = vec![];
        for _ in 0..1 + r.below(2) {
            let f = pick(r, &objs).clone();
            let len = start.file(&f).unwrap().len() as u64;
            steps.push(Step::Damage { path: f, how: some_damage(r, len) });
        }
        steps.push(last(r, &p));
        out.push(sc("damaged object file", steps));
    }
    // every header and length field sooner or later: flips near the start
    for _ in 0..8 {
        let f = pick(r, &objs).clone();
        let steps = vec![Step::Damage { path: f, how: Corrupt::FlipBit(r.below(600)) }, last(r, &p)];
        out.push(sc("flipped bit at the start of an object file", steps));
    }
    // blocks of two object files
    for _ in 0..6 {
        let (a, c) = (pick(r, &objs).clone(), pick(r, &objs).clone());
        let (x, y) = (start.file(&a).unwrap().clone(), start.file(&c).unwrap().clone());
        if a == c {
            continue;
        }
        let block = *pick(r, &[32usize, 64, 512, 4096]);
        let mut data = x.to_vec();
        for (k, chunk) in y.chunks(block).enumerate() {
            if r.chance(500) && k * block < data.len() {
                let end = (k * block + chunk.len()).min(data.len());
                data[k * block..end].copy_from_slice(&chunk[..end - k * block]);
            }
        }
        if data != x {
            out.push(sc("blocks of another object file", vec![Step::Damage { path: a, how: Corrupt::Content(data) }, last(r, &p)]));
        }
    }
    // parts of the same object file in other places: names and numbers which trade places
    for _ in 0..10 {
        let f = pick(r, &objs).clone();
        let x = start.file(&f).unwrap();
        // two printable bytes which differ
        let at: Vec<u64> = (0..x.len()).filter(|k| *k > 24 && x[*k].is_ascii_alphanumeric()).map(|k| k as u64).collect();
        if at.len() < 2 {
            continue;
        }
        let (a, c) = (*pick(r, &at), *pick(r, &at));
        if x[a as usize] == x[c as usize] {
            continue;
        }
        let how = if r.chance(700) { Corrupt::Swap { a, b: c, len: 1 } } else { Corrupt::Shift { a, b: c, by: 1 } };
        out.push(sc("parts of an object file moved", vec![Step::Damage { path: f, how }, last(r, &p)]));
    }
    // foreign
    for _ in 0..6 {
        let (a, c) = (pick(r, &objs).clone(), pick(r, &objs).clone());
        if a != c {
            out.push(sc("object file of another module", vec![Step::Copy(a, c), last(r, &p)]));
        }
    }
    // other version: change a number in the parsed code
    for _ in 0..6 {
        let f = pick(r, &objs).clone();
        let name = f.rsplit('/').next().unwrap().trim_end_matches(".csvpo").to_string();
        let Some(m) = p.get(&name) else { continue };
        let mut ints = vec![];
        for d in &m.defs {
            collect_ints(&d.body, &mut ints);
        }
        for row in &m.rows {
            for c in &row.cells {
                if let CellSrc::Formula(e) | CellSrc::Mixed(_, _, e) = c {
                    collect_ints(e, &mut ints);
                }
            }
        }
        if ints.is_empty() {
            continue;
        }
        let x = *pick(r, &ints);
        out.push(sc(
            "object file of another compiler version",
            vec![
                Step::Damage { path: f, how: Corrupt::OtherVersion { find: x, repl: x + 1 } },
                last(r, &p),
            ],
        ));
    }
    // unreadable
    for _ in 0..3 {
        let f = pick(r, &objs).clone();
        out.push(sc("object file without permissions", vec![Step::Chmod(f, 0o000), last(r, &p)]));
    }
    for f in &objs {
        let mut steps = vec![Step::Remove(f.clone()), Step::Mkdir(f.clone())];
        steps.push(last(r, &p));
        if r.chance(300) {
            out.push(sc("a directory in place of an object file", steps));
        }
    }
    // storage faults while reading
    for _ in 0..10 {
        let mut x = b.clone();
        let f = pick(r, &objs).clone();
        let sfx = f.rsplit('/').next().unwrap().to_string();
        x.faults.push(match r.below(5) {
            0 => FaultSpec::on(fk::ERRNO, 0, op::bit(op::READ), &sfx, r.below(2) as u32, 1 + r.below(4) as u32, EIO.into()),
            1 => FaultSpec::on(fk::ERRNO, 0, op::bit(op::OPEN), &sfx, 0, 1, (*pick(r, &[EACCES, EIO, EMFILE, ENOMEM, ENFILE])).into()),
            2 => FaultSpec::on(fk::FLIP, 0, op::bit(op::READ), &sfx, 0, 1, (r.next() >> 8) as i64),
            3 => FaultSpec::on(fk::ERRNO, 0, op::bit(op::STAT), &sfx, 0, 1, (*pick(r, &[EACCES, EIO])).into()),
            _ => FaultSpec::on(fk::SHORT, 0, op::bit(op::READ), &sfx, 0, 9, 1 + r.below(100) as i64),
        });
        out.push(sc("storage fault while reading an object file", vec![Step::Run(x)]));
    }
    // damage on top of an edit
    for _ in 0..4 {
        let names = edit(r, &mut p, &o);
        let mut steps = vec![];
        for name in names {
            steps.push(Step::Write { path: Proj::path(dir, &name), data: p.get(&name).unwrap().text().into_bytes(), age: 7200 * SEC });
        }
        let f = pick(r, &objs).clone();
        let len = start.file(&f).unwrap().len() as u64;
        steps.push(Step::Damage { path: f, how: some_damage(r, len) });
        steps.push(last(r, &p));
        out.push(sc("damaged object file and an edited source", steps));
        break;
    }
    out
}
pub fn collect_ints(e: &Expr, v: &mut Vec<i64>) {
    match e {
        Expr::Int(i) => v.push(*i),
        Expr::Add(a, b) | Expr::Op(a, _, b) => {
            collect_ints(a, v);
            collect_ints(b, v);
        }
        Expr::Call(_, a) => a.iter().for_each(|x| collect_ints(x, v)),
        _ => {}
    }
}

// ------------------------------------------------------------------ C05

fn gen_c05(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let mut o = proj_opts(r);
    o.mains = 1 + r.below(3);
    o.rows = (1, 3);
    let mut p = gen_proj(r, &o);
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let mut l = Live::new(cx, fs, WALL0);
    let mode = r.below(3);
    if mode > 0 {
        let b = some_build(r, dir, &p, false);
        l.push(Step::Run(b));
        if mode == 2 {
            for name in edit(r, &mut p, &o) {
                let data = p.get(&name).unwrap().text().into_bytes();
                l.push(Step::Write { path: Proj::path(dir, &name), data, age: if r.chance(300) { 7200 * SEC } else { 0 } });
            }
        }
        l.rebase();
    }
    let mains: Vec<String> = p.mods.iter().filter(|m| m.name.starts_with("main")).map(|m| m.name.clone()).collect();
    let (start, wall) = (l.start.clone(), l.wall0);
    let mut out = vec![];
    let n = if l.cx.thorough { 40 } else { 12 };
    let np = 2 + r.below(2) as usize;
    let shared = r.chance(350);
    let mut procs = vec![];
    for k in 0..np {
        let main = pick(r, &mains).clone();
        let ext = if r.chance(60) { "xlsx" } else { "csv" };
        let mut q = proc(dir, &[], r);
        q.pid = 200 + k as u32;
        q.cpus = 1 + r.below(2) as u32;
        q.args = vec!["-o".into(), if shared && ext == "csv" { "out.csv".into() } else { format!("out{k}.{ext}") }, format!("{main}.csvpp")];
        if r.chance(60) {
            q.args.insert(0, "--no-cache".into());
        }
        procs.push(q);
    }
    let base = l.cx.run(&l.fs, &Plan::simple(procs.clone()), l.wall);
    for _ in 0..n {
        let mut plan = Plan::simple(procs.clone());
        for q in &mut plan.procs {
            q.hash_seed = r.next();
        }
        plan.sched = match r.below(6) {
            4 | 5 => rand_sites(r),
            0 => SchedSpec::Random { seed: r.next(), op_switch: 500, edge_mean: 0 },
            1 => SchedSpec::Random { seed: r.next(), op_switch: 200, edge_mean: 5000 },
            _ => {
                let d = 2 + r.below(8);
                SchedSpec::Pct { seed: r.next(), at: (0..d).map(|_| 1 + r.below(base.points.max(2))).collect() }
            }
        };
        // switch exactly at operations on object files
        if r.chance(500) {
            for _ in 0..1 + r.below(4) {
                plan.faults.push(FaultSpec::on(
                    fk::SWITCH,
                    r.below(np as u64) as i32,
                    op::bit(op::WRITE) | op::bit(op::READ) | op::bit(op::OPEN) | op::bit(op::RENAME) | op::bit(op::STAT) | op::bit(op::UNLINK),
                    if r.chance(600) { "" } else { ".csvpo" },
                    r.below(20) as u32,
                    1 + r.below(3) as u32,
                    0,
                ));
            }
        }
        plan.wake_seed = r.next();
        if r.chance(300) {
            plan.short_permille = 500;
            plan.io_seed = r.next();
        }
        let mut steps = vec![Step::Run(plan)];
        if r.chance(400) {
            let mut after = some_build(r, dir, &p, true);
            after.sched = SchedSpec::Default;
            steps.push(Step::Run(after));
        }
        out.push(scenario("C05", "concurrent builds", &start, wall, steps));
    }
    out
}

fn chk_c05(cx: &mut Ctx, before: &Fs, wall: i64, plan: &Plan, r: &RunResult) -> V {
    let n = plan.procs.len();
    if n == 1 {
        return vs_clean(cx, before, plan, r, wall, 0);
    }
    if r.switches > n as u64 {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    let mut groups: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for p in 0..n {
        groups.entry(target_of(&plan.procs[p]).unwrap_or_default()).or_default().push(p);
    }
    for (t, ps) in groups {
        if ps.len() == 1 {
            if let Some((s, m)) = vs_clean(cx, before, plan, r, wall, ps[0]) {
                return v(&s, format!("process {} among {n}: {m}", ps[0]));
            }
            continue;
        }
        let mut allowed: Vec<Out> = vec![];
        for &p in &ps {
            let c = cx.clean(before, &plan.procs[p], wall);
            if matches!(c.cls, Cls::Hang | Cls::Crash | Cls::Killed) {
                return None;
            }
            let k = cls(r, p);
            if k != c.cls {
                return v(
                    &format!("{k:?} instead of {:?}", c.cls),
                    format!("process {p} of {n} writing {t}: {}; alone: {}; stderr {:?}", r.procs[p].describe(), c.res.describe(), clip(&String::from_utf8_lossy(&r.procs[p].err), 300)),
                );
            }
            if k == Cls::Ok {
                allowed.push(c.out.clone());
            }
        }
        // what one of them gives on top of what others wrote
        let mut frontier: Vec<(Fs, Vec<usize>)> = vec![(before.clone(), vec![])];
        while let Some((f, done)) = frontier.pop() {
            for &p in &ps {
                if done.contains(&p) {
                    continue;
                }
                let c = cx.clean(&f, &plan.procs[p], wall);
                if !allowed.contains(&c.out) {
                    allowed.push(c.out.clone());
                }
                let mut f2 = before.clone();
                match c.fs.0.get(&t) {
                    Some(x) => {
                        f2.0.insert(t.clone(), x.clone());
                    }
                    None => {
                        f2.0.remove(&t);
                    }
                }
                let mut d = done.clone();
                d.push(p);
                if d.len() < ps.len() {
                    frontier.push((f2, d));
                }
            }
        }
        let o = out_of(&r.fs, &t);
        if !allowed.contains(&o) {
            return v(
                "shared output is nobody's output",
                format!("{t} holds {} after {} builds raced; complete outputs are {}", o.show(), ps.len(), allowed.iter().map(Out::show).collect::<Vec<_>>().join(" | ")),
            );
        }
    }
    None
}

pub fn node_hash(fs: &Fs, p: &str) -> (u64, u64) {
    match fs.0.get(p) {
        Some(Node::File { data, .. }) => (hash_bytes(data) | 1, data.len() as u64),
        Some(Node::Dir { .. }) => (3, 0),
        Some(Node::Link { .. }) => (5, 0),
        None => (0, 0),
    }
}
