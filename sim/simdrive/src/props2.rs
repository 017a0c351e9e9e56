//! C06-C12: determinism, termination, scoping, load failures, atomic output, I/O failures.
use crate::engine::*;
use crate::fs::{Fs, Node};
use crate::proj::*;
use crate::props::*;
use crate::scen::*;
use crate::props4;
use crate::xlsx;
use simworld::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C06

/// things which fail while evaluating, several of them so that there is something to choose from
pub fn add_eval_errors(r: &mut Rng, p: &mut Proj) {
    let one = |r: &mut Rng, fs: &[(String, usize)], args: &[Expr]| {
        let (f, n) = pick(r, fs).clone();
        let bad = if n > 1 && r.chance(500) { n - 1 } else { n + 1 };
        Expr::Call(f, (0..bad).map(|k| if !args.is_empty() && r.chance(400) { pick(r, args).clone() } else { Expr::Int(k as i64) }).collect())
    };
    let vars: Vec<Expr> = VARS.iter().map(|v| Expr::Ref(v.to_string())).collect();
    // several in one expression, too
    let wrong = |r: &mut Rng, fs: &[(String, usize)]| {
        let mut e = if r.chance(500) { one(r, fs, &[]) } else { one(r, fs, &vars) };
        while r.chance(400) {
            e = if r.chance(400) { one(r, fs, &[e]) } else { Expr::add(e, one(r, fs, &vars)) };
        }
        e
    };
    // in cells
    let cells = r.chance(650);
    if let Some(i) = p.mods.iter().position(|m| m.name == "main").filter(|_| cells) {
        let fs: Vec<(String, usize)> = usable(p, &p.mods[i], None).1;
        for _ in 0..1 + r.below(3) {
            if fs.is_empty() {
                break;
            }
            let e = wrong(r, &fs);
            let row = RowSrc { cells: vec![CellSrc::Text("e".into()), CellSrc::Formula(e)], ..Default::default() };
            let at = r.below(p.mods[i].rows.len() as u64 + 1) as usize;
            p.mods[i].rows.insert(at, row);
        }
    }
    // in definitions, several of a module and of several modules
    if !cells || r.chance(300) {
        for i in 0..p.mods.len() {
            if p.mods[i].raw.is_some() || !r.chance(600) {
                continue;
            }
            let fs: Vec<(String, usize)> = usable(p, &p.mods[i], None).1;
            for name in ["e_aa", "e_bb", "e_cc", "e_dd"] {
                if fs.is_empty() || !r.chance(600) {
                    continue;
                }
                let body = wrong(r, &fs);
                let params = r.chance(300).then(|| vec!["p_aa".to_string()]);
                p.mods[i].defs.push(Def { name: name.into(), params, body });
            }
        }
    }
}

fn break_some(r: &mut Rng, p: &mut Proj) {
    for _ in 0..1 + r.below(3) {
        let i = r.below(p.mods.len() as u64) as usize;
        if p.mods[i].name.starts_with("main") {
            // an import which is not there
            p.mods[i].imports.push(pick(r, &["m_yak", "m_zebra", "m_wolf"]).to_string());
        } else if r.chance(600) {
            p.mods[i].raw = Some(breakage(r));
        } else {
            p.mods[i].imports.push(pick(r, &["m_yak", "m_zebra", "m_wolf"]).to_string());
        }
    }
}

pub fn gen_c06(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let mut o = proj_opts(r);
    o.rows = (1, 8);
    // enough rows for the threads to divide them in different ways
    let tall = r.chance(120);
    if tall {
        let n = 20 + r.below(150);
        o.rows = (n, n + 20);
        o.cols = (1, 3);
        o.mods = (1, 2);
        o.decor = true;
    }
    let mut p = gen_proj(r, &o);
    if tall {
        tall_main(r, &mut p);
    }
    match r.below(6) {
        0 => break_some(r, &mut p),
        1 => add_eval_errors(r, &mut p),
        _ => {}
    }
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let ext = if r.chance(120) { "xlsx" } else { "csv" };
    let mut l = Live::new(cx, fs, WALL0);
    if r.chance(350) {
        // an existing target, a warm cache
        let b = some_build(r, dir, &p, false);
        l.push(Step::Run(b));
        for name in edit(r, &mut p, &o) {
            let data = p.get(&name).unwrap().text().into_bytes();
            l.push(Step::Write { path: Proj::path(dir, &name), data, age: 0 });
        }
        l.rebase();
    }
    let main = if r.chance(800) { "main".to_string() } else { pick(r, &p.mods).name.clone() };
    let mut args = kv_args(r);
    if r.chance(200) {
        args.push("-s".into());
    }
    if r.chance(200) {
        args.push("--no-cache".into());
    }
    args.extend(["-o".to_string(), format!("out.{ext}"), format!("{main}.csvpp")]);
    let mut q = proc(dir, &[], r);
    q.args = args;
    q.cpus = 1;
    let first = Plan::simple(vec![q.clone()]);
    let mut steps = vec![Step::Run(first)];
    let n = if l.cx.thorough { 30 } else { 12 };
    for _ in 0..n {
        steps.push(Step::Reset);
        if r.chance(300) {
            steps.push(Step::Clock(*pick(r, &[-400 * 86_400 * SEC, 7 * SEC, 86_400 * SEC, 3 * 365 * 86_400 * SEC])));
        }
        let mut q = q.clone();
        q.cpus = 1 + r.below(8) as u32;
        q.hash_seed = r.next();
        q.pid = 2 + r.below(30_000) as u32;
        let mut b = Plan::simple(vec![q]);
        vary(r, &mut b);
        // what it tells on the way is not compared, so it does not tell
        b.procs[0].args.retain(|a| !a.starts_with("-v"));
        if b.sched == SchedSpec::Default && r.chance(700) {
            b.sched = rand_sched(r, 150_000);
            b.wake_seed = r.next();
        }
        steps.push(Step::Run(b));
    }
    let (start, wall) = (l.start.clone(), l.wall0);
    vec![scenario("C06", "the same build again and again", &start, wall, steps)]
}

/// Mostly text, a few formulas, and variables which are defined here and there more than once.
fn tall_main(r: &mut Rng, p: &mut Proj) {
    let Some(i) = p.idx("main") else { return };
    let dense = *pick(r, &[30, 100, 400]);
    let names = *pick(r, &[2u64, 8, 40]);
    for (k, row) in p.mods[i].rows.iter_mut().enumerate() {
        if row.fill.is_some() && r.chance(800) {
            row.fill = None;
        }
        for (j, c) in row.cells.iter_mut().enumerate() {
            let name = |r: &mut Rng| format!("cv_{}", (b'a' + r.below(names) as u8 % 26) as char);
            *c = if r.chance(dense) {
                CellSrc::Var(name(r), format!("t{k}x{j}"))
            } else if r.chance(dense / 2) {
                CellSrc::Formula(Expr::Ref(name(r)))
            } else if r.chance(900) {
                CellSrc::Text(format!("t{k}x{j}"))
            } else {
                continue;
            };
        }
    }
}

fn err_set(r: &RunResult, p: usize) -> BTreeSet<String> {
    String::from_utf8_lossy(&r.procs[p].err).lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}

pub fn chk_c06(cx: &mut Ctx, mem: &mut Mem, _before: &Fs, plan: &Plan, r: &RunResult) -> V {
    if r.tasks > 1 && r.switches > 0 {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    let k = cls(r, 0);
    let o = output(cx, &plan.procs[0], r).unwrap_or(Out::Absent);
    let e = err_set(r, 0);
    let Some((k0, o0, e0)) = &mem.base else {
        mem.base = Some((k, o, e));
        return None;
    };
    if *k0 != k {
        return v("outcome differs between runs", format!("{k0:?} and {k:?} ({}); errors {e0:?} and {e:?}", r.procs[0].describe()));
    }
    if *o0 != o {
        return v("output differs between runs", format!("{} and {}", o0.show(), o.show()));
    }
    if *e0 != e {
        return v("errors differ between runs", format!("{e0:?} and {e:?}"));
    }
    None
}

// ------------------------------------------------------------------ C07

/// Deeper and wider than random edges get: chains, stars, layers of many modules.
fn many_modules(r: &mut Rng, p: &mut Proj) {
    let total = 12 + r.below(60) as usize;
    let width = *pick(r, &[1, 1, 1, 2, 4, 8, total]);
    let name = |k: usize| format!("n_{}{}", (b'a' + (k / 26) as u8) as char, (b'a' + (k % 26) as u8) as char);
    let both = r.chance(300);
    for k in 0..total {
        let next = (k / width + 1) * width;
        let mut imports: Vec<String> = (next..(next + width).min(total)).map(name).collect();
        if width > 1 && !both {
            // not everybody imports everybody
            imports.retain(|_| r.chance(600));
        }
        if r.chance(20) {
            imports.push(name(r.below(total as u64) as usize));
        }
        shuffle(r, &mut imports);
        p.mods.push(Module { name: name(k), imports, ..Default::default() });
    }
    let Some(i) = p.idx("main") else { return };
    p.mods[i].imports.extend((0..width).map(name));
}

/// formulas nested deeper than this exhaust the stack of a thread (a known finding)
const TOO_DEEP: usize = 2000;

/// One thing which is much larger than usual: a cell's text, a row, a formula.
fn oversized(r: &mut Rng, p: &mut Proj) {
    let i = r.below(p.mods.len() as u64) as usize;
    let cell = match r.below(12) {
        0..=4 => {
            let unit = *pick(r, &["abcd", "q\"x ", "new\nline", "é☃, ", "a\\b "]);
            CellSrc::Text(unit.repeat((12_000 + r.below(48_000) as usize) / unit.len()))
        }
        5..=6 => {
            let n = 300 + r.below(1500);
            p.mods[i].rows.push(RowSrc { cells: (0..n).map(|k| CellSrc::Text(if k % 7 == 0 { String::new() } else { format!("{k}") })).collect(), ..Default::default() });
            return;
        }
        k => {
            let n = if r.chance(150) { 5000 + r.below(2000) as usize } else { 50 + r.below(250) as usize };
            let e = match k {
                7 => format!("{}1{}", "(".repeat(n), ")".repeat(n)),
                8 => format!("{}1{}", "ABS(".repeat(n), ")".repeat(n)),
                9 => (0..n).map(|k| k.to_string()).collect::<Vec<_>>().join(" + "),
                _ => (0..n).map(|k| format!("A{k}")).collect::<Vec<_>>().join(" * "),
            };
            if r.chance(700) {
                p.mods[i].defs.push(Def { name: "v_deep".into(), params: None, body: Expr::Raw(e) });
                CellSrc::Formula(Expr::add(Expr::Ref("v_deep".into()), Expr::Int(1)))
            } else {
                CellSrc::Formula(Expr::Raw(e))
            }
        }
    };
    p.mods[i].rows.push(RowSrc { cells: vec![CellSrc::Text("x".into()), cell], ..Default::default() });
}

/// a line of some source opens or chains more than `TOO_DEEP` operations
fn nested_too_deep(fs: &Fs) -> bool {
    fs.0.iter().any(|(k, n)| {
        let Node::File { data, .. } = n else { return false };
        k.ends_with(".csvpp")
            && data.split(|b| *b == b'\n').any(|l| {
                let code = l.starts_with(b"v_") || l.contains(&b'=');
                code && (l.iter().filter(|b| **b == b'(').count() > TOO_DEEP || l.iter().filter(|b| b"+*".contains(b)).count() > TOO_DEEP)
            })
    })
}

pub fn gen_c07(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let o = ProjOpts {
        mods: (1, 1 + r.below(8)),
        mains: 1,
        rows: (1, 2),
        cols: (1, 3),
        edge: 150 + r.below(600),
        cyclic: r.chance(750),
        scoping: r.chance(300),
        fills: false,
        decor: r.chance(300),
        rich: r.chance(300),
        tall: true,
    };
    let mut p = gen_proj(r, &o);
    // imports of the same module twice, of itself, of the main file, of nothing
    for _ in 0..r.below(4) {
        let i = r.below(p.mods.len() as u64) as usize;
        let n = match r.below(5) {
            0 => p.mods[i].name.clone(),
            1 => "main".to_string(),
            2 if !p.mods[i].imports.is_empty() => pick(r, &p.mods[i].imports).clone(),
            3 if r.chance(400) => "m_yak".to_string(),
            _ => pick(r, &p.mods).name.clone(),
        };
        let at = r.below(p.mods[i].imports.len() as u64 + 1) as usize;
        p.mods[i].imports.insert(at, n);
    }
    // shapes which random edges rarely give
    match r.below(8) {
        0 => {
            // a ring through everything
            let names: Vec<String> = p.mods.iter().map(|m| m.name.clone()).collect();
            let n = names.len();
            for (i, m) in p.mods.iter_mut().enumerate() {
                m.imports.push(names[(i + 1) % n].clone());
            }
        }
        1 => {
            // everything imports everything
            let names: Vec<String> = p.mods.iter().map(|m| m.name.clone()).collect();
            for m in &mut p.mods {
                for n in &names {
                    if !m.imports.contains(n) {
                        m.imports.push(n.clone());
                    }
                }
                shuffle(r, &mut m.imports);
            }
        }
        _ => {}
    }
    if r.chance(60) {
        many_modules(r, &mut p);
    }
    if r.chance(350) {
        circular_defs(r, &mut p);
    }
    if r.chance(70) {
        oversized(r, &mut p);
    }
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let mut steps = vec![];
    let n = 2 + r.below(if cx.thorough { 8 } else { 4 });
    for k in 0..n {
        let mut b = some_build(r, dir, &p, k > 0);
        if r.chance(600) {
            b.sched = rand_sched(r, 200_000);
        }
        b.budget = 250_000_000;
        if r.chance(30) {
            // arguments that make no sense
            let bad: &[&str] = pick(
                r,
                &[&["-k", "v_aa=1 +"][..], &["-k", "v_aa"], &["-k", "=3"], &["-k", ""], &["-vvvvv"], &["-n", ""], &["-o", "/proj/out.ods"], &["-o", "/proj/out.txt"], &["-o", "/proj"]],
            );
            if bad[0] == "-o" {
                if let Some(i) = b.procs[0].args.iter().position(|a| a == "-o") {
                    b.procs[0].args.drain(i..i + 2);
                }
            }
            // (-k takes all that follows, up to the next flag)
            let at = if bad[0] == "-o" { b.procs[0].args.len() - 1 } else { 0 };
            for (k, a) in bad.iter().enumerate() {
                b.procs[0].args.insert(at + k, a.to_string());
            }
        }
        steps.push(Step::Run(b));
        if r.chance(400) {
            for name in edit(r, &mut p, &o) {
                let data = p.get(&name).unwrap().text().into_bytes();
                steps.push(Step::Write { path: Proj::path(dir, &name), data, age: 0 });
            }
        }
        if r.chance(250) {
            // a source file is damaged
            let m = pick(r, &p.mods).clone();
            steps.push(Step::Write { path: Proj::path(dir, &m.name), data: mangle(r, &m.text()), age: 0 });
        }
    }
    vec![scenario("C07", "builds of an arbitrary import graph", &fs, WALL0, steps)]
}

/// Definitions which refer to each other in a circle, in one module or in several.
fn circular_defs(r: &mut Rng, p: &mut Proj) {
    let n = 1 + r.below(4) as usize;
    let names: Vec<(String, bool)> =
        (0..n).map(|k| if r.chance(500) { (format!("c_{k}"), false) } else { (format!("g_{k}"), true) }).collect();
    let Some(main) = p.mods.iter().position(|m| m.name == "main") else { return };
    let refer = |k: usize, arg: Expr| -> Expr {
        let (n, f) = &names[k];
        if *f {
            Expr::Call(n.clone(), vec![arg])
        } else {
            Expr::Ref(n.clone())
        }
    };
    for k in 0..n {
        let i = r.below(p.mods.len() as u64) as usize;
        let arg = if names[k].1 { Expr::Ref("p_x".into()) } else { Expr::Int(1) };
        let next = refer((k + 1) % n, arg.clone());
        let body = match r.below(4) {
            0 => next,
            1 => Expr::add(next.clone(), next),
            2 => Expr::add(next, refer(r.below(n as u64) as usize, arg)),
            _ => Expr::add(Expr::Int(7), next),
        };
        let params = names[k].1.then(|| vec!["p_x".to_string()]);
        p.mods[i].defs.push(Def { name: names[k].0.clone(), params, body });
        let mn = p.mods[i].name.clone();
        if i != main && !p.mods[main].imports.contains(&mn) {
            p.mods[main].imports.push(mn);
        }
    }
    let mut row = RowSrc::default();
    for _ in 0..1 + r.below(3) {
        row.cells.push(CellSrc::Formula(refer(r.below(n as u64) as usize, Expr::Int(3))));
    }
    p.mods[main].rows.push(row);
}

pub fn chk_c07(cx: &mut Ctx, before: &Fs, _plan: &Plan, r: &RunResult) -> V {
    cx.st.nontrivial.insert(r.hist_hash);
    let err = String::from_utf8_lossy(&r.procs[0].err);
    if cls(r, 0) == Cls::Crash && (err.contains("overflowed its stack") || err.contains("memory allocation of")) && nested_too_deep(before) {
        return v("stack or memory exhausted by a formula nested thousands deep", format!("too deep: {} with stderr {:?}", r.procs[0].describe(), clip(&err, 200)));
    }
    if r.points > 5_000_000 {
        cx.st.note("long run (over 5M points)");
    }
    ends_well(r)
}

pub fn ends_well(r: &RunResult) -> V {
    for (p, q) in r.procs.iter().enumerate() {
        let err = clip(&String::from_utf8_lossy(&q.err), 500);
        match cls(r, p) {
            Cls::Ok | Cls::Killed => {}
            Cls::Fail => {
                if q.code != 1 {
                    return v("unexpected exit status", format!("{} with stderr {err:?}", q.describe()));
                }
                if q.err.is_empty() {
                    return v("fails without a message", format!("{} and nothing on stderr", q.describe()));
                }
            }
            Cls::Crash => return v("crash", format!("{} with stderr {err:?}", q.describe())),
            Cls::Hang => return v(oc::name(r.outcome), format!("{} after {} points; stderr {err:?}", oc::name(r.outcome), r.points)),
        }
    }
    None
}

// ------------------------------------------------------------------ C08

/// every name in every module's definitions has one meaning; no module sees one name twice
pub fn scoping_ok(p: &Proj) -> bool {
    for m in &p.mods {
        let mut seen = BTreeSet::new();
        for i in &m.imports {
            let Some(o) = p.get(i) else { return false };
            for d in &o.defs {
                if !seen.insert(d.key()) {
                    return false;
                }
            }
        }
        if p.reach(&m.name).contains(&m.name) {
            return false;
        }
        for d in &m.defs {
            if !closed(p, m, &d.body, d.params.as_deref().unwrap_or(&[])) && !m.name.starts_with("main") {
                return false;
            }
        }
    }
    true
}
fn closed(p: &Proj, m: &Module, e: &Expr, params: &[String]) -> bool {
    match e {
        Expr::Int(_) | Expr::Str(_) => true,
        Expr::Ref(r) => params.contains(r) || p.resolve(m, r, false).is_some(),
        Expr::Raw(_) => true,
        Expr::Add(a, b) | Expr::Op(a, _, b) => closed(p, m, a, params) && closed(p, m, b, params),
        Expr::Call(f, a) => p.resolve(m, f, true).is_some() && a.iter().all(|x| closed(p, m, x, params)),
    }
}

fn expect_norms(p: &Proj, main: &str) -> serde_json::Value {
    let m = p.get(main).unwrap();
    let mut v = vec![];
    for (i, row) in m.rows.iter().enumerate() {
        for (j, c) in row.cells.iter().enumerate() {
            if let CellSrc::Formula(e) = c {
                let mut fuel = 200_000;
                let n = p.norm(m, e, &BTreeMap::new(), &mut fuel);
                if fuel > 0 {
                    v.push(serde_json::json!([i, j, n.show(), e.text()]));
                }
            }
        }
    }
    serde_json::Value::Array(v)
}

pub fn gen_c08(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let o = ProjOpts {
        mods: (1, 2 + r.below(5)),
        mains: 1 + r.below(2),
        rows: (1, 3),
        cols: (1, 4),
        edge: 300 + r.below(500),
        cyclic: false,
        scoping: true,
        fills: false,
        decor: false,
        rich: false,
        tall: false,
    };
    let mut p = gen_proj(r, &o);
    if r.chance(100) {
        let i = r.below(p.mods.len() as u64) as usize;
        crate::proj::deepen(r, &mut p.mods[i], true);
    }
    if !scoping_ok(&p) {
        return vec![];
    }
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let mut steps = vec![];
    let mut aux = serde_json::Map::new();
    let n = 2 + r.below(if cx.thorough { 8 } else { 5 });
    for k in 0..n {
        if k > 0 && r.chance(700) {
            let prev = p.clone();
            let names = edit(r, &mut p, &o);
            if scoping_ok(&p) {
                for name in names {
                    let data = p.get(&name).unwrap().text().into_bytes();
                    steps.push(Step::Write { path: Proj::path(dir, &name), data, age: if r.chance(300) { 7200 * SEC } else { 0 } });
                }
            } else {
                p = prev;
            }
        }
        let mains: Vec<String> = p.mods.iter().filter(|m| m.name.starts_with("main")).map(|m| m.name.clone()).collect();
        let main = pick(r, &mains).clone();
        let (cwd, file) = spell(r, dir, &main);
        let mut q = proc(&cwd, &["-o", &format!("{dir}/o{k}.csv"), &file], r);
        if r.chance(150) {
            q.args.insert(0, "--no-cache".into());
        }
        let mut b = Plan::simple(vec![q]);
        vary(r, &mut b);
        aux.insert(steps.len().to_string(), expect_norms(&p, &main));
        steps.push(Step::Run(b));
    }
    let mut sc = scenario("C08", "scoping", &fs, WALL0, steps);
    sc.fixed = true;
    sc.aux = aux.into();
    vec![sc]
}

pub fn chk_c08(cx: &mut Ctx, sc: &Scenario, i: usize, plan: &Plan, r: &RunResult) -> V {
    let exp = sc.aux.get(i.to_string())?.as_array()?;
    if exp.iter().any(|e| e[3].as_str().is_some_and(|s| s.contains("v_") || s.contains("f_"))) {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    if cls(r, 0) != Cls::Ok {
        return v("build fails", format!("{} {:?}", r.procs[0].describe(), clip(&String::from_utf8_lossy(&r.procs[0].err), 400)));
    }
    let t = target_of(&plan.procs[0])?;
    let cells = match r.fs.file_follow(&t).map(xlsx::csv_cells) {
        Some(Ok(c)) => c,
        other => return v("no readable output", format!("{other:?}")),
    };
    for e in exp {
        let pos = (e[0].as_u64()? as u32, e[1].as_u64()? as u32);
        let want = e[2].as_str()?;
        let got = cells.get(&pos).cloned().unwrap_or_default();
        let n = norm_of_text(got.trim_start_matches('=')).map(|n| n.show());
        if n.as_deref() != Some(want) {
            return v(
                "a name has another meaning",
                format!("cell {} of {}: `={}` means {want}, the output has {got:?} ({})", xlsx::a1(pos), plan.procs[0].args.last().unwrap(), e[3].as_str()?, n.unwrap_or_default()),
            );
        }
    }
    None
}

// ------------------------------------------------------------------ C09

/// the failing modules a build of `main` comes across
fn failing(p: &Proj, main: &str, bad: &BTreeSet<String>) -> BTreeSet<String> {
    let mut seen = BTreeSet::new();
    let mut out = BTreeSet::new();
    let mut todo: Vec<String> = p.get(main).map(|m| m.imports.clone()).unwrap_or_default();
    while let Some(x) = todo.pop() {
        if !seen.insert(x.clone()) {
            continue;
        }
        match p.get(&x) {
            Some(m) if !bad.contains(&x) => todo.extend(m.imports.iter().cloned()),
            _ => {
                out.insert(x);
            }
        }
    }
    out
}

pub fn gen_c09(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let o = ProjOpts {
        mods: (2, 3 + r.below(5)),
        mains: 1,
        rows: (1, 2),
        cols: (1, 3),
        edge: 250 + r.below(500),
        cyclic: r.chance(150),
        scoping: false,
        fills: false,
        decor: false,
        rich: false,
        tall: true,
    };
    let mut p = gen_proj(r, &o);
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let ext = if r.chance(150) { "xlsx" } else { "csv" };
    let mut steps = vec![];
    let mut aux = serde_json::Map::new();
    let build = |r: &mut Rng| {
        let (cwd, file) = spell(r, dir, "main");
        let mut q = proc(&cwd, &["-o", &format!("{dir}/out.{ext}"), &file], r);
        if r.chance(120) {
            q.args.insert(0, "--no-cache".into());
        }
        if r.chance(100) {
            q.args.insert(0, "-s".into());
        }
        let mut b = Plan::simple(vec![q]);
        vary(r, &mut b);
        b
    };
    if r.chance(700) {
        // everything is fine first: target and object files exist
        steps.push(Step::Run(build(r)));
        if r.chance(400) {
            for name in edit(r, &mut p, &o) {
                let data = p.get(&name).unwrap().text().into_bytes();
                steps.push(Step::Write { path: Proj::path(dir, &name), data, age: 0 });
            }
        }
    }
    let n = 1 + r.below(if cx.thorough { 5 } else { 3 });
    for _ in 0..n {
        let mods: Vec<String> = p.mods.iter().filter(|m| m.name != "main").map(|m| m.name.clone()).collect();
        let mut bad: BTreeSet<String> = BTreeSet::new();
        let mut undo = vec![];
        let mut faults = vec![];
        for _ in 0..1 + r.below(4) {
            let m = pick(r, &mods).clone();
            if !bad.insert(m.clone()) {
                continue;
            }
            let path = Proj::path(dir, &m);
            let back = Step::Write { path: path.clone(), data: p.get(&m).unwrap().text().into_bytes(), age: if r.chance(300) { 7200 * SEC } else { 0 } };
            match r.below(10) {
                8..=9 => {
                    // the definitions stay as they were, the cells are broken
                    let text = p.get(&m).unwrap().text();
                    let bad = *pick(r, &["x,=1 +\n", "x,=foo(1,\n", "![[fill=x]]a\n", "[[nonsense=1]]a\n", "=(1,2\n", "=1 2\n"]);
                    let data = match text.find("\n---\n") {
                        Some(k) if r.chance(300) => format!("{}\n---\n{bad}", &text[..k]),
                        _ => format!("{text}{}{bad}", if text.ends_with('\n') { "" } else { "\n" }),
                    };
                    steps.push(Step::Write { path: path.clone(), data: data.into_bytes(), age: if r.chance(300) { 7200 * SEC } else { 0 } });
                    undo.push(back);
                }
                0..=1 => {
                    steps.push(Step::Remove(path.clone()));
                    undo.push(back);
                }
                2..=3 => {
                    steps.push(Step::Write { path: path.clone(), data: breakage(r).into_bytes(), age: if r.chance(300) { 7200 * SEC } else { 0 } });
                    undo.push(back);
                }
                4 => {
                    steps.push(Step::Chmod(path.clone(), 0));
                    undo.push(Step::Chmod(path.clone(), 0o644));
                }
                5 => {
                    steps.push(Step::Write { path: path.clone(), data: b"v_aa := 1\n\xff\xfe\n---\n".to_vec(), age: 0 });
                    undo.push(back);
                }
                6 => {
                    steps.push(Step::Remove(path.clone()));
                    steps.push(Step::Mkdir(path.clone()));
                    undo.push(Step::Remove(path.clone()));
                    undo.push(back);
                }
                _ => {
                    let (c, e) = *pick(r, &[(op::OPEN, EIO), (op::OPEN, EACCES), (op::READ, EIO), (op::OPEN, EMFILE)]);
                    faults.push(FaultSpec::on(fk::ERRNO, -1, op::bit(c), &format!("/{m}.csvpp"), 0, FOREVER, e.into()));
                }
            }
        }
        // some imports of modules that never existed
        if r.chance(250) {
            let i = r.below(p.mods.len() as u64) as usize;
            let g = pick(r, &["m_yak", "m_wolf", "m_zebra"]).to_string();
            if !bad.contains(&p.mods[i].name) && !p.mods[i].imports.contains(&g) {
                p.mods[i].imports.push(g.clone());
                if r.chance(150) {
                    // many of them
                    let n = 5 + r.below(21);
                    p.mods[i].imports.extend((0..n).map(|k| format!("{g}_{}", (b'a' + k as u8) as char)));
                }
                steps.push(Step::Write { path: Proj::path(dir, &p.mods[i].name), data: p.mods[i].text().into_bytes(), age: 0 });
            }
        }
        let fails: Vec<String> = failing(&p, "main", &bad).into_iter().collect();
        let mut b = build(r);
        b.faults = faults;
        aux.insert(steps.len().to_string(), serde_json::json!(fails));
        steps.push(Step::Run(b));
        steps.extend(undo);
        if r.chance(400) {
            let mut b = build(r);
            b.sched = SchedSpec::Default;
            let fails: Vec<String> = failing(&p, "main", &BTreeSet::new()).into_iter().collect();
            aux.insert(steps.len().to_string(), serde_json::json!(fails));
            steps.push(Step::Run(b));
        }
    }
    let mut sc = scenario("C09", "modules that do not load", &fs, WALL0, steps);
    sc.fixed = true;
    sc.aux = aux.into();
    vec![sc]
}

pub fn chk_c09(cx: &mut Ctx, sc: &Scenario, i: usize, before: &Fs, plan: &Plan, r: &RunResult) -> V {
    let fails: Vec<String> = sc.aux.get(i.to_string())?.as_array()?.iter().filter_map(|x| x.as_str().map(str::to_string)).collect();
    if fails.is_empty() {
        return None;
    }
    cx.st.nontrivial.insert(r.hist_hash);
    let err = String::from_utf8_lossy(&r.procs[0].err).into_owned();
    if cls(r, 0) != Cls::Fail {
        return v("build with a failing module does not fail", format!("{} ({}); failing {fails:?}; stderr {:?}", r.procs[0].describe(), oc::name(r.outcome), clip(&err, 400)));
    }
    let missing: Vec<&String> = fails.iter().filter(|m| !err.contains(m.as_str())).collect();
    if !missing.is_empty() {
        return v("failing module not reported", format!("{missing:?} of {fails:?} not named in {:?}", clip(&err, 800)));
    }
    if crate::net::is_sheet(&plan.procs[0]) && crate::net::touched(cx) {
        return v("sheet changed by a failing build", format!("failing {fails:?}; stderr {:?}", clip(&err, 400)));
    }
    untouched(before, plan, r)
}

fn untouched(before: &Fs, plan: &Plan, r: &RunResult) -> V {
    let t = target_of(&plan.procs[0])?;
    if before.0.get(&t) != r.fs.0.get(&t) {
        return v("target changed by a failing build", format!("{t}: {} before, {} after", out_of(before, &t).show(), out_of(&r.fs, &t).show()));
    }
    if let Some(e) = r.evs.iter().find(|e| changed(e, &t).is_some()) {
        return v("target touched by a failing build", format!("{} of {t} (operation {})", op::name(e.class), e.op));
    }
    None
}

// ------------------------------------------------------------------ targets and faults

/// a project with a target that exists or not; returns the plain build
pub struct Setup {
    pub p: Proj,
    pub start: Fs,
    pub wall: i64,
    pub build: Plan,
}

pub fn old_csv(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    let eol = if r.chance(100) { "\r\n" } else { "\n" };
    if r.chance(15) {
        for k in 0..*pick(r, &[70, 130, 1001]) {
            s.push_str(&format!("f{k}{eol}"));
        }
    }
    for i in 0..1 + r.below(6) {
        let n = 1 + r.below(5);
        let row: Vec<String> = (0..n)
            .map(|j| match r.below(9) {
                0 | 1 => String::new(),
                2 => format!("\"q,{i}{j}\""),
                3 if r.chance(500) => pick(
                    r,
                    &[" ", "  ", "\t", "0", "FALSE", "-", "\"a \"\"b\"\"\"", "\"two\nlines\"", " lead", "trail ", "\u{e9}\u{20ac}", "'", "=A1", "\" \"", "N/A", "null"],
                )
                .to_string(),
                _ => format!("old{i}{j}"),
            })
            .collect();
        s.push_str(&row.join(","));
        s.push_str(eol);
    }
    if r.chance(150) && s.ends_with(eol) && s.len() > 2 * eol.len() {
        s.truncate(s.len() - eol.len());
    }
    s.into_bytes()
}

pub fn old_xlsx(r: &mut Rng) -> Vec<u8> {
    old_xlsx_at(r, (0, 0))
}

/// how far from A1 everything stands (mostly: not at all)
pub fn some_shift(r: &mut Rng) -> (u32, u32) {
    match r.below(100) {
        0..=5 => (0, 22 + r.below(6) as u32),
        6..=8 => (*pick(r, &[60, 97, 998]), 0),
        _ => (0, 0),
    }
}

/// moves the cells of the main files down and to the right
pub fn shift_proj(p: &mut Proj, shift: (u32, u32)) {
    for m in p.mods.iter_mut().filter(|m| m.name.starts_with("main")) {
        for row in &mut m.rows {
            for _ in 0..shift.1 {
                row.cells.insert(0, CellSrc::Empty);
            }
        }
        for i in 0..shift.0 {
            m.rows.insert(0, RowSrc { cells: vec![CellSrc::Text(format!("above {i}"))], ..Default::default() });
        }
    }
}

pub fn old_xlsx_at(r: &mut Rng, shift: (u32, u32)) -> Vec<u8> {
    let mut sheets: Vec<(String, BTreeMap<xlsx::Pos, xlsx::XCell>, xlsx::Extras)> = vec![];
    let names: Vec<&str> = match r.below(4) {
        0 => vec!["main"],
        1 => vec!["other"],
        2 => vec!["main", "other"],
        _ => vec!["other", "main", "third"],
    };
    for n in names {
        let cells = rand_sheet(r).into_iter().map(|(p, c)| ((p.0 + shift.0, p.1 + shift.1), c)).collect();
        sheets.push((n.to_string(), cells, rand_extras(r, shift)));
    }
    xlsx::write(&sheets)
}

/// validations of single cells and ranges, and notes
pub fn rand_extras(r: &mut Rng, shift: (u32, u32)) -> xlsx::Extras {
    let mut x = xlsx::Extras::default();
    let mut taken = BTreeSet::new();
    if r.chance(400) {
        for _ in 0..1 + r.below(4) {
            let a = (shift.0 + r.below(12) as u32, shift.1 + r.below(5) as u32);
            let v = pick(r, &["type=\"whole\" operator=\"greaterThan\" allowBlank=\"1\" showErrorMessage=\"1\"", "type=\"decimal\" operator=\"lessThan\"", "type=\"textLength\" operator=\"equal\" showInputMessage=\"1\" promptTitle=\"t\""]).to_string();
            let b = (a.0 + r.below(4) as u32, a.1 + r.below(3) as u32);
            let at = match r.below(5) {
                0 if a != b => format!("{}:{}", xlsx::a1(a), xlsx::a1(b)),
                1 if a != b => format!("{} {}", xlsx::a1(a), xlsx::a1(b)),
                _ => xlsx::a1(a),
            };
            // (no cell has two of them)
            let cells = xlsx::range(&at);
            if taken.is_disjoint(&cells) {
                taken.extend(cells);
                x.valid.push((at, v));
            }
        }
    }
    if r.chance(400) {
        for _ in 0..1 + r.below(4) {
            let t = pick(r, &["an old note", "two\nlines", "a &amp; <b>", " ", "\u{e9}"]).to_string();
            let at = (shift.0 + r.below(12) as u32, shift.1 + r.below(5) as u32);
            x.notes.insert(if r.chance(60) { (*pick(r, &[99, 1000]), *pick(r, &[2, 26])) } else { at }, t);
        }
    }
    x
}

pub fn rand_sheet(r: &mut Rng) -> BTreeMap<xlsx::Pos, xlsx::XCell> {
    let mut m = BTreeMap::new();
    for i in 0..r.below(7) as u32 {
        for j in 0..r.below(6) as u32 {
            let c = match r.below(10) {
                0..=1 => continue,
                2..=3 => xlsx::XCell::Text(format!("old {i}&{j}")),
                4 => xlsx::XCell::Num(100 + i64::from(i * 10 + j)),
                5 => xlsx::XCell::Bool(r.chance(500)),
                6 => xlsx::XCell::Formula(format!("SUM(A{},7)", i + 1), 7),
                7 => xlsx::XCell::Inline(format!("inl{i}{j}")),
                8 if r.chance(600) => match r.below(10) {
                    0 => xlsx::XCell::Text(" ".into()),
                    1 => xlsx::XCell::Text(pick(r, &["  lead", "trail ", "two\nlines", "0", "007", "TRUE", "=x", "'", "\u{e9}\u{20ac}"]).to_string()),
                    2 => xlsx::XCell::Num(0),
                    3 => xlsx::XCell::Float(pick(r, &["0.5", "-1.25", "45000", "1E-7", "123456789012", "0.1"]).to_string()),
                    4 => xlsx::XCell::Error(pick(r, &["#N/A", "#DIV/0!", "#REF!", "#VALUE!"]).to_string()),
                    5 => xlsx::XCell::StrFormula(format!("UPPER(\"x{i}\")"), format!("X{i}")),
                    6 => xlsx::XCell::Rich(vec![format!("ri{i}"), "ch ".into(), format!("{j}")]),
                    7 => xlsx::XCell::Bool(false),
                    8 => xlsx::XCell::Formula("1/0".into(), 0),
                    _ => xlsx::XCell::Inline("a <b> & \"c\"".into()),
                },
                _ => xlsx::XCell::Styled,
            };
            m.insert((i, j), c);
        }
    }
    if r.chance(100) {
        // far from the others
        for _ in 0..1 + r.below(4) {
            let (i, j) = (*pick(r, &[0, 3, 9, 63, 99, 999, 1000, 1500]), *pick(r, &[0, 2, 25, 26, 51, 52, 701, 702]));
            m.insert((i, j), if r.chance(700) { xlsx::XCell::Text(format!("far {i}.{j}")) } else { xlsx::XCell::Num(7) });
        }
    }
    m
}

/// A CSV file which differs in one thing (or nothing).
pub fn nearly(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    let mut d = data.to_vec();
    match r.below(10) {
        0 => {}
        1..=3 => {
            for _ in 0..1 + r.below(3) {
                d.extend_from_slice(pick(r, &[&b"left,over\n"[..], b"left\n", b",,\n", b"\n", b"l,e,f,t,o,v,e,r\n"]));
            }
        }
        4 => {
            let n = d.len() - d.len().min(1 + r.below(12) as usize);
            d.truncate(n);
        }
        5 => {
            if let Some(i) = (!d.is_empty()).then(|| r.below(d.len() as u64) as usize) {
                d[i] = *pick(r, b"x,0 ");
            }
        }
        6 => {
            let rows: Vec<&[u8]> = data.split_inclusive(|c| *c == b'\n').collect();
            if rows.len() > 1 {
                let i = r.below(rows.len() as u64 - 1) as usize;
                let mut rows = rows.clone();
                rows.swap(i, i + 1);
                d = rows.concat();
            }
        }
        7 => {
            let rows: Vec<&[u8]> = data.split_inclusive(|c| *c == b'\n').collect();
            if !rows.is_empty() {
                let i = r.below(rows.len() as u64) as usize;
                d.extend_from_slice(rows[i]);
            }
        }
        8 => d = String::from_utf8_lossy(data).replace('\n', pick(r, &["\r\n", ",\n", ",more\n"])).into_bytes(),
        _ => {
            d.splice(0..0, pick(r, &[&b"\n"[..], b"above,\n"]).iter().copied());
        }
    }
    d
}

pub fn setup(cx: &mut Ctx, r: &mut Rng, flags: bool) -> Setup {
    let mut o = proj_opts(r);
    o.cyclic = false;
    o.rows = (1, 6);
    let mut p = gen_proj(r, &o);
    let dir = some_dir(r);
    let mut fs = Fs::new();
    write_proj(&mut fs, dir, &p, WALL0 - 3600 * SEC);
    let xl = r.chance(200);
    let name = some_name(r, if xl { "xlsx" } else { "csv" });
    let (cwd, file) = spell(r, dir, "main");
    let mut a = vec![];
    if flags && r.chance(250) {
        a.push("-s".to_string());
    }
    if flags && r.chance(150) {
        a.push("-b".to_string());
    }
    if r.chance(150) {
        a.push("--no-cache".to_string());
    }
    if xl && r.chance(400) {
        a.extend(["-n".to_string(), "main".to_string()]);
    }
    // targets elsewhere, or behind a symbolic link
    let tdir = if r.chance(300) { "/data" } else { dir };
    fs.mkdirs(tdir);
    let mut t = format!("{tdir}/{name}");
    if r.chance(120) {
        t = behind_link(r, &mut fs, &t);
    }
    let arg = if tdir == dir && cwd == dir { name.to_string() } else { format!("{tdir}/{name}") };
    a.extend(["-o".to_string(), arg, file]);
    let mut q = proc(&cwd, &[], r);
    q.args = a;
    let build = Plan::simple(vec![q]);
    match r.below(4) {
        0 => {}
        1 | 2 => {
            let d = if xl { old_xlsx(r) } else if r.chance(60) { vec![] } else { old_csv(r) };
            fs.put(&t, &d, WALL0 - 7200 * SEC);
        }
        _ => {
            let x = cx.run(&fs, &build, WALL0 - 1800 * SEC);
            fs = x.fs;
            for name in edit(r, &mut p, &o) {
                fs.put(&Proj::path(dir, &name), p.get(&name).unwrap().text().as_bytes(), WALL0 - 900 * SEC);
            }
        }
    }
    if r.chance(300) {
        let x = cx.run(&fs, &build, WALL0 - 800 * SEC);
        for (k, n) in x.fs.0 {
            if is_obj(&k) {
                fs.0.insert(k, n);
            }
        }
    }
    // almost what is about to be written
    if !xl && r.chance(250) {
        let x = cx.run(&fs, &build, WALL0 - 700 * SEC);
        if let Some(Node::File { data, .. }) = x.fs.0.get(&t) {
            fs.put(&t, &nearly(r, data), WALL0 - 700 * SEC);
        }
    }
    if r.chance(200) {
        if let Some(Node::File { mtime, .. }) = fs.0.get_mut(&t) {
            *mtime = *pick(r, &[0, WALL0 - 3600 * SEC, WALL0, WALL0 + 86_400 * SEC]);
        }
    }
    Setup { p, start: fs, wall: WALL0, build }
}

/// the file the target's name leads to
pub fn real_target(fs: &Fs, p: &ProcSpec) -> Option<String> {
    let t = target_of(p)?;
    Some(crate::props4::resolve(fs, &t))
}

/// a link at `t` to a file elsewhere (or beside it), which isn't there yet
pub fn behind_link(r: &mut Rng, fs: &mut Fs, t: &str) -> String {
    let (dir, name) = t.split_at(t.rfind('/').unwrap_or(0) + 1);
    let real = if r.chance(350) {
        format!("{dir}current-{name}")
    } else {
        fs.mkdirs("/store");
        format!("/store/{name}")
    };
    let text = match real.strip_prefix(dir) {
        Some(n) if r.chance(700) => n.to_string(),
        _ => link_text(r, t, &real),
    };
    fs.0.insert(t.to_string(), Node::Link { target: text });
    real
}

/// where a link at `at` says `real` is: in full or seen from there
pub fn link_text(r: &mut Rng, at: &str, real: &str) -> String {
    if r.chance(500) {
        return real.to_string();
    }
    let up = at.matches('/').count() - 1;
    format!("{}{}", "../".repeat(up), &real[1..])
}

/// a call which fails however often it is tried again
const FOREVER: u32 = u32::MAX;

pub fn rand_fault(r: &mut Rng, ops: &[(u32, u8, String, i64)]) -> Option<FaultSpec> {
    for _ in 0..30 {
        let (n, c, path, len) = pick(r, ops).clone();
        match r.below(10) {
            0..=5 => {
                let es = errnos(c);
                if es.is_empty() {
                    continue;
                }
                let e = i64::from(*pick(r, es));
                if r.chance(250) && !path.is_empty() {
                    // not only once: the file or the disk has a problem
                    let sfx = path.rsplit('/').next().unwrap_or("").to_string();
                    let sfx = if sfx.len() > 40 || sfx.ends_with(".tmp") { ".tmp".to_string() } else { sfx };
                    let bits = match r.below(3) {
                        0 => op::bit(c),
                        1 => op::bit(op::READ) | op::bit(op::WRITE) | op::bit(op::FSYNC),
                        _ => 0x7fff_fffe,
                    };
                    return Some(FaultSpec::on(fk::ERRNO, -1, bits, &sfx, r.below(3) as u32, FOREVER, e));
                }
                return Some(FaultSpec::at(fk::ERRNO, 0, n, e));
            }
            6 => {
                if len < 2 {
                    continue;
                }
                return Some(FaultSpec::at(fk::SHORT, 0, n, 1 + r.below(len as u64 - 1) as i64));
            }
            7 => return Some(FaultSpec::at(fk::CLOCK, 0, n, *pick(r, &[-86_400 * SEC, -2 * SEC, 3600 * SEC, 400 * 86_400 * SEC]))),
            8 => return Some(FaultSpec::at(fk::DELAY, 0, n, SEC * (1 + r.below(900) as i64))),
            _ => {
                if !matches!(c, op::READ | op::WRITE | op::OPEN) {
                    continue;
                }
                return Some(FaultSpec::at(fk::ERRNO, 0, n, EINTR.into()));
            }
        }
    }
    None
}

/// what an operation left under the name `t` (content hash and length; (0, 0) if nothing)
pub fn changed(e: &EvR, t: &str) -> Option<(u64, u64)> {
    if !e.mutated {
        return None;
    }
    if e.path2 == t {
        return Some((e.hash, e.len));
    }
    if e.path != t {
        return None;
    }
    match e.class {
        op::RENAME => Some((0, 0)),
        op::COPYRANGE | op::LINK => None,
        _ => Some((e.hash, e.len)),
    }
}

fn written(r: &RunResult) -> i64 {
    r.evs.iter().filter(|e| e.class == op::WRITE && e.res > 0).map(|e| e.res).sum()
}

// ------------------------------------------------------------------ C10

pub fn gen_c10(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let s = setup(cx, r, true);
    let base = cx.run(&s.start, &s.build, s.wall);
    let ops = ops_of(&base, 0);
    if ops.is_empty() {
        return vec![];
    }
    let mut out = vec![];
    let sc = |note: &str, p: Plan| scenario("C10", note, &s.start, s.wall, vec![Step::Run(p)]);
    let t = real_target(&s.start, &s.build.procs[0]).unwrap_or_default();
    let tdir = t[..t.rfind('/').unwrap_or(0)].to_string() + "/";
    // operations from the first one in the target's directory on are the interesting ones
    let hot: Vec<(u32, u8, String, i64)> =
        ops.iter().filter(|o| o.2.starts_with(&tdir) && !is_obj(&o.2) && !o.2.ends_with(".csvpp") && !o.2.contains(".csvpo")).cloned().collect();
    for (n, c, _, len) in &hot {
        for k in [fk::KILL_BEFORE, fk::KILL_AFTER] {
            for pl in [false, true] {
                if !pl && !r.chance(600) {
                    continue;
                }
                let mut p = s.build.clone();
                let mut f = FaultSpec::at(k, 0, *n, 0);
                if pl {
                    f.all = true;
                    p.power_loss = Some(r.next());
                }
                p.faults = vec![f];
                out.push(sc("kill", p));
            }
        }
        if *c == op::WRITE && *len > 1 {
            for _ in 0..3 {
                let mut p = s.build.clone();
                let mut f = FaultSpec::at(fk::KILL_MID, 0, *n, 1 + r.below(*len as u64 - 1) as i64);
                if r.chance(500) {
                    f.all = true;
                    p.power_loss = Some(r.next());
                }
                p.faults = vec![f];
                out.push(sc("kill in the middle of a write", p));
            }
        }
        for e in errnos(*c) {
            let mut p = s.build.clone();
            p.faults = vec![FaultSpec::at(fk::ERRNO, 0, *n, (*e).into())];
            // and what it does about the error fails as well
            if r.chance(300) {
                let m = n + 1 + r.below(4) as u32;
                p.faults.push(FaultSpec::at(*pick(r, &[fk::KILL_BEFORE, fk::KILL_AFTER]), 0, m, 0));
            }
            out.push(sc("error", p));
        }
    }
    let w = written(&base).max(1);
    for _ in 0..8 {
        let mut p = s.build.clone();
        p.disk_free = r.below(w as u64 + 2) as i64;
        if r.chance(300) {
            p.short_permille = 500;
            p.io_seed = r.next();
        }
        out.push(sc("full disk", p));
    }
    for _ in 0..6 {
        let mut p = s.build.clone();
        for _ in 0..1 + r.below(3) {
            p.faults.extend(rand_fault(r, &ops));
        }
        vary(r, &mut p);
        out.push(sc("errors", p));
    }
    for _ in 0..3 {
        let mut p = s.build.clone();
        p.power_loss = Some(r.next());
        out.push(sc("power loss after the build", p));
    }
    shuffle(r, &mut out);
    out.truncate(if cx.thorough { 200 } else { 50 });
    // a second build over what the first one left
    for x in &mut out {
        if r.chance(200) {
            let mut p = s.build.clone();
            p.faults.extend(rand_fault(r, &ops));
            x.steps.push(Step::Run(p));
        }
    }
    out
}

pub fn chk_c10(cx: &mut Ctx, before: &Fs, wall: i64, plan: &Plan, r: &RunResult) -> V {
    if r.fired.iter().any(|f| *f > 0) || r.power_lost || plan.disk_free >= 0 {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    let t = real_target(before, &plan.procs[0])?;
    let old = node_hash(before, &t);
    let c = cx.clean(before, &plan.procs[0], wall);
    let new = node_hash(&c.fs, &t);
    let now = node_hash(&r.fs, &t);
    let csv = is_csv(&t);
    let complete = |fs: &Fs| c.cls == Cls::Ok && out_of(fs, &t) == out_of(&c.fs, &t);
    if now != old && !complete(&r.fs) {
        return v(
            "target neither old nor new",
            format!("{t} holds {} after the build ({}); before {}; complete output {}", out_of(&r.fs, &t).show(), r.procs[0].describe(), out_of(before, &t).show(), out_of(&c.fs, &t).show()),
        );
    }
    let mut unknown: BTreeMap<(u64, u64), String> = BTreeMap::new();
    for e in &r.evs {
        // something else under the target's name, or the target moved away
        let Some(at) = changed(e, &t) else { continue };
        if at == old || (c.cls == Cls::Ok && at == new) || (at == now && complete(&r.fs)) {
            continue;
        }
        let what = format!("{} (operation {}) leaves {t} with {} bytes{}", op::name(e.class), e.op, at.1, if at.0 == 0 { " (gone)" } else { "" });
        if csv || at.1 == 0 {
            return v("target torn during the build", format!("{what}; old {} bytes, new {} bytes", old.1, new.1));
        }
        unknown.insert(at, what);
    }
    if unknown.len() > 1 {
        return v("target torn during the build", format!("{:?}", unknown.values().collect::<Vec<_>>()));
    }
    None
}

// ------------------------------------------------------------------ C11

pub fn gen_c11(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let s = setup(cx, r, true);
    let base = cx.run(&s.start, &s.build, s.wall);
    let ops = ops_of(&base, 0);
    if ops.is_empty() {
        return vec![];
    }
    let mut out = vec![];
    let n = if cx.thorough { 120 } else { 40 };
    let w = written(&base).max(1);
    for k in 0..n {
        let mut p = s.build.clone();
        if k % 8 == 7 {
            p.disk_free = r.below(w as u64 + 2) as i64;
        }
        if k % 8 != 7 || r.chance(300) {
            for _ in 0..1 + r.below(3) {
                p.faults.extend(rand_fault(r, &ops));
            }
        }
        if r.chance(200) {
            p.copy_range_mode = r.below(4) as u32;
        }
        vary(r, &mut p);
        let mut steps = vec![Step::Run(p)];
        if r.chance(200) {
            let mut p = s.build.clone();
            p.faults.extend(rand_fault(r, &ops));
            steps.push(Step::Run(p));
        }
        out.push(scenario("C11", "faults during a build", &s.start, s.wall, steps));
    }
    out
}

pub fn chk_c11(cx: &mut Ctx, before: &Fs, wall: i64, plan: &Plan, r: &RunResult) -> V {
    if r.fired.iter().any(|f| *f > 0) || r.short_fired + r.eintr_fired > 0 || plan.disk_free >= 0 {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    if cls(r, 0) != Cls::Ok {
        return None;
    }
    let c = cx.clean(before, &plan.procs[0], wall);
    let t = target_of(&plan.procs[0])?;
    if c.cls != Cls::Ok {
        if matches!(c.cls, Cls::Fail) {
            return v("exit 0 where a fault-free build fails", format!("fault-free build: {} {:?}", c.res.describe(), clip(&c.err, 300)));
        }
        return None;
    }
    let o = out_of(&r.fs, &t);
    if o != c.out {
        return v("exit 0 without the complete output", format!("{t} holds {}; complete output {}; stderr {:?}", o.show(), c.out.show(), clip(&String::from_utf8_lossy(&r.procs[0].err), 300)));
    }
    if plan.power_loss.is_none() {
        // (the build judged by what it writes into a new file)
        if let Some(d) = props4::unlike_new(cx, before, wall, &plan.procs[0], &r.fs) {
            return v("exit 0 without the correct output", d);
        }
    }
    None
}

// ------------------------------------------------------------------ C12

pub fn gen_c12(cx: &mut Ctx, r: &mut Rng) -> Vec<Scenario> {
    let s = setup(cx, r, true);
    let base = cx.run(&s.start, &s.build, s.wall);
    let ops = ops_of(&base, 0);
    if ops.is_empty() {
        return vec![];
    }
    let mut out = vec![];
    let sc = |note: &str, p: Plan| scenario("C12", note, &s.start, s.wall, vec![Step::Run(p)]);
    for (n, c, _, _) in &ops {
        for e in errnos(*c) {
            let mut p = s.build.clone();
            p.faults = vec![FaultSpec::at(fk::ERRNO, 0, *n, (*e).into())];
            if r.chance(250) {
                if r.chance(500) {
                    let m = n + 1 + r.below(6) as u32;
                    p.faults.push(FaultSpec::at(fk::ERRNO, 0, m, (*pick(r, &[EIO, EACCES, ENOSPC, EMFILE])).into()));
                } else {
                    p.faults.extend(rand_fault(r, &ops));
                }
            }
            if r.chance(150) {
                vary(r, &mut p);
            }
            out.push(sc("failing call", p));
        }
    }
    // whatever is tried again fails again: with this file, or with all of them
    let mut tried = BTreeSet::new();
    for (_, c, path, _) in &ops {
        let sfx = path.rsplit('/').next().unwrap_or("").to_string();
        let sfx = if sfx.ends_with(".tmp") { ".tmp".to_string() } else { sfx };
        for e in errnos(*c) {
            for sfx in [sfx.clone(), String::new()] {
                if (sfx.is_empty() && !r.chance(200)) || !tried.insert((*c, sfx.clone(), *e)) {
                    continue;
                }
                let mut p = s.build.clone();
                p.faults = vec![FaultSpec::on(fk::ERRNO, -1, op::bit(*c), &sfx, r.below(2) as u32, FOREVER, (*e).into())];
                p.budget = base.points * 10 + 2_000_000;
                if r.chance(150) {
                    vary(r, &mut p);
                }
                out.push(sc("calls which keep failing", p));
            }
        }
    }
    // somebody else changes things meanwhile
    let files: Vec<String> = s.start.0.iter().filter(|(_, n)| !matches!(n, Node::Dir { .. })).map(|(k, _)| k.clone()).collect();
    let t = real_target(&s.start, &s.build.procs[0]).unwrap_or_default();
    for (n, _, path, _) in &ops {
        let f = match r.below(4) {
            0 if path.starts_with("/") && !path.is_empty() => path.clone(),
            1 => t.clone(),
            _ => pick(r, &files).clone(),
        };
        let x = match r.below(8) {
            0..=2 => ExtSpec::Remove(f),
            3 => ExtSpec::Replace(f, pick(r, &[&b""[..], b"garbage,\n", b"\xff\xfe\x00", b"---\nx,=1\n"]).to_vec()),
            4 => ExtSpec::ReplaceAtomic(f, pick(r, &[&b""[..], b"new,\n", b"\xff\xfe\x00"]).to_vec()),
            5 => ExtSpec::Chmod(f, 0),
            6 => ExtSpec::Mkdir(f),
            _ => ExtSpec::Remove(pick(r, &["/proj", "/data", "/store"]).to_string()),
        };
        let mut fs = FaultSpec::at(fk::EXT, 0, *n, 0);
        fs.ext = Some(x);
        let mut p = s.build.clone();
        p.faults = vec![fs];
        if r.chance(200) {
            p.faults.extend(rand_fault(r, &ops));
        }
        if r.chance(150) {
            vary(r, &mut p);
        }
        out.push(sc("outside change", p));
    }
    let w = written(&base).max(1);
    for _ in 0..6 {
        let mut p = s.build.clone();
        if r.chance(700) {
            p.disk_free = r.below(w as u64 + 2) as i64;
        } else {
            p.inode_free = r.below(4) as i64;
        }
        out.push(sc("full disk", p));
    }
    // targets that are not files, unreadable, or damaged
    for _ in 0..4 {
        let mut st = s.start.clone();
        match r.below(4) {
            0 => {
                st.remove(&t);
                st.mkdir(&t);
            }
            1 => {
                if let Some(Node::File { mode, .. }) = st.0.get_mut(&t) {
                    *mode = *pick(r, &[0, 0o444, 0o200]);
                }
            }
            2 if is_csv(&t) => st.put(&t, b"a,\"open\n\xff\xfe,b\n", WALL0 - SEC),
            _ => {
                let d = t[..t.rfind('/').unwrap_or(0)].to_string();
                if let Some(Node::Dir { mode }) = st.0.get_mut(&d) {
                    *mode = *pick(r, &[0o555, 0o755]);
                }
            }
        }
        let mut p = s.build.clone();
        p.faults.extend(rand_fault(r, &ops));
        out.push(scenario("C12", "odd target", &st, s.wall, vec![Step::Run(p)]));
    }
    shuffle(r, &mut out);
    out.truncate(if cx.thorough { 300 } else { 80 });
    out
}

pub fn chk_c12(cx: &mut Ctx, plan: &Plan, r: &RunResult) -> V {
    if r.fired.iter().any(|f| *f > 0) || plan.disk_free >= 0 || plan.inode_free >= 0 {
        cx.st.nontrivial.insert(r.hist_hash);
    }
    ends_well(r)
}
