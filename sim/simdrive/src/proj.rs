//! Random csv++ projects, their source text, and the reference model of what they mean.
use serde::{Deserialize, Serialize};
use simworld::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Expr {
    Int(i64),
    Str(String),
    Ref(String),
    Add(Box<Expr>, Box<Expr>),
    Call(String, Vec<Expr>),
    /// any other operator
    Op(Box<Expr>, String, Box<Expr>),
    /// written out as it is
    Raw(String),
}
use Expr::*;

impl Expr {
    pub fn text(&self) -> String {
        match self {
            Int(i) => i.to_string(),
            Str(s) => format!("\"{s}\""),
            Ref(r) => r.clone(),
            Add(a, b) => format!("{} + {}", a.text(), b.text()),
            Op(a, o, b) => format!("{} {o} {}", a.text(), b.text()),
            Raw(t) => t.clone(),
            Call(f, a) => {
                format!("{f}({})", a.iter().map(Expr::text).collect::<Vec<_>>().join(", "))
            }
        }
    }
    pub fn add(a: Expr, b: Expr) -> Expr {
        Add(Box::new(a), Box::new(b))
    }
}

/// Sums of atoms: what is left of an expression once `+` and parentheses do not matter.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Norm {
    pub k: i64,
    pub atoms: BTreeMap<String, i64>,
}
impl Norm {
    pub fn atom(s: String) -> Norm {
        let mut n = Norm::default();
        n.atoms.insert(s, 1);
        n
    }
    pub fn plus(mut self, o: Norm) -> Norm {
        self.k += o.k;
        for (a, c) in o.atoms {
            *self.atoms.entry(a).or_insert(0) += c;
        }
        self
    }
    pub fn show(&self) -> String {
        let mut s = self.k.to_string();
        for (a, c) in &self.atoms {
            s.push_str(&format!("+{c}*{a}"));
        }
        s
    }
}

/// Parse a printed formula (without the leading `=`).
pub fn norm_of_text(t: &str) -> Option<Norm> {
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    let n = sum(&b, &mut i)?;
    ws(&b, &mut i);
    if i == b.len() {
        Some(n)
    } else {
        None
    }
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn sum(b: &[char], i: &mut usize) -> Option<Norm> {
    let mut n = prim(b, i)?;
    loop {
        ws(b, i);
        if *i < b.len() && b[*i] == '+' {
            *i += 1;
            n = n.plus(prim(b, i)?);
        } else {
            return Some(n);
        }
    }
}
fn prim(b: &[char], i: &mut usize) -> Option<Norm> {
    ws(b, i);
    if *i >= b.len() {
        return None;
    }
    if b[*i] == '(' {
        *i += 1;
        let n = sum(b, i)?;
        ws(b, i);
        if *i < b.len() && b[*i] == ')' {
            *i += 1;
            return Some(n);
        }
        return None;
    }
    if b[*i] == '"' {
        let s = *i;
        *i += 1;
        while *i < b.len() && b[*i] != '"' {
            *i += 1;
        }
        if *i >= b.len() {
            return None;
        }
        *i += 1;
        return Some(Norm::atom(b[s..*i].iter().collect()));
    }
    let s = *i;
    while *i < b.len() && (b[*i].is_alphanumeric() || "_$!:.".contains(b[*i])) {
        *i += 1;
    }
    if s == *i {
        return None;
    }
    let w: String = b[s..*i].iter().collect();
    if let Ok(k) = w.parse::<i64>() {
        return Some(Norm { k, ..Default::default() });
    }
    ws(b, i);
    if *i < b.len() && b[*i] == '(' {
        *i += 1;
        let mut args = vec![];
        ws(b, i);
        if *i < b.len() && b[*i] == ')' {
            *i += 1;
        } else {
            loop {
                args.push(sum(b, i)?.show());
                ws(b, i);
                if *i >= b.len() {
                    return None;
                }
                let c = b[*i];
                *i += 1;
                if c == ')' {
                    break;
                }
                if c != ',' {
                    return None;
                }
            }
        }
        return Some(Norm::atom(format!("{w}({})", args.join(","))));
    }
    Some(Norm::atom(w))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Def {
    pub name: String,
    /// `None`: a variable
    pub params: Option<Vec<String>>,
    pub body: Expr,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CellSrc {
    Text(String),
    Formula(Expr),
    Var(String, String),
    Opt(String, String),
    /// a formula with a variable bound to its cell and other options
    Mixed(Option<String>, String, Expr),
    Empty,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct RowSrc {
    /// outer: has a fill; inner: its amount
    pub fill: Option<Option<u32>>,
    pub var: Option<String>,
    pub cells: Vec<CellSrc>,
    /// further options of the row
    #[serde(default)]
    pub opts: Vec<String>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Module {
    pub name: String,
    pub imports: Vec<String>,
    pub defs: Vec<Def>,
    pub rows: Vec<RowSrc>,
    /// not csv++ at all: the file's text
    pub raw: Option<String>,
    /// bits: comments, empty lines, CRLF, no newline at the end, spaces, long comment
    #[serde(default)]
    pub style: u32,
}

fn quote(s: &str) -> String {
    if s.contains([',', '"', '\n']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

impl Def {
    /// names of functions and variables do not get in each other's way
    pub fn key(&self) -> String {
        format!("{}{}", self.name, if self.params.is_some() { "()" } else { "" })
    }
}

impl Module {
    pub fn text(&self) -> String {
        let mut o = self.plain_text();
        if self.raw.is_some() {
            return o;
        }
        if self.style & 8 != 0 {
            o.pop();
        }
        if self.style & 128 != 0 {
            // (with empty rows at the end, in the second case)
            o.push_str(if self.style & 8 != 0 { "  " } else { "\n\n" });
        }
        if self.style & 4 != 0 {
            o = o.replace('\n', "\r\n");
        }
        o
    }
    fn plain_text(&self) -> String {
        if let Some(r) = &self.raw {
            return r.clone();
        }
        let st = self.style;
        let mut o = String::new();
        if st & 64 != 0 {
            o.push_str("\n\n");
        }
        if st & 1 != 0 {
            o.push_str("# a module of the project, \"quoted\" -- ünïcode\n");
        }
        if st & 32 != 0 {
            for i in 0..60 + st % 97 {
                o.push_str(&format!("# line {i} of a very long comment that says nothing at all\n"));
            }
        }
        for i in &self.imports {
            o.push_str(&format!("use {i}\n"));
        }
        for d in &self.defs {
            if st & 2 != 0 {
                o.push('\n');
            }
            if st & 16 != 0 {
                o.push_str("  ");
            }
            match &d.params {
                None => o.push_str(&format!("{} := {}\n", d.name, d.body.text())),
                Some(p) => {
                    o.push_str(&format!("fn {}({}) {}\n", d.name, p.join(", "), d.body.text()))
                }
            }
        }
        if st & 1 != 0 {
            o.push_str("# the end = 1 + 2\n");
        }
        o.push_str(if st & 16 != 0 { "  ---  \n" } else { "---\n" });
        for r in &self.rows {
            let mut line = String::new();
            let mut opts = vec![];
            if let Some(f) = &r.fill {
                opts.push(match f {
                    Some(n) => format!("fill={n}"),
                    None => "fill".into(),
                });
            }
            if let Some(v) = &r.var {
                opts.push(format!("var={v}"));
            }
            opts.extend(r.opts.iter().cloned());
            for (i, c) in r.cells.iter().enumerate() {
                if i > 0 {
                    line.push(',');
                }
                let mut s = match c {
                    CellSrc::Text(t) => t.clone(),
                    CellSrc::Formula(e) => format!("={}", e.text()),
                    CellSrc::Var(v, t) => format!("[[var={v}]]{t}"),
                    CellSrc::Opt(v, t) => format!("[[{v}]]{t}"),
                    CellSrc::Mixed(v, o, e) => {
                        let v = v.iter().map(|v| format!("var={v}"));
                        let o = Some(o.clone()).filter(|o| !o.is_empty());
                        format!("[[{}]]={}", v.chain(o).collect::<Vec<_>>().join(" "), e.text())
                    }
                    CellSrc::Empty => String::new(),
                };
                if i == 0 && !opts.is_empty() {
                    s = format!("![[{}]]{s}", opts.join(" "));
                }
                line.push_str(&quote(&s));
            }
            o.push_str(&line);
            o.push('\n');
        }
        o
    }
    /// the variable (or function) called `n`: they do not share their names
    pub fn def(&self, n: &str, function: bool) -> Option<&Def> {
        self.defs.iter().find(|d| d.name == n && d.params.is_some() == function)
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Proj {
    pub mods: Vec<Module>,
}

pub struct Gen {
    pub next_int: i64,
}

pub const VARS: [&str; 7] = ["v_aa", "v_bb", "v_cc", "v_dd", "v_ee", "v_ff", "v_gg"];
/// two of them are names of variables as well
pub const FNS: [&str; 5] = ["f_aa", "v_bb", "f_cc", "v_dd", "f_ee"];
pub const MODS: [&str; 10] =
    ["m_ant", "m_bee", "m_cat", "m_dog", "m_elk", "m_fox", "m_gnu", "m_hen", "m_ibis", "m_jay"];

impl Gen {
    pub fn new() -> Gen {
        Gen { next_int: 1000 }
    }
    fn int(&mut self, r: &mut Rng) -> i64 {
        // values that identify where they came from
        self.next_int += 1 + r.below(90) as i64;
        if r.chance(20) {
            // (more digits than some kinds of numbers can hold)
            return [1 << 24, 1 << 33, 1 << 45][r.below(3) as usize] + 2 * self.next_int + 1;
        }
        self.next_int
    }
    /// names of lower rank than `lim` may be used: (variables, functions with arity)
    pub fn expr(
        &mut self,
        r: &mut Rng,
        depth: u32,
        names: &[String],
        fns: &[(String, usize)],
        params: &[String],
    ) -> Expr {
        let c = r.below(100);
        if depth == 0 || c < 20 {
            if !params.is_empty() && r.chance(600) {
                return Ref(params[r.below(params.len() as u64) as usize].clone());
            }
            if !names.is_empty() && r.chance(600) {
                return Ref(names[r.below(names.len() as u64) as usize].clone());
            }
            return Int(self.int(r));
        }
        if c < 60 || fns.is_empty() {
            return Expr::add(
                self.expr(r, depth - 1, names, fns, params),
                self.expr(r, depth - 1, names, fns, params),
            );
        }
        let (f, n) = fns[r.below(fns.len() as u64) as usize].clone();
        Call(f, (0..n).map(|_| self.expr(r, depth - 1, names, fns, params)).collect())
    }
}

impl Proj {
    pub fn get(&self, n: &str) -> Option<&Module> {
        self.mods.iter().find(|m| m.name == n)
    }
    pub fn idx(&self, n: &str) -> Option<usize> {
        self.mods.iter().position(|m| m.name == n)
    }
    pub fn path(dir: &str, n: &str) -> String {
        format!("{dir}/{n}.csvpp")
    }
    /// modules reachable from `n` (excluding itself unless through a cycle)
    pub fn reach(&self, n: &str) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<String> = match self.get(n) {
            Some(m) if m.raw.is_none() => m.imports.clone(),
            _ => vec![],
        };
        while let Some(x) = todo.pop() {
            if seen.insert(x.clone()) {
                if let Some(m) = self.get(&x) {
                    if m.raw.is_none() {
                        todo.extend(m.imports.iter().cloned());
                    }
                }
            }
        }
        seen
    }

    /// What a name visible in `m` refers to: the module holding its definition.
    pub fn resolve<'a>(&'a self, m: &'a Module, n: &str, function: bool) -> Option<&'a Module> {
        if m.def(n, function).is_some() {
            return Some(m);
        }
        m.imports.iter().filter_map(|i| self.get(i)).find(|o| o.def(n, function).is_some())
    }

    pub fn norm(&self, m: &Module, e: &Expr, env: &BTreeMap<String, Norm>, fuel: &mut u32) -> Norm {
        if *fuel == 0 {
            return Norm::atom("?".into());
        }
        *fuel -= 1;
        match e {
            Int(i) => Norm { k: *i, ..Default::default() },
            Str(s) => Norm::atom(format!("\"{s}\"")),
            Add(a, b) => self.norm(m, a, env, fuel).plus(self.norm(m, b, env, fuel)),
            // never part of a project that is judged by the model
            Op(..) | Raw(_) => Norm::atom("?".into()),
            Ref(r) => {
                if let Some(v) = env.get(r) {
                    return v.clone();
                }
                match self.resolve(m, r, false) {
                    Some(o) => {
                        let d = o.def(r, false).unwrap();
                        self.norm(o, &d.body, &BTreeMap::new(), fuel)
                    }
                    None => Norm::atom(r.clone()),
                }
            }
            Call(f, a) => {
                let args: Vec<Norm> = a.iter().map(|x| self.norm(m, x, env, fuel)).collect();
                match self.resolve(m, f, true) {
                    Some(o) => {
                        let d = o.def(f, true).unwrap();
                        let ps = d.params.as_ref().unwrap();
                        let mut en = BTreeMap::new();
                        for (p, v) in ps.iter().zip(args) {
                            en.insert(p.clone(), v);
                        }
                        self.norm(o, &d.body, &en, fuel)
                    }
                    _ => Norm::atom(format!(
                        "{f}({})",
                        args.iter().map(Norm::show).collect::<Vec<_>>().join(",")
                    )),
                }
            }
        }
    }
}

// ------------------------------------------------------------------ generation

#[derive(Clone, Copy)]
pub struct ProjOpts {
    pub mods: (u64, u64),
    pub mains: u64,
    pub rows: (u64, u64),
    pub cols: (u64, u64),
    /// chance (permille) of an import edge
    pub edge: u64,
    pub cyclic: bool,
    /// every name resolves unambiguously; main may also mention names it does not import
    pub scoping: bool,
    pub fills: bool,
    /// variables and options of cells and rows
    pub decor: bool,
    /// every kind of literal and operator, odd texts, comments and line ends (not for the model)
    pub rich: bool,
    /// now and then hundreds of rows
    pub tall: bool,
}
impl Default for ProjOpts {
    fn default() -> Self {
        ProjOpts {
            mods: (1, 4),
            mains: 1,
            rows: (1, 4),
            cols: (1, 4),
            edge: 500,
            cyclic: false,
            scoping: false,
            fills: true,
            decor: false,
            rich: false,
            tall: true,
        }
    }
}

fn between(r: &mut Rng, (a, b): (u64, u64)) -> u64 {
    a + r.below(b - a + 1)
}

fn rank_v(n: &str) -> usize {
    VARS.iter().position(|v| *v == n).unwrap_or(0)
}
fn rank_f(n: &str) -> usize {
    FNS.iter().position(|v| *v == n).unwrap_or(0)
}

/// names a definition in module `i` may use: those it resolves to something, of lower rank
pub fn usable(p: &Proj, m: &Module, below: Option<(bool, usize)>) -> (Vec<String>, Vec<(String, usize)>) {
    let mut vs = BTreeSet::new();
    let mut fs = BTreeMap::new();
    let take = |o: &Module, vs: &mut BTreeSet<String>, fs: &mut BTreeMap<String, usize>| {
        for d in o.defs.iter().filter(|d| !d.name.starts_with("k_")) {
            match &d.params {
                None => {
                    vs.insert(d.name.clone());
                }
                Some(ps) => {
                    fs.entry(d.name.clone()).or_insert(ps.len());
                }
            }
        }
    };
    take(m, &mut vs, &mut fs);
    for i in &m.imports {
        if let Some(o) = p.get(i) {
            take(o, &mut vs, &mut fs);
        }
    }
    match below {
        None => (vs.into_iter().collect(), fs.into_iter().collect()),
        // variables only build on variables, functions on both: never circular
        Some((false, k)) => {
            (vs.into_iter().filter(|v| rank_v(v) < k).collect(), vec![])
        }
        Some((true, k)) => (
            vs.into_iter().collect(),
            fs.into_iter().filter(|(f, _)| rank_f(f) < k).collect(),
        ),
    }
}

pub fn arity(f: &str) -> usize {
    1 + rank_f(f) % 2
}

fn gen_defs(r: &mut Rng, g: &mut Gen, p: &Proj, m: &mut Module, banned: &BTreeSet<String>, min: u64) {
    let nv = min.max(r.below(4));
    for _ in 0..nv {
        let n = VARS[r.below(VARS.len() as u64) as usize];
        if m.def(n, false).is_some() || banned.contains(n) {
            continue;
        }
        let (vs, _) = usable(p, m, Some((false, rank_v(n))));
        let body = g.expr(r, 2, &vs, &[], &[]);
        m.defs.push(Def { name: n.into(), params: None, body });
    }
    let nf = r.below(3);
    for _ in 0..nf {
        let n = FNS[r.below(FNS.len() as u64) as usize];
        if m.def(n, true).is_some() || banned.contains(n) {
            continue;
        }
        let params: Vec<String> =
            (0..arity(n)).map(|k| format!("p_{}_{}_{k}", &n[2..], &m.name[2..])).collect();
        let (vs, fs) = usable(p, m, Some((true, rank_f(n))));
        let body = g.expr(r, 2, &vs, &fs, &params);
        m.defs.push(Def { name: n.into(), params: Some(params), body });
    }
}

/// One of the definitions of a module says what it means through many others.
/// With `far`, now and then through more than a hundred of them.
pub fn deepen(r: &mut Rng, m: &mut Module, far: bool) {
    if m.defs.is_empty() {
        return;
    }
    let i = r.below(m.defs.len() as u64) as usize;
    let n = 3 + r.below(45) + if far && r.chance(250) { r.below(60) } else { 0 };
    let tag = format!("{}_{}", m.name, m.defs[i].name);
    let body = m.defs[i].body.clone();
    let of = m.defs[i].params.clone();
    let name = |k: u64| format!("k_{k}_{tag}");
    let link = |k: u64, ps: &[String]| match &of {
        None => Ref(name(k)),
        Some(_) => Call(name(k), ps.iter().map(|p| Ref(p.clone())).collect()),
    };
    m.defs[i].body = link(0, of.as_deref().unwrap_or_default());
    let at = if r.chance(500) { i } else { i + 1 };
    for k in 0..n {
        let last = k + 1 == n;
        let params = of.as_ref().map(|ps| if last { ps.clone() } else { (0..ps.len()).map(|j| format!("q_{k}_{j}_{tag}")).collect::<Vec<_>>() });
        let body = if last { body.clone() } else { Expr::add(link(k + 1, params.as_deref().unwrap_or_default()), Int(1)) };
        m.defs.insert(at, Def { name: name(k), params, body });
    }
}

pub const CELLVARS: [&str; 4] = ["cv_a", "cv_b", "cv_c", "cv_d"];
pub const ROWVARS: [&str; 2] = ["rv_a", "rv_b"];
fn pick_str(r: &mut Rng, l: &[&str]) -> String {
    l[r.below(l.len() as u64) as usize].to_string()
}
/// what a validation asks for
fn condition(r: &mut Rng, n: u64) -> String {
    match r.below(14) {
        0 => "in_list(1 2 3 foo)".into(),
        1 => format!("{}(2025-09-{:02})", pick_str(r, &["date_after", "date_before", "date_equal_to", "date_on_or_after", "date_on_or_before"]), 1 + n % 28),
        2 => format!("{}(2025-01-{:02} 2026-12-31)", pick_str(r, &["date_between", "date_not_between"]), 1 + n % 28),
        3 => "date_is_valid".into(),
        4 => pick_str(r, &["is_valid_email", "is_valid_url"]),
        5 => format!("{}({n} {})", pick_str(r, &["number_between", "number_not_between"]), n + 7),
        6..=7 => format!(
            "{}({n})",
            pick_str(r, &["number_greater_than", "number_greater_than_or_equal_to", "number_less_than", "number_less_than_or_equal_to", "number_not_equal_to"])
        ),
        8..=9 => format!("{}('{} {n}')", pick_str(r, &["text_contains", "text_does_not_contain", "text_equal_to"]), pick_str(r, &["foo", "früh", "a,b"])),
        10 => format!("custom('XAQ1 > {n}')"),
        11 => "custom(TRUE)".into(),
        12 => format!("in_range(XAQ1:XAR{n})"),
        _ => "in_range(A1)".into(),
    }
}
/// one or two options of a cell or row
pub fn cell_opt(r: &mut Rng) -> String {
    let mut v = vec![];
    for _ in 0..1 + r.below(2) {
        let n = r.below(90) + 1;
        v.push(match r.below(16) {
            0 => format!("{}={n}", pick_str(r, &["fontsize", "fontsize", "fs"])),
            1 => format!("note='{} {n}'", pick_str(r, &["note", "note", "naïve ☃", "it\\'s", "表"])),
            2 => format!("validate=number_equal_to({n})"),
            3 => format!("color=#{:02X}00{:02X}", n, 2 * n),
            4 => format!("{}=#00{:02X}FF", pick_str(r, &["fontcolor", "fc"]), n),
            5 => format!("text={}", pick_str(r, &["bold", "italic", "underline", "strikethrough"])),
            6 => format!("halign={}", pick_str(r, &["left", "center", "right"])),
            7 => format!("valign={}", pick_str(r, &["top", "center", "bottom"])),
            8 => format!("border={}", pick_str(r, &["all", "top", "left", "right", "bottom"])),
            9 => format!("border=all borderstyle={}", pick_str(r, &["dashed", "dotted", "solid", "double"])),
            10 => format!("numberformat={}", pick_str(r, &["currency", "date", "number", "percent", "text", "scientific", "datetime", "time"])),
            11 => format!("wrap={}", pick_str(r, &["wrap", "overflow", "clip"])),
            12 => "lock".to_string(),
            13 => format!("fontfamily='{} {n}'", pick_str(r, &["Font", "Font", "Schöne Größe"])),
            14 => format!("border={} bordercolor=#{:02X}{:02X}00", pick_str(r, &["all", "top", "left"]), n, 2 * n),
            _ => format!("validate={}", condition(r, n)),
        });
    }
    v.join(" ")
}

pub fn gen_rows(r: &mut Rng, g: &mut Gen, p: &Proj, m: &mut Module, o: &ProjOpts) {
    let rows = between(r, o.rows);
    let cols = between(r, o.cols);
    m.rows.clear();
    for ri in 0..rows {
        let mut row = RowSrc::default();
        if o.fills && r.chance(150) {
            row.fill = Some(Some(1 + r.below(4) as u32));
        }
        let nc = if r.chance(300) { 1 + r.below(cols) } else { cols };
        if r.chance(15) {
            // past column Z
            row.cells.resize(if r.chance(100) { 701 } else { 24 + r.below(30) as usize }, CellSrc::Empty);
        }
        for ci in 0..nc {
            let (vs, fs) = usable(p, m, None);
            row.cells.push(match r.below(10) {
                0..=2 => CellSrc::Text(format!("t{ri}x{ci}")),
                3 if ci > 0 => CellSrc::Empty,
                4 if o.decor && r.chance(250) => {
                    CellSrc::Mixed(Some(pick_str(r, &CELLVARS)), if r.chance(300) { cell_opt(r) } else { String::new() }, g.expr(r, 1, &[], &[], &[]))
                }
                4 if o.decor => CellSrc::Var(pick_str(r, &CELLVARS), format!("t{ri}x{ci}")),
                5 if o.decor => CellSrc::Opt(cell_opt(r), format!("t{ri}x{ci}")),
                6 if o.decor => CellSrc::Opt(cell_opt(r), format!("={}", g.expr(r, 1, &[], &[], &[]).text())),
                7 if o.decor => {
                    let n = if r.chance(500) { pick_str(r, &CELLVARS) } else { pick_str(r, &ROWVARS) };
                    CellSrc::Formula(Expr::add(Ref(n), g.expr(r, 1, &vs, &fs, &[])))
                }
                _ => CellSrc::Formula(g.expr(r, 2, &vs, &fs, &[])),
            });
        }
        if o.decor {
            if r.chance(200) {
                row.var = Some(pick_str(r, &ROWVARS));
            }
            if r.chance(200) {
                row.opts.push(cell_opt(r));
            }
        }
        m.rows.push(row);
    }
    if o.tall && r.chance(6) {
        let n = [70, 130, 130, 300, 300, 1003, 2050][r.below(7) as usize];
        let at = r.below(m.rows.len() as u64 + 1) as usize;
        let rest = m.rows.split_off(at);
        for i in 0..n {
            let cells = (0..1 + usize::from(i % 100 == 7)).map(|j| CellSrc::Text(format!("l{i}x{j}"))).collect();
            m.rows.push(RowSrc { cells, ..Default::default() });
        }
        m.rows.extend(rest);
    }
}

/// How large everything gets when written out in full (an upper bound; circles count once).
fn weight(p: &Proj) -> u64 {
    const TOP: u64 = 1 << 40;
    fn def<'a>(p: &'a Proj, n: &str, function: bool) -> Vec<&'a Def> {
        let this = |d: &&Def| d.name == n && d.params.is_some() == function;
        p.mods.iter().filter(|m| m.raw.is_none()).flat_map(|m| m.defs.iter().filter(this)).collect()
    }
    fn of(p: &Proj, e: &Expr, env: &BTreeMap<String, u64>, stack: &mut Vec<String>, work: &mut u64) -> u64 {
        *work += 1;
        if *work > 20_000 {
            return TOP;
        }
        match e {
            Int(_) | Str(_) | Raw(_) => 1,
            Add(a, b) | Op(a, _, b) => (1 + of(p, a, env, stack, work) + of(p, b, env, stack, work)).min(TOP),
            Ref(n) => match env.get(n) {
                Some(w) => *w,
                None if stack.contains(n) => 1,
                None => {
                    stack.push(n.clone());
                    let w = def(p, n, false).iter().map(|d| of(p, &d.body, &BTreeMap::new(), stack, work)).max().unwrap_or(1);
                    stack.pop();
                    w
                }
            },
            Call(f, args) => {
                let a: Vec<u64> = args.iter().map(|x| of(p, x, env, stack, work)).collect();
                if stack.contains(&format!("{f}()")) {
                    return 1 + a.iter().sum::<u64>().min(TOP);
                }
                stack.push(format!("{f}()"));
                let w = def(p, f, true)
                    .iter()
                    .map(|d| {
                        let ps = d.params.clone().unwrap_or_default();
                        of(p, &d.body, &ps.into_iter().zip(a.iter().copied()).collect(), stack, work)
                    })
                    .max();
                stack.pop();
                w.unwrap_or(1 + a.iter().sum::<u64>()).min(TOP)
            }
        }
    }
    let mut t = 0;
    let mut work = 0;
    for m in &p.mods {
        for d in &m.defs {
            t += of(p, &d.body, &BTreeMap::new(), &mut vec![d.key()], &mut work);
        }
        for r in &m.rows {
            for c in &r.cells {
                if let CellSrc::Formula(e) | CellSrc::Mixed(_, _, e) = c {
                    t += of(p, e, &BTreeMap::new(), &mut vec![], &mut work);
                }
            }
        }
    }
    t
}
const WEIGHT: u64 = 1200;

const LITERALS: [&str; 20] = [
    "16777217", "0.1", "0.30000000000000004", "123456.789",
    "true", "false", "12.75", "0.5", "50%", "2.5%", "-3", "+7", "-1.25", "\"a, b\"", "\"say \"\"hi\"\" now\"", "\"\"",
    "\"naïve ☃ 表\"", "A1", "$B$2", "9223372036854775807",
];
const RANGES: [&str; 4] = ["A1:B3", "Sheet2!A1", "$A$1:$C4", "B:B"];
const OPS: [&str; 11] = ["-", "*", "/", "&", "^", "=", "<>", "<", ">", "<=", ">="];
const BUILTINS: [&str; 6] = ["SUM", "IF", "CONCATENATE", "today", "Round", "cellref"];
const TEXTS: [&str; 18] = [
    "a, b", "two\nlines", "say \"hi\"", "naïve ☃ 表", "  spaces  ", "007", "1.50", "TRUE", "-12", "'quoted", "50%", "#N/A", "a;b|c\td",
    "\\n {} [[x", "0", "000", "a  b", "A b",
];

fn enrich_expr(r: &mut Rng, e: &mut Expr) {
    match e {
        Add(a, b) => {
            enrich_expr(r, a);
            enrich_expr(r, b);
            if r.chance(350) {
                *e = Op(a.clone(), pick_str(r, &OPS), b.clone());
            }
        }
        Op(a, _, b) => {
            enrich_expr(r, a);
            enrich_expr(r, b);
        }
        Call(_, a) => a.iter_mut().for_each(|x| enrich_expr(r, x)),
        Int(_) if r.chance(300) => *e = Raw(pick_str(r, &LITERALS)),
        Int(_) if r.chance(100) => {
            let a = vec![Raw(pick_str(r, &RANGES)), Raw(pick_str(r, &LITERALS)), e.clone()];
            *e = Call(pick_str(r, &BUILTINS), a[r.below(3) as usize..].to_vec());
        }
        _ => {}
    }
}
/// Say the same kind of thing with more of the language.
pub fn enrich(r: &mut Rng, m: &mut Module) {
    if m.raw.is_some() {
        return;
    }
    m.defs.iter_mut().for_each(|d| enrich_expr(r, &mut d.body));
    for c in m.rows.iter_mut().flat_map(|x| x.cells.iter_mut()) {
        match c {
            CellSrc::Formula(e) | CellSrc::Mixed(_, _, e) => enrich_expr(r, e),
            CellSrc::Text(t) if r.chance(250) => *t = pick_str(r, &TEXTS),
            CellSrc::Text(t) if t.len() < 20 && r.chance(30) => *t = t.repeat(1 + r.below(3000) as usize),
            _ => {}
        }
    }
    if r.chance(400) {
        m.style = r.below(256) as u32 & r.below(256) as u32;
    }
}

pub fn gen_proj(r: &mut Rng, o: &ProjOpts) -> Proj {
    let mut p = gen_plain_proj(r, o);
    if o.rich {
        p.mods.iter_mut().for_each(|m| enrich(r, m));
    }
    p
}

fn gen_plain_proj(r: &mut Rng, o: &ProjOpts) -> Proj {
    let mut best = gen_proj_once(r, o);
    for _ in 0..8 {
        if weight(&best) <= WEIGHT {
            break;
        }
        let p = gen_proj_once(r, o);
        if weight(&p) < weight(&best) {
            best = p;
        }
    }
    best
}

/// Change something in the project; returns the names of modules whose text changed.
pub fn edit(r: &mut Rng, p: &mut Proj, o: &ProjOpts) -> Vec<String> {
    for _ in 0..6 {
        let mut q = p.clone();
        let names = if r.chance(60) {
            // nothing but the case of letters, or the number of blanks
            let of = |m: &Module| m.rows.iter().flat_map(|x| &x.cells).any(|c| matches!(c, CellSrc::Text(_)));
            let ms: Vec<&mut Module> = q.mods.iter_mut().filter(|m| m.raw.is_none() && of(m)).collect();
            let n = ms.len() as u64;
            let Some(m) = (n > 0).then(|| r.below(n)).and_then(|k| ms.into_iter().nth(k as usize)) else { continue };
            let how = r.below(3);
            for c in m.rows.iter_mut().flat_map(|x| &mut x.cells) {
                if let CellSrc::Text(t) = c {
                    *t = match how {
                        0 => t.to_ascii_uppercase(),
                        1 => t.to_ascii_lowercase(),
                        _ => t.replace(' ', "  "),
                    };
                }
            }
            vec![m.name.clone()]
        } else if o.rich && r.chance(150) {
            // nothing but comments, empty lines and line ends
            let i = r.below(q.mods.len() as u64) as usize;
            q.mods[i].style ^= 1 << if r.chance(250) { 7 } else { r.below(8) };
            vec![q.mods[i].name.clone()]
        } else {
            edit_once(r, &mut q, o)
        };
        if o.rich && r.chance(500) {
            for m in q.mods.iter_mut().filter(|m| names.contains(&m.name)) {
                enrich(r, m);
            }
        }
        if weight(&q) <= WEIGHT.max(weight(p)) {
            *p = q;
            return names;
        }
    }
    vec![]
}

fn gen_proj_once(r: &mut Rng, o: &ProjOpts) -> Proj {
    let mut g = Gen::new();
    let n = between(r, o.mods) as usize;
    let mut p = Proj::default();
    // dependencies first, so that names can be resolved while generating
    let mut names: Vec<String> = MODS[..n].iter().map(|s| s.to_string()).collect();
    for i in (1..names.len()).rev() {
        names.swap(i, r.below(i as u64 + 1) as usize);
    }
    for i in 0..n {
        let mut m = Module { name: names[i].clone(), ..Default::default() };
        for j in 0..i {
            if r.chance(o.edge) {
                m.imports.push(names[j].clone());
            }
        }
        shuffle(r, &mut m.imports);
        fix_imports(&p, &mut m, o);
        gen_defs(r, &mut g, &p, &mut m, &BTreeSet::new(), 1);
        p.mods.push(m);
    }
    for k in 0..o.mains {
        let mut m = Module {
            name: if k == 0 { "main".into() } else { format!("main{k}") },
            ..Default::default()
        };
        for i in 0..n {
            if r.chance(o.edge.max(400)) {
                m.imports.push(names[i].clone());
            }
        }
        shuffle(r, &mut m.imports);
        fix_imports(&p, &mut m, o);
        gen_defs(r, &mut g, &p, &mut m, &BTreeSet::new(), 0);
        gen_rows(r, &mut g, &p, &mut m, o);
        if o.scoping {
            // mention names that may not be in scope
            let mut row = RowSrc::default();
            row.cells.push(CellSrc::Text("z".into()));
            for _ in 0..2 + r.below(3) {
                let v = VARS[r.below(VARS.len() as u64) as usize];
                row.cells.push(CellSrc::Formula(Expr::add(Ref(v.into()), Int(1))));
            }
            m.rows.push(row);
            if r.chance(500) {
                let f = FNS[r.below(FNS.len() as u64) as usize];
                m.rows.push(RowSrc {
                    cells: vec![CellSrc::Formula(Call(
                        f.into(),
                        (0..arity(f)).map(|i| Int(i as i64 + 1)).collect(),
                    ))],
                    ..Default::default()
                });
            }
        }
        p.mods.push(m);
    }
    if o.cyclic {
        let k = 1 + r.below(3);
        for _ in 0..k {
            let a = r.below(p.mods.len() as u64) as usize;
            let b = r.below(p.mods.len() as u64) as usize;
            let nb = p.mods[b].name.clone();
            p.mods[a].imports.push(nb);
        }
    }
    p
}

pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

/// Two imports defining the same name: which one wins is not part of any property, so drop one.
fn fix_imports(p: &Proj, m: &mut Module, o: &ProjOpts) {
    if !o.scoping {
        return;
    }
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut keep = vec![];
    for i in m.imports.clone() {
        let names: Vec<String> =
            p.get(&i).map(|x| x.defs.iter().map(Def::key).collect()).unwrap_or_default();
        if names.iter().any(|n| seen.contains(n)) {
            continue;
        }
        seen.extend(names);
        keep.push(i);
    }
    m.imports = keep;
}

fn edit_once(r: &mut Rng, p: &mut Proj, o: &ProjOpts) -> Vec<String> {
    let mut g = Gen { next_int: 2000 + r.below(100_000) as i64 };
    for _ in 0..20 {
        let i = r.below(p.mods.len() as u64) as usize;
        let is_main = p.mods[i].name.starts_with("main");
        match r.below(7) {
            // new values
            0 | 1 | 2 => {
                if p.mods[i].defs.is_empty() {
                    continue;
                }
                let k = r.below(p.mods[i].defs.len() as u64) as usize;
                let d = p.mods[i].defs[k].clone();
                let body = match &d.params {
                    None => {
                        let (vs, _) = usable(p, &p.mods[i], Some((false, rank_v(&d.name))));
                        if o.cyclic {
                            Int(g.int(r))
                        } else {
                            g.expr(r, 1, &vs, &[], &[])
                        }
                    }
                    Some(ps) => {
                        let (vs, fs) = usable(p, &p.mods[i], Some((true, rank_f(&d.name))));
                        g.expr(r, 2, &vs, &fs, ps)
                    }
                };
                if body == d.body {
                    continue;
                }
                p.mods[i].defs[k].body = body;
            }
            // a definition comes or goes
            3 => {
                if !p.mods[i].defs.is_empty() && r.chance(500) {
                    let k = r.below(p.mods[i].defs.len() as u64) as usize;
                    p.mods[i].defs.remove(k);
                } else {
                    let mut m = p.mods[i].clone();
                    gen_defs(r, &mut g, p, &mut m, &BTreeSet::new(), 1);
                    if m == p.mods[i] {
                        continue;
                    }
                    p.mods[i] = m;
                }
            }
            // an import comes or goes
            4 | 5 => {
                if !p.mods[i].imports.is_empty() && r.chance(500) {
                    let k = r.below(p.mods[i].imports.len() as u64) as usize;
                    p.mods[i].imports.remove(k);
                } else {
                    let j = r.below(p.mods.len() as u64) as usize;
                    let n = p.mods[j].name.clone();
                    let ok = o.cyclic
                        || (!n.starts_with("main")
                            && j != i
                            && !p.reach(&n).contains(&p.mods[i].name));
                    if !ok || p.mods[i].imports.contains(&n) {
                        continue;
                    }
                    p.mods[i].imports.push(n);
                }
            }
            _ => {
                if !is_main {
                    continue;
                }
                let mut m = p.mods[i].clone();
                gen_rows(r, &mut g, p, &mut m, o);
                p.mods[i] = m;
            }
        }
        return vec![p.mods[i].name.clone()];
    }
    vec![]
}

/// The text of a module as a bad disk, an editor or a merge may leave it: pieces are gone, repeated,
/// replaced. Numbers of rows to fill stay small, definitions few.
pub fn mangle(r: &mut Rng, text: &str) -> Vec<u8> {
    const BITS: [&str; 52] = [
        "[[", "]]", "![[", "=", "(", ")", ",", "\"", "\"\"", "'", "---\n", "\n", "\r\n", "fn ", "use ", ":=", "+", "-", "*", "/", "^", "&",
        "%", "<=", "true", "1.", "99999999999999999999", "é", "☃", "\0", "\t", " ", "#", "A1", "$A$", "A1:", "!", "fill=3 ", "fill=", "validate=",
        "note='", "var=", "lock", "date_after(", "2024-13-45", "in_range(", "in_list(", "|", "c=#GG", "\u{a0}", "\u{2028}", "😀",
    ];
    let mut t: Vec<char> = text.chars().collect();
    for _ in 0..1 + r.below(5) {
        let k = r.below(t.len() as u64 + 1) as usize;
        match r.below(10) {
            0..=4 => {
                let b = BITS[r.below(BITS.len() as u64) as usize];
                t.splice(k..k, b.chars());
            }
            5..=6 => {
                let e = (k + 1 + r.below(6) as usize).min(t.len());
                t.drain(k..e);
            }
            7 => {
                let j = r.below(t.len() as u64 + 1) as usize;
                let (a, b) = (j.min(k), j.max(k).min(j.min(k) + 300));
                let piece: Vec<char> = t[a..b].to_vec();
                t.splice(b..b, piece);
            }
            8 => t.truncate(k),
            _ => {
                let c = *crate::props::pick(r, &['\u{1}', '\u{7f}', '\u{a0}', '\u{2028}', '\u{feff}', '"', '\'', '\n', '\u{1f600}']);
                t.insert(k, c);
            }
        }
    }
    let s: String = t.into_iter().collect();
    // `fill=` of more than three digits takes long without being interesting
    let mut digits = 0;
    let mut out = String::new();
    for (i, c) in s.char_indices() {
        let filling = s[..i].trim_end_matches(|c: char| c.is_ascii_digit()).ends_with('=');
        digits = if c.is_ascii_digit() { digits + 1 } else { 0 };
        if !(digits > 2 && filling) {
            out.push(c);
        }
    }
    let mut out = out.into_bytes();
    if r.chance(100) && !out.is_empty() {
        let k = r.below(out.len() as u64) as usize;
        out[k] ^= 1 << r.below(8);
    }
    out
}
