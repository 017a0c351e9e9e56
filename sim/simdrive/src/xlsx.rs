//! A small reader and writer for .xlsx files, independent of the library the program uses.
use quick_xml::events::Event;
use quick_xml::Reader;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Write};

/// (row, column), both from 0
pub type Pos = (u32, u32);
/// sheet name -> cells that hold a value or a formula
pub type Book = BTreeMap<String, BTreeMap<Pos, String>>;

pub fn a1(p: Pos) -> String {
    let mut c = p.1 + 1;
    let mut s = String::new();
    while c > 0 {
        s.insert(0, (b'A' + ((c - 1) % 26) as u8) as char);
        c = (c - 1) / 26;
    }
    format!("{s}{}", p.0 + 1)
}
pub fn from_a1(s: &str) -> Option<Pos> {
    let mut c = 0u32;
    let mut i = 0;
    let b = s.as_bytes();
    while i < b.len() && b[i].is_ascii_uppercase() {
        c = c.checked_mul(26)?.checked_add(u32::from(b[i] - b'A' + 1))?;
        i += 1;
    }
    let r: u32 = s[i..].parse().ok()?;
    if c == 0 || r == 0 {
        return None;
    }
    Some((r - 1, c - 1))
}

fn part(z: &mut zip::ZipArchive<Cursor<&[u8]>>, n: &str) -> Result<Option<String>, String> {
    match z.by_name(n) {
        Ok(mut f) => {
            let mut s = String::new();
            f.read_to_string(&mut s).map_err(|e| format!("{n}: {e}"))?;
            Ok(Some(s))
        }
        Err(zip::result::ZipError::FileNotFound) => Ok(None),
        Err(e) => Err(format!("{n}: {e}")),
    }
}

fn attr(e: &quick_xml::events::BytesStart, k: &str) -> Option<String> {
    e.attributes().flatten().find(|a| a.key.as_ref() == k.as_bytes()).map(|a| unescape(&String::from_utf8_lossy(&a.value)))
}
fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&amp;", "&")
}

pub fn read(data: &[u8]) -> Result<Book, String> {
    Ok(read_parts(data)?.0)
}

/// the cells, and which part of the file is which worksheet
fn read_parts(data: &[u8]) -> Result<(Book, BTreeMap<String, String>), String> {
    let mut parts = BTreeMap::new();
    let mut z = zip::ZipArchive::new(Cursor::new(data)).map_err(|e| format!("not a zip: {e}"))?;
    // every part must be intact (CRC)
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| e.to_string())?;
        let mut v = vec![];
        f.read_to_end(&mut v).map_err(|e| format!("{}: {e}", f.name()))?;
    }
    let wb = part(&mut z, "xl/workbook.xml")?.ok_or("no workbook.xml")?;
    let rels = part(&mut z, "xl/_rels/workbook.xml.rels")?.ok_or("no workbook rels")?;
    let mut targets = BTreeMap::new();
    let mut r = Reader::from_str(&rels);
    loop {
        match r.read_event().map_err(|e| e.to_string())? {
            Event::Start(e) | Event::Empty(e) if e.name().as_ref() == b"Relationship" => {
                if let (Some(i), Some(t)) = (attr(&e, "Id"), attr(&e, "Target")) {
                    targets.insert(i, t);
                }
            }
            Event::Eof => break,
            _ => {}
        }
    }
    let mut sheets = vec![];
    let mut r = Reader::from_str(&wb);
    loop {
        match r.read_event().map_err(|e| e.to_string())? {
            Event::Start(e) | Event::Empty(e) if e.local_name().as_ref() == b"sheet" => {
                if let (Some(n), Some(i)) = (attr(&e, "name"), attr(&e, "r:id")) {
                    sheets.push((n, i));
                }
            }
            Event::Eof => break,
            _ => {}
        }
    }
    let mut strings: Vec<String> = vec![];
    if let Some(s) = part(&mut z, "xl/sharedStrings.xml")? {
        let mut r = Reader::from_str(&s);
        let mut cur: Option<String> = None;
        let mut in_t = false;
        let mut phon = 0;
        loop {
            match r.read_event().map_err(|e| e.to_string())? {
                Event::Start(e) => match e.local_name().as_ref() {
                    b"si" => cur = Some(String::new()),
                    b"t" => in_t = true,
                    b"rPh" => phon += 1,
                    _ => {}
                },
                Event::Empty(e) if e.local_name().as_ref() == b"si" => strings.push(String::new()),
                Event::Text(t) if in_t && phon == 0 => {
                    if let Some(c) = &mut cur {
                        c.push_str(&String::from_utf8_lossy(&t));
                    }
                }
                Event::GeneralRef(g) if in_t && phon == 0 => {
                    if let Some(c) = &mut cur {
                        c.push_str(&format!("&{};", String::from_utf8_lossy(&g)));
                    }
                }
                Event::End(e) => match e.local_name().as_ref() {
                    b"si" => strings.push(unescape(&cur.take().unwrap_or_default())),
                    b"t" => in_t = false,
                    b"rPh" => phon -= 1,
                    _ => {}
                },
                Event::Eof => break,
                _ => {}
            }
        }
    }
    let mut book = Book::new();
    for (name, id) in sheets {
        let t = targets.get(&id).ok_or_else(|| format!("no relation {id}"))?;
        let p = t.strip_prefix('/').map(str::to_string).unwrap_or_else(|| format!("xl/{t}"));
        let x = part(&mut z, &p)?.ok_or_else(|| format!("no part {p}"))?;
        parts.insert(name.clone(), p);
        book.insert(name, sheet(&x, &strings)?);
    }
    Ok((book, parts))
}

/// The cells of a list of ranges (their first 100 rows and columns).
pub fn range(sqref: &str) -> std::collections::BTreeSet<Pos> {
    let mut at = std::collections::BTreeSet::new();
    for part in sqref.split_whitespace() {
        let (a, b) = part.split_once(':').unwrap_or((part, part));
        let (Some(a), Some(b)) = (from_a1(a), from_a1(b)) else {
            at.insert((u32::MAX, 0));
            continue;
        };
        for i in a.0..=b.0.min(a.0 + 99) {
            for j in a.1..=b.1.min(a.1 + 99) {
                at.insert((i, j));
            }
        }
    }
    at
}

/// All there is to a cell.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Whole {
    pub value: Option<String>,
    pub format: String,
    pub notes: Vec<String>,
    pub valid: Vec<String>,
    /// validations made for several cells at once
    pub range_valid: Vec<String>,
    /// there is an element for it, be it empty
    pub is_there: bool,
}

/// Worksheets by name, with everything about every cell.
pub fn whole(data: &[u8]) -> Result<BTreeMap<String, BTreeMap<Pos, Whole>>, String> {
    let (book, parts) = read_parts(data)?;
    let mut z = zip::ZipArchive::new(Cursor::new(data)).map_err(|e| format!("not a zip: {e}"))?;
    let formats = match part(&mut z, "xl/styles.xml")? {
        Some(x) => styles(&x)?,
        None => vec![],
    };
    let mut out = BTreeMap::new();
    for (name, p) in parts {
        let mut m: BTreeMap<Pos, Whole> = BTreeMap::new();
        for (at, v) in &book[&name] {
            m.entry(*at).or_default().value = Some(v.clone());
        }
        let x = part(&mut z, &p)?.unwrap_or_default();
        let mut r = Reader::from_str(&x);
        let mut valid: Option<(String, String)> = None;
        loop {
            match r.read_event().map_err(|e| e.to_string())? {
                Event::Start(e) | Event::Empty(e) if e.local_name().as_ref() == b"c" => {
                    let Some(at) = attr(&e, "r").and_then(|s| from_a1(&s)) else { continue };
                    let w = m.entry(at).or_default();
                    w.is_there = true;
                    let k = attr(&e, "s").and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
                    w.format = formats.get(k).cloned().unwrap_or_default();
                }
                Event::Start(e) if e.local_name().as_ref() == b"dataValidation" => {
                    let mut a: Vec<String> = e
                        .attributes()
                        .flatten()
                        .map(|a| format!("{}={}", String::from_utf8_lossy(a.key.as_ref()), String::from_utf8_lossy(&a.value)))
                        // (the library escapes the text of a prompt once more each time it reads and writes it)
                        .filter(|a| !a.starts_with("sqref=") && !a.starts_with("prompt="))
                        .collect();
                    a.sort();
                    valid = Some((attr(&e, "sqref").unwrap_or_default(), a.join(" ")));
                }
                Event::Text(t) => {
                    if let Some((_, v)) = &mut valid {
                        v.push_str(&format!(" [{}]", String::from_utf8_lossy(&t)));
                    }
                }
                Event::End(e) if e.local_name().as_ref() == b"dataValidation" => {
                    if let Some((at, v)) = valid.take() {
                        if let Some(p) = from_a1(&at) {
                            m.entry(p).or_default().valid.push(v.clone());
                        } else {
                            for p in range(&at) {
                                m.entry(p).or_default().range_valid.push(v.clone());
                            }
                        }
                    }
                }
                Event::Eof => break,
                _ => {}
            }
        }
        for w in m.values_mut() {
            w.range_valid.sort();
        }
        // its notes
        let (d, f) = p.rsplit_once('/').unwrap_or(("", &p));
        if let Some(rels) = part(&mut z, &format!("{d}/_rels/{f}.rels"))? {
            let mut r = Reader::from_str(&rels);
            let mut at = vec![];
            loop {
                match r.read_event().map_err(|e| e.to_string())? {
                    Event::Start(e) | Event::Empty(e) if e.name().as_ref() == b"Relationship" => {
                        if attr(&e, "Type").is_some_and(|t| t.ends_with("/comments")) {
                            let t = attr(&e, "Target").unwrap_or_default();
                            at.push(match (t.strip_prefix('/'), t.strip_prefix("../")) {
                                (Some(t), _) => t.to_string(),
                                (_, Some(t)) => format!("xl/{t}"),
                                _ => format!("{d}/{t}"),
                            });
                        }
                    }
                    Event::Eof => break,
                    _ => {}
                }
            }
            for p in at {
                let x = part(&mut z, &p)?.ok_or_else(|| format!("no part {p}"))?;
                let mut r = Reader::from_str(&x);
                let mut cur: Option<(Pos, String)> = None;
                loop {
                    match r.read_event().map_err(|e| e.to_string())? {
                        Event::Start(e) if e.local_name().as_ref() == b"comment" => {
                            let a = attr(&e, "ref").unwrap_or_default();
                            cur = Some((from_a1(&a).ok_or_else(|| format!("comment at {a:?}"))?, String::new()));
                        }
                        Event::Text(t) => {
                            if let Some((_, c)) = &mut cur {
                                c.push_str(&String::from_utf8_lossy(&t));
                            }
                        }
                        Event::End(e) if e.local_name().as_ref() == b"comment" => {
                            if let Some((at, c)) = cur.take() {
                                m.entry(at).or_default().notes.push(c);
                            }
                        }
                        Event::Eof => break,
                        _ => {}
                    }
                }
            }
        }
        out.insert(name, m);
    }
    Ok(out)
}

/// The cells, and as further sheets how they are formatted, their validations and notes.
pub fn read_full(data: &[u8]) -> Result<Book, String> {
    let mut book = read(data)?;
    let mut z = zip::ZipArchive::new(Cursor::new(data)).map_err(|e| format!("not a zip: {e}"))?;
    let formats = match part(&mut z, "xl/styles.xml")? {
        Some(x) => styles(&x)?,
        None => vec![],
    };
    // sheets as they stand in the file; which name belongs to which is in `read`
    let mut names: Vec<String> = z.file_names().filter(|n| n.starts_with("xl/worksheets/") && n.ends_with(".xml")).map(str::to_string).collect();
    names.sort();
    for n in names {
        let x = part(&mut z, &n)?.unwrap_or_default();
        let mut m = BTreeMap::new();
        let mut r = Reader::from_str(&x);
        let mut valid: Option<(String, String)> = None;
        loop {
            match r.read_event().map_err(|e| e.to_string())? {
                Event::Start(e) | Event::Empty(e) if e.local_name().as_ref() == b"c" => {
                    let f = attr(&e, "s").and_then(|s| s.parse::<usize>().ok()).and_then(|k| formats.get(k));
                    if let (Some(p), Some(f)) = (attr(&e, "r").and_then(|s| from_a1(&s)), f) {
                        if Some(f) != formats.first() {
                            m.insert(p, f.clone());
                        }
                    }
                }
                Event::Start(e) if e.local_name().as_ref() == b"dataValidation" => {
                    let mut a: Vec<String> = e
                        .attributes()
                        .flatten()
                        .map(|a| format!("{}={}", String::from_utf8_lossy(a.key.as_ref()), String::from_utf8_lossy(&a.value)))
                        .filter(|a| !a.starts_with("sqref="))
                        .collect();
                    a.sort();
                    valid = Some((attr(&e, "sqref").unwrap_or_default(), a.join(" ")));
                }
                Event::Text(t) => {
                    if let Some((_, v)) = &mut valid {
                        v.push_str(&format!(" [{}]", String::from_utf8_lossy(&t)));
                    }
                }
                Event::End(e) if e.local_name().as_ref() == b"dataValidation" => {
                    if let Some((at, v)) = valid.take() {
                        for a in at.split_whitespace() {
                            let p = from_a1(a).unwrap_or((u32::MAX, 0));
                            let t = m.entry(p).or_insert_with(String::new);
                            t.push_str(&format!(" valid {v}"));
                        }
                    }
                }
                Event::Eof => break,
                _ => {}
            }
        }
        if !m.is_empty() {
            book.insert(format!("{n} (formats)"), m);
        }
    }
    let mut names: Vec<String> = z.file_names().filter(|n| n.starts_with("xl/comments") && n.ends_with(".xml")).map(str::to_string).collect();
    names.sort();
    for n in names {
        let x = part(&mut z, &n)?.unwrap_or_default();
        let mut m: BTreeMap<Pos, String> = BTreeMap::new();
        let mut r = Reader::from_str(&x);
        let mut at = (u32::MAX, 0);
        loop {
            match r.read_event().map_err(|e| e.to_string())? {
                Event::Start(e) | Event::Empty(e) if e.local_name().as_ref() == b"comment" => {
                    at = attr(&e, "ref").and_then(|a| from_a1(&a)).unwrap_or((u32::MAX, 0));
                    m.entry(at).or_default().push_str(" note ");
                }
                Event::Text(t) => m.entry(at).or_default().push_str(&String::from_utf8_lossy(&t)),
                Event::Eof => break,
                _ => {}
            }
        }
        if !m.is_empty() {
            book.insert(format!("{n} (notes)"), m);
        }
    }
    Ok(book)
}

/// what each entry of `cellXfs` stands for
fn styles(x: &str) -> Result<Vec<String>, String> {
    let mut nf: BTreeMap<String, String> = BTreeMap::new();
    let (mut fonts, mut fills, mut borders, mut xfs) = (vec![], vec![], vec![], vec![]);
    let mut r = Reader::from_str(x);
    // the list we are in and how deep below it
    let mut list = String::new();
    let mut depth = 0u32;
    let mut cur = String::new();
    let show = |e: &quick_xml::events::BytesStart| -> String {
        let mut a: Vec<String> = e
            .attributes()
            .flatten()
            .map(|a| format!("{}={}", String::from_utf8_lossy(a.key.as_ref()), String::from_utf8_lossy(&a.value)))
            .collect();
        a.sort();
        format!("<{} {}>", String::from_utf8_lossy(e.name().as_ref()), a.join(" "))
    };
    loop {
        let ev = r.read_event().map_err(|e| e.to_string())?;
        let empty = matches!(ev, Event::Empty(_));
        match &ev {
            Event::Start(e) | Event::Empty(e) => {
                let n = String::from_utf8_lossy(e.name().as_ref()).into_owned();
                if list.is_empty() {
                    if !empty && ["numFmts", "fonts", "fills", "borders", "cellXfs"].contains(&n.as_str()) {
                        list = n;
                        depth = 0;
                    }
                    continue;
                }
                if depth == 0 {
                    cur.clear();
                    if list == "numFmts" {
                        nf.insert(attr(e, "numFmtId").unwrap_or_default(), attr(e, "formatCode").unwrap_or_default());
                    }
                    if list == "cellXfs" {
                        let g = |k: &str, v: &Vec<String>| -> String {
                            // (each workbook has its own default font)
                            let x = attr(e, k).and_then(|i| i.parse::<usize>().ok()).and_then(|i| v.get(i).cloned());
                            if x.as_ref() == v.first() { "default".into() } else { x.unwrap_or_default() }
                        };
                        let id = attr(e, "numFmtId").unwrap_or_default();
                        let code = nf.get(&id).cloned().unwrap_or(id);
                        cur = format!("nf {code} {} {} {} ", g("fontId", &fonts), g("fillId", &fills), g("borderId", &borders));
                    }
                }
                if !(depth == 0 && list == "cellXfs") {
                    cur.push_str(&show(e));
                }
                if !empty {
                    depth += 1;
                }
            }
            Event::End(e) => {
                if list.is_empty() {
                    continue;
                }
                if depth == 0 {
                    if list.as_bytes() == e.name().as_ref() {
                        list.clear();
                    }
                    continue;
                }
                depth -= 1;
            }
            Event::Eof => break,
            _ => continue,
        }
        if depth == 0 && !list.is_empty() {
            let c = std::mem::take(&mut cur);
            match list.as_str() {
                "fonts" => fonts.push(c),
                "fills" => fills.push(c),
                "borders" => borders.push(c),
                "cellXfs" => xfs.push(c),
                _ => {}
            }
        }
    }
    Ok(xfs)
}

/// the cells which have a comment (in any sheet)
pub fn comments(data: &[u8]) -> Result<Vec<Pos>, String> {
    let mut z = zip::ZipArchive::new(Cursor::new(data)).map_err(|e| format!("not a zip: {e}"))?;
    let names: Vec<String> = z.file_names().filter(|n| n.starts_with("xl/comments") && n.ends_with(".xml")).map(str::to_string).collect();
    let mut out = vec![];
    for n in names {
        let x = part(&mut z, &n)?.unwrap_or_default();
        let mut r = Reader::from_str(&x);
        loop {
            match r.read_event().map_err(|e| e.to_string())? {
                Event::Start(e) | Event::Empty(e) if e.local_name().as_ref() == b"comment" => {
                    let a = attr(&e, "ref").unwrap_or_default();
                    out.push(from_a1(&a).ok_or_else(|| format!("comment at {a:?}"))?);
                }
                Event::Eof => break,
                _ => {}
            }
        }
    }
    out.sort();
    Ok(out)
}

/// text that could be taken for something else is marked
fn as_text(s: String) -> String {
    if s.starts_with(['=', '#', '\'']) || s.parse::<f64>().is_ok() || s == "TRUE" || s == "FALSE" {
        format!("'{s}")
    } else {
        s
    }
}

fn sheet(x: &str, strings: &[String]) -> Result<BTreeMap<Pos, String>, String> {
    let mut m = BTreeMap::new();
    let mut r = Reader::from_str(x);
    let mut pos: Option<Pos> = None;
    let (mut ty, mut v, mut f, mut is_) = (String::new(), String::new(), None::<String>, String::new());
    let mut at = 0u8;
    loop {
        match r.read_event().map_err(|e| e.to_string())? {
            Event::Start(e) => match e.local_name().as_ref() {
                b"c" => {
                    pos = attr(&e, "r").and_then(|s| from_a1(&s));
                    ty = attr(&e, "t").unwrap_or_default();
                    v.clear();
                    f = None;
                    is_.clear();
                }
                b"v" => at = 1,
                b"f" => {
                    at = 2;
                    f = Some(String::new());
                }
                b"t" if pos.is_some() => at = 3,
                _ => {}
            },
            Event::Text(t) => {
                let s = String::from_utf8_lossy(&t).into_owned();
                match at {
                    1 => v.push_str(&s),
                    2 => f.as_mut().unwrap().push_str(&s),
                    3 => is_.push_str(&s),
                    _ => {}
                }
            }
            Event::GeneralRef(g) => {
                let s = format!("&{};", String::from_utf8_lossy(&g));
                match at {
                    1 => v.push_str(&s),
                    2 => f.as_mut().unwrap().push_str(&s),
                    3 => is_.push_str(&s),
                    _ => {}
                }
            }
            Event::End(e) => match e.local_name().as_ref() {
                b"c" => {
                    if let Some(p) = pos.take() {
                        let val = match (&f, ty.as_str()) {
                            (Some(f), _) => format!("={}", unescape(f)),
                            (None, "s") => {
                                let k: usize = v.trim().parse().map_err(|_| format!("shared string {v}"))?;
                                as_text(strings.get(k).ok_or_else(|| format!("shared string {k}"))?.clone())
                            }
                            (None, "inlineStr") => as_text(unescape(&is_)),
                            (None, "str") => as_text(unescape(&v)),
                            (None, "b") => (if v == "1" { "TRUE" } else { "FALSE" }).to_string(),
                            (None, "e") => unescape(&v),
                            (None, _) => match v.trim().parse::<f64>() {
                                Ok(x) => format!("{x}"),
                                Err(_) => unescape(&v),
                            },
                        };
                        if !val.is_empty() {
                            m.insert(p, val);
                        }
                    }
                }
                b"v" | b"f" | b"t" => at = 0,
                _ => {}
            },
            Event::Eof => break,
            _ => {}
        }
    }
    Ok(m)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum XCell {
    Text(String),
    Inline(String),
    Num(i64),
    Bool(bool),
    /// formula with a cached value
    Formula(String, i64),
    Float(String),
    Error(String),
    /// formula whose cached value is text
    StrFormula(String, String),
    Rich(Vec<String>),
    /// there, with a style, but empty
    Styled,
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

/// What else there is in a worksheet
#[derive(Clone, Debug, Default)]
pub struct Extras {
    /// by the cells they stand on
    pub valid: Vec<(String, String)>,
    pub notes: BTreeMap<Pos, String>,
}

pub fn write(sheets: &[(String, BTreeMap<Pos, XCell>, Extras)]) -> Vec<u8> {
    let mut strings: Vec<String> = vec![];
    let mut index = |raw: String| {
        strings.iter().position(|s| *s == raw).unwrap_or_else(|| {
            strings.push(raw);
            strings.len() - 1
        })
    };
    let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
    let o = zip::write::SimpleFileOptions::default();
    let put = |z: &mut zip::ZipWriter<Cursor<Vec<u8>>>, n: &str, s: &str| {
        z.start_file(n, o).unwrap();
        z.write_all(s.as_bytes()).unwrap();
    };
    let h = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";
    let mut ct = format!("{h}<Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"xml\" ContentType=\"application/xml\"/><Default Extension=\"vml\" ContentType=\"application/vnd.openxmlformats-officedocument.vmlDrawing\"/><Override PartName=\"/xl/workbook.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml\"/><Override PartName=\"/xl/styles.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml\"/><Override PartName=\"/xl/sharedStrings.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml\"/>");
    let mut wb = format!("{h}<workbook xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\"><sheets>");
    let mut rel = format!("{h}<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">");
    let mut parts = vec![];
    for (i, (name, cells, extras)) in sheets.iter().enumerate() {
        let n = i + 1;
        ct.push_str(&format!("<Override PartName=\"/xl/worksheets/sheet{n}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml\"/>"));
        wb.push_str(&format!("<sheet name=\"{}\" sheetId=\"{n}\" r:id=\"rId{n}\"/>", esc(name)));
        rel.push_str(&format!("<Relationship Id=\"rId{n}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet\" Target=\"worksheets/sheet{n}.xml\"/>"));
        let mut x = format!("{h}<worksheet xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\"><sheetData>");
        let mut row = None;
        for (p, c) in cells {
            if row != Some(p.0) {
                if row.is_some() {
                    x.push_str("</row>");
                }
                x.push_str(&format!("<row r=\"{}\">", p.0 + 1));
                row = Some(p.0);
            }
            let r = a1(*p);
            match c {
                XCell::Text(t) => {
                    let k = index(format!("<t xml:space=\"preserve\">{}</t>", esc(t)));
                    x.push_str(&format!("<c r=\"{r}\" t=\"s\"><v>{k}</v></c>"));
                }
                XCell::Inline(t) => x.push_str(&format!("<c r=\"{r}\" t=\"inlineStr\"><is><t>{}</t></is></c>", esc(t))),
                XCell::Num(n) => x.push_str(&format!("<c r=\"{r}\"><v>{n}</v></c>")),
                XCell::Bool(b) => x.push_str(&format!("<c r=\"{r}\" t=\"b\"><v>{}</v></c>", u8::from(*b))),
                XCell::Formula(f, n) => x.push_str(&format!("<c r=\"{r}\"><f>{}</f><v>{n}</v></c>", esc(f))),
                XCell::Float(n) => x.push_str(&format!("<c r=\"{r}\" s=\"1\"><v>{n}</v></c>")),
                XCell::Error(e) => x.push_str(&format!("<c r=\"{r}\" t=\"e\"><v>{e}</v></c>")),
                XCell::StrFormula(f, s) => x.push_str(&format!("<c r=\"{r}\" t=\"str\"><f>{}</f><v>{}</v></c>", esc(f), esc(s))),
                XCell::Rich(runs) => {
                    let k = index(
                        runs.iter()
                            .enumerate()
                            .map(|(i, s)| format!("<r>{}<t xml:space=\"preserve\">{}</t></r>", if i % 2 == 1 { "<rPr><b/></rPr>" } else { "" }, esc(s)))
                            .collect(),
                    );
                    x.push_str(&format!("<c r=\"{r}\" t=\"s\"><v>{k}</v></c>"));
                }
                XCell::Styled => x.push_str(&format!("<c r=\"{r}\" s=\"1\"/>")),
            }
        }
        if row.is_some() {
            x.push_str("</row>");
        }
        x.push_str("</sheetData>");
        if !extras.valid.is_empty() {
            x.push_str(&format!("<dataValidations count=\"{}\">", extras.valid.len()));
            for (at, v) in &extras.valid {
                x.push_str(&format!("<dataValidation {v} sqref=\"{at}\"><formula1>{}</formula1></dataValidation>", at.len()));
            }
            x.push_str("</dataValidations>");
        }
        if !extras.notes.is_empty() {
            x.push_str("<legacyDrawing r:id=\"rId1\"/>");
            let mut c = format!("{h}<comments xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\"><authors><author>somebody</author></authors><commentList>");
            let mut v = "<xml xmlns:v=\"urn:schemas-microsoft-com:vml\" xmlns:o=\"urn:schemas-microsoft-com:office:office\" xmlns:x=\"urn:schemas-microsoft-com:office:excel\"><o:shapelayout v:ext=\"edit\"><o:idmap v:ext=\"edit\" data=\"1\"/></o:shapelayout><v:shapetype id=\"_x0000_t202\" coordsize=\"21600,21600\" o:spt=\"202\" path=\"m,l,21600r21600,l21600,xe\"><v:stroke joinstyle=\"miter\"/><v:path gradientshapeok=\"t\" o:connecttype=\"rect\"/></v:shapetype>".to_string();
            for (k, (p, t)) in extras.notes.iter().enumerate() {
                c.push_str(&format!("<comment ref=\"{}\" authorId=\"0\"><text><r><t xml:space=\"preserve\">{}</t></r></text></comment>", a1(*p), esc(t)));
                v.push_str(&format!("<v:shape id=\"_x0000_s{}\" type=\"#_x0000_t202\" style=\"position:absolute;margin-left:59.25pt;margin-top:1.5pt;width:108pt;height:59.25pt;z-index:{};visibility:hidden\" fillcolor=\"#ffffe1\" o:insetmode=\"auto\"><v:fill color2=\"#ffffe1\"/><v:shadow on=\"t\" color=\"black\" obscured=\"t\"/><v:path o:connecttype=\"none\"/><v:textbox style=\"mso-direction-alt:auto\"><div style=\"text-align:left\"></div></v:textbox><x:ClientData ObjectType=\"Note\"><x:MoveWithCells/><x:SizeWithCells/><x:Anchor>1, 15, 0, 2, 3, 15, 3, 16</x:Anchor><x:AutoFill>False</x:AutoFill><x:Row>{}</x:Row><x:Column>{}</x:Column></x:ClientData></v:shape>", 1025 + k, k + 1, p.0, p.1));
            }
            c.push_str("</commentList></comments>");
            v.push_str("</xml>");
            let o = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
            ct.push_str(&format!("<Override PartName=\"/xl/comments{n}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml\"/>"));
            parts.push((format!("xl/comments{n}.xml"), c));
            parts.push((format!("xl/drawings/vmlDrawing{n}.vml"), v));
            parts.push((
                format!("xl/worksheets/_rels/sheet{n}.xml.rels"),
                format!("{h}<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{o}/vmlDrawing\" Target=\"../drawings/vmlDrawing{n}.vml\"/><Relationship Id=\"rId2\" Type=\"{o}/comments\" Target=\"../comments{n}.xml\"/></Relationships>"),
            ));
        }
        x.push_str("</worksheet>");
        parts.push((format!("xl/worksheets/sheet{n}.xml"), x));
    }
    let k = sheets.len() + 1;
    rel.push_str(&format!("<Relationship Id=\"rId{k}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles\" Target=\"styles.xml\"/><Relationship Id=\"rId{}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings\" Target=\"sharedStrings.xml\"/></Relationships>", k + 1));
    ct.push_str("</Types>");
    wb.push_str("</sheets></workbook>");
    put(&mut z, "[Content_Types].xml", &ct);
    put(&mut z, "_rels/.rels", &format!("{h}<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument\" Target=\"xl/workbook.xml\"/></Relationships>"));
    put(&mut z, "xl/workbook.xml", &wb);
    put(&mut z, "xl/_rels/workbook.xml.rels", &rel);
    put(&mut z, "xl/styles.xml", &format!("{h}<styleSheet xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\"><fonts count=\"2\"><font><sz val=\"11\"/><name val=\"Calibri\"/></font><font><b/><sz val=\"11\"/><name val=\"Calibri\"/></font></fonts><fills count=\"2\"><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill></fills><borders count=\"1\"><border><left/><right/><top/><bottom/><diagonal/></border></borders><cellStyleXfs count=\"1\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/></cellStyleXfs><cellXfs count=\"2\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/><xf numFmtId=\"0\" fontId=\"1\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyFont=\"1\"/></cellXfs><cellStyles count=\"1\"><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/></cellStyles></styleSheet>"));
    let mut ss = format!("{h}<sst xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\" count=\"{0}\" uniqueCount=\"{0}\">", strings.len());
    for s in &strings {
        ss.push_str(&format!("<si>{s}</si>"));
    }
    ss.push_str("</sst>");
    put(&mut z, "xl/sharedStrings.xml", &ss);
    for (n, x) in parts {
        put(&mut z, &n, &x);
    }
    z.finish().unwrap().into_inner()
}

/// CSV records (RFC 4180)
pub fn csv(data: &[u8]) -> Result<Vec<Vec<String>>, String> {
    let t = std::str::from_utf8(data).map_err(|e| e.to_string())?;
    let mut rows = vec![];
    let mut row = vec![];
    let mut f = String::new();
    let mut it = t.chars().peekable();
    let mut quoted = false;
    let mut any = false;
    while let Some(c) = it.next() {
        any = true;
        if quoted {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    f.push('"');
                } else {
                    quoted = false;
                }
            } else {
                f.push(c);
            }
            continue;
        }
        match c {
            '"' if f.is_empty() => quoted = true,
            ',' => row.push(std::mem::take(&mut f)),
            '\r' if it.peek() == Some(&'\n') => {}
            '\n' => {
                row.push(std::mem::take(&mut f));
                rows.push(std::mem::take(&mut row));
                any = false;
            }
            c => f.push(c),
        }
    }
    if quoted {
        return Err("unterminated quote".into());
    }
    if any {
        row.push(f);
        rows.push(row);
    }
    Ok(rows)
}

/// non-empty cells of a CSV document by position
pub fn csv_cells(data: &[u8]) -> Result<BTreeMap<Pos, String>, String> {
    let mut m = BTreeMap::new();
    for (r, row) in csv(data)?.into_iter().enumerate() {
        for (c, v) in row.into_iter().enumerate() {
            if !v.is_empty() {
                m.insert((r as u32, c as u32), v);
            }
        }
    }
    Ok(m)
}
