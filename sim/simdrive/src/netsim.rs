//! The other side of the wire: name service, TLS, and small models of the OAuth, Sheets and Drive
//! services.  Everything happens in `turn`, at simulated times, and is a function of the plan.
use crate::engine::NetHost;
use rustls::server::NoServerSessionStorage;
use rustls::{ServerConfig, ServerConnection};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simworld::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::sync::{Arc, OnceLock};

pub const CA_PEM: &[u8] = include_bytes!("../certs/ca.pem");
pub const SA_KEY: &str = include_str!("../certs/sa.pem");
const MS: i64 = 1_000_000;

// ------------------------------------------------------------------ deterministic randomness for TLS
thread_local! {
    static TLS_RNG: RefCell<Option<Rng>> = const { RefCell::new(None) };
}
/// ring takes its randomness through `syscall`; while a simulated server computes, it gets it from
/// the plan's seed.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom {
        let served = TLS_RNG.with(|r| match &mut *r.borrow_mut() {
            Some(r) => {
                for i in 0..b {
                    *(a as *mut u8).add(i) = r.next() as u8;
                }
                true
            }
            None => false,
        });
        if served {
            return b as i64;
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ------------------------------------------------------------------ plan
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetPlan {
    pub seed: u64,
    /// one-way delay and its jitter, in ns
    pub lat: i64,
    pub jitter: i64,
    /// largest piece the network delivers at once (0: as sent)
    pub frag: u32,
    #[serde(default)]
    pub faults: Vec<NetFault>,
    /// rows of cells; `None`: no spreadsheet with that id
    pub sheet: Option<Vec<Vec<Value>>>,
    /// further sheets behind the first one
    #[serde(default)]
    pub more: u32,
    /// id of the first sheet; when it isn't 0, the last of the others has that id
    #[serde(default)]
    pub tab: i64,
    /// how the services answer: 0 content-length, 1 chunked, 2 until the connection closes
    pub style: u32,
    /// life time of access tokens
    pub expires: i64,
    /// what people do to the sheet before a run
    #[serde(default)]
    pub edits: Vec<NetEdit>,
}

impl NetPlan {
    /// id of another sheet
    pub fn other(&self, k: u32) -> i64 {
        if self.tab != 0 && k + 1 == self.more {
            0
        } else {
            77 + i64::from(k)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetEdit {
    pub run: i32,
    pub row: usize,
    pub col: usize,
    pub cell: Value,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetFault {
    /// which run of the scenario (-1: every)
    pub run: i32,
    /// dns, conn, token, get, update, copy
    pub at: String,
    /// which of them, counted from 0 in each run
    pub nth: u32,
    pub what: NetWhat,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NetWhat {
    /// look-up fails with this EAI code
    Dns(i32),
    /// connect fails with this errno
    Conn(i32),
    /// a certificate nobody trusts
    BadCert,
    /// reset (or closed) right after the client's first bytes
    HelloReset(bool),
    /// the connection breaks when the request's header is there, before anything is done
    ResetEarly,
    /// the request is not carried out and the connection closes
    Drop { reset: bool },
    /// the request is carried out, the answer is lost
    LoseAnswer { reset: bool },
    /// the answer breaks off after so many bytes
    Truncate { bytes: u32, reset: bool },
    /// an error status: JSON (0), HTML (1), empty (2); carried out nevertheless?
    Status { code: u16, body: u32, applied: bool },
    /// status 200 with something that is not the expected answer
    Garbage(u32),
    /// the answer comes this much later
    Delay(i64),
}

// ------------------------------------------------------------------ remote state
#[derive(Clone, Debug, PartialEq)]
pub struct Remote {
    pub sheet: Option<Vec<Vec<Value>>>,
    /// (content at the time, number of updates applied before)
    pub copies: Vec<(Vec<Vec<Value>>, u32)>,
    pub updates: u32,
    /// updates of other sheets than the first one
    pub strays: u32,
}

#[derive(Clone, Debug)]
pub struct Req {
    pub at: i64,
    pub service: String,
    pub status: u16,
    pub applied: bool,
    pub note: String,
}

enum E {
    Conn(usize, i32),
    ToServer(usize, Vec<u8>),
    ClientEof(usize),
    ToClient(usize, Vec<u8>),
    Eof(usize),
    Reset(usize),
    Unblock(usize),
}

#[derive(Default)]
struct Conn {
    seen: bool,
    host: String,
    tls: Option<ServerConnection>,
    plain: bool,
    hello: Option<bool>,
    inbuf: Vec<u8>,
    to_last: i64,
    from_last: i64,
    dead: bool,
    client_gone: bool,
    backlog: Vec<u8>,
    eof_after: bool,
    handled: u32,
}

pub struct SimNet {
    pub plan: NetPlan,
    pub remote: Remote,
    pub before: Remote,
    pub log: Vec<Req>,
    pub fired: BTreeMap<String, u32>,
    pub run: i32,
    rng: Rng,
    tls_rng: Rng,
    conns: Vec<Conn>,
    events: BTreeMap<(i64, u64), E>,
    eseq: u64,
    counts: BTreeMap<String, u32>,
    tokens: Vec<String>,
    pub grams: u64,
}

const HOSTS: [&str; 4] = ["oauth2.googleapis.com", "sheets.googleapis.com", "www.googleapis.com", "accounts.google.com"];

fn config(bad: bool) -> Arc<ServerConfig> {
    static C: OnceLock<[Arc<ServerConfig>; 2]> = OnceLock::new();
    let all = C.get_or_init(|| {
        [
            (&include_bytes!("../certs/leaf.pem")[..], &include_bytes!("../certs/leaf.key")[..]),
            (&include_bytes!("../certs/badleaf.pem")[..], &include_bytes!("../certs/badleaf.key")[..]),
        ]
        .map(|(c, k)| {
            let certs = rustls_pemfile::certs(&mut &c[..]).collect::<Result<Vec<_>, _>>().expect("certificate");
            let key = rustls_pemfile::private_key(&mut &k[..]).expect("key").expect("key");
            let mut cfg = ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
                .with_safe_default_protocol_versions()
                .expect("tls versions")
                .with_no_client_auth()
                .with_single_cert(certs, key)
                .expect("server certificate");
            cfg.send_tls13_tickets = 0;
            cfg.session_storage = Arc::new(NoServerSessionStorage {});
            Arc::new(cfg)
        })
    });
    all[usize::from(bad)].clone()
}

impl SimNet {
    pub fn new(plan: &NetPlan) -> SimNet {
        config(false);
        let remote = Remote { sheet: plan.sheet.clone(), copies: vec![], updates: 0, strays: 0 };
        SimNet {
            before: remote.clone(),
            remote,
            log: vec![],
            fired: BTreeMap::new(),
            run: -1,
            rng: Rng::new(plan.seed),
            tls_rng: Rng::new(plan.seed ^ 0x7157),
            conns: vec![],
            events: BTreeMap::new(),
            eseq: 0,
            counts: BTreeMap::new(),
            tokens: vec![],
            grams: 0,
            plan: plan.clone(),
        }
    }

    fn lat(&mut self) -> i64 {
        self.plan.lat + self.rng.below(self.plan.jitter.max(1) as u64) as i64
    }
    fn put(&mut self, at: i64, e: E) {
        self.eseq += 1;
        self.events.insert((at, self.eseq), e);
    }
    fn count(&mut self, k: &str) -> u32 {
        let c = self.counts.entry(k.into()).or_insert(0);
        *c += 1;
        *c - 1
    }
    fn fault(&mut self, at: &str, nth: u32) -> Option<NetWhat> {
        let run = self.run;
        let f = self.plan.faults.iter().find(|f| (f.run < 0 || f.run == run) && f.at == at && f.nth == nth)?.what.clone();
        let k = match &f {
            NetWhat::Dns(_) => "net: look-up fails",
            NetWhat::Conn(111) => "net: connection refused",
            NetWhat::Conn(110) => "net: connection times out",
            NetWhat::Conn(_) => "net: no route",
            NetWhat::BadCert => "net: untrusted certificate",
            NetWhat::HelloReset(_) => "net: broken TLS handshake",
            NetWhat::ResetEarly => "net: reset in mid-request",
            NetWhat::Drop { .. } => "net: request lost",
            NetWhat::LoseAnswer { .. } => "net: answer lost",
            NetWhat::Truncate { .. } => "net: answer truncated",
            NetWhat::Status { applied: true, .. } => "net: error status though carried out",
            NetWhat::Status { .. } => "net: error status",
            NetWhat::Garbage(_) => "net: garbled answer",
            NetWhat::Delay(_) => "net: long delay",
        };
        *self.fired.entry(k.into()).or_insert(0) += 1;
        Some(f)
    }

    /// what the client sent, what it connected to, what it closed
    fn scan(&mut self, w: &mut World) -> bool {
        let mut any = false;
        for i in 0..w.net.nsocks as usize {
            while self.conns.len() <= i {
                self.conns.push(Conn::default());
            }
            let now = w.now;
            let (st, host) = (w.net.socks[i].state, w.net.socks[i].host);
            if st == 2 && !self.conns[i].seen {
                any = true;
                let n = self.count("conn");
                let h = HOSTS.get(host.wrapping_sub(0x0a00_0001) as usize).copied().unwrap_or("");
                let plain = w.net.socks[i].port == 80;
                let mut res = 1;
                let mut d = self.lat() * 2;
                let mut bad = false;
                match self.fault("conn", n) {
                    Some(NetWhat::Conn(e)) => {
                        res = -e;
                        if e == 110 {
                            d = 127_000 * MS;
                        }
                    }
                    Some(NetWhat::BadCert) => bad = true,
                    Some(NetWhat::HelloReset(r)) => self.conns[i].hello = Some(r),
                    Some(NetWhat::Delay(x)) => d += x,
                    _ => {}
                }
                let c = &mut self.conns[i];
                c.seen = true;
                c.host = h.into();
                c.plain = plain;
                if !plain {
                    c.tls = ServerConnection::new(config(bad)).ok();
                    if let Some(t) = &mut c.tls {
                        t.set_buffer_limit(None);
                    }
                }
                self.put(now + d, E::Conn(i, res));
            }
            let k = &mut w.net.socks[i];
            if k.tx_len > k.tx_taken {
                any = true;
                let b = k.tx[k.tx_taken as usize..k.tx_len as usize].to_vec();
                k.tx_taken = 0;
                k.tx_len = 0;
                let l = self.lat();
                let at = (now + l).max(self.conns[i].to_last + 1);
                // pieces
                let f = self.plan.frag as usize;
                let mut t = at;
                let size = if f == 0 { b.len() } else { f.max(b.len() / 40 + 1) };
                for p in b.chunks(size) {
                    self.put(t, E::ToServer(i, p.to_vec()));
                    self.grams += 1;
                    t += 1 + self.rng.below(self.plan.jitter.max(1) as u64 / 4 + 1) as i64;
                }
                self.conns[i].to_last = t;
            }
            let k = &mut w.net.socks[i];
            if k.wblocked == 1 {
                k.wblocked = 2;
                let l = self.lat();
                self.put(now + l / 2 + 1, E::Unblock(i));
            }
            let k = &mut w.net.socks[i];
            if (k.state == 4 || k.tx_shut != 0) && self.conns[i].seen && !self.conns[i].client_gone {
                any = true;
                self.conns[i].client_gone = true;
                let l = self.lat();
                let at = (now + l).max(self.conns[i].to_last + 1);
                self.put(at, E::ClientEof(i));
            }
        }
        any
    }

    fn pump(&mut self, w: &mut World) {
        for i in 0..self.conns.len() {
            let c = &mut self.conns[i];
            let k = &mut w.net.socks[i];
            if k.state != 3 || k.reset != 0 {
                continue;
            }
            if !c.backlog.is_empty() {
                if k.rx_read == k.rx_len {
                    k.rx_read = 0;
                    k.rx_len = 0;
                }
                let room = k.rx.len() - k.rx_len as usize;
                let n = room.min(c.backlog.len());
                if n > 0 {
                    let at = k.rx_len as usize;
                    k.rx[at..at + n].copy_from_slice(&c.backlog[..n]);
                    k.rx_len += n as u64;
                    c.backlog.drain(..n);
                    k.gen = k.gen.wrapping_add(1);
                }
            }
            if c.eof_after && c.backlog.is_empty() && k.rx_eof == 0 {
                k.rx_eof = 1;
                k.gen = k.gen.wrapping_add(1);
            }
        }
    }

    fn handle(&mut self, w: &mut World, e: E) {
        match e {
            E::Conn(i, r) => {
                let k = &mut w.net.socks[i];
                if k.state == 2 {
                    k.conn_result = r;
                    if r > 0 {
                        k.state = 3;
                    }
                    k.gen = k.gen.wrapping_add(1);
                }
            }
            E::ToServer(i, b) => self.input(w, i, &b),
            E::ClientEof(i) => {
                // nothing more will come; a half-closed connection is closed
                if !self.conns[i].dead {
                    self.conns[i].dead = true;
                    let at = w.now + self.plan.lat + 1;
                    self.put(at, E::Eof(i));
                }
            }
            E::ToClient(i, b) => {
                self.conns[i].backlog.extend_from_slice(&b);
                self.pump(w);
            }
            E::Eof(i) => self.conns[i].eof_after = true,
            E::Reset(i) => {
                let k = &mut w.net.socks[i];
                if k.state == 3 && k.reset == 0 {
                    // what has not been read yet is gone
                    k.rx_read = k.rx_len;
                    k.reset = 1;
                    k.gen = k.gen.wrapping_add(1);
                }
            }
            E::Unblock(i) => {
                let k = &mut w.net.socks[i];
                k.wblocked = 0;
                k.gen = k.gen.wrapping_add(1);
            }
        }
    }

    fn with_rng<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        TLS_RNG.with(|t| *t.borrow_mut() = Some(self.tls_rng));
        let r = f(self);
        self.tls_rng = TLS_RNG.with(|t| t.borrow_mut().take()).unwrap_or(self.tls_rng);
        r
    }

    fn input(&mut self, w: &mut World, i: usize, b: &[u8]) {
        if self.conns[i].dead {
            return;
        }
        if let Some(reset) = self.conns[i].hello {
            self.conns[i].dead = true;
            let l = self.lat();
            self.put(w.now + l, if reset { E::Reset(i) } else { E::Eof(i) });
            return;
        }
        if self.conns[i].plain {
            self.conns[i].inbuf.extend_from_slice(b);
        } else {
            let now = w.now;
            self.with_rng(|s| {
                let c = &mut s.conns[i];
                let Some(tls) = &mut c.tls else { return };
                let mut rest = b;
                let mut bad = false;
                while !rest.is_empty() {
                    if tls.read_tls(&mut rest).is_err() || tls.process_new_packets().is_err() {
                        bad = true;
                        break;
                    }
                    let mut p = vec![0u8; 1 << 16];
                    while let Ok(n) = tls.reader().read(&mut p) {
                        if n == 0 {
                            break;
                        }
                        c.inbuf.extend_from_slice(&p[..n]);
                    }
                }
                let mut out = vec![];
                while tls.wants_write() {
                    if tls.write_tls(&mut out).is_err() {
                        break;
                    }
                }
                if bad {
                    c.dead = true;
                }
                if !out.is_empty() {
                    s.send_raw(now, i, out, 0);
                }
                if bad {
                    let at = s.conns[i].from_last + 1;
                    s.put(at.max(now + 1), E::Eof(i));
                }
            });
        }
        self.requests(w, i);
    }

    fn send_raw(&mut self, now: i64, i: usize, b: Vec<u8>, delay: i64) {
        let l = self.lat();
        let mut t = (now + l + delay).max(self.conns[i].from_last + 1);
        let f = self.plan.frag as usize;
        let size = if f == 0 { b.len().max(1) } else { f.max(b.len() / 40 + 1) };
        for p in b.chunks(size) {
            self.put(t, E::ToClient(i, p.to_vec()));
            self.grams += 1;
            t += 1 + self.rng.below(self.plan.jitter.max(1) as u64 / 4 + 1) as i64;
        }
        self.conns[i].from_last = t;
    }

    /// bytes of an HTTP answer, then what happens to the connection
    fn send(&mut self, w: &World, i: usize, b: &[u8], delay: i64, end: Option<bool>) {
        let now = w.now;
        let plain = self.conns[i].plain;
        let out = if plain {
            b.to_vec()
        } else {
            self.with_rng(|s| {
                let mut out = vec![];
                if let Some(tls) = &mut s.conns[i].tls {
                    let _ = tls.writer().write_all(b);
                    while tls.wants_write() {
                        if tls.write_tls(&mut out).is_err() {
                            break;
                        }
                    }
                }
                out
            })
        };
        self.send_raw(now, i, out, delay);
        if let Some(reset) = end {
            self.conns[i].dead = true;
            let at = self.conns[i].from_last + 1;
            self.put(at, if reset { E::Reset(i) } else { E::Eof(i) });
        }
    }

    fn requests(&mut self, w: &mut World, i: usize) {
        loop {
            if self.conns[i].dead {
                return;
            }
            let b = &self.conns[i].inbuf;
            let Some(h) = b.windows(4).position(|x| x == b"\r\n\r\n") else { return };
            let head = String::from_utf8_lossy(&b[..h]).into_owned();
            let mut lines = head.lines();
            let first = lines.next().unwrap_or_default().to_string();
            let hdr: BTreeMap<String, String> =
                lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string())).collect();
            let (method, target) = {
                let mut p = first.split(' ');
                (p.next().unwrap_or_default().to_string(), p.next().unwrap_or_default().to_string())
            };
            let service = route(&self.conns[i].host, &method, &target);
            // the connection breaks while the body is still on its way
            let key = format!("early {i} {}", self.conns[i].handled);
            if !self.counts.contains_key(&key) {
                self.counts.insert(key, 1);
                let n = self.counts.get(service).copied().unwrap_or(0);
                let run = self.run;
                if self.plan.faults.iter().any(|f| (f.run < 0 || f.run == run) && f.at == service && f.nth == n && f.what == NetWhat::ResetEarly) {
                    self.fault(service, n);
                    self.count(service);
                    self.conns[i].dead = true;
                    self.note(w, service, 0, false, "reset in mid-request");
                    let l = self.lat();
                    self.put(w.now + l, E::Reset(i));
                    return;
                }
            }
            let b = &self.conns[i].inbuf;
            let (body, used) = if hdr.get("transfer-encoding").is_some_and(|v| v.eq_ignore_ascii_case("chunked")) {
                match unchunk(&b[h + 4..]) {
                    Some((x, n)) => (x, h + 4 + n),
                    None => return,
                }
            } else {
                let n: usize = hdr.get("content-length").and_then(|v| v.parse().ok()).unwrap_or(0);
                if b.len() < h + 4 + n {
                    return;
                }
                (b[h + 4..h + 4 + n].to_vec(), h + 4 + n)
            };
            self.conns[i].inbuf.drain(..used);
            self.conns[i].handled += 1;
            let auth = hdr.get("authorization").cloned().unwrap_or_default();
            self.answer(w, i, service, &target, &auth, &body);
        }
    }

    fn note(&mut self, w: &World, service: &str, status: u16, applied: bool, note: &str) {
        self.log.push(Req { at: w.now, service: service.into(), status, applied, note: note.into() });
    }

    fn answer(&mut self, w: &mut World, i: usize, service: &str, target: &str, auth: &str, body: &[u8]) {
        let n = self.count(service);
        let f = self.fault(service, n);
        let mut delay = 0;
        match &f {
            Some(NetWhat::Drop { reset }) => {
                self.conns[i].dead = true;
                self.note(w, service, 0, false, "request lost");
                let l = self.lat();
                self.put(w.now + l, if *reset { E::Reset(i) } else { E::Eof(i) });
                return;
            }
            Some(NetWhat::Status { code, body, applied: false }) => {
                let (b, html) = error_body(*code, *body);
                self.note(w, service, *code, false, "error injected");
                self.reply(w, i, *code, b, html, 0, None);
                return;
            }
            Some(NetWhat::Delay(d)) => delay = *d,
            _ => {}
        }
        let (status, j) = self.serve(service, target, auth, body);
        let applied = status == 200 && (service == "update" || service == "copy");
        let mut note = String::new();
        if status != 200 {
            note = j["error"]["message"].as_str().unwrap_or_default().to_string();
        }
        self.note(w, service, status, applied, &note);
        match f {
            Some(NetWhat::LoseAnswer { reset }) => {
                self.conns[i].dead = true;
                let l = self.lat();
                self.put(w.now + l, if reset { E::Reset(i) } else { E::Eof(i) });
            }
            Some(NetWhat::Status { code, body, applied: true }) => {
                let (b, html) = error_body(code, body);
                self.reply(w, i, code, b, html, 0, None);
            }
            Some(NetWhat::Garbage(k)) => {
                let b: &[u8] = match k % 5 {
                    0 => b"",
                    1 => b"<html>captive portal</html>",
                    2 => b"{\"unexpected\": [",
                    3 => b"[1, 2, 3]",
                    _ => b"\xff\xfe\x00garbage",
                };
                self.reply(w, i, 200, b.to_vec(), k % 5 == 1, 0, None);
            }
            Some(NetWhat::Truncate { bytes, reset }) => {
                self.reply(w, i, status, j.to_string().into_bytes(), false, 0, Some((bytes as usize, reset)));
            }
            _ => self.reply(w, i, status, serde_json::to_vec_pretty(&j).unwrap_or_default(), false, delay, None),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn reply(&mut self, w: &World, i: usize, status: u16, body: Vec<u8>, html: bool, delay: i64, cut: Option<(usize, bool)>) {
        let reason = match status {
            200 => "OK",
            400 => "Bad Request",
            401 => "Unauthorized",
            403 => "Forbidden",
            404 => "Not Found",
            429 => "Too Many Requests",
            500 => "Internal Server Error",
            503 => "Service Unavailable",
            _ => "Other",
        };
        let mut style = self.plan.style;
        if cut.is_some() && style == 2 {
            style = 0;
        }
        let mut b = format!(
            "HTTP/1.1 {status} {reason}\r\nContent-Type: {}\r\nDate: Tue, 14 Nov 2023 22:13:20 GMT\r\n",
            if html { "text/html" } else { "application/json; charset=UTF-8" }
        )
        .into_bytes();
        match style {
            1 => {
                b.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
                for c in body.chunks(4000) {
                    b.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                    b.extend_from_slice(c);
                    b.extend_from_slice(b"\r\n");
                }
                b.extend_from_slice(b"0\r\n\r\n");
            }
            2 => {
                b.extend_from_slice(b"Connection: close\r\n\r\n");
                b.extend_from_slice(&body);
            }
            _ => {
                b.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
                b.extend_from_slice(&body);
            }
        }
        let mut end = if style == 2 { Some(false) } else { None };
        if let Some((n, reset)) = cut {
            // at least one byte of the answer is missing
            b.truncate(n.min(b.len() - 1));
            end = Some(reset);
        }
        if end == Some(false) && cut.is_none() && !self.conns[i].plain {
            // an orderly end
            self.with_rng(|s| {
                if let Some(t) = &mut s.conns[i].tls {
                    let _ = t.writer().write_all(&b);
                    t.send_close_notify();
                }
            });
            b.clear();
        }
        self.send(w, i, &b, delay, end);
    }

    // -------------------------------------------------------------- the services
    fn serve(&mut self, service: &str, target: &str, auth: &str, body: &[u8]) -> (u16, Value) {
        match service {
            "token" => {
                let b = String::from_utf8_lossy(body);
                if !b.contains("grant_type=") || !(b.contains("assertion=") || b.contains("refresh_token=")) {
                    return (400, json!({"error": "invalid_grant", "error_description": "no grant"}));
                }
                let t = format!("tok-{}", self.tokens.len());
                self.tokens.push(t.clone());
                let mut j = json!({"access_token": t, "token_type": "Bearer"});
                if self.plan.expires > 0 {
                    j["expires_in"] = json!(self.plan.expires);
                }
                return (200, j);
            }
            "other" => return (404, err(404, "no such method")),
            _ => {}
        }
        let ok = auth.strip_prefix("Bearer ").is_some_and(|t| self.tokens.iter().any(|x| x == t));
        if !ok {
            return (401, err(401, "Request had invalid authentication credentials."));
        }
        let Some(sheet) = &self.remote.sheet else {
            return (404, err(404, "Requested entity was not found."));
        };
        match service {
            "get" => {
                let grid = target.contains("includeGridData=true");
                let mut s = json!({"properties": {"sheetId": self.plan.tab, "title": "Sheet1", "index": 0,
                    "gridProperties": {"rowCount": 1000, "columnCount": 26}}});
                if grid {
                    let rows: Vec<Value> = sheet.iter().map(|r| shown_row(r)).collect();
                    s["data"] = json!([{ "rowMetadata": [{"pixelSize": 21}], "columnMetadata": [{"pixelSize": 100}] }]);
                    if !rows.is_empty() {
                        s["data"][0]["rowData"] = Value::Array(rows);
                    }
                }
                let mut sheets = vec![s];
                for k in 0..self.plan.more {
                    let mut o = json!({"properties": {"sheetId": self.plan.other(k), "title": format!("Other{k}"), "index": 1 + k}});
                    if grid {
                        o["data"] = json!([{"rowData": [{"values": [{"userEnteredValue": {"stringValue": "other"}}]}]}]);
                    }
                    sheets.push(o);
                }
                (200, json!({"spreadsheetId": "1AbCsheet9", "properties": {"title": "t", "locale": "en_US"}, "sheets": sheets,
                    "spreadsheetUrl": "https://docs.google.com/spreadsheets/d/1AbCsheet9/edit"}))
            }
            "update" => match apply_batch(&self.plan, sheet, body) {
                Ok((s, strays)) => {
                    self.remote.strays += strays;
                    self.remote.sheet = Some(s);
                    self.remote.updates += 1;
                    (200, json!({"spreadsheetId": "1AbCsheet9", "replies": [{}]}))
                }
                Err(m) => (400, err(400, &m)),
            },
            "copy" => {
                let c = (sheet.clone(), self.remote.updates);
                self.remote.copies.push(c);
                (200, json!({"kind": "drive#file", "id": format!("copy-{}", self.remote.copies.len()), "name": "Copy of t", "mimeType": "application/vnd.google-apps.spreadsheet"}))
            }
            _ => (404, err(404, "no such method")),
        }
    }

    /// everything is over: what is still on its way arrives
    pub fn drain(&mut self, w: &mut World) {
        self.scan(w);
        while let Some((k, e)) = self.events.pop_first() {
            w.now = w.now.max(k.0);
            if let E::ToServer(i, b) = e {
                self.input(w, i, &b);
            }
            if self.eseq > 2_000_000 {
                break;
            }
        }
    }
}

impl NetHost for SimNet {
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
    fn start(&mut self, w: &mut World) {
        self.run += 1;
        if let Some(s) = &mut self.remote.sheet {
            for e in self.plan.edits.iter().filter(|e| e.run == self.run) {
                while s.len() <= e.row {
                    s.push(vec![]);
                }
                while s[e.row].len() <= e.col {
                    s[e.row].push(json!({}));
                }
                s[e.row][e.col] = e.cell.clone();
            }
        }
        self.before = self.remote.clone();
        self.conns.clear();
        self.events.clear();
        self.counts.clear();
        self.log.clear();
        self.fired.clear();
        self.tokens.clear();
        self.rng = Rng::new(self.plan.seed ^ (self.run as u64) << 32);
        self.tls_rng = Rng::new(self.plan.seed ^ 0x7157 ^ (self.run as u64) << 32);
        w.net.hosts_n = HOSTS.len() as u32;
        for (i, h) in HOSTS.iter().enumerate() {
            w.net.hosts[i] = [0; 64];
            w.net.hosts[i][..h.len()].copy_from_slice(h.as_bytes());
        }
        w.net.dns_ns = self.plan.lat;
        for n in 0..16 {
            let run = self.run;
            for f in &self.plan.faults {
                if let (true, "dns", NetWhat::Dns(e)) = ((f.run < 0 || f.run == run) && f.nth == n, f.at.as_str(), &f.what) {
                    w.net.dns[n as usize] = *e;
                }
            }
        }
    }
    fn turn(&mut self, w: &mut World) {
        loop {
            let mut any = self.scan(w);
            while let Some((k, _)) = self.events.first_key_value() {
                if k.0 > w.now {
                    break;
                }
                if let Some((_, e)) = self.events.pop_first() {
                    self.handle(w, e);
                    any = true;
                }
            }
            self.pump(w);
            if !any {
                break;
            }
        }
        w.net.next_event = self.events.first_key_value().map_or(NEVER, |(k, _)| k.0);
    }
    fn over(&mut self, w: &mut World) {
        let n = w.net.lookups.min(16);
        for i in 0..n as usize {
            if w.net.dns[i] != 0 {
                *self.fired.entry("net: look-up fails".into()).or_insert(0) += 1;
            }
        }
        self.drain(w);
    }
}

fn route(host: &str, method: &str, target: &str) -> &'static str {
    let path = target.split('?').next().unwrap_or_default();
    match (host, method) {
        ("oauth2.googleapis.com", "POST") if path == "/token" => "token",
        ("accounts.google.com", "POST") if path.ends_with("/token") => "token",
        ("sheets.googleapis.com", "GET") if path.starts_with("/v4/spreadsheets/") => "get",
        ("sheets.googleapis.com", "POST") if path.starts_with("/v4/spreadsheets/") && path.ends_with(":batchUpdate") => "update",
        ("www.googleapis.com", "POST") if path.starts_with("/drive/v3/files/") && path.ends_with("/copy") => "copy",
        _ => "other",
    }
}

fn unchunk(mut b: &[u8]) -> Option<(Vec<u8>, usize)> {
    let all = b.len();
    let mut out = vec![];
    loop {
        let l = b.windows(2).position(|x| x == b"\r\n")?;
        let n = usize::from_str_radix(std::str::from_utf8(&b[..l]).ok()?.trim(), 16).ok()?;
        b = &b[l + 2..];
        if b.len() < n + 2 {
            return None;
        }
        out.extend_from_slice(&b[..n]);
        b = &b[n + 2..];
        if n == 0 {
            return Some((out, all - b.len()));
        }
    }
}

fn err(code: u16, m: &str) -> Value {
    json!({"error": {"code": code, "message": m, "status": "ERROR", "details": []}})
}
fn error_body(code: u16, kind: u32) -> (Vec<u8>, bool) {
    match kind {
        0 => (err(code, "injected").to_string().into_bytes(), false),
        1 => (format!("<html><title>Error {code}</title></html>").into_bytes(), true),
        _ => (vec![], false),
    }
}

pub const FIELDS: [&str; 6] = ["userEnteredValue", "userEnteredFormat", "note", "dataValidation", "textFormatRuns", "pivotTable"];

/// in the state of the service: a value that nobody entered in this cell
pub const SPILLED: &str = "spilled";

/// a cell as `spreadsheets.get` shows it
fn shown(c: &Value) -> Value {
    let mut o = c.clone();
    // what an array formula elsewhere shows here
    if let Some(v) = o.as_object_mut().and_then(|o| o.remove(SPILLED)) {
        o["formattedValue"] = json!(if v.get("stringValue").is_some() { "" } else { "spilled" });
        o["effectiveValue"] = v;
    }
    if let Some(v) = c.get("userEnteredValue") {
        let (eff, text) = if let Some(f) = v.get("formulaValue") {
            (json!({"numberValue": 42.0}), format!("42 {}", f.as_str().unwrap_or_default().len()))
        } else if let Some(s) = v.get("stringValue") {
            (v.clone(), s.as_str().unwrap_or_default().to_string())
        } else {
            (v.clone(), "shown".to_string())
        };
        o["effectiveValue"] = eff;
        o["formattedValue"] = json!(text);
        o["effectiveFormat"] = json!({"horizontalAlignment": "LEFT", "verticalAlignment": "BOTTOM", "wrapStrategy": "OVERFLOW_CELL"});
    }
    o
}
fn shown_row(r: &[Value]) -> Value {
    if r.is_empty() {
        return json!({});
    }
    json!({"values": r.iter().map(shown).collect::<Vec<_>>()})
}

fn one_of(v: &Value, at: &str, ok: &[&str]) -> Result<(), String> {
    match v.get(at) {
        None => Ok(()),
        Some(Value::String(s)) if ok.contains(&s.as_str()) => Ok(()),
        Some(x) => Err(format!("Invalid value at '{at}': {x}")),
    }
}

/// what the service checks in the data of a cell
fn check_cell(c: &Value) -> Result<(), String> {
    let Some(o) = c.as_object() else { return Err("a cell is not an object".into()) };
    for k in o.keys() {
        if !FIELDS.contains(&k.as_str())
            && !["effectiveValue", "formattedValue", "effectiveFormat", "hyperlink", "dataSourceTable", "dataSourceFormula"].contains(&k.as_str())
        {
            return Err(format!("Unknown name \"{k}\""));
        }
    }
    if let Some(v) = c.get("userEnteredValue") {
        let Some(m) = v.as_object() else { return Err("Invalid userEnteredValue".into()) };
        if m.len() > 1 {
            return Err("userEnteredValue: more than one value".into());
        }
        if let Some(f) = v.get("formulaValue") {
            if !f.as_str().is_some_and(|s| s.starts_with('=')) {
                return Err("Invalid formulaValue".into());
            }
        }
        if v.get("numberValue").is_some_and(|n| !n.is_number()) {
            return Err("Invalid numberValue".into());
        }
    }
    if let Some(f) = c.get("userEnteredFormat") {
        one_of(f, "horizontalAlignment", &["LEFT", "CENTER", "RIGHT"])?;
        one_of(f, "verticalAlignment", &["TOP", "MIDDLE", "BOTTOM"])?;
        one_of(f, "wrapStrategy", &["OVERFLOW_CELL", "LEGACY_WRAP", "CLIP", "WRAP"])?;
        if let Some(n) = f.get("numberFormat") {
            one_of(n, "type", &["TEXT", "NUMBER", "PERCENT", "CURRENCY", "DATE", "TIME", "DATE_TIME", "SCIENTIFIC"])?;
        }
        if let Some(Value::Object(b)) = f.get("borders") {
            for x in b.values() {
                one_of(x, "style", &["DOTTED", "DASHED", "SOLID", "SOLID_MEDIUM", "SOLID_THICK", "NONE", "DOUBLE"])?;
            }
        }
    }
    if let Some(d) = c.get("dataValidation") {
        let cond = &d["condition"];
        let t = cond["type"].as_str().unwrap_or_default();
        let vals = cond["values"].as_array().cloned().unwrap_or_default();
        let (lo, hi) = match t {
            "NUMBER_GREATER" | "NUMBER_GREATER_THAN_EQ" | "NUMBER_LESS" | "NUMBER_LESS_THAN_EQ" | "NUMBER_EQ" | "NUMBER_NOT_EQ"
            | "TEXT_CONTAINS" | "TEXT_NOT_CONTAINS" | "TEXT_EQ" | "DATE_EQ" | "DATE_BEFORE" | "DATE_AFTER" | "DATE_ON_OR_BEFORE"
            | "DATE_ON_OR_AFTER" | "ONE_OF_RANGE" | "CUSTOM_FORMULA" => (1, 1),
            "NUMBER_BETWEEN" | "NUMBER_NOT_BETWEEN" | "DATE_BETWEEN" | "DATE_NOT_BETWEEN" => (2, 2),
            "TEXT_IS_EMAIL" | "TEXT_IS_URL" | "DATE_IS_VALID" => (0, 0),
            "ONE_OF_LIST" => (1, 500),
            "BOOLEAN" => (0, 2),
            _ => return Err(format!("Invalid value at 'condition.type': \"{t}\"")),
        };
        if vals.len() < lo || vals.len() > hi {
            return Err(format!("{t} takes {lo} to {hi} values"));
        }
        for v in &vals {
            one_of(v, "relativeDate", &["PAST_YEAR", "PAST_MONTH", "PAST_WEEK", "YESTERDAY", "TODAY", "TOMORROW"])?;
            if v.get("userEnteredValue").is_some_and(|u| !u.is_string()) {
                return Err("Invalid condition value".into());
            }
        }
        let first = vals.first().and_then(|v| v["userEnteredValue"].as_str()).unwrap_or_default();
        if t == "CUSTOM_FORMULA" && !first.starts_with('=') && !first.starts_with('+') {
            return Err("CUSTOM_FORMULA takes a formula".into());
        }
    }
    Ok(())
}

/// All requests of a batch, or none.
fn apply_batch(plan: &NetPlan, sheet: &[Vec<Value>], body: &[u8]) -> Result<(Vec<Vec<Value>>, u32), String> {
    let j: Value = serde_json::from_slice(body).map_err(|e| format!("Invalid JSON payload: {e}"))?;
    let mut s = sheet.to_vec();
    let mut strays = 0;
    let reqs = j["requests"].as_array().cloned().unwrap_or_default();
    if reqs.is_empty() {
        return Err("Must specify at least one request.".into());
    }
    for q in &reqs {
        let Some(u) = q.get("updateCells") else { return Err(format!("unsupported request {q}")) };
        let fields = u["fields"].as_str().unwrap_or_default();
        if fields.is_empty() {
            return Err("At least one field must be listed in 'fields'.".into());
        }
        let names: Vec<&str> = if fields == "*" {
            FIELDS.to_vec()
        } else {
            fields.split(',').map(|f| f.split('.').next().unwrap_or_default()).collect()
        };
        let id = u["start"]["sheetId"].as_i64().unwrap_or(0);
        let stray = id != plan.tab;
        if stray && !(0..plan.more).any(|k| plan.other(k) == id) {
            return Err(format!("Invalid requests: No grid with id: {id}"));
        }
        strays += u32::from(stray);
        let r0 = u["start"]["rowIndex"].as_i64().unwrap_or(0);
        let c0 = u["start"]["columnIndex"].as_i64().unwrap_or(0);
        if r0 < 0 || c0 < 0 {
            return Err("Invalid start".into());
        }
        for (i, row) in u["rows"].as_array().into_iter().flatten().enumerate() {
            for (k, cell) in row["values"].as_array().into_iter().flatten().enumerate() {
                check_cell(cell)?;
                if stray {
                    continue;
                }
                let (y, x) = (r0 as usize + i, c0 as usize + k);
                while s.len() <= y {
                    s.push(vec![]);
                }
                while s[y].len() <= x {
                    s[y].push(json!({}));
                }
                for n in &names {
                    match cell.get(*n) {
                        Some(v) => s[y][x][*n] = v.clone(),
                        None => {
                            if let Some(o) = s[y][x].as_object_mut() {
                                o.remove(*n);
                            }
                        }
                    }
                }
            }
        }
    }
    Ok((s, strays))
}
