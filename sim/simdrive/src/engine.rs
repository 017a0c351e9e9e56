//! One simulated world and the fork server that runs the real binary inside it.
use crate::fs::{Fs, Node};
use serde::{Deserialize, Serialize};
use simworld::*;
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::fd::FromRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

pub const WATCHDOG_S: u64 = 25;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ProcSpec {
    pub args: Vec<String>,
    pub cwd: String,
    pub cpus: u32,
    pub hash_seed: u64,
    pub pid: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FaultSpec {
    pub kind: String,
    pub proc: i32,
    #[serde(default, skip_serializing_if = "is0")]
    pub at_op: u32,
    #[serde(default, skip_serializing_if = "is0")]
    pub classes: u32,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub suffix: String,
    #[serde(default, skip_serializing_if = "is0")]
    pub skip: u32,
    #[serde(default, skip_serializing_if = "is0")]
    pub count: u32,
    #[serde(default, skip_serializing_if = "is0i")]
    pub arg: i64,
    #[serde(default, skip_serializing_if = "is_false")]
    pub all: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ext: Option<ExtSpec>,
}
fn is0(x: &u32) -> bool {
    *x == 0
}
fn is0i(x: &i64) -> bool {
    *x == 0
}
fn is_false(x: &bool) -> bool {
    !*x
}
impl FaultSpec {
    pub fn at(kind: u32, proc: i32, at_op: u32, arg: i64) -> FaultSpec {
        FaultSpec {
            kind: fk::name(kind).into(),
            proc,
            at_op,
            classes: 0,
            suffix: String::new(),
            skip: 0,
            count: 1,
            arg,
            all: false,
            ext: None,
        }
    }
    pub fn on(kind: u32, proc: i32, classes: u32, suffix: &str, skip: u32, count: u32, arg: i64) -> FaultSpec {
        FaultSpec {
            kind: fk::name(kind).into(),
            proc,
            at_op: 0,
            classes,
            suffix: suffix.into(),
            skip,
            count,
            arg,
            all: false,
            ext: None,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ExtSpec {
    Remove(String),
    Replace(String, #[serde(with = "crate::fs::bytes")] Vec<u8>),
    ReplaceAtomic(String, #[serde(with = "crate::fs::bytes")] Vec<u8>),
    Mkdir(String),
    Chmod(String, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SchedSpec {
    /// run every task until it blocks, in order
    Default,
    Random { seed: u64, op_switch: u32, edge_mean: u64 },
    Pct { seed: u64, at: Vec<u64> },
    /// preempt at randomly chosen places of the program (`density` in 10000), up to `times` at each
    Sites { seed: u64, op_switch: u32, density: u32, times: u8 },
    Replay { decs: Vec<(u64, u32)> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub procs: Vec<ProcSpec>,
    pub sched: SchedSpec,
    #[serde(default)]
    pub wake_seed: u64,
    #[serde(default)]
    pub spurious: u32,
    #[serde(default)]
    pub faults: Vec<FaultSpec>,
    #[serde(default)]
    pub io_seed: u64,
    #[serde(default)]
    pub short_permille: u32,
    #[serde(default)]
    pub eintr_permille: u32,
    #[serde(default)]
    pub copy_range_mode: u32,
    #[serde(default)]
    pub readdir_shuffle: u32,
    pub disk_free: i64,
    pub inode_free: i64,
    pub op_cost: i64,
    pub clock_cost: i64,
    pub mtime_gran: i64,
    pub budget: u64,
    /// lose power when the run ends: what of the unsynced data survives is drawn from this seed
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub power_loss: Option<u64>,
}
impl Plan {
    pub fn simple(procs: Vec<ProcSpec>) -> Plan {
        Plan {
            procs,
            sched: SchedSpec::Default,
            wake_seed: 1,
            spurious: 0,
            faults: vec![],
            io_seed: 1,
            short_permille: 0,
            eintr_permille: 0,
            copy_range_mode: 0,
            readdir_shuffle: 0,
            disk_free: -1,
            inode_free: -1,
            op_cost: 20_000,
            clock_cost: 1_000,
            mtime_gran: 1,
            budget: 250_000_000,
            power_loss: None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct ProcRes {
    pub state: u32,
    pub code: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: u32,
}
impl ProcRes {
    pub fn ok(&self) -> bool {
        self.state == ps::EXITED && self.code == 0
    }
    pub fn clean_fail(&self) -> bool {
        self.state == ps::EXITED && (self.code == 1 || self.code == 2)
    }
    pub fn killed(&self) -> bool {
        self.state == ps::KILLED
    }
    pub fn panicked(&self) -> bool {
        !self.killed() && !(self.ok() || self.clean_fail())
            || find(&self.err, b"panicked at")
    }
    pub fn describe(&self) -> String {
        match self.state {
            ps::EXITED => format!("exit {}", self.code),
            ps::KILLED => "killed".into(),
            ps::ABORTED => format!("aborted ({})", self.code),
            ps::SIGNALED => format!("signal {}", self.code),
            ps::LIVE => "still running".into(),
            s => format!("state {s}"),
        }
    }
}
pub fn find(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

#[derive(Clone, Debug)]
pub struct EvR {
    pub class: u8,
    pub proc: u8,
    pub task: u8,
    pub op: u32,
    pub fault: u8,
    pub path: String,
    pub path2: String,
    pub arg: i64,
    pub res: i64,
    pub hash: u64,
    pub len: u64,
    pub mutated: bool,
}

#[derive(Clone, Debug)]
pub struct RunResult {
    pub outcome: u32,
    pub warn: (u32, i64),
    pub procs: Vec<ProcRes>,
    pub fs: Fs,
    pub evs: Vec<EvR>,
    pub ev_lost: u32,
    pub decs: Vec<(u64, u32)>,
    pub dec_over: bool,
    pub points: u64,
    pub switches: u64,
    pub max_runnable: u32,
    pub sched_hash: u64,
    pub hist_hash: u64,
    pub fired: Vec<u32>,
    pub short_fired: u64,
    pub eintr_fired: u64,
    pub elapsed: i64,
    pub wall_end: i64,
    pub tasks: u32,
    pub power_lost: bool,
}

pub struct Engine {
    pub w: *mut World,
    child: Child,
    memfd: i32,
    pub cov: Vec<u8>,
    pub cov_n: u64,
    pub dead: bool,
    pub runs: u64,
    sut: String,
    simlib: String,
    pub net: Option<Box<dyn NetHost>>,
    last_exts: usize,
}
unsafe impl Send for Engine {}

/// The far side of the simulated network.
pub trait NetHost: Send {
    fn start(&mut self, w: &mut World);
    fn as_any(&mut self) -> &mut dyn std::any::Any;
    /// called whenever no task can run before `deadline`: act on what clients sent, deliver what
    /// is due, and set `net.next_event`
    fn turn(&mut self, w: &mut World);
    /// the processes are gone
    fn over(&mut self, w: &mut World);
}

fn sys_futex(a: *const std::sync::atomic::AtomicU32, op: i32, v: u32, ms: i64) {
    let t = libc::timespec { tv_sec: ms / 1000, tv_nsec: (ms % 1000) * 1_000_000 };
    unsafe {
        libc::syscall(libc::SYS_futex, a, op, v, &t as *const _, 0usize, 0u32);
    }
}
pub fn fwake(a: *const std::sync::atomic::AtomicU32) {
    sys_futex(a, 1, i32::MAX as u32, 0);
}

impl Engine {
    pub fn new(sut: &str, simlib: &str) -> Engine {
        unsafe {
            let name = CString::new("world").unwrap();
            let fd = libc::memfd_create(name.as_ptr(), 0);
            assert!(fd >= 0, "memfd_create");
            assert!(libc::ftruncate(fd, world_size() as i64) == 0, "ftruncate");
            let p = libc::mmap(
                std::ptr::null_mut(),
                world_size(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            let w = p as *mut World;
            (*w).magic = MAGIC;
            let child = Self::spawn(sut, simlib, fd);
            let mut e = Engine {
                w,
                child,
                memfd: fd,
                cov: vec![0; COV],
                cov_n: 0,
                dead: false,
                runs: 0,
                sut: sut.into(),
                simlib: simlib.into(),
                net: None,
                last_exts: 0,
            };
            e.await_ready();
            e
        }
    }

    fn spawn(sut: &str, simlib: &str, fd: i32) -> Child {
        let mut c = Command::new(sut);
        c.env_clear()
            .env("LD_PRELOAD", simlib)
            .env("SIM_FD", fd.to_string())
            .env("TZ", "UTC")
            .env("HOME", "/home/u")
            .env("PATH", "/bin")
            .env("SSL_CERT_FILE", "/etc/ssl/ca.pem")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        unsafe {
            c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::personality(0x004_0000);
                Ok(())
            });
        }
        c.spawn().expect("cannot start the system under test")
    }

    fn await_ready(&mut self) {
        let w = unsafe { &*self.w };
        let t = Instant::now();
        while w.ready.load(SeqCst) == 0 {
            sys_futex(&w.ready, 0, 0, 200);
            if t.elapsed() > Duration::from_secs(30) {
                eprintln!("harness: the system under test did not come up under the simulator");
                std::process::exit(3);
            }
            if let Ok(Some(st)) = self.child.try_wait() {
                eprintln!("harness: the system under test ended at start-up: {st}");
                std::process::exit(3);
            }
        }
    }

    fn restart(&mut self) {
        let w = unsafe { &mut *self.w };
        let _ = self.child.kill();
        let _ = self.child.wait();
        w.ready.store(0, SeqCst);
        w.cmd.store(0, SeqCst);
        w.done.store(0, SeqCst);
        self.child = Self::spawn(&self.sut, &self.simlib, self.memfd);
        self.await_ready();
    }

    pub fn guards(&self) -> u64 {
        unsafe { (*self.w).guards.load(SeqCst) }
    }

    /// Run the processes of `plan` over `fs` with the wall clock starting at `wall`.
    pub fn run(&mut self, fs: &Fs, plan: &Plan, wall: i64) -> RunResult {
        let w = unsafe { &mut *self.w };
        self.runs += 1;
        reset(w, self.last_exts);
        w.now = 1_000_000_000_000;
        w.real_off = wall - w.now;
        w.mtime_gran = plan.mtime_gran;
        w.op_cost = plan.op_cost;
        w.clock_cost = plan.clock_cost;
        let inos = import(w, fs);
        w.disk_free = plan.disk_free;
        w.inode_free = plan.inode_free;
        w.io_rng = Rng::new(plan.io_seed);
        w.short_permille = plan.short_permille;
        w.eintr_permille = plan.eintr_permille;
        w.copy_range_mode = plan.copy_range_mode;
        w.readdir_shuffle = plan.readdir_shuffle;
        // faults
        let mut next = 0usize;
        for f in plan.faults.iter().take(MAX_FAULTS) {
            let mut arg = f.arg;
            if let Some(x) = &f.ext {
                arg = next as i64;
                set_ext(w, next, x);
                next += 1;
            }
            let k = w.faults_n as usize;
            let mut sfx = [0u8; 48];
            let sl = f.suffix.len().min(48);
            sfx[..sl].copy_from_slice(&f.suffix.as_bytes()[..sl]);
            w.faults[k] = Fault {
                kind: fk::from_name(&f.kind),
                proc: f.proc,
                at_op: f.at_op,
                class_mask: f.classes | if f.all { 1 << 31 } else { 0 },
                suffix: sfx,
                suffix_len: sl as u32,
                skip: f.skip,
                count: f.count.max(1),
                arg,
                seen: 0,
                fired: 0,
            };
            w.faults_n += 1;
        }
        w.exts_n = next as u32;
        self.last_exts = next;
        // processes
        w.nprocs = plan.procs.len() as u32;
        for (i, p) in plan.procs.iter().enumerate() {
            let q = &mut w.procs[i];
            q.state = ps::LIVE;
            q.exit_code = 0;
            q.pid = p.pid;
            q.cpus = p.cpus.max(1);
            q.ops = 0;
            q.ntasks = 1;
            q.umask = 0o022;
            q.rng = Rng::new(p.hash_seed);
            let mut blob = b"csvpp\0".to_vec();
            for a in &p.args {
                blob.extend_from_slice(a.as_bytes());
                blob.push(0);
            }
            assert!(blob.len() <= ARG_CAP);
            q.argc = 1 + p.args.len() as u32;
            q.args_len = blob.len() as u32;
            q.args[..blob.len()].copy_from_slice(&blob);
            q.cwd[..p.cwd.len()].copy_from_slice(p.cwd.as_bytes());
            q.cwd_len = p.cwd.len() as u32;
            q.out_len = 0;
            q.err_len = 0;
            q.out_lost = 0;
            for f in q.fds.iter_mut() {
                f.kind = fdk::FREE;
            }
            q.fds[0].kind = fdk::STDIN;
            q.fds[1].kind = fdk::STDOUT;
            q.fds[2].kind = fdk::STDERR;
            let t = &mut w.tasks[i];
            t.state = ts::RUNNABLE;
            t.proc = i as u32;
            t.prio = 0x5000_0000;
        }
        // schedule
        let s = &mut w.sched;
        s.budget = plan.budget * plan.procs.len().max(1) as u64;
        s.spurious = plan.spurious;
        s.wake_rng = Rng::new(plan.wake_seed);
        s.rng = Rng::new(7);
        match &plan.sched {
            SchedSpec::Default => {
                s.mode = sm::REPLAY;
                s.replay_n = 0;
            }
            SchedSpec::Random { seed, op_switch, edge_mean } => {
                s.mode = sm::RANDOM;
                s.rng = Rng::new(*seed);
                s.op_switch = *op_switch;
                s.edge_mean = *edge_mean;
                s.next_preempt = 1 + s.rng.below(2 * (*edge_mean).max(1));
            }
            SchedSpec::Sites { seed, op_switch, density, times } => {
                s.mode = sm::RANDOM;
                s.rng = Rng::new(*seed);
                s.op_switch = *op_switch;
                s.site_on = 1;
                let n = (w.guards.load(SeqCst) as usize + 1).min(COV);
                let mut r = Rng::new(seed ^ 0x5173);
                for x in w.site[..n].iter_mut() {
                    *x = if r.below(10_000) < u64::from(*density) { *times } else { 0 };
                }
            }
            SchedSpec::Pct { seed, at } => {
                s.mode = sm::PCT;
                s.rng = Rng::new(*seed);
                s.low_prio = 0x3fff_ffff;
                let mut a = at.clone();
                a.sort_unstable();
                a.truncate(32);
                s.pct_n = a.len() as u32;
                for (i, x) in a.iter().enumerate() {
                    s.pct_at[i] = *x;
                }
                for i in 0..plan.procs.len() {
                    w.tasks[i].prio = (s.rng.next() >> 33) as u32 | 0x4000_0000;
                }
            }
            SchedSpec::Replay { decs } => {
                s.mode = sm::REPLAY;
                let n = decs.len().min(MAX_DEC);
                for (i, d) in decs.iter().take(n).enumerate() {
                    s.replay[i] = Dec { point: d.0, task: d.1, pad: 0 };
                }
                s.replay_n = n as u32;
            }
        }
        if let Some(n) = &mut self.net {
            w.net.enabled = 1;
            w.net.next_event = NEVER;
            n.start(w);
        }

        // go
        w.drv_back.store(w.drv.load(SeqCst), SeqCst);
        let before = w.done.load(SeqCst);
        w.cmd.fetch_add(1, SeqCst);
        fwake(&w.cmd);
        let t0 = Instant::now();
        let mut killed = false;
        loop {
            if w.done.load(SeqCst) != before {
                break;
            }
            if w.net.enabled != 0 {
                // serve network turns
                let back = w.drv_back.load(SeqCst);
                let d = w.drv.load(SeqCst);
                if d != back {
                    if let Some(n) = &mut self.net {
                        n.turn(w);
                    }
                    w.drv_back.store(d, SeqCst);
                    fwake(&w.drv_back);
                    continue;
                }
                std::hint::spin_loop();
                sys_futex(&w.drv, 0, d, 20);
            } else {
                sys_futex(&w.done, 0, before, 500);
            }
            let el = t0.elapsed();
            if el > Duration::from_secs(WATCHDOG_S) && !killed {
                killed = true;
                w.outcome.store(oc::STALL, SeqCst);
                for p in 0..w.nprocs as usize {
                    let pid = w.procs[p].real_pid.load(SeqCst);
                    if pid > 0 {
                        unsafe { libc::kill(pid as i32, 9) };
                    }
                }
            }
            if el > Duration::from_secs(WATCHDOG_S + 15) {
                self.restart();
                w.outcome.store(oc::STALL, SeqCst);
                break;
            }
            if el > Duration::from_millis(400) {
                if let Ok(Some(st)) = self.child.try_wait() {
                    eprintln!("harness: fork server died: {st}");
                    self.restart();
                    w.outcome.store(oc::HARNESS, SeqCst);
                    w.warn = 90;
                    break;
                }
            }
        }
        self.merge_cov();
        let w = unsafe { &mut *self.w };
        if let Some(n) = &mut self.net {
            let now = w.now;
            n.over(w);
            w.now = now;
        }
        collect(w, plan, &inos)
    }

    fn merge_cov(&mut self) {
        let w = unsafe { &mut *self.w };
        let n = COV / 8;
        let a = w.cov.as_mut_ptr() as *mut u64;
        for i in 0..n {
            unsafe {
                if *a.add(i) != 0 {
                    for j in i * 8..i * 8 + 8 {
                        if w.cov[j] != 0 && self.cov[j] == 0 {
                            self.cov[j] = 1;
                            self.cov_n += 1;
                        }
                    }
                    *a.add(i) = 0;
                }
            }
        }
    }
}

impl Drop for Engine {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        unsafe {
            libc::munmap(self.w.cast(), world_size());
            drop(std::fs::File::from_raw_fd(self.memfd));
        }
    }
}

fn reset(w: &mut World, _last: usize) {
    w.outcome.store(0, SeqCst);
    w.outcome_task = 0;
    w.zygote_err = 0;
    w.warn = 0;
    w.warn_arg = 0;
    let s = &mut w.sched;
    s.op_switch = 0;
    s.edge_mean = 0;
    s.site_on = 0;
    s.pct_n = 0;
    s.pct_i = 0;
    s.points = 0;
    s.next_slow = 0;
    s.next_preempt = 0;
    s.replay_n = 0;
    s.replay_i = 0;
    s.dec_n = 0;
    s.dec_over = 0;
    s.wait_seq = 0;
    s.current = 0;
    s.low_prio = 0;
    s.switches = 0;
    s.sched_hash = 0;
    s.max_runnable = 1;
    for t in w.tasks.iter_mut() {
        t.state = ts::UNUSED;
        t.go.store(0, SeqCst);
        t.timed_out = 0;
        t.fut_addr = 0;
        t.deadline = NEVER;
        t.wait_seq = 0;
        t.join_on = 0;
        t.prio = 0;
        t.proc = 0;
    }
    for p in w.procs.iter_mut() {
        p.state = ps::UNUSED;
        p.real_pid.store(0, SeqCst);
    }
    w.paths_n = 0;
    w.inodes_n = 0;
    w.path_tab.fill(0);
    w.meta_n = 0;
    w.meta_group = 0;
    w.meta_synced = 0;
    w.arena_top = 16;
    w.faults_n = 0;
    w.exts_n = 0;
    w.short_fired = 0;
    w.eintr_fired = 0;
    w.ev_n = 0;
    w.ev_lost = 0;
    w.ev_seq = 0;
    w.net.enabled = 0;
    if w.net.nsocks > 0 {
        let n = (w.net.nsocks as usize).min(MAX_SOCKS);
        for k in w.net.socks[..n].iter_mut() {
            k.state = 0;
            k.tx_len = 0;
            k.tx_taken = 0;
            k.tx_shut = 0;
            k.rx_len = 0;
            k.rx_read = 0;
            k.rx_eof = 0;
            k.reset = 0;
            k.conn_result = 0;
            k.so_error = 0;
            k.gen = 0;
            k.wblocked = 0;
        }
    }
    w.net.nsocks = 0;
    w.net.bytes = 0;
    w.net.eps_n = 0;
    w.net.evs_n = 0;
    w.net.hosts_n = 0;
    w.net.lookups = 0;
    w.net.dns.fill(0);
    w.net.dns_ns = 0;
    w.active = 0;
}

fn set_ext(w: &mut World, i: usize, x: &ExtSpec) {
    let (kind, path, data, arg): (u32, &str, &[u8], u32) = match x {
        ExtSpec::Remove(p) => (xk::REMOVE, p, b"", 0),
        ExtSpec::Replace(p, d) => (xk::REPLACE, p, d, 0),
        ExtSpec::ReplaceAtomic(p, d) => (xk::REPLACE_ATOMIC, p, d, 0),
        ExtSpec::Mkdir(p) => (xk::MKDIR, p, b"", 0),
        ExtSpec::Chmod(p, m) => (xk::CHMOD, p, b"", *m),
    };
    let off = w.arena_put(data).expect("arena");
    let e = &mut w.exts[i];
    e.kind = kind;
    e.arg = arg;
    e.path[..path.len()].copy_from_slice(path.as_bytes());
    e.path_len = path.len() as u32;
    e.data_off = off;
    e.data_len = data.len() as u64;
}

fn import(w: &mut World, fs: &Fs) -> BTreeMap<String, u32> {
    let mut inos = BTreeMap::new();
    for (p, n) in &fs.0 {
        let pid = w.path_id(p.as_bytes()).expect("too many paths");
        w.inodes_n += 1;
        let i = w.inodes_n as usize;
        let (kind, mode, mtime, data): (u32, u32, i64, &[u8]) = match n {
            Node::Dir { mode } => (ik::DIR, *mode, 0, b""),
            Node::File { data, mode, mtime } => (ik::FILE, *mode, *mtime, data),
            Node::Link { target } => (ik::LINK, 0o777, 0, target.as_bytes()),
        };
        let off = w.arena_put(data).expect("arena");
        let len = data.len() as u64;
        w.inodes[i] = Inode {
            kind,
            mode,
            nlink: 1,
            opens: 0,
            mtime,
            ctime: mtime,
            off,
            len,
            cap: (len + 15) & !15,
            dur_off: off,
            dur_len: len,
            dur: 1,
            dirty: 0,
            path: pid as u32,
            created: 0,
        };
        w.paths[pid].ino = i as u32;
        inos.insert(p.clone(), i as u32);
    }
    w.arena_top += 64;
    inos
}

fn node_of(w: &World, i: usize) -> Node {
    let n = &w.inodes[i];
    match n.kind {
        ik::DIR => Node::Dir { mode: n.mode },
        ik::LINK => Node::Link { target: String::from_utf8_lossy(w.content(i)).into_owned() },
        _ => Node::File { data: w.content(i).to_vec(), mode: n.mode, mtime: n.mtime },
    }
}

fn export(w: &World) -> Fs {
    let mut m = BTreeMap::new();
    for p in 1..=w.paths_n as usize {
        let i = w.paths[p].ino as usize;
        if i != 0 {
            m.insert(String::from_utf8_lossy(w.path_name(p)).into_owned(), node_of(w, i));
        }
    }
    Fs(m)
}

/// What is on the disk after the power comes back.
fn power_loss(w: &World, inos: &BTreeMap<String, u32>, seed: u64) -> Fs {
    let mut rng = Rng::new(seed);
    // directory changes reach the disk in order; some suffix of the unsynced ones is lost
    let (a, b) = (w.meta_synced as usize, w.meta_n as usize);
    let mut cut = a + rng.below((b - a + 1) as u64) as usize;
    if rng.chance(400) {
        cut = b;
    }
    while cut > 0 && cut < b && w.meta[cut].group == w.meta[cut - 1].group {
        cut += 1;
    }
    let mut tab: BTreeMap<String, u32> = inos.clone();
    for m in &w.meta[..cut] {
        let name = String::from_utf8_lossy(w.path_name(m.path as usize)).into_owned();
        if m.kind == 1 {
            tab.insert(name, m.ino);
        } else {
            tab.remove(&name);
        }
    }
    let mut content: BTreeMap<u32, Node> = BTreeMap::new();
    let mut out = BTreeMap::new();
    for (p, i) in tab {
        let n = &w.inodes[i as usize];
        let node = content
            .entry(i)
            .or_insert_with(|| {
                if n.kind != ik::FILE || n.dirty == 0 {
                    return node_of(w, i as usize);
                }
                let cur = w.content(i as usize);
                let data = match rng.below(6) {
                    0 => w.durable(i as usize).unwrap_or(b"").to_vec(),
                    1 => Vec::new(),
                    2 => vec![0u8; cur.len()],
                    3 => cur[..rng.below(cur.len() as u64 + 1) as usize].to_vec(),
                    4 => {
                        let k = rng.below(cur.len() as u64 + 1) as usize;
                        let mut v = cur.to_vec();
                        v[k..].fill(0);
                        v
                    }
                    _ => cur.to_vec(),
                };
                Node::File { data, mode: n.mode, mtime: n.mtime }
            })
            .clone();
        out.insert(p, node);
    }
    Fs(out)
}

fn collect(w: &mut World, plan: &Plan, inos: &BTreeMap<String, u32>) -> RunResult {
    let name = |i: u16| -> String {
        if i == 0 {
            String::new()
        } else {
            String::from_utf8_lossy(w.path_name(i as usize)).into_owned()
        }
    };
    let mut hist = 0x1234_5678u64;
    let mut evs = Vec::with_capacity(w.ev_n as usize);
    for e in &w.ev[..w.ev_n as usize] {
        let r = EvR {
            class: e.class,
            proc: e.proc,
            task: e.task,
            op: e.op,
            fault: e.fault,
            path: name(e.path),
            path2: name(e.path2),
            arg: e.arg,
            res: e.res,
            hash: e.hash,
            len: e.len,
            mutated: e.mutated != 0,
        };
        let h = hash_bytes(
            format!(
                "{} {} {} {} {} {} {} {} {} {} {}",
                r.class, r.proc, r.task, r.op, r.fault, r.path, r.path2, r.arg, r.res, r.hash, r.len
            )
            .as_bytes(),
        );
        hist = (hist ^ h).wrapping_mul(0x94d0_49bb_1331_11eb).rotate_left(17);
        evs.push(r);
    }
    let mut procs = vec![];
    for p in w.procs[..plan.procs.len()].iter() {
        let r = ProcRes {
            state: p.state,
            code: p.exit_code,
            out: p.out[..(p.out_len as usize).min(STDIO_CAP)].to_vec(),
            err: p.err[..(p.err_len as usize).min(STDIO_CAP)].to_vec(),
            ops: p.ops,
        };
        hist ^= hash_bytes(&r.out).rotate_left(3) ^ hash_bytes(&r.err).rotate_left(5);
        hist = hist.wrapping_mul(0x94d0_49bb_1331_11eb) ^ (r.state as u64) ^ ((r.code as u64) << 8);
        procs.push(r);
    }
    let s = &w.sched;
    hist ^= s.sched_hash ^ s.points.rotate_left(32);
    let power = plan.power_loss.is_some();
    let fs = match plan.power_loss {
        Some(seed) => power_loss(w, inos, seed),
        None => export(w),
    };
    RunResult {
        outcome: w.outcome.load(SeqCst),
        warn: (w.warn, w.warn_arg),
        procs,
        fs,
        evs,
        ev_lost: w.ev_lost,
        decs: s.dec[..s.dec_n as usize].iter().map(|d| (d.point, d.task)).collect(),
        dec_over: s.dec_over > 0,
        points: s.points,
        switches: s.switches,
        max_runnable: s.max_runnable,
        sched_hash: s.sched_hash,
        hist_hash: hist,
        fired: w.faults[..w.faults_n as usize].iter().map(|f| f.fired).collect(),
        short_fired: w.short_fired,
        eintr_fired: w.eintr_fired,
        elapsed: w.now - 1_000_000_000_000,
        wall_end: w.wall(),
        tasks: w.tasks.iter().filter(|t| t.state != ts::UNUSED).count() as u32,
        power_lost: power,
    }
}
