//! The simulated world: one `World` lives in shared memory (a memfd) and holds everything the
//! system under test can observe - clock, scheduler, file system, descriptors, randomness, network -
//! together with the plan (faults, schedule) and the recorded history of one run.
//!
//! The same code is used by the preloaded library inside the simulated processes (`simlib`) and by
//! the driver (`simdrive`).  Only the holder of the baton touches the world, so nothing in here
//! needs locks; the few words used for hand-over are atomics.

use std::sync::atomic::{AtomicU32, AtomicU64};

pub const MAGIC: u64 = 0x5349_4d57_4f52_4c44;
pub const MAX_PROCS: usize = 4;
pub const MAX_TASKS: usize = 128;
pub const MAX_FDS: usize = 128;
pub const MAX_INODES: usize = 1024;
pub const MAX_PATHS: usize = 1024;
pub const PATH_HASH: usize = 4096;
pub const PATH_LEN: usize = 240;
pub const ARENA: usize = 96 << 20;
pub const MAX_EV: usize = 20_000;
pub const MAX_DEC: usize = 40_000;
pub const MAX_FAULTS: usize = 24;
pub const MAX_META: usize = 2048;
pub const STDIO_CAP: usize = 48 << 10;
pub const ARG_CAP: usize = 4096;
pub const COV: usize = 1 << 18;
pub const MAX_SOCKS: usize = 32;
pub const NEVER: i64 = i64::MAX;

// ---- errno values used by the simulator
pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const EXDEV: i32 = 18;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const EFBIG: i32 = 27;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
pub const ENAMETOOLONG: i32 = 36;
pub const ENOSYS: i32 = 38;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;
pub const EOPNOTSUPP: i32 = 95;
pub const ETIMEDOUT: i32 = 110;

// ---- operation classes (file-system operations are the fault points)
pub mod op {
    pub const OPEN: u8 = 1;
    pub const READ: u8 = 2;
    pub const WRITE: u8 = 3;
    pub const CLOSE: u8 = 4;
    pub const STAT: u8 = 5;
    pub const SEEK: u8 = 6;
    pub const RENAME: u8 = 7;
    pub const UNLINK: u8 = 8;
    pub const MKDIR: u8 = 9;
    pub const RMDIR: u8 = 10;
    pub const READDIR: u8 = 11;
    pub const FSYNC: u8 = 12;
    pub const TRUNC: u8 = 13;
    pub const CHMOD: u8 = 14;
    pub const LINK: u8 = 15;
    pub const SYMLINK: u8 = 16;
    pub const COPYRANGE: u8 = 17;
    pub const READLINK: u8 = 18;
    pub const UTIME: u8 = 19;
    pub const GETCWD: u8 = 20;
    // not fault points of the file plan
    pub const STDIO: u8 = 32;
    pub const FUTEX: u8 = 33;
    pub const SPAWN: u8 = 34;
    pub const EXT: u8 = 35;
    pub const KILL: u8 = 36;
    pub const NET: u8 = 37;
    pub const MARK: u8 = 38;
    pub fn name(c: u8) -> &'static str {
        match c {
            OPEN => "open",
            READ => "read",
            WRITE => "write",
            CLOSE => "close",
            STAT => "stat",
            SEEK => "lseek",
            RENAME => "rename",
            UNLINK => "unlink",
            MKDIR => "mkdir",
            RMDIR => "rmdir",
            READDIR => "readdir",
            FSYNC => "fsync",
            TRUNC => "ftruncate",
            CHMOD => "chmod",
            LINK => "link",
            SYMLINK => "symlink",
            COPYRANGE => "copy_file_range",
            READLINK => "readlink",
            UTIME => "utimens",
            GETCWD => "getcwd",
            STDIO => "stdio",
            FUTEX => "futex",
            SPAWN => "spawn",
            EXT => "external",
            KILL => "kill",
            NET => "net",
            MARK => "mark",
            _ => "?",
        }
    }
    pub fn is_fs(c: u8) -> bool {
        c < 32
    }
    pub fn bit(c: u8) -> u32 {
        if c < 32 {
            1 << c
        } else {
            0
        }
    }
}

// ---- fault kinds
pub mod fk {
    pub const NONE: u32 = 0;
    /// the call fails with errno = arg
    pub const ERRNO: u32 = 1;
    /// a read or write transfers at most arg (>= 1) bytes
    pub const SHORT: u32 = 2;
    /// the process is killed before the operation takes effect
    pub const KILL_BEFORE: u32 = 3;
    /// the process is killed right after the operation took effect
    pub const KILL_AFTER: u32 = 4;
    /// a write is applied up to arg bytes, then the process is killed
    pub const KILL_MID: u32 = 5;
    /// the wall clock jumps by arg nanoseconds before the operation
    pub const CLOCK: u32 = 6;
    /// another actor changes the file system before the operation; arg = index of the action
    pub const EXT: u32 = 7;
    /// the operation takes arg nanoseconds
    pub const DELAY: u32 = 8;
    /// data read comes back with one bit flipped (bit number arg modulo length)
    pub const FLIP: u32 = 9;
    /// scheduling: switch away at this operation, if another task can run
    pub const SWITCH: u32 = 10;
    pub fn name(k: u32) -> &'static str {
        match k {
            ERRNO => "errno",
            SHORT => "short",
            KILL_BEFORE => "kill-before",
            KILL_AFTER => "kill-after",
            KILL_MID => "kill-mid-write",
            CLOCK => "clock-jump",
            EXT => "external-action",
            DELAY => "slow-io",
            FLIP => "bit-flip-read",
            SWITCH => "switch",
            _ => "none",
        }
    }
    pub fn from_name(s: &str) -> u32 {
        for k in 1..=10 {
            if name(k) == s {
                return k;
            }
        }
        0
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fault {
    pub kind: u32,
    /// process, or -1 for any
    pub proc: i32,
    /// exact operation number of that process (1-based), or 0 to match by class and path
    pub at_op: u32,
    pub class_mask: u32,
    pub suffix: [u8; 48],
    pub suffix_len: u32,
    /// number of matching operations let through first / hit afterwards
    pub skip: u32,
    pub count: u32,
    pub arg: i64,
    // run state
    pub seen: u32,
    pub fired: u32,
}

pub mod xk {
    pub const REMOVE: u32 = 1;
    pub const REPLACE: u32 = 2;
    pub const MKDIR: u32 = 3;
    pub const CHMOD: u32 = 4;
    pub const REPLACE_ATOMIC: u32 = 5;
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ext {
    pub kind: u32,
    pub arg: u32,
    pub path: [u8; PATH_LEN],
    pub path_len: u32,
    pub data_off: u64,
    pub data_len: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Rng {
    pub s: u64,
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng { s: seed ^ 0x9e37_79b9_7f4a_7c15 };
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, permille: u64) -> bool {
        self.below(1000) < permille
    }
}

pub fn hash_bytes(d: &[u8]) -> u64 {
    let mut h: u64 = 0x1234_5678_9abc_def1 ^ (d.len() as u64);
    let mut i = 0;
    while i + 8 <= d.len() {
        let v = u64::from_le_bytes([
            d[i],
            d[i + 1],
            d[i + 2],
            d[i + 3],
            d[i + 4],
            d[i + 5],
            d[i + 6],
            d[i + 7],
        ]);
        h = (h ^ v).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 32;
        i += 8;
    }
    while i < d.len() {
        h = (h ^ u64::from(d[i])).wrapping_mul(0x0000_0100_0000_01b3);
        i += 1;
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0x94d0_49bb_1331_11eb);
    h ^ (h >> 31)
}

// ---- tasks
pub mod ts {
    pub const UNUSED: u32 = 0;
    pub const RUNNABLE: u32 = 1;
    pub const FUTEX: u32 = 2;
    pub const JOIN: u32 = 3;
    pub const SLEEP: u32 = 4;
    pub const NET: u32 = 5;
    pub const DONE: u32 = 6;
}

#[repr(C)]
pub struct Task {
    pub state: u32,
    pub go: AtomicU32,
    pub proc: u32,
    pub timed_out: u32,
    pub fut_addr: u64,
    pub deadline: i64,
    pub wait_seq: u64,
    pub join_on: u32,
    pub prio: u32,
}

// ---- processes
pub mod ps {
    pub const UNUSED: u32 = 0;
    pub const LIVE: u32 = 1;
    pub const EXITED: u32 = 2;
    pub const KILLED: u32 = 3;
    pub const ABORTED: u32 = 4;
    pub const SIGNALED: u32 = 5;
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fd {
    pub kind: u32,
    pub ino: u32,
    pub flags: u32,
    pub refs: u32,
    pub pos: u64,
    pub path: u32,
    pub aux: u32,
}
pub mod fdk {
    pub const FREE: u32 = 0;
    pub const FILE: u32 = 1;
    pub const STDIN: u32 = 2;
    pub const STDOUT: u32 = 3;
    pub const STDERR: u32 = 4;
    pub const EPOLL: u32 = 5;
    pub const EVENT: u32 = 6;
    pub const SOCK: u32 = 7;
}

#[repr(C)]
pub struct Proc {
    pub state: u32,
    pub exit_code: i32,
    pub real_pid: AtomicU32,
    pub pid: u32,
    pub ops: u32,
    pub cpus: u32,
    pub argc: u32,
    pub args_len: u32,
    pub args: [u8; ARG_CAP],
    pub cwd: [u8; PATH_LEN],
    pub cwd_len: u32,
    pub out_len: u32,
    pub err_len: u32,
    pub out_lost: u32,
    pub out: [u8; STDIO_CAP],
    pub err: [u8; STDIO_CAP],
    pub fds: [Fd; MAX_FDS],
    pub rng: Rng,
    /// number of tasks ever created
    pub ntasks: u32,
    pub umask: u32,
}

// ---- file system
pub mod ik {
    pub const FREE: u32 = 0;
    pub const FILE: u32 = 1;
    pub const DIR: u32 = 2;
    pub const LINK: u32 = 3;
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Inode {
    pub kind: u32,
    pub mode: u32,
    pub nlink: u32,
    pub opens: u32,
    pub mtime: i64,
    pub ctime: i64,
    pub off: u64,
    pub len: u64,
    pub cap: u64,
    /// content known to be on stable storage
    pub dur_off: u64,
    pub dur_len: u64,
    /// 0: nothing durable yet (created in this run and never synced), 1: dur_* valid
    pub dur: u32,
    /// changed since the last sync
    pub dirty: u32,
    /// last path this inode was seen under
    pub path: u32,
    pub created: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct PathEnt {
    pub len: u32,
    /// 0 = nothing there
    pub ino: u32,
    pub name: [u8; PATH_LEN],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Meta {
    pub kind: u32, // 1 = set (path -> ino), 2 = remove path
    pub path: u32,
    pub ino: u32,
    /// entries with the same group are atomic
    pub group: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ev {
    pub seq: u32,
    pub op: u32,
    pub proc: u8,
    pub class: u8,
    pub task: u8,
    pub fault: u8,
    pub path: u16,
    pub path2: u16,
    pub arg: i64,
    pub res: i64,
    /// content hash of the object at `path` (or `path2` for rename) after a mutation, else 0
    pub hash: u64,
    pub len: u64,
    pub mutated: u32,
    pub pad: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dec {
    pub point: u64,
    pub task: u32,
    pub pad: u32,
}

pub mod sm {
    pub const RANDOM: u32 = 0;
    pub const PCT: u32 = 1;
    pub const REPLAY: u32 = 2;
}

pub mod oc {
    pub const NONE: u32 = 0;
    pub const FINISHED: u32 = 1;
    pub const DEADLOCK: u32 = 2;
    pub const BUDGET: u32 = 3;
    pub const HARNESS: u32 = 4;
    pub const STALL: u32 = 5;
    pub fn name(o: u32) -> &'static str {
        match o {
            FINISHED => "finished",
            DEADLOCK => "deadlock",
            BUDGET => "step-budget-exceeded",
            HARNESS => "harness-error",
            STALL => "stalled",
            _ => "none",
        }
    }
}

#[repr(C)]
pub struct Sched {
    pub mode: u32,
    /// random mode: switch probability (permille) at operations
    pub op_switch: u32,
    /// random mode: mean number of edges between preemptions (0 = never)
    pub edge_mean: u64,
    /// random mode: `site` says where to preempt
    pub site_on: u32,
    pub rng: Rng,
    pub wake_rng: Rng,
    /// pct: number of priority change points left and where they are
    pub pct_n: u32,
    pub pct_i: u32,
    pub pct_at: [u64; 32],
    pub points: u64,
    pub next_slow: u64,
    pub next_preempt: u64,
    pub budget: u64,
    pub replay_n: u32,
    pub replay_i: u32,
    pub dec_n: u32,
    pub dec_over: u32,
    pub replay: [Dec; MAX_DEC],
    pub dec: [Dec; MAX_DEC],
    pub wait_seq: u64,
    pub current: u32,
    pub low_prio: u32,
    pub switches: u64,
    pub sched_hash: u64,
    /// allow spurious futex wake-ups (permille)
    pub spurious: u32,
    pub max_runnable: u32,
}

// ---- network
#[repr(C)]
pub struct Sock {
    pub state: u32, // 0 free 1 open (fd) 2 connecting 3 connected 4 closed
    pub proc: u32,
    pub conn: u32,
    pub host: u32,
    pub port: u32,
    /// bytes from the client, in arrival order
    pub tx: [u8; 1 << 16],
    pub tx_len: u64,
    pub tx_taken: u64,
    pub tx_shut: u32,
    /// bytes for the client
    pub rx: [u8; 1 << 17],
    pub rx_len: u64,
    pub rx_read: u64,
    /// server closed its side (EOF after rx) / reset
    pub rx_eof: u32,
    pub reset: u32,
    pub conn_result: i32, // 0 pending, 1 ok, else -errno
    pub so_error: i32,
    /// counts changes of what an edge-triggered poll would report
    pub gen: u32,
    /// the client ran into a full send buffer and waits to be told that there is room again
    pub wblocked: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct EpItem {
    pub fd: i32,
    pub kind: u32,
    pub ino: u32,
    pub events: u32,
    pub data: u64,
    pub seen: u32,
}
#[repr(C)]
pub struct Ep {
    pub refs: u32,
    pub proc: u32,
    pub n: u32,
    pub items: [EpItem; 24],
}
#[repr(C)]
pub struct EvFd {
    pub refs: u32,
    pub gen: u32,
    pub count: u64,
}
pub const MAX_EPS: usize = 24;
pub const MAX_HOSTS: usize = 8;

#[repr(C)]
pub struct Net {
    pub enabled: u32,
    pub nsocks: u32,
    pub next_event: i64,
    pub bytes: u64,
    pub eps_n: u32,
    pub evs_n: u32,
    pub eps: [Ep; MAX_EPS],
    pub evs: [EvFd; MAX_EPS],
    /// names that can be looked up; host i has the address 10.0.0.(i+1)
    pub hosts_n: u32,
    pub hosts: [[u8; 64]; MAX_HOSTS],
    /// result of the i-th look-up (0: found) and how long it takes
    pub lookups: u32,
    pub dns: [i32; 16],
    pub dns_ns: i64,
    pub socks: [Sock; MAX_SOCKS],
}

#[repr(C)]
pub struct World {
    pub magic: u64,
    // hand-over words
    pub cmd: AtomicU32,  // driver -> zygote: 1 = run, 2 = quit
    pub done: AtomicU32, // zygote -> driver
    pub drv: AtomicU32,  // processes -> driver: network turn
    pub drv_back: AtomicU32,
    pub ready: AtomicU32,
    pub nprocs: u32,
    pub outcome: AtomicU32,
    pub outcome_task: u32,
    pub active: u32,
    pub zygote_err: u32,
    pub warn: u32,
    pub warn_arg: i64,
    pub guards: AtomicU64,
    // clock
    pub now: i64,      // monotonic ns
    pub real_off: i64, // wall clock = now + real_off
    pub mtime_gran: i64,
    pub op_cost: i64,
    pub clock_cost: i64,
    pub sched: Sched,
    pub tasks: [Task; MAX_TASKS],
    pub procs: [Proc; MAX_PROCS],
    // vfs
    pub disk_free: i64, // -1 = unlimited
    pub inode_free: i64,
    pub paths_n: u32,
    pub inodes_n: u32,
    pub path_tab: [u16; PATH_HASH],
    pub paths: [PathEnt; MAX_PATHS],
    pub inodes: [Inode; MAX_INODES],
    pub meta_n: u32,
    pub meta_group: u32,
    pub meta_synced: u32,
    pub meta: [Meta; MAX_META],
    pub arena_top: u64,
    // plan
    pub faults_n: u32,
    pub exts_n: u32,
    pub faults: [Fault; MAX_FAULTS],
    pub exts: [Ext; 16],
    pub io_rng: Rng,
    /// swarm: cap on bytes per read/write for every call (0 = none), chance in permille
    pub short_permille: u32,
    pub eintr_permille: u32,
    pub short_fired: u64,
    pub eintr_fired: u64,
    pub copy_range_mode: u32, // 0 works, 1 ENOSYS, 2 EXDEV
    pub readdir_shuffle: u32,
    // history
    pub ev_n: u32,
    pub ev_lost: u32,
    pub ev_seq: u32,
    pub ev: [Ev; MAX_EV],
    pub net: Net,
    pub cov: [u8; COV],
    /// for each edge, how many more times a task may be preempted there
    pub site: [u8; COV],
    pub arena: [u8; ARENA],
}

pub type R<T> = Result<T, i32>;

/// A normalised absolute path in a fixed buffer.
#[derive(Clone, Copy)]
pub struct PathBufN {
    pub len: usize,
    pub b: [u8; PATH_LEN],
}
impl PathBufN {
    pub fn as_slice(&self) -> &[u8] {
        &self.b[..self.len]
    }
    fn root() -> Self {
        let mut p = PathBufN { len: 1, b: [0; PATH_LEN] };
        p.b[0] = b'/';
        p
    }
    fn push(&mut self, c: &[u8]) -> R<()> {
        if self.len > 1 {
            if self.len + 1 > PATH_LEN {
                return Err(ENAMETOOLONG);
            }
            self.b[self.len] = b'/';
            self.len += 1;
        }
        if self.len + c.len() > PATH_LEN {
            return Err(ENAMETOOLONG);
        }
        self.b[self.len..self.len + c.len()].copy_from_slice(c);
        self.len += c.len();
        Ok(())
    }
    fn pop(&mut self) {
        while self.len > 1 && self.b[self.len - 1] != b'/' {
            self.len -= 1;
        }
        if self.len > 1 {
            self.len -= 1;
        }
    }
}

fn phash(p: &[u8]) -> usize {
    (hash_bytes(p) as usize) & (PATH_HASH - 1)
}

impl World {
    // ------------------------------------------------------------------ paths
    pub fn path_find(&self, p: &[u8]) -> Option<usize> {
        let mut h = phash(p);
        loop {
            let i = self.path_tab[h] as usize;
            if i == 0 {
                return None;
            }
            let e = &self.paths[i];
            if e.len as usize == p.len() && &e.name[..p.len()] == p {
                return Some(i);
            }
            h = (h + 1) & (PATH_HASH - 1);
        }
    }
    pub fn path_id(&mut self, p: &[u8]) -> R<usize> {
        if let Some(i) = self.path_find(p) {
            return Ok(i);
        }
        if p.len() > PATH_LEN {
            return Err(ENAMETOOLONG);
        }
        if self.paths_n as usize + 1 >= MAX_PATHS {
            return Err(ENOSPC);
        }
        self.paths_n += 1; // id 0 is reserved
        let i = self.paths_n as usize;
        let e = &mut self.paths[i];
        e.len = p.len() as u32;
        e.ino = 0;
        e.name[..p.len()].copy_from_slice(p);
        let mut h = phash(p);
        while self.path_tab[h] != 0 {
            h = (h + 1) & (PATH_HASH - 1);
        }
        self.path_tab[h] = i as u16;
        Ok(i)
    }
    pub fn path_name(&self, id: usize) -> &[u8] {
        &self.paths[id].name[..self.paths[id].len as usize]
    }
    fn lookup(&self, p: &[u8]) -> usize {
        self.path_find(p).map_or(0, |i| self.paths[i].ino as usize)
    }

    /// Resolve `raw` (relative to `cwd`) to a normalised absolute path, following symbolic links.
    /// Intermediate components must be directories.  The last component may not exist.
    pub fn resolve(&self, cwd: &[u8], raw: &[u8], follow_last: bool) -> R<PathBufN> {
        if raw.is_empty() {
            return Err(ENOENT);
        }
        let mut links = 0;
        let mut cur = PathBufN::root();
        // pending components, as a stack of at most a few buffers: work on one flat buffer
        let mut pend = [0u8; 2 * PATH_LEN];
        let mut plen = 0usize;
        if raw[0] != b'/' {
            if cwd.len() + 1 + raw.len() > pend.len() {
                return Err(ENAMETOOLONG);
            }
            pend[..cwd.len()].copy_from_slice(cwd);
            pend[cwd.len()] = b'/';
            plen = cwd.len() + 1;
        }
        if plen + raw.len() > pend.len() {
            return Err(ENAMETOOLONG);
        }
        pend[plen..plen + raw.len()].copy_from_slice(raw);
        plen += raw.len();
        let trailing_slash = raw[raw.len() - 1] == b'/';
        let mut i = 0usize;
        loop {
            while i < plen && pend[i] == b'/' {
                i += 1;
            }
            if i >= plen {
                break;
            }
            let s = i;
            while i < plen && pend[i] != b'/' {
                i += 1;
            }
            let comp_len = i - s;
            let mut comp = [0u8; PATH_LEN];
            if comp_len > PATH_LEN {
                return Err(ENAMETOOLONG);
            }
            comp[..comp_len].copy_from_slice(&pend[s..i]);
            let comp = &comp[..comp_len];
            // what is it relative to? must be a directory
            let cino = self.lookup(cur.as_slice());
            if cino == 0 {
                return Err(ENOENT);
            }
            if self.inodes[cino].kind != ik::DIR {
                return Err(ENOTDIR);
            }
            if comp == b"." {
                continue;
            }
            if comp == b".." {
                cur.pop();
                continue;
            }
            if comp_len > 200 {
                return Err(ENAMETOOLONG);
            }
            let mut rest = i;
            while rest < plen && pend[rest] == b'/' {
                rest += 1;
            }
            let last = rest >= plen;
            let save = cur;
            cur.push(comp)?;
            let ino = self.lookup(cur.as_slice());
            if ino != 0 && self.inodes[ino].kind == ik::LINK && (!last || follow_last) {
                links += 1;
                if links > 8 {
                    return Err(ELOOP);
                }
                let n = &self.inodes[ino];
                let target = &self.arena[n.off as usize..(n.off + n.len) as usize];
                // new pending = target + "/" + rest
                let mut np = [0u8; 2 * PATH_LEN];
                let mut nl = 0;
                if target.len() + 1 + (plen - rest) > np.len() {
                    return Err(ENAMETOOLONG);
                }
                np[..target.len()].copy_from_slice(target);
                nl += target.len();
                np[nl] = b'/';
                nl += 1;
                np[nl..nl + plen - rest].copy_from_slice(&pend[rest..plen]);
                nl += plen - rest;
                cur = if target.first() == Some(&b'/') { PathBufN::root() } else { save };
                pend = np;
                plen = nl;
                i = 0;
            }
        }
        if trailing_slash {
            let ino = self.lookup(cur.as_slice());
            if ino != 0 && self.inodes[ino].kind != ik::DIR {
                return Err(ENOTDIR);
            }
        }
        Ok(cur)
    }

    pub fn parent_of(p: &[u8]) -> &[u8] {
        let mut n = p.len();
        while n > 1 && p[n - 1] != b'/' {
            n -= 1;
        }
        if n > 1 {
            n -= 1;
        }
        &p[..n]
    }

    // ------------------------------------------------------------------ arena
    pub fn arena_alloc(&mut self, cap: u64) -> R<u64> {
        let cap = (cap + 15) & !15;
        if self.arena_top + cap > ARENA as u64 {
            self.warn = 1;
            return Err(ENOMEM);
        }
        let o = self.arena_top;
        self.arena_top += cap;
        Ok(o)
    }
    pub fn arena_put(&mut self, d: &[u8]) -> R<u64> {
        let o = self.arena_alloc(d.len() as u64)?;
        self.arena[o as usize..o as usize + d.len()].copy_from_slice(d);
        Ok(o)
    }
    pub fn content(&self, ino: usize) -> &[u8] {
        let n = &self.inodes[ino];
        &self.arena[n.off as usize..(n.off + n.len) as usize]
    }
    pub fn durable(&self, ino: usize) -> Option<&[u8]> {
        let n = &self.inodes[ino];
        if n.dur == 0 {
            None
        } else {
            Some(&self.arena[n.dur_off as usize..(n.dur_off + n.dur_len) as usize])
        }
    }

    // ------------------------------------------------------------------ clock
    pub fn wall(&self) -> i64 {
        self.now + self.real_off
    }
    pub fn mstamp(&self) -> i64 {
        let w = self.wall();
        if self.mtime_gran > 1 {
            w - w.rem_euclid(self.mtime_gran)
        } else {
            w
        }
    }

    // ------------------------------------------------------------------ inodes
    fn new_inode(&mut self, kind: u32, mode: u32) -> R<usize> {
        if self.inode_free == 0 {
            return Err(ENOSPC);
        }
        if self.inodes_n as usize + 1 >= MAX_INODES {
            return Err(ENOSPC);
        }
        if self.inode_free > 0 {
            self.inode_free -= 1;
        }
        self.inodes_n += 1;
        let i = self.inodes_n as usize;
        let m = self.mstamp();
        self.inodes[i] = Inode {
            kind,
            mode,
            nlink: 1,
            opens: 0,
            mtime: m,
            ctime: m,
            off: 0,
            len: 0,
            cap: 0,
            dur_off: 0,
            dur_len: 0,
            dur: 0,
            dirty: 1,
            path: 0,
            created: 1,
        };
        Ok(i)
    }
    fn meta_push(&mut self, kind: u32, path: usize, ino: usize) {
        if (self.meta_n as usize) < MAX_META {
            let g = self.meta_group;
            self.meta[self.meta_n as usize] =
                Meta { kind, path: path as u32, ino: ino as u32, group: g };
            self.meta_n += 1;
        } else {
            self.warn = 2;
        }
    }
    fn touch_dir(&mut self, child: &[u8]) {
        let mut tmp = [0u8; PATH_LEN];
        let par = World::parent_of(child);
        let n = par.len();
        tmp[..n].copy_from_slice(par);
        let d = self.lookup(&tmp[..n]);
        if d != 0 {
            let m = self.mstamp();
            self.inodes[d].mtime = m;
        }
    }
    fn dir_writable(&self, child: &[u8]) -> R<()> {
        let d = self.lookup(World::parent_of(child));
        if d == 0 {
            return Err(ENOENT);
        }
        if self.inodes[d].kind != ik::DIR {
            return Err(ENOTDIR);
        }
        if self.inodes[d].mode & 0o200 == 0 {
            return Err(EACCES);
        }
        Ok(())
    }

    pub fn create(&mut self, p: &[u8], kind: u32, mode: u32) -> R<usize> {
        self.dir_writable(p)?;
        let pid = self.path_id(p)?;
        if self.paths[pid].ino != 0 {
            return Err(EEXIST);
        }
        let ino = self.new_inode(kind, mode)?;
        self.inodes[ino].path = pid as u32;
        self.paths[pid].ino = ino as u32;
        self.meta_group += 1;
        self.meta_push(1, pid, ino);
        self.touch_dir(p);
        Ok(ino)
    }

    pub fn truncate(&mut self, ino: usize, len: u64) -> R<()> {
        let old = self.inodes[ino].len;
        if len > old {
            self.reserve(ino, len)?;
            let off = self.inodes[ino].off;
            self.arena[(off + old) as usize..(off + len) as usize].fill(0);
        } else if self.disk_free >= 0 {
            self.disk_free += (old - len) as i64;
        }
        let m = self.mstamp();
        let n = &mut self.inodes[ino];
        if n.len != len || len == 0 {
            n.dirty = 1;
        }
        n.len = len;
        n.mtime = m;
        // never write over the durable copy
        if n.len == 0 {
            n.cap = 0;
        }
        Ok(())
    }

    fn reserve(&mut self, ino: usize, len: u64) -> R<()> {
        let n = self.inodes[ino];
        // copy-on-write away from the durable copy
        let shared = n.dur == 1 && n.off == n.dur_off && n.dur_len > 0;
        if len > n.cap || shared {
            let mut cap = 256.max(n.cap);
            while cap < len {
                cap *= 2;
            }
            let o = self.arena_alloc(cap)?;
            let (a, b) = (n.off as usize, n.len as usize);
            self.arena.copy_within(a..a + b, o as usize);
            self.inodes[ino].off = o;
            self.inodes[ino].cap = cap;
        }
        Ok(())
    }

    pub fn write_at(&mut self, ino: usize, pos: u64, d: &[u8]) -> R<usize> {
        if d.is_empty() {
            return Ok(0);
        }
        let mut n = d.len();
        let end0 = self.inodes[ino].len;
        if self.disk_free >= 0 {
            let grow = (pos + n as u64).saturating_sub(end0) as i64;
            if grow > self.disk_free {
                let allowed = n as i64 - (grow - self.disk_free);
                if allowed <= 0 {
                    return Err(ENOSPC);
                }
                n = allowed as usize;
            }
            let grow = (pos + n as u64).saturating_sub(end0) as i64;
            self.disk_free -= grow;
        }
        let end = pos + n as u64;
        self.reserve(ino, end.max(end0))?;
        let m = self.mstamp();
        let off = self.inodes[ino].off;
        if pos > end0 {
            self.arena[(off + end0) as usize..(off + pos) as usize].fill(0);
        }
        self.arena[(off + pos) as usize..(off + end) as usize].copy_from_slice(&d[..n]);
        let i = &mut self.inodes[ino];
        i.len = end.max(end0);
        i.mtime = m;
        i.dirty = 1;
        Ok(n)
    }

    pub fn sync_inode(&mut self, ino: usize) {
        let n = &mut self.inodes[ino];
        n.dur = 1;
        n.dirty = 0;
        n.dur_off = n.off;
        n.dur_len = n.len;
        // a later write must not touch the durable bytes: `reserve` copies while they are shared
    }

    pub fn sync_dir(&mut self) {
        self.meta_synced = self.meta_n;
    }

    pub fn unlink(&mut self, p: &[u8]) -> R<()> {
        let pid = self.path_find(p).ok_or(ENOENT)?;
        let ino = self.paths[pid].ino as usize;
        if ino == 0 {
            return Err(ENOENT);
        }
        if self.inodes[ino].kind == ik::DIR {
            return Err(EISDIR);
        }
        self.dir_writable(p)?;
        self.paths[pid].ino = 0;
        self.drop_link(ino);
        self.meta_group += 1;
        self.meta_push(2, pid, 0);
        self.touch_dir(p);
        Ok(())
    }
    fn drop_link(&mut self, ino: usize) {
        let n = &mut self.inodes[ino];
        n.nlink = n.nlink.saturating_sub(1);
        if n.nlink == 0 && n.opens == 0 && self.disk_free >= 0 {
            self.disk_free += n.len as i64;
        }
    }
    pub fn has_children(&self, p: &[u8]) -> bool {
        for i in 1..=self.paths_n as usize {
            if self.paths[i].ino != 0 {
                let q = self.path_name(i);
                if q.len() > p.len() && q.starts_with(p) && q[p.len()] == b'/' {
                    return true;
                }
            }
        }
        false
    }
    pub fn rmdir(&mut self, p: &[u8]) -> R<()> {
        let pid = self.path_find(p).ok_or(ENOENT)?;
        let ino = self.paths[pid].ino as usize;
        if ino == 0 {
            return Err(ENOENT);
        }
        if self.inodes[ino].kind != ik::DIR {
            return Err(ENOTDIR);
        }
        if self.has_children(p) {
            return Err(ENOTEMPTY);
        }
        self.dir_writable(p)?;
        self.paths[pid].ino = 0;
        self.meta_group += 1;
        self.meta_push(2, pid, 0);
        Ok(())
    }
    pub fn link(&mut self, a: &[u8], b: &[u8]) -> R<()> {
        let ino = self.lookup(a);
        if ino == 0 {
            return Err(ENOENT);
        }
        if self.inodes[ino].kind == ik::DIR {
            return Err(EPERM);
        }
        self.dir_writable(b)?;
        let pid = self.path_id(b)?;
        if self.paths[pid].ino != 0 {
            return Err(EEXIST);
        }
        self.paths[pid].ino = ino as u32;
        self.inodes[ino].nlink += 1;
        self.meta_group += 1;
        self.meta_push(1, pid, ino);
        Ok(())
    }
    pub fn rename(&mut self, a: &[u8], b: &[u8], noreplace: bool) -> R<()> {
        let pa = self.path_find(a).ok_or(ENOENT)?;
        let ia = self.paths[pa].ino as usize;
        if ia == 0 {
            return Err(ENOENT);
        }
        self.dir_writable(a)?;
        self.dir_writable(b)?;
        if a == b {
            return Ok(());
        }
        let pb = self.path_id(b)?;
        let ib = self.paths[pb].ino as usize;
        let a_dir = self.inodes[ia].kind == ik::DIR;
        if ib != 0 {
            if noreplace {
                return Err(EEXIST);
            }
            let b_dir = self.inodes[ib].kind == ik::DIR;
            if b_dir && !a_dir {
                return Err(EISDIR);
            }
            if !b_dir && a_dir {
                return Err(ENOTDIR);
            }
            if b_dir && self.has_children(b) {
                return Err(ENOTEMPTY);
            }
            if ia == ib {
                return Ok(());
            }
        }
        self.meta_group += 1;
        if a_dir {
            // move all children
            let n = self.paths_n as usize;
            for i in 1..=n {
                let ino = self.paths[i].ino;
                if ino == 0 {
                    continue;
                }
                let q = self.paths[i];
                let q = &q.name[..q.len as usize];
                if q.len() > a.len() && q.starts_with(a) && q[a.len()] == b'/' {
                    let mut nb = [0u8; PATH_LEN];
                    let l = b.len() + q.len() - a.len();
                    if l > PATH_LEN {
                        return Err(ENAMETOOLONG);
                    }
                    nb[..b.len()].copy_from_slice(b);
                    nb[b.len()..l].copy_from_slice(&q[a.len()..]);
                    let np = self.path_id(&nb[..l])?;
                    self.paths[i].ino = 0;
                    self.paths[np].ino = ino;
                    self.inodes[ino as usize].path = np as u32;
                    self.meta_push(2, i, 0);
                    self.meta_push(1, np, ino as usize);
                }
            }
        }
        self.paths[pa].ino = 0;
        self.paths[pb].ino = ia as u32;
        self.inodes[ia].path = pb as u32;
        if ib != 0 {
            self.drop_link(ib);
        }
        self.meta_push(2, pa, 0);
        self.meta_push(1, pb, ia);
        self.touch_dir(a);
        self.touch_dir(b);
        Ok(())
    }

    pub fn open(&mut self, p: &[u8], flags: i32, mode: u32) -> R<(usize, bool)> {
        const O_WRONLY: i32 = 1;
        const O_RDWR: i32 = 2;
        const O_CREAT: i32 = 0o100;
        const O_EXCL: i32 = 0o200;
        const O_TRUNC: i32 = 0o1000;
        const O_DIRECTORY: i32 = 0o200_000;
        const O_TMPFILE: i32 = 0o20_200_000;
        const O_NOFOLLOW: i32 = 0o400_000;
        if flags & O_TMPFILE == O_TMPFILE {
            return Err(EOPNOTSUPP);
        }
        let acc = flags & 3;
        let want_write = acc == O_WRONLY || acc == O_RDWR;
        let want_read = acc == 0 || acc == O_RDWR;
        let ino = self.lookup(p);
        if ino == 0 {
            if flags & O_CREAT == 0 {
                return Err(ENOENT);
            }
            let i = self.create(p, ik::FILE, mode & 0o777)?;
            return Ok((i, true));
        }
        if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
            return Err(EEXIST);
        }
        let n = self.inodes[ino];
        if n.kind == ik::LINK && flags & O_NOFOLLOW != 0 {
            return Err(ELOOP);
        }
        if n.kind == ik::DIR && want_write {
            return Err(EISDIR);
        }
        if n.kind != ik::DIR && flags & O_DIRECTORY != 0 {
            return Err(ENOTDIR);
        }
        if want_write && n.mode & 0o200 == 0 {
            return Err(EACCES);
        }
        if want_read && n.mode & 0o400 == 0 {
            return Err(EACCES);
        }
        if flags & O_TRUNC != 0 && want_write {
            self.truncate(ino, 0)?;
        }
        Ok((ino, false))
    }

    pub fn ext_apply(&mut self, x: &Ext) {
        let p = x.path;
        let p = &p[..x.path_len as usize];
        let data = (x.data_off as usize, x.data_len as usize);
        // writing and chmod go through symbolic links
        let through = match x.kind {
            xk::REPLACE | xk::CHMOD => self.resolve(b"/", p, true).ok(),
            _ => None,
        };
        let p = through.as_ref().map_or(p, |t| t.as_slice());
        match x.kind {
            xk::REMOVE => {
                let _ = self.unlink(p);
            }
            xk::REPLACE | xk::REPLACE_ATOMIC => {
                if x.kind == xk::REPLACE_ATOMIC {
                    let _ = self.unlink(p);
                }
                let mut ino = self.lookup(p);
                if ino == 0 {
                    ino = match self.create(p, ik::FILE, 0o644) {
                        Ok(i) => i,
                        Err(_) => return,
                    };
                }
                let _ = self.truncate(ino, 0);
                let o = match self.arena_alloc(data.1 as u64) {
                    Ok(o) => o,
                    Err(_) => return,
                };
                self.arena.copy_within(data.0..data.0 + data.1, o as usize);
                let m = self.mstamp();
                let n = &mut self.inodes[ino];
                n.off = o;
                n.len = data.1 as u64;
                n.cap = (data.1 as u64 + 15) & !15;
                n.mtime = m;
                n.dirty = 0;
                n.dur = 1;
                n.dur_off = o;
                n.dur_len = data.1 as u64;
            }
            xk::MKDIR => {
                let _ = self.create(p, ik::DIR, 0o755);
            }
            xk::CHMOD => {
                let ino = self.lookup(p);
                if ino != 0 {
                    self.inodes[ino].mode = x.arg;
                }
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------------ history
    #[allow(clippy::too_many_arguments)]
    pub fn log(&mut self, e: Ev) {
        self.ev_seq += 1;
        if (self.ev_n as usize) < MAX_EV {
            let mut e = e;
            e.seq = self.ev_seq;
            self.ev[self.ev_n as usize] = e;
            self.ev_n += 1;
        } else {
            self.ev_lost += 1;
        }
    }
}

pub fn world_size() -> usize {
    std::mem::size_of::<World>()
}
