//! Threads, futexes, clocks, randomness, process control.
use super::*;

type Start = unsafe extern "C" fn(*mut c_void) -> *mut c_void;
type PtCreate = unsafe extern "C" fn(*mut usize, *const c_void, Start, *mut c_void) -> c_int;
type PtJoin = unsafe extern "C" fn(usize, *mut *mut c_void) -> c_int;
type Sysconf = unsafe extern "C" fn(c_int) -> c_long;
type Mmap =
    unsafe extern "C" fn(*mut c_void, usize, c_int, c_int, c_int, i64) -> *mut c_void;

static mut REAL_CREATE: Option<PtCreate> = None;
static mut REAL_JOIN: Option<PtJoin> = None;
static mut REAL_SYSCONF: Option<Sysconf> = None;
static mut REAL_MMAP: Option<Mmap> = None;
/// pthread_t of each task of this process
static mut PT: [usize; MAX_TASKS] = [0; MAX_TASKS];

pub unsafe fn resolve_syms() {
    REAL_CREATE = Some(std::mem::transmute::<*mut c_void, PtCreate>(next_sym(b"pthread_create\0")));
    REAL_JOIN = Some(std::mem::transmute::<*mut c_void, PtJoin>(next_sym(b"pthread_join\0")));
    REAL_SYSCONF = Some(std::mem::transmute::<*mut c_void, Sysconf>(next_sym(b"sysconf\0")));
    REAL_MMAP = Some(std::mem::transmute::<*mut c_void, Mmap>(next_sym(b"mmap64\0")));
}

struct Boot {
    start: Start,
    arg: *mut c_void,
    task: usize,
}

unsafe extern "C" fn trampoline(b: *mut c_void) -> *mut c_void {
    let b = Box::from_raw(b as *mut Boot);
    let t = b.task;
    TASK.with(|x| x.set(t as u32));
    sched::wait_baton(t);
    let r = (b.start)(b.arg);
    run_dtors();
    let w = w();
    w.tasks[t].state = ts::DONE;
    for o in w.tasks.iter_mut() {
        if o.state == ts::JOIN && o.join_on as usize == t {
            o.state = ts::RUNNABLE;
        }
    }
    sched::leave();
    r
}

unsafe fn run_dtors() {
    loop {
        let d = DTORS.with(|d| d.get());
        if d.is_null() {
            return;
        }
        match (*d).v.pop() {
            Some((f, a)) => f(a),
            None => {
                DTORS.with(|x| x.set(std::ptr::null_mut()));
                drop(Box::from_raw(d));
                return;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(
    f: unsafe extern "C" fn(*mut c_void),
    a: *mut c_void,
    dso: *mut c_void,
) -> c_int {
    if !active() {
        type F = unsafe extern "C" fn(
            unsafe extern "C" fn(*mut c_void),
            *mut c_void,
            *mut c_void,
        ) -> c_int;
        let real: F = std::mem::transmute(next_sym(b"__cxa_thread_atexit_impl\0"));
        return real(f, a, dso);
    }
    let mut d = DTORS.with(|d| d.get());
    if d.is_null() {
        d = Box::into_raw(Box::new(Dtors { v: Vec::new() }));
        DTORS.with(|x| x.set(d));
    }
    (*d).v.push((f, a));
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut usize,
    attr: *const c_void,
    start: Start,
    arg: *mut c_void,
) -> c_int {
    if !active() {
        let real: PtCreate = std::mem::transmute(next_sym(b"pthread_create\0"));
        return real(th, attr, start, arg);
    }
    let w = w();
    let p = PROC;
    let mut t = usize::MAX;
    for i in MAX_PROCS..MAX_TASKS {
        if w.tasks[i].state == ts::UNUSED {
            t = i;
            break;
        }
    }
    if t == usize::MAX {
        // reuse finished tasks of this process whose thread is gone for sure
        harness(10, 0);
    }
    w.procs[p].ntasks += 1;
    let prio = (w.sched.rng.next() >> 33) as u32 | 0x4000_0000;
    let k = &mut w.tasks[t];
    k.state = ts::RUNNABLE;
    k.proc = p as u32;
    k.prio = prio;
    k.go.store(0, SeqCst);
    let b = Box::into_raw(Box::new(Boot { start, arg, task: t }));
    let r = REAL_CREATE.unwrap_unchecked()(th, attr, trampoline, b.cast());
    if r != 0 {
        harness(11, r.into());
    }
    PT[t] = *th;
    w.log(Ev {
        class: op::SPAWN,
        proc: p as u8,
        task: me() as u8,
        arg: t as i64,
        ..sched::zero_ev()
    });
    sched::op_point();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: usize, ret: *mut *mut c_void) -> c_int {
    if !active() {
        let real: PtJoin = std::mem::transmute(next_sym(b"pthread_join\0"));
        return real(th, ret);
    }
    let w = w();
    let m = me();
    let mut t = usize::MAX;
    for i in MAX_PROCS..MAX_TASKS {
        if w.tasks[i].proc as usize == PROC && PT[i] == th && w.tasks[i].state != ts::UNUSED {
            t = i; // the newest one wins: pthread_t values are reused
        }
    }
    if t == usize::MAX {
        return 3;
    }
    sched::op_point();
    while w.tasks[t].state != ts::DONE {
        w.tasks[m].state = ts::JOIN;
        w.tasks[m].join_on = t as u32;
        sched::block();
    }
    let r = REAL_JOIN.unwrap_unchecked()(th, ret);
    PT[t] = 0;
    r
}

// ------------------------------------------------------------------ futex and syscall(2)
unsafe fn futex(uaddr: usize, opn: i32, val: u32, timeout: *const libc::timespec) -> c_long {
    let w = w();
    let m = me();
    let cmd = opn & 0x7f;
    let realtime = opn & 256 != 0;
    match cmd {
        0 | 9 => {
            let cur = (*(uaddr as *const AtomicU32)).load(SeqCst);
            if cur != val {
                set_errno(EAGAIN);
                return -1;
            }
            if w.sched.spurious > 0 && w.sched.wake_rng.chance(u64::from(w.sched.spurious)) {
                sched::op_point();
                return 0;
            }
            let mut dl = NEVER;
            if !timeout.is_null() {
                let t = &*timeout;
                let ns = t.tv_sec.saturating_mul(1_000_000_000).saturating_add(t.tv_nsec);
                dl = if cmd == 9 {
                    if realtime {
                        ns.saturating_sub(w.real_off)
                    } else {
                        ns
                    }
                } else {
                    w.now.saturating_add(ns)
                };
            }
            w.sched.wait_seq += 1;
            let seq = w.sched.wait_seq;
            let t = &mut w.tasks[m];
            t.state = ts::FUTEX;
            t.fut_addr = uaddr as u64;
            t.deadline = dl;
            t.wait_seq = seq;
            t.timed_out = 0;
            sched::block();
            if w.tasks[m].timed_out != 0 {
                w.tasks[m].timed_out = 0;
                set_errno(ETIMEDOUT);
                return -1;
            }
            0
        }
        1 | 10 => {
            let mut woken = 0u32;
            while woken < val {
                // waiters in arrival order; the wake stream may pick another one
                let mut c = [0u8; MAX_TASKS];
                let mut n = 0;
                for (i, t) in w.tasks.iter().enumerate() {
                    if t.state == ts::FUTEX
                        && t.proc as usize == PROC
                        && t.fut_addr == uaddr as u64
                    {
                        c[n] = i as u8;
                        n += 1;
                    }
                }
                if n == 0 {
                    break;
                }
                let mut pick = c[0] as usize;
                if n > 1 && w.sched.wake_rng.chance(300) {
                    pick = c[w.sched.wake_rng.below(n as u64) as usize] as usize;
                } else {
                    for x in &c[..n] {
                        if w.tasks[*x as usize].wait_seq < w.tasks[pick].wait_seq {
                            pick = *x as usize;
                        }
                    }
                }
                w.tasks[pick].state = ts::RUNNABLE;
                w.tasks[pick].timed_out = 0;
                woken += 1;
            }
            sched::op_point();
            c_long::from(woken)
        }
        _ => {
            set_errno(ENOSYS);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    if !active() {
        return conv(raw(n, a, b, c, d, e, f)) as c_long;
    }
    match n {
        libc::SYS_futex => futex(a, b as i32, c as u32, d as *const libc::timespec),
        libc::SYS_getrandom => getrandom(a as *mut c_void, b, c as u32) as c_long,
        libc::SYS_copy_file_range => {
            fsapi::copy_file_range(a as c_int, b as *mut i64, c as c_int, d as *mut i64, e, f as u32)
                as c_long
        }
        libc::SYS_statx => fsapi::statx(
            a as c_int,
            b as *const c_char,
            c as c_int,
            d as u32,
            e as *mut libc::statx,
        ) as c_long,
        libc::SYS_renameat2 => fsapi::renameat2(
            a as c_int,
            b as *const c_char,
            c as c_int,
            d as *const c_char,
            e as u32,
        ) as c_long,
        libc::SYS_gettid | libc::SYS_getpid => c_long::from(getpid()),
        libc::SYS_sched_yield => c_long::from(sched_yield()),
        libc::SYS_clock_gettime => {
            c_long::from(clock_gettime(a as c_int, b as *mut libc::timespec))
        }
        _ => {
            let w = w();
            if w.warn == 0 {
                w.warn = 30;
                w.warn_arg = n;
            }
            set_errno(ENOSYS);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !active() {
        return conv(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int;
    }
    sched::yield_now();
    0
}

pub fn sleep_until(dl: i64) {
    let w = w();
    let m = me();
    w.tasks[m].state = ts::SLEEP;
    w.tasks[m].deadline = dl;
    sched::block();
    w.tasks[m].timed_out = 0;
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() {
        return conv(raw(libc::SYS_nanosleep, t as usize, rem as usize, 0, 0, 0, 0)) as c_int;
    }
    let d = (*t).tv_sec.saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec);
    sleep_until(w().now.saturating_add(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    _c: c_int,
    fl: c_int,
    t: *const libc::timespec,
    _rem: *mut libc::timespec,
) -> c_int {
    if !active() {
        return nanosleep(t, std::ptr::null_mut());
    }
    let d = (*t).tv_sec.saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec);
    sleep_until(if fl & 1 != 0 { d } else { w().now.saturating_add(d) });
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: u32) -> c_int {
    let t = libc::timespec {
        tv_sec: i64::from(us / 1_000_000),
        tv_nsec: i64::from(us % 1_000_000) * 1000,
    };
    nanosleep(&t, std::ptr::null_mut())
}

// ------------------------------------------------------------------ clocks
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    if !active() {
        return conv(raw(libc::SYS_clock_gettime, c as usize, t as usize, 0, 0, 0, 0)) as c_int;
    }
    let w = w();
    w.now += w.clock_cost;
    let v = match c {
        0 | 5 | 11 => w.wall(),
        _ => w.now,
    };
    (*t).tv_sec = v.div_euclid(1_000_000_000);
    (*t).tv_nsec = v.rem_euclid(1_000_000_000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, _z: *mut c_void) -> c_int {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(0, &mut ts);
    (*t).tv_sec = ts.tv_sec;
    (*t).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(0, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

// ------------------------------------------------------------------ randomness, cpus, identity
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, _f: u32) -> isize {
    if !active() {
        return conv(raw(libc::SYS_getrandom, b as usize, n, _f as usize, 0, 0, 0));
    }
    let r = &mut w().procs[PROC].rng;
    let s = std::slice::from_raw_parts_mut(b as *mut u8, n);
    for c in s.chunks_mut(8) {
        let v = r.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: usize) -> c_int {
    getrandom(b, n, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: usize, set: *mut u8) -> c_int {
    if !active() {
        let r = conv(raw(
            libc::SYS_sched_getaffinity,
            pid as usize,
            n,
            set as usize,
            0,
            0,
            0,
        ));
        if r >= 0 {
            let r = r as usize;
            std::ptr::write_bytes(set.add(r), 0, n.saturating_sub(r));
            return 0;
        }
        return -1;
    }
    std::ptr::write_bytes(set, 0, n);
    let k = w().procs[PROC].cpus as usize;
    for i in 0..k.min(n * 8) {
        *set.add(i / 8) |= 1 << (i % 8);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: c_int) -> c_long {
    if active() && (n == libc::_SC_NPROCESSORS_ONLN || n == libc::_SC_NPROCESSORS_CONF) {
        return c_long::from(w().procs[PROC].cpus);
    }
    match REAL_SYSCONF {
        Some(f) => f(n),
        None => {
            let f: Sysconf = std::mem::transmute(next_sym(b"sysconf\0"));
            f(n)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if !active() {
        return raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int;
    }
    w().procs[PROC].pid as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> c_int {
    1
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 {
    1000
}
#[no_mangle]
pub unsafe extern "C" fn geteuid() -> u32 {
    1000
}
#[no_mangle]
pub unsafe extern "C" fn getgid() -> u32 {
    1000
}
#[no_mangle]
pub unsafe extern "C" fn getegid() -> u32 {
    1000
}

// ------------------------------------------------------------------ leaving
#[no_mangle]
pub unsafe extern "C" fn exit(c: c_int) -> ! {
    if active() {
        sched::proc_exit(ps::EXITED, c & 0xff);
    }
    exit_now(c)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(c: c_int) -> ! {
    exit(c)
}
#[no_mangle]
pub unsafe extern "C" fn quick_exit(c: c_int) -> ! {
    exit(c)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if active() {
        sched::proc_exit(ps::ABORTED, 134);
    }
    exit_now(134)
}
#[no_mangle]
pub unsafe extern "C" fn raise(s: c_int) -> c_int {
    if active() {
        sched::proc_exit(ps::ABORTED, 128 + s);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn kill(_p: c_int, _s: c_int) -> c_int {
    set_errno(EPERM);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> c_int {
    set_errno(ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn vfork() -> c_int {
    set_errno(ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn() -> c_int {
    ENOSYS
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp() -> c_int {
    ENOSYS
}
#[no_mangle]
pub unsafe extern "C" fn execvp() -> c_int {
    set_errno(ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn execve() -> c_int {
    set_errno(ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    if active() {
        sleep_until(NEVER);
    }
    set_errno(EINTR);
    -1
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(
    a: *mut c_void,
    n: usize,
    p: c_int,
    f: c_int,
    fd: c_int,
    o: i64,
) -> *mut c_void {
    if active() && fd >= 0 {
        set_errno(19);
        return usize::MAX as *mut c_void;
    }
    match REAL_MMAP {
        Some(m) => m(a, n, p, f, fd, o),
        None => {
            let r = raw(9, a as usize, n, p as usize, f as usize, fd as usize, o as usize);
            conv(r) as *mut c_void
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mmap(
    a: *mut c_void,
    n: usize,
    p: c_int,
    f: c_int,
    fd: c_int,
    o: i64,
) -> *mut c_void {
    mmap64(a, n, p, f, fd, o)
}
