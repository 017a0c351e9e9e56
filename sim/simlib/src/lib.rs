//! Preloaded into the real `csvpp` binary: takes the place of the operating system.
//!
//! * a fork server (the "zygote"): one exec of the binary, then one fork per simulated process;
//! * a baton scheduler: of all threads of all simulated processes exactly one runs, and which one
//!   is decided by the plan in the shared `World`;
//! * libc entry points for files, clock, randomness, threads, futexes and sockets, all served from
//!   the `World`; nothing reaches the real file system or network.
#![allow(non_camel_case_types, clippy::missing_safety_doc, static_mut_refs, unknown_lints)]
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]

use simworld::*;
use std::arch::asm;
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicU32, Ordering::*};

mod fsapi;
mod netapi;
mod sched;
mod sys;

pub static mut W: *mut World = std::ptr::null_mut();
pub static mut ACTIVE: bool = false;
pub static mut PROC: usize = 0;

thread_local! {
    pub static TASK: Cell<u32> = const { Cell::new(u32::MAX) };
    pub static DTORS: Cell<*mut Dtors> = const { Cell::new(std::ptr::null_mut()) };
}

pub struct Dtors {
    v: Vec<(unsafe extern "C" fn(*mut c_void), *mut c_void)>,
}

#[inline(always)]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
#[inline(always)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}
#[inline(always)]
pub fn me() -> usize {
    TASK.with(|t| t.get()) as usize
}

pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
pub fn fail<T: From<i8>>(e: i32) -> T {
    set_errno(e);
    T::from(-1)
}
/// convert a raw syscall result to libc convention
pub fn conv(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe { raw(libc::SYS_futex, a as *const _ as usize, 0, v as usize, 0, 0, 0) };
}
pub fn futex_wake(a: &AtomicU32) {
    unsafe { raw(libc::SYS_futex, a as *const _ as usize, 1, i32::MAX as usize, 0, 0, 0) };
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

/// something the simulator does not model: the run is void
pub fn harness(code: u32, arg: i64) -> ! {
    let w = w();
    w.warn = code;
    w.warn_arg = arg;
    sched::end_world(oc::HARNESS)
}

// ------------------------------------------------------------------ instrumentation callbacks
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    static mut N: u32 = 0;
    let mut p = start;
    while p < stop {
        N += 1;
        *p = N;
        p = p.add(1);
    }
    if !W.is_null() {
        w().guards.store(u64::from(N), Relaxed);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE {
        return;
    }
    let w = &mut *W;
    let i = (*g as usize) & (COV - 1);
    w.cov[i] = 1;
    let s = &mut w.sched;
    s.points += 1;
    if s.points >= s.next_slow {
        sched::slow_point(false);
    }
    if w.sched.site_on != 0 && w.site[i] != 0 {
        sched::site_point(i);
    }
}

// ------------------------------------------------------------------ start-up
type MainFn = unsafe extern "C" fn(c_int, *mut *mut c_char, *mut *mut c_char) -> c_int;
static mut REAL_MAIN: Option<MainFn> = None;

pub unsafe fn next_sym(name: &'static [u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr().cast());
    if p.is_null() {
        exit_now(97);
    }
    p
}

fn map_world() -> bool {
    unsafe {
        let v = libc::getenv(c"SIM_FD".as_ptr());
        if v.is_null() {
            return false;
        }
        let fd = libc::atoi(v);
        let size = world_size();
        let p = raw(libc::SYS_mmap, 0x2000_0000_0000, size, 3, 1 | 0x10_0000, fd as usize, 0);
        if p < 0 {
            return false;
        }
        W = p as *mut World;
        if (*W).magic != MAGIC {
            W = std::ptr::null_mut();
            return false;
        }
        raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
        true
    }
}

#[no_mangle]
pub unsafe extern "C" fn __libc_start_main(
    main: MainFn,
    argc: c_int,
    argv: *mut *mut c_char,
    init: *mut c_void,
    fini: *mut c_void,
    rtld_fini: *mut c_void,
    stack_end: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        MainFn,
        c_int,
        *mut *mut c_char,
        *mut c_void,
        *mut c_void,
        *mut c_void,
        *mut c_void,
    ) -> c_int;
    let real: F = std::mem::transmute(next_sym(b"__libc_start_main\0"));
    REAL_MAIN = Some(main);
    let m = if map_world() { zygote_main as MainFn } else { main };
    real(m, argc, argv, init, fini, rtld_fini, stack_end)
}

unsafe extern "C" fn zygote_main(
    _argc: c_int,
    _argv: *mut *mut c_char,
    envp: *mut *mut c_char,
) -> c_int {
    let w = w();
    raw(libc::SYS_prctl, 1, 9, 0, 0, 0, 0);
    sys::resolve_syms();
    // no LD_PRELOAD or SIM_FD for anything below; std::env reads `environ`
    libc::unsetenv(c"LD_PRELOAD".as_ptr());
    libc::unsetenv(c"SIM_FD".as_ptr());
    // threads take turns anyway, and every arena would reserve 64 MB of address space
    libc::mallopt(libc::M_ARENA_MAX, 1);
    let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
    libc::setrlimit(libc::RLIMIT_AS, &lim);
    let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &lim);
    w.ready.store(1, SeqCst);
    futex_wake(&w.ready);
    let mut seen = 0;
    loop {
        while w.cmd.load(SeqCst) == seen {
            futex_wait(&w.cmd, seen);
        }
        seen = w.cmd.load(SeqCst);
        if w.nprocs == 0 {
            exit_now(0);
        }
        run_once(w, envp);
        w.done.fetch_add(1, SeqCst);
        futex_wake(&w.done);
        w.drv.fetch_add(1, SeqCst);
        futex_wake(&w.drv);
    }
}

unsafe fn run_once(w: &mut World, _envp: *mut *mut c_char) {
    let n = w.nprocs as usize;
    let mut pids = [0isize; MAX_PROCS];
    for i in 0..n {
        let pid = raw(libc::SYS_fork, 0, 0, 0, 0, 0, 0);
        if pid == 0 {
            child(i);
        }
        if pid < 0 {
            w.zygote_err = 1;
            w.outcome.store(oc::HARNESS, SeqCst);
            break;
        }
        pids[i] = pid;
        w.procs[i].real_pid.store(pid as u32, SeqCst);
    }
    if w.outcome.load(SeqCst) == 0 {
        // hand the baton to the first task
        sched::start(w);
    }
    let mut left = n;
    let mut killed = false;
    loop {
        // the world is over: whatever still waits for its turn goes with it
        let o = w.outcome.load(SeqCst);
        if !killed && (o > oc::FINISHED || o == oc::FINISHED && left < n) {
            killed = true;
            for p in pids.iter().take(n) {
                if *p > 0 {
                    raw(libc::SYS_kill, *p as usize, 9, 0, 0, 0, 0);
                }
            }
        }
        if left == 0 {
            break;
        }
        let mut st: i32 = 0;
        let pid = raw(libc::SYS_wait4, usize::MAX, &mut st as *mut _ as usize, 0, 0, 0, 0);
        if pid == -(EINTR as isize) {
            continue;
        }
        if pid < 0 {
            break;
        }
        for i in 0..n {
            if pids[i] == pid {
                left -= 1;
                pids[i] = 0;
                w.procs[i].real_pid.store(0, SeqCst);
                if libc::WIFSIGNALED(st) && !killed && w.procs[i].state == ps::LIVE {
                    // died of a signal on its own (or the watchdog got it)
                    w.procs[i].state = ps::SIGNALED;
                    w.procs[i].exit_code = libc::WTERMSIG(st);
                    if w.outcome.load(SeqCst) == 0 {
                        w.outcome.store(
                            if libc::WTERMSIG(st) == 9 { oc::STALL } else { oc::FINISHED },
                            SeqCst,
                        );
                        if left > 0 {
                            killed = true;
                            for p in pids.iter().take(n) {
                                if *p > 0 {
                                    raw(libc::SYS_kill, *p as usize, 9, 0, 0, 0, 0);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

extern "C" {
    static mut environ: *mut *mut c_char;
}

unsafe fn child(i: usize) -> ! {
    let w = w();
    raw(libc::SYS_prctl, 1, 9, 0, 0, 0, 0);
    PROC = i;
    TASK.with(|t| t.set(i as u32));
    let p = &mut w.procs[i];
    let argc = p.argc as usize;
    let argv = libc::calloc(argc + 1, 8) as *mut *mut c_char;
    let blob = libc::malloc(p.args_len as usize + 1) as *mut u8;
    std::ptr::copy_nonoverlapping(p.args.as_ptr(), blob, p.args_len as usize);
    let mut off = 0usize;
    for a in 0..argc {
        *argv.add(a) = blob.add(off).cast();
        while *blob.add(off) != 0 {
            off += 1;
        }
        off += 1;
    }
    sched::wait_baton(i);
    ACTIVE = true;
    let r = REAL_MAIN.unwrap_unchecked()(argc as c_int, argv, environ);
    sched::proc_exit(ps::EXITED, r)
}
