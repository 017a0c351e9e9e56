//! Sockets, epoll, eventfd, name look-up (see `simdrive::net` for the other side of the wire).
use super::*;
use crate::fsapi::*;

const POLLIN: u32 = 1;
const POLLOUT: u32 = 4;
const POLLERR: u32 = 8;
const POLLHUP: u32 = 16;
const RDHUP: u32 = 0x2000;
const ET: u32 = 1 << 31;
const EINPROGRESS: i32 = 115;
const ENOTCONN: i32 = 107;
const ECONNRESET: i32 = 104;
const EPIPE: i32 = 32;
const EALREADY: i32 = 114;

/// Let the world outside act; it sets `net.next_event`.
pub fn driver_turn(_dl: i64) {
    let w = w();
    let n = w.drv.fetch_add(1, SeqCst).wrapping_add(1);
    futex_wake(&w.drv);
    loop {
        let b = w.drv_back.load(SeqCst);
        if b == n {
            return;
        }
        futex_wait(&w.drv_back, b);
    }
}

fn sock_ready(k: &Sock) -> u32 {
    let mut r = 0;
    match k.state {
        1 => return POLLOUT | POLLHUP,
        2 => {
            if k.conn_result < 0 {
                return POLLIN | POLLOUT | POLLERR | POLLHUP | RDHUP;
            }
            return 0;
        }
        _ => {}
    }
    if k.reset != 0 {
        return POLLIN | POLLOUT | POLLERR | POLLHUP | RDHUP;
    }
    if k.rx_read < k.rx_len {
        r |= POLLIN;
    }
    if k.rx_eof != 0 {
        r |= POLLIN | RDHUP;
    }
    if k.wblocked == 0 && (k.tx_len as usize) < k.tx.len() {
        r |= POLLOUT;
    }
    r
}

fn ready(i: &EpItem) -> u32 {
    let w = w();
    match i.kind {
        fdk::SOCK => {
            let k = &w.net.socks[i.ino as usize];
            let r = sock_ready(k) & (i.events | POLLERR | POLLHUP);
            if i.events & ET != 0 && k.gen == i.seen {
                0
            } else {
                r
            }
        }
        fdk::EVENT => {
            let e = &w.net.evs[i.ino as usize];
            if e.count == 0 || i.events & ET != 0 && e.gen == i.seen {
                0
            } else {
                POLLIN & i.events
            }
        }
        _ => 0,
    }
}

fn ep_ready(e: usize) -> bool {
    let ep = &w().net.eps[e];
    ep.items[..ep.n as usize].iter().any(|i| ready(i) != 0)
}

/// Wake the tasks whose poll has something to report.
pub fn wake_ready() -> bool {
    let w = w();
    let mut any = false;
    for t in w.tasks.iter_mut() {
        if t.state == ts::NET && ep_ready(t.fut_addr as usize) {
            t.state = ts::RUNNABLE;
            any = true;
        }
    }
    any
}

pub fn sock_closed(i: usize) {
    let k = &mut w().net.socks[i];
    k.state = 4;
}

fn forget(kind: u32, ino: u32, fd: c_int) {
    let p = unsafe { PROC } as u32;
    let w = w();
    for e in w.net.eps[..w.net.eps_n as usize].iter_mut() {
        if e.proc != p {
            continue;
        }
        let n = e.n as usize;
        let mut k = 0;
        for i in 0..n {
            let x = e.items[i];
            if x.kind == kind && x.ino == ino && x.fd == fd {
                continue;
            }
            e.items[k] = x;
            k += 1;
        }
        e.n = k as u32;
    }
}

pub fn close_fd(fd: c_int, f: Fd) {
    sched::op_point();
    fd_mut(fd).kind = fdk::FREE;
    forget(f.kind, f.ino, fd);
    match f.kind {
        fdk::SOCK => sock_closed(f.ino as usize),
        fdk::EPOLL => {
            let e = &mut w().net.eps[f.ino as usize];
            e.refs = e.refs.saturating_sub(1);
        }
        _ => {}
    }
}
pub fn dup_fd(f: Fd) {
    match f.kind {
        fdk::EPOLL => w().net.eps[f.ino as usize].refs += 1,
        fdk::SOCK => harness(23, 0),
        _ => {}
    }
}

fn sock_of(fd: c_int) -> R<usize> {
    let f = fd_get(fd)?;
    if f.kind != fdk::SOCK {
        return Err(88);
    }
    Ok(f.ino as usize)
}

unsafe fn do_recv(i: usize, b: *mut u8, n: usize, peek: bool) -> isize {
    let a = net_begin(n);
    if a != 0 {
        net_finish(i, n as i64, -i64::from(a));
        return fail(a);
    }
    let w = w();
    let k = &mut w.net.socks[i];
    let r: i64 = if k.state < 3 {
        -i64::from(ENOTCONN)
    } else if k.rx_read < k.rx_len {
        let m = n.min((k.rx_len - k.rx_read) as usize);
        std::ptr::copy_nonoverlapping(k.rx.as_ptr().add(k.rx_read as usize), b, m);
        if !peek {
            k.rx_read += m as u64;
        }
        m as i64
    } else if k.reset != 0 {
        if k.reset == 2 {
            0
        } else {
            k.reset = 2;
            -i64::from(ECONNRESET)
        }
    } else if k.rx_eof != 0 || n == 0 {
        0
    } else {
        -i64::from(EAGAIN)
    };
    net_finish(i, n as i64, r);
    if r < 0 {
        return fail(-r as i32);
    }
    r as isize
}

unsafe fn do_send(i: usize, b: *const u8, n: usize) -> isize {
    let a = net_begin(n);
    if a != 0 {
        net_finish(i, n as i64, -i64::from(a));
        return fail(a);
    }
    let w = w();
    let cut = w.short_permille > 0 && n > 1 && w.io_rng.chance(w.short_permille.into());
    let part = if cut { 1 + w.io_rng.below(n as u64 - 1) as usize } else { n };
    let k = &mut w.net.socks[i];
    let r: i64 = if k.state < 3 {
        -i64::from(ENOTCONN)
    } else if k.reset != 0 || k.tx_shut != 0 {
        -i64::from(EPIPE)
    } else {
        let room = k.tx.len() - k.tx_len as usize;
        let m = part.min(room);
        if k.wblocked != 0 || m == 0 && n > 0 {
            k.wblocked = 1;
            -i64::from(EAGAIN)
        } else {
            std::ptr::copy_nonoverlapping(b, k.tx.as_mut_ptr().add(k.tx_len as usize), m);
            k.tx_len += m as u64;
            if m < n {
                // as if the send buffer were full
                k.wblocked = 1;
            }
            w.net.bytes += m as u64;
            m as i64
        }
    };
    if r >= 0 && (r as usize) < n {
        w.short_fired += 1;
    }
    net_finish(i, n as i64, r);
    if r < 0 {
        return fail(-r as i32);
    }
    r as isize
}

pub fn fd_read(_fd: c_int, f: Fd, b: *mut u8, n: usize) -> isize {
    if f.kind == fdk::SOCK {
        return unsafe { do_recv(f.ino as usize, b, n, false) };
    }
    sched::op_point();
    let e = &mut w().net.evs[f.ino as usize];
    if n < 8 {
        return fail(EINVAL);
    }
    if e.count == 0 {
        return fail(EAGAIN);
    }
    unsafe { std::ptr::copy_nonoverlapping(e.count.to_ne_bytes().as_ptr(), b, 8) };
    e.count = 0;
    8
}
pub fn fd_write(_fd: c_int, f: Fd, b: *const u8, n: usize) -> isize {
    if f.kind == fdk::SOCK {
        return unsafe { do_send(f.ino as usize, b, n) };
    }
    if n < 8 {
        return fail(EINVAL);
    }
    let mut v = [0u8; 8];
    unsafe { std::ptr::copy_nonoverlapping(b, v.as_mut_ptr(), 8) };
    let e = &mut w().net.evs[f.ino as usize];
    e.count = e.count.saturating_add(u64::from_ne_bytes(v));
    e.gen = e.gen.wrapping_add(1);
    wake_ready();
    sched::op_point();
    8
}

#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, pr: c_int) -> c_int {
    if !active() {
        return conv(raw(41, dom as usize, ty as usize, pr as usize, 0, 0, 0)) as c_int;
    }
    let a = net_begin(0);
    if a != 0 {
        net_finish(0, i64::from(dom), -i64::from(a));
        return fail(a);
    }
    if dom != 2 || ty & 0xf != 1 {
        return fail(97);
    }
    let w = w();
    if w.net.enabled == 0 {
        return fail(13);
    }
    let i = w.net.nsocks as usize;
    if i >= MAX_SOCKS {
        harness(21, 0);
    }
    w.net.nsocks += 1;
    let k = &mut w.net.socks[i];
    k.state = 1;
    k.proc = PROC as u32;
    let f = Fd { kind: fdk::SOCK, ino: i as u32, flags: 2, refs: 1, pos: 0, path: 0, aux: 0 };
    let r = fd_alloc(f, 3);
    net_finish(i, 0, r.map_or_else(|e| -i64::from(e), i64::from));
    r.unwrap_or_else(fail)
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, sa: *const libc::sockaddr_in, n: u32) -> c_int {
    if !active() {
        return conv(raw(42, fd as usize, sa as usize, n as usize, 0, 0, 0)) as c_int;
    }
    let i = match sock_of(fd) {
        Ok(i) => i,
        Err(e) => return fail(e),
    };
    let a = net_begin(0);
    if a != 0 {
        net_finish(i, 0, -i64::from(a));
        return fail(a);
    }
    let w = w();
    let k = &mut w.net.socks[i];
    if k.state != 1 {
        return fail(EALREADY);
    }
    k.state = 2;
    k.conn_result = 0;
    k.host = u32::from_be((*sa).sin_addr.s_addr);
    k.port = u32::from(u16::from_be((*sa).sin_port));
    net_finish(i, i64::from(k.port), -i64::from(EINPROGRESS));
    fail(EINPROGRESS)
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(
    fd: c_int,
    level: c_int,
    name: c_int,
    val: *mut c_int,
    len: *mut u32,
) -> c_int {
    if !active() {
        return conv(raw(55, fd as usize, level as usize, name as usize, val as usize, len as usize, 0))
            as c_int;
    }
    let i = match sock_of(fd) {
        Ok(i) => i,
        Err(e) => return fail(e),
    };
    let k = &mut w().net.socks[i];
    *val = 0;
    *len = 4;
    if level == 1 && name == 4 {
        if k.state == 2 && k.conn_result < 0 {
            *val = -k.conn_result;
            k.state = 1;
        } else {
            *val = k.so_error;
            k.so_error = 0;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(
    fd: c_int,
    level: c_int,
    name: c_int,
    val: *const c_void,
    len: u32,
) -> c_int {
    if !active() {
        return conv(raw(54, fd as usize, level as usize, name as usize, val as usize, len as usize, 0))
            as c_int;
    }
    match sock_of(fd) {
        Ok(_) => 0,
        Err(e) => fail(e),
    }
}
unsafe fn put_addr(sa: *mut libc::sockaddr_in, len: *mut u32, ip: u32, port: u32) -> c_int {
    let mut a: libc::sockaddr_in = std::mem::zeroed();
    a.sin_family = 2;
    a.sin_port = (port as u16).to_be();
    a.sin_addr.s_addr = ip.to_be();
    let n = (*len as usize).min(16);
    std::ptr::copy_nonoverlapping(std::ptr::addr_of!(a).cast::<u8>(), sa.cast::<u8>(), n);
    *len = 16;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, sa: *mut libc::sockaddr_in, len: *mut u32) -> c_int {
    if !active() {
        return conv(raw(52, fd as usize, sa as usize, len as usize, 0, 0, 0)) as c_int;
    }
    let i = match sock_of(fd) {
        Ok(i) => i,
        Err(e) => return fail(e),
    };
    let k = &w().net.socks[i];
    if k.state < 3 || k.reset != 0 {
        return fail(ENOTCONN);
    }
    put_addr(sa, len, k.host, k.port)
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, sa: *mut libc::sockaddr_in, len: *mut u32) -> c_int {
    if !active() {
        return conv(raw(51, fd as usize, sa as usize, len as usize, 0, 0, 0)) as c_int;
    }
    match sock_of(fd) {
        Ok(i) => put_addr(sa, len, 0x0a00_00fe, 40_000 + i as u32),
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const u8, n: usize, fl: c_int) -> isize {
    if !active() {
        return conv(raw(44, fd as usize, b as usize, n, fl as usize, 0, 0));
    }
    match sock_of(fd) {
        Ok(i) => do_send(i, b, n),
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut u8, n: usize, fl: c_int) -> isize {
    if !active() {
        return conv(raw(45, fd as usize, b as usize, n, fl as usize, 0, 0));
    }
    match sock_of(fd) {
        Ok(i) => do_recv(i, b, n, fl & 2 != 0),
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !active() {
        return conv(raw(48, fd as usize, how as usize, 0, 0, 0, 0)) as c_int;
    }
    match sock_of(fd) {
        Ok(i) => {
            sched::op_point();
            let k = &mut w().net.socks[i];
            if k.state < 3 || k.reset != 0 {
                return fail(ENOTCONN);
            }
            if how != 0 {
                k.tx_shut = 1;
            }
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, sa: usize, n: u32) -> c_int {
    if !active() {
        return conv(raw(49, fd as usize, sa, n as usize, 0, 0, 0)) as c_int;
    }
    fail(98)
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if !active() {
        return conv(raw(50, fd as usize, n as usize, 0, 0, 0, 0)) as c_int;
    }
    fail(98)
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, sa: usize, n: usize, fl: c_int) -> c_int {
    if !active() {
        return conv(raw(288, fd as usize, sa, n, fl as usize, 0, 0)) as c_int;
    }
    fail(EINVAL)
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    if !active() {
        return conv(raw(291, fl as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let w = w();
    let i = w.net.eps_n as usize;
    if i >= MAX_EPS {
        harness(24, 0);
    }
    w.net.eps_n += 1;
    let e = &mut w.net.eps[i];
    e.refs = 1;
    e.proc = PROC as u32;
    e.n = 0;
    let f = Fd { kind: fdk::EPOLL, ino: i as u32, flags: 2, refs: 1, pos: 0, path: 0, aux: 0 };
    fd_alloc(f, 3).unwrap_or_else(fail)
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(n: u32, fl: c_int) -> c_int {
    if !active() {
        return conv(raw(290, n as usize, fl as usize, 0, 0, 0, 0)) as c_int;
    }
    let w = w();
    let i = w.net.evs_n as usize;
    if i >= MAX_EPS {
        harness(24, 1);
    }
    w.net.evs_n += 1;
    let e = &mut w.net.evs[i];
    e.refs = 1;
    e.gen = 1;
    e.count = u64::from(n);
    let f = Fd { kind: fdk::EVENT, ino: i as u32, flags: 2, refs: 1, pos: 0, path: 0, aux: 0 };
    fd_alloc(f, 3).unwrap_or_else(fail)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, opn: c_int, fd: c_int, ev: *const libc::epoll_event) -> c_int {
    if !active() {
        return conv(raw(233, ep as usize, opn as usize, fd as usize, ev as usize, 0, 0)) as c_int;
    }
    let (e, f) = match (fd_get(ep), fd_get(fd)) {
        (Ok(e), Ok(f)) if e.kind == fdk::EPOLL => (e, f),
        (Ok(_), Ok(_)) => return fail(EINVAL),
        _ => return fail(EBADF),
    };
    if f.kind != fdk::SOCK && f.kind != fdk::EVENT {
        return fail(EPERM);
    }
    let w = w();
    let gen = match f.kind {
        fdk::SOCK => w.net.socks[f.ino as usize].gen,
        _ => w.net.evs[f.ino as usize].gen,
    };
    let t = &mut w.net.eps[e.ino as usize];
    let at = t.items[..t.n as usize].iter().position(|i| i.fd == fd && i.kind == f.kind && i.ino == f.ino);
    match (opn, at) {
        (1, None) => {
            if t.n as usize >= t.items.len() {
                harness(25, 0);
            }
            t.items[t.n as usize] = EpItem {
                fd,
                kind: f.kind,
                ino: f.ino,
                events: (*ev).events,
                data: (*ev).u64,
                seen: gen.wrapping_sub(1),
            };
            t.n += 1;
        }
        (1, Some(_)) => return fail(EEXIST),
        (3, Some(i)) => {
            let x = &mut t.items[i];
            x.events = (*ev).events;
            x.data = (*ev).u64;
            x.seen = gen.wrapping_sub(1);
        }
        (2, Some(i)) => {
            let n = t.n as usize;
            t.items.copy_within(i + 1..n, i);
            t.n -= 1;
        }
        _ => return fail(ENOENT),
    }
    sched::op_point();
    0
}

unsafe fn collect(e: usize, evs: *mut libc::epoll_event, max: usize) -> usize {
    let w = w();
    let mut n = 0;
    for k in 0..w.net.eps[e].n as usize {
        if n == max {
            break;
        }
        let it = w.net.eps[e].items[k];
        let r = ready(&it);
        if r == 0 {
            continue;
        }
        *evs.add(n) = libc::epoll_event { events: r, u64: it.data };
        n += 1;
        let gen = match it.kind {
            fdk::SOCK => w.net.socks[it.ino as usize].gen,
            _ => w.net.evs[it.ino as usize].gen,
        };
        w.net.eps[e].items[k].seen = gen;
    }
    n
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(
    ep: c_int,
    evs: *mut libc::epoll_event,
    max: c_int,
    timeout: c_int,
) -> c_int {
    if !active() {
        return conv(raw(232, ep as usize, evs as usize, max as usize, timeout as usize, 0, 0)) as c_int;
    }
    let e = match fd_get(ep) {
        Ok(e) if e.kind == fdk::EPOLL => e.ino as usize,
        Ok(_) => return fail(EINVAL),
        Err(e) => return fail(e),
    };
    sched::op_point();
    let w = w();
    w.now += w.op_cost;
    if w.eintr_permille > 0 && w.io_rng.chance(w.eintr_permille.into()) {
        w.eintr_fired += 1;
        return fail(EINTR);
    }
    let mut n = collect(e, evs, max as usize);
    if n > 0 || timeout == 0 {
        return n as c_int;
    }
    let m = me();
    let dl = if timeout < 0 { NEVER } else { w.now + i64::from(timeout) * 1_000_000 };
    loop {
        w.tasks[m].state = ts::NET;
        w.tasks[m].fut_addr = e as u64;
        w.tasks[m].deadline = dl;
        w.tasks[m].timed_out = 0;
        sched::block();
        n = collect(e, evs, max as usize);
        if n > 0 || w.tasks[m].timed_out != 0 {
            w.tasks[m].timed_out = 0;
            w.tasks[m].deadline = NEVER;
            return n as c_int;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: u64, _t: c_int) -> c_int {
    if !active() {
        return conv(raw(7, fds as usize, n as usize, _t as usize, 0, 0, 0)) as c_int;
    }
    for i in 0..n as usize {
        (*fds.add(i)).revents = 0;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    node: *const c_char,
    _service: *const c_char,
    hints: *const libc::addrinfo,
    res: *mut *mut libc::addrinfo,
) -> c_int {
    *res = std::ptr::null_mut();
    if !active() {
        return -2;
    }
    let name = std::ffi::CStr::from_ptr(node).to_bytes();
    sched::op_point();
    let w = w();
    let i = w.net.lookups as usize;
    w.net.lookups += 1;
    if w.net.enabled == 0 {
        return -3;
    }
    let r = w.net.dns[i & 15];
    crate::sys::sleep_until(w.now + w.net.dns_ns);
    if r != 0 {
        return r;
    }
    let mut ip = 0;
    for h in 0..w.net.hosts_n as usize {
        let b = &w.net.hosts[h];
        let l = b.iter().position(|c| *c == 0).unwrap_or(64);
        if &b[..l] == name {
            ip = 0x0a00_0001 + h as u32;
        }
    }
    if ip == 0 {
        return -2;
    }
    let st = if hints.is_null() { 1 } else { (*hints).ai_socktype };
    let p = libc::calloc(1, 128) as *mut u8;
    let ai = p as *mut libc::addrinfo;
    let sa = p.add(64) as *mut libc::sockaddr_in;
    (*sa).sin_family = 2;
    (*sa).sin_addr.s_addr = ip.to_be();
    (*ai).ai_family = 2;
    (*ai).ai_socktype = st;
    (*ai).ai_protocol = 6;
    (*ai).ai_addrlen = 16;
    (*ai).ai_addr = sa.cast();
    *res = ai;
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut ai: *mut libc::addrinfo) {
    while !ai.is_null() {
        let n = (*ai).ai_next;
        libc::free(ai.cast());
        ai = n;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __res_init() -> c_int {
    0
}
