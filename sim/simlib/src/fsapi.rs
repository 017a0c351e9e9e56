//! The file API of libc, served from the simulated file system.
use super::*;

const AT_FDCWD: c_int = -100;

#[derive(Clone, Copy)]
struct Act {
    errno: i32,
    short: i64,
    kill: u32,
    kill_arg: i64,
    all: bool,
    flip: i64,
    kind: u32,
}

unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    if p.is_null() {
        return b"";
    }
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p.cast(), n)
}

fn cwd() -> &'static [u8] {
    let p = &w().procs[unsafe { PROC }];
    &p.cwd[..p.cwd_len as usize]
}

/// Scheduling point and fault decision in front of one file operation.
fn begin(class: u8, path: usize, len: usize) -> Act {
    sched::op_point();
    let w = w();
    let pr = unsafe { PROC };
    w.procs[pr].ops += 1;
    let opn = w.procs[pr].ops;
    w.now += w.op_cost;
    let mut a =
        Act { errno: 0, short: -1, kill: 0, kill_arg: 0, all: false, flip: -1, kind: 0 };
    let mut switch = false;
    for i in 0..w.faults_n as usize {
        let f = w.faults[i];
        if f.proc >= 0 && f.proc as usize != pr {
            continue;
        }
        let hit = if f.at_op > 0 {
            f.at_op == opn
        } else {
            let nm = w.path_name(path);
            let sl = f.suffix_len as usize;
            let m = f.class_mask & op::bit(class) != 0
                && nm.len() >= sl
                && nm[nm.len() - sl..] == f.suffix[..sl];
            if m {
                w.faults[i].seen += 1;
                w.faults[i].seen > f.skip && w.faults[i].seen - f.skip <= f.count
            } else {
                false
            }
        };
        if !hit {
            continue;
        }
        // a fault that cannot apply to this kind of call does not count as fired
        let applies = match f.kind {
            fk::SHORT => {
                matches!(class, op::READ | op::WRITE | op::COPYRANGE) && len as i64 > f.arg
            }
            fk::KILL_MID => class == op::WRITE && len as i64 > f.arg,
            fk::FLIP => class == op::READ,
            fk::ERRNO => errno_applies(class, f.arg as i32),
            _ => true,
        };
        if !applies {
            continue;
        }
        w.faults[i].fired += 1;
        a.kind = f.kind;
        match f.kind {
            fk::ERRNO => a.errno = f.arg as i32,
            fk::SHORT => a.short = f.arg.max(1),
            fk::KILL_BEFORE => die(f.class_mask >> 31 != 0),
            fk::KILL_AFTER => {
                a.kill = fk::KILL_AFTER;
                a.all = f.class_mask >> 31 != 0;
            }
            fk::KILL_MID => {
                a.kill = fk::KILL_MID;
                a.kill_arg = f.arg;
                a.all = f.class_mask >> 31 != 0;
            }
            fk::CLOCK => w.real_off += f.arg,
            fk::DELAY => w.now += f.arg,
            fk::FLIP => a.flip = f.arg,
            fk::EXT => {
                let x = w.exts[f.arg as usize & 15];
                w.ext_apply(&x);
                let mut pb = [0u8; PATH_LEN];
                let l = x.path_len as usize;
                pb[..l].copy_from_slice(&x.path[..l]);
                let pid = w.path_id(&pb[..l]).unwrap_or(0);
                let (h, n) = content_hash(w.paths[pid].ino as usize);
                w.log(Ev {
                    class: op::EXT,
                    proc: pr as u8,
                    task: me() as u8,
                    op: opn,
                    path: pid as u16,
                    arg: f.arg,
                    hash: h,
                    len: n,
                    mutated: 1,
                    ..sched::zero_ev()
                });
            }
            fk::SWITCH => switch = true,
            _ => {}
        }
    }
    if matches!(class, op::READ | op::WRITE | op::COPYRANGE) {
        if w.short_permille > 0 && len > 1 && a.short < 0 && w.io_rng.chance(w.short_permille.into())
        {
            a.short = 1 + w.io_rng.below(len as u64 - 1) as i64;
            w.short_fired += 1;
        }
        if w.eintr_permille > 0 && a.errno == 0 && w.io_rng.chance(w.eintr_permille.into()) {
            a.errno = EINTR;
            w.eintr_fired += 1;
        }
    } else if class == op::OPEN
        && w.eintr_permille > 0
        && a.errno == 0
        && w.io_rng.chance(w.eintr_permille.into())
    {
        a.errno = EINTR;
        w.eintr_fired += 1;
    }
    if switch {
        sched::yield_now();
    }
    a
}

/// Only errors the real call could give.
fn errno_applies(class: u8, e: i32) -> bool {
    if class == op::NET {
        // reset, timed out, no buffers, broken
        return matches!(e, EIO | ENOMEM | 104 | 105 | 110);
    }
    match e {
        ENOSPC => matches!(
            class,
            op::WRITE | op::OPEN | op::RENAME | op::MKDIR | op::TRUNC | op::LINK | op::SYMLINK
                | op::COPYRANGE | op::FSYNC
        ),
        EMFILE | ENFILE => matches!(class, op::OPEN | op::READDIR),
        EACCES | EPERM => matches!(
            class,
            op::OPEN | op::STAT | op::RENAME | op::UNLINK | op::MKDIR | op::RMDIR | op::CHMOD
                | op::LINK | op::SYMLINK | op::READLINK | op::UTIME | op::READDIR
        ),
        EROFS => matches!(
            class,
            op::OPEN | op::RENAME | op::UNLINK | op::MKDIR | op::RMDIR | op::CHMOD | op::LINK
                | op::SYMLINK
        ),
        ENOENT | ELOOP | ENOTDIR => matches!(
            class,
            op::OPEN | op::STAT | op::RENAME | op::UNLINK | op::READLINK | op::CHMOD | op::LINK
        ),
        EINTR => matches!(class, op::READ | op::WRITE | op::OPEN),
        EIO => !matches!(class, op::GETCWD | op::SEEK),
        ENOMEM => matches!(class, op::OPEN | op::STAT | op::READDIR),
        _ => true,
    }
}

pub fn die(all: bool) -> ! {
    let w = w();
    w.log(Ev {
        class: op::KILL,
        proc: unsafe { PROC } as u8,
        task: me() as u8,
        arg: i64::from(all),
        ..sched::zero_ev()
    });
    if all {
        for p in w.procs.iter_mut() {
            if p.state == ps::LIVE {
                p.state = ps::KILLED;
                p.exit_code = 137;
            }
        }
        sched::end_world(oc::FINISHED);
    }
    sched::proc_exit(ps::KILLED, 137)
}

fn content_hash(ino: usize) -> (u64, u64) {
    let w = w();
    if ino == 0 {
        return (0, 0);
    }
    match w.inodes[ino].kind {
        ik::FILE => {
            let c = w.content(ino);
            (hash_bytes(c) | 1, c.len() as u64)
        }
        ik::DIR => (3, 0),
        _ => (5, 0),
    }
}

#[allow(clippy::too_many_arguments)]
fn finish(
    class: u8,
    path: usize,
    path2: usize,
    arg: i64,
    res: i64,
    mutated: bool,
    hash_ino: usize,
    a: &Act,
) {
    let w = w();
    let (hash, len) = if mutated { content_hash(hash_ino) } else { (0, 0) };
    let pr = unsafe { PROC };
    w.log(Ev {
        class,
        proc: pr as u8,
        task: me() as u8,
        op: w.procs[pr].ops,
        fault: a.kind as u8,
        path: path as u16,
        path2: path2 as u16,
        arg,
        res,
        hash,
        len,
        mutated: u32::from(mutated),
        ..sched::zero_ev()
    });
    if a.kill != 0 {
        die(a.all);
    }
}

/// In front of a socket operation: an error to fail with, or 0.
pub fn net_begin(len: usize) -> i32 {
    let a = begin(op::NET, 0, len);
    unsafe { NET_ACT = Some(a) };
    unsafe { NET_ACT.as_ref().map_or(0, |a| a.errno) }
}
static mut NET_ACT: Option<Act> = None;
pub fn net_finish(sock: usize, arg: i64, res: i64) {
    let a = unsafe { NET_ACT.take() };
    if let Some(a) = a {
        finish(op::NET, 0, 0, (sock as i64) << 32 | arg, res, false, 0, &a);
    }
}

fn resolve_at(dirfd: c_int, raw: &[u8], follow: bool) -> R<PathBufN> {
    let w = w();
    if raw.first() != Some(&b'/') && dirfd != AT_FDCWD {
        let f = fd_get(dirfd)?;
        let base = w.paths[f.path as usize];
        return w.resolve(&base.name[..base.len as usize], raw, follow);
    }
    w.resolve(cwd(), raw, follow)
}

pub fn fd_get(fd: c_int) -> R<Fd> {
    if fd < 0 || fd as usize >= MAX_FDS {
        return Err(EBADF);
    }
    let f = w().procs[unsafe { PROC }].fds[fd as usize];
    if f.kind == fdk::FREE {
        return Err(EBADF);
    }
    Ok(f)
}
pub fn fd_mut(fd: c_int) -> &'static mut Fd {
    &mut w().procs[unsafe { PROC }].fds[fd as usize]
}
pub fn fd_alloc(f: Fd, from: usize) -> R<c_int> {
    let p = &mut w().procs[unsafe { PROC }];
    for i in from..MAX_FDS {
        if p.fds[i].kind == fdk::FREE {
            p.fds[i] = f;
            return Ok(i as c_int);
        }
    }
    Err(EMFILE)
}

// ------------------------------------------------------------------ open / close
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let w = w();
    let raw_p = cstr(path);
    const O_CREAT: i32 = 0o100;
    const O_EXCL: i32 = 0o200;
    const O_NOFOLLOW: i32 = 0o400_000;
    let follow = flags & O_NOFOLLOW == 0 && flags & (O_CREAT | O_EXCL) != (O_CREAT | O_EXCL);
    let rp = resolve_at(dirfd, raw_p, follow);
    let pid = rp.and_then(|p| w.path_id(p.as_slice())).unwrap_or(0);
    let a = begin(op::OPEN, pid, 0);
    let r: R<(usize, c_int)> = (|| {
        if a.errno != 0 {
            return Err(a.errno);
        }
        // resolve again: others may have run in between
        let p = resolve_at(dirfd, raw_p, follow)?;
        // a descriptor must be free before anything happens
        if !w.procs[PROC].fds.iter().any(|f| f.kind == fdk::FREE) {
            return Err(EMFILE);
        }
        let um = w.procs[PROC].umask;
        let (ino, _created) = w.open(p.as_slice(), flags, mode & !um)?;
        w.inodes[ino].opens += 1;
        let fd = fd_alloc(
            Fd {
                kind: fdk::FILE,
                ino: ino as u32,
                flags: flags as u32,
                refs: 1,
                pos: 0,
                path: w.path_id(p.as_slice())? as u32,
                aux: 0,
            },
            3,
        )?;
        Ok((ino, fd))
    })();
    match r {
        Ok((ino, fd)) => {
            let mutated = flags & (O_CREAT | 0o1000) != 0;
            finish(op::OPEN, pid, 0, i64::from(flags), i64::from(fd), mutated, ino, &a);
            fd
        }
        Err(e) => {
            finish(op::OPEN, pid, 0, i64::from(flags), -i64::from(e), false, 0, &a);
            fail::<i32>(e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if !active() {
        return conv(raw(2, path as usize, flags as usize, mode as usize, 0, 0, 0)) as c_int;
    }
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if !active() {
        return conv(raw(257, d as usize, path as usize, flags as usize, mode as usize, 0, 0))
            as c_int;
    }
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    openat64(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: u32) -> c_int {
    open64(path, 0o1101, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !active() {
        return conv(raw(3, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let f = match fd_get(fd) {
        Ok(f) => f,
        Err(e) => return fail(e),
    };
    match f.kind {
        fdk::FILE => {
            let a = begin(op::CLOSE, f.path as usize, 0);
            let w = w();
            fd_mut(fd).kind = fdk::FREE;
            let n = &mut w.inodes[f.ino as usize];
            n.opens = n.opens.saturating_sub(1);
            if n.opens == 0 && n.nlink == 0 && w.disk_free >= 0 {
                w.disk_free += w.inodes[f.ino as usize].len as i64;
            }
            finish(
                op::CLOSE,
                f.path as usize,
                0,
                i64::from(fd),
                -i64::from(a.errno),
                false,
                0,
                &a,
            );
            // the descriptor is gone in any case
            if a.errno != 0 {
                return fail(a.errno);
            }
            0
        }
        fdk::SOCK | fdk::EPOLL | fdk::EVENT => {
            netapi::close_fd(fd, f);
            0
        }
        _ => {
            fd_mut(fd).kind = fdk::FREE;
            0
        }
    }
}

// ------------------------------------------------------------------ read / write
unsafe fn do_read(fd: c_int, buf: *mut u8, len: usize, at: Option<u64>) -> isize {
    let f = match fd_get(fd) {
        Ok(f) => f,
        Err(e) => return fail(e),
    };
    match f.kind {
        fdk::STDIN => return 0,
        fdk::SOCK | fdk::EVENT => return netapi::fd_read(fd, f, buf, len),
        fdk::FILE => {}
        _ => return fail(EBADF),
    }
    let w = w();
    let a = begin(op::READ, f.path as usize, len);
    let f = *fd_mut(fd);
    let ino = f.ino as usize;
    let mut e = a.errno;
    if e == 0 && w.inodes[ino].kind == ik::DIR {
        e = EISDIR;
    }
    if e == 0 && f.flags & 3 == 1 {
        e = EBADF;
    }
    if e != 0 {
        finish(op::READ, f.path as usize, 0, len as i64, -i64::from(e), false, 0, &a);
        return fail(e);
    }
    let pos = at.unwrap_or(f.pos);
    let c = w.content(ino);
    let avail = (c.len() as u64).saturating_sub(pos) as usize;
    let mut n = avail.min(len);
    if a.short >= 0 {
        n = n.min(a.short as usize);
    }
    let out = std::slice::from_raw_parts_mut(buf, n);
    if n > 0 {
        out.copy_from_slice(&c[pos as usize..pos as usize + n]);
    }
    if a.flip >= 0 && n > 0 {
        let bit = a.flip as usize % (n * 8);
        out[bit / 8] ^= 1 << (bit % 8);
    }
    if at.is_none() {
        fd_mut(fd).pos = pos + n as u64;
    }
    finish(op::READ, f.path as usize, 0, len as i64, n as i64, false, 0, &a);
    n as isize
}

fn stdio_write(kind: u32, d: &[u8]) -> isize {
    let w = w();
    let p = &mut w.procs[unsafe { PROC }];
    let (buf, len) = if kind == fdk::STDOUT {
        (&mut p.out, &mut p.out_len)
    } else {
        (&mut p.err, &mut p.err_len)
    };
    let room = STDIO_CAP - *len as usize;
    let n = d.len().min(room);
    buf[*len as usize..*len as usize + n].copy_from_slice(&d[..n]);
    *len += n as u32;
    if n < d.len() {
        p.out_lost += 1;
    }
    d.len() as isize
}

unsafe fn do_write(fd: c_int, buf: *const u8, len: usize, at: Option<u64>) -> isize {
    let f = match fd_get(fd) {
        Ok(f) => f,
        Err(e) => return fail(e),
    };
    match f.kind {
        fdk::STDOUT | fdk::STDERR => {
            return stdio_write(f.kind, std::slice::from_raw_parts(buf, len))
        }
        fdk::SOCK | fdk::EVENT => return netapi::fd_write(fd, f, buf, len),
        fdk::FILE => {}
        _ => return fail(EBADF),
    }
    let w = w();
    let a = begin(op::WRITE, f.path as usize, len);
    let f = *fd_mut(fd);
    let ino = f.ino as usize;
    let mut e = a.errno;
    if e == 0 && f.flags & 3 == 0 {
        e = EBADF;
    }
    if e != 0 {
        finish(op::WRITE, f.path as usize, 0, len as i64, -i64::from(e), false, 0, &a);
        return fail(e);
    }
    let mut n = len;
    if a.short >= 0 {
        n = n.min(a.short as usize);
    }
    if a.kill == fk::KILL_MID {
        n = n.min(a.kill_arg as usize);
    }
    let append = f.flags & 0o2000 != 0;
    let pos = match at {
        Some(p) => p,
        None if append => w.inodes[ino].len,
        None => f.pos,
    };
    match w.write_at(ino, pos, std::slice::from_raw_parts(buf, n)) {
        Ok(n) => {
            if at.is_none() {
                fd_mut(fd).pos = pos + n as u64;
            }
            finish(op::WRITE, f.path as usize, 0, len as i64, n as i64, true, ino, &a);
            n as isize
        }
        Err(e) => {
            finish(op::WRITE, f.path as usize, 0, len as i64, -i64::from(e), false, 0, &a);
            fail(e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, len: usize) -> isize {
    if !active() {
        return conv(raw(0, fd as usize, buf as usize, len, 0, 0, 0));
    }
    do_read(fd, buf, len, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut u8, len: usize, o: i64) -> isize {
    if !active() {
        return conv(raw(17, fd as usize, buf as usize, len, o as usize, 0, 0));
    }
    do_read(fd, buf, len, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if !active() {
        return conv(raw(19, fd as usize, iov as usize, n as usize, 0, 0, 0));
    }
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return do_read(fd, v.iov_base.cast(), v.iov_len, None);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, len: usize) -> isize {
    if !active() {
        return conv(raw(1, fd as usize, buf as usize, len, 0, 0, 0));
    }
    do_write(fd, buf, len, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const u8, len: usize, o: i64) -> isize {
    if !active() {
        return conv(raw(18, fd as usize, buf as usize, len, o as usize, 0, 0));
    }
    do_write(fd, buf, len, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if !active() {
        return conv(raw(20, fd as usize, iov as usize, n as usize, 0, 0, 0));
    }
    if let Ok(f) = fd_get(fd) {
        if f.kind == fdk::STDOUT || f.kind == fdk::STDERR {
            let mut t = 0;
            for i in 0..n as usize {
                let v = &*iov.add(i);
                t += do_write(fd, v.iov_base.cast(), v.iov_len, None);
            }
            return t;
        }
        if f.kind == fdk::SOCK {
            // gather
            let mut b: Vec<u8> = Vec::new();
            for i in 0..n as usize {
                let v = &*iov.add(i);
                b.extend_from_slice(std::slice::from_raw_parts(v.iov_base.cast(), v.iov_len));
            }
            return do_write(fd, b.as_ptr(), b.len(), None);
        }
    }
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return do_write(fd, v.iov_base.cast(), v.iov_len, None);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, wh: c_int) -> i64 {
    if !active() {
        return conv(raw(8, fd as usize, o as usize, wh as usize, 0, 0, 0)) as i64;
    }
    let f = match fd_get(fd) {
        Ok(f) => f,
        Err(e) => return fail(e),
    };
    if f.kind != fdk::FILE {
        return fail(29);
    }
    let a = begin(op::SEEK, f.path as usize, 0);
    let len = w().inodes[f.ino as usize].len as i64;
    let base = match wh {
        0 => 0,
        1 => f.pos as i64,
        2 => len,
        _ => return fail(EINVAL),
    };
    let n = base + o;
    if n < 0 {
        return fail(EINVAL);
    }
    fd_mut(fd).pos = n as u64;
    finish(op::SEEK, f.path as usize, 0, o, n, false, 0, &a);
    n
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: i64, wh: c_int) -> i64 {
    lseek64(fd, o, wh)
}

// ------------------------------------------------------------------ stat
fn file_type(kind: u32) -> u32 {
    match kind {
        ik::DIR => 0o040_000,
        ik::LINK => 0o120_000,
        _ => 0o100_000,
    }
}
unsafe fn fill_stat(st: *mut libc::stat64, ino: usize) {
    let n = &w().inodes[ino];
    std::ptr::write_bytes(st, 0, 1);
    let s = &mut *st;
    s.st_dev = 42;
    s.st_ino = 1000 + ino as u64;
    s.st_nlink = u64::from(n.nlink.max(1));
    s.st_mode = file_type(n.kind) | n.mode;
    s.st_uid = 1000;
    s.st_gid = 1000;
    s.st_size = n.len as i64;
    s.st_blksize = 4096;
    s.st_blocks = (n.len as i64 + 511) / 512;
    s.st_mtime = n.mtime.div_euclid(1_000_000_000);
    s.st_mtime_nsec = n.mtime.rem_euclid(1_000_000_000);
    s.st_atime = s.st_mtime;
    s.st_atime_nsec = s.st_mtime_nsec;
    s.st_ctime = n.ctime.div_euclid(1_000_000_000);
    s.st_ctime_nsec = n.ctime.rem_euclid(1_000_000_000);
}
unsafe fn fill_stdio(st: *mut libc::stat64) {
    std::ptr::write_bytes(st, 0, 1);
    let s = &mut *st;
    s.st_mode = 0o010_600;
    s.st_nlink = 1;
    s.st_blksize = 4096;
}

unsafe fn stat_path(d: c_int, path: *const c_char, follow: bool) -> R<(usize, usize, Act)> {
    let w = w();
    let rawp = cstr(path);
    let pid =
        resolve_at(d, rawp, follow).and_then(|p| w.path_id(p.as_slice())).unwrap_or(0);
    let a = begin(op::STAT, pid, 0);
    let r = (|| {
        if a.errno != 0 {
            return Err(a.errno);
        }
        let p = resolve_at(d, rawp, follow)?;
        let ino = w.path_find(p.as_slice()).map_or(0, |i| w.paths[i].ino as usize);
        if ino == 0 {
            return Err(ENOENT);
        }
        Ok(ino)
    })();
    match r {
        Ok(i) => {
            finish(op::STAT, pid, 0, 0, 0, false, 0, &a);
            Ok((i, pid, a))
        }
        Err(e) => {
            finish(op::STAT, pid, 0, 0, -i64::from(e), false, 0, &a);
            Err(e)
        }
    }
}
unsafe fn stat_fd(fd: c_int) -> R<Option<usize>> {
    let f = fd_get(fd)?;
    if f.kind != fdk::FILE {
        return Ok(None);
    }
    let a = begin(op::STAT, f.path as usize, 0);
    finish(op::STAT, f.path as usize, 0, i64::from(fd), -i64::from(a.errno), false, 0, &a);
    if a.errno != 0 {
        return Err(a.errno);
    }
    Ok(Some(f.ino as usize))
}

macro_rules! stat_fns {
    ($($name:ident, $nr:expr, $follow:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char, st: *mut libc::stat64) -> c_int {
            if !active() {
                return conv(raw($nr, path as usize, st as usize, 0, 0, 0, 0)) as c_int;
            }
            match stat_path(AT_FDCWD, path, $follow) {
                Ok((i, _, _)) => { fill_stat(st, i); 0 }
                Err(e) => fail(e),
            }
        }
    )*};
}
stat_fns! { stat64, 4, true; stat, 4, true; lstat64, 6, false; lstat, 6, false; }

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if !active() {
        return conv(raw(5, fd as usize, st as usize, 0, 0, 0, 0)) as c_int;
    }
    match stat_fd(fd) {
        Ok(Some(i)) => {
            fill_stat(st, i);
            0
        }
        Ok(None) => {
            fill_stdio(st);
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(
    d: c_int,
    path: *const c_char,
    st: *mut libc::stat64,
    fl: c_int,
) -> c_int {
    if !active() {
        return conv(raw(262, d as usize, path as usize, st as usize, fl as usize, 0, 0)) as c_int;
    }
    if fl & 0x1000 != 0 && cstr(path).is_empty() {
        return fstat64(d, st);
    }
    match stat_path(d, path, fl & 0x100 == 0) {
        Ok((i, _, _)) => {
            fill_stat(st, i);
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(
    d: c_int,
    path: *const c_char,
    st: *mut libc::stat64,
    fl: c_int,
) -> c_int {
    fstatat64(d, path, st, fl)
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int,
    path: *const c_char,
    fl: c_int,
    mask: u32,
    sx: *mut libc::statx,
) -> c_int {
    if !active() {
        return conv(raw(
            libc::SYS_statx,
            d as usize,
            path as usize,
            fl as usize,
            mask as usize,
            sx as usize,
            0,
        )) as c_int;
    }
    if path.is_null() || sx.is_null() {
        return fail(14);
    }
    let mut st: libc::stat64 = std::mem::zeroed();
    let r = if fl & 0x1000 != 0 && cstr(path).is_empty() {
        fstat64(d, &mut st)
    } else {
        fstatat64(d, path, &mut st, fl & 0x100)
    };
    if r != 0 {
        return r;
    }
    std::ptr::write_bytes(sx, 0, 1);
    let s = &mut *sx;
    s.stx_mask = 0x7ff;
    s.stx_blksize = 4096;
    s.stx_nlink = st.st_nlink as u32;
    s.stx_uid = st.st_uid;
    s.stx_gid = st.st_gid;
    s.stx_mode = st.st_mode as u16;
    s.stx_ino = st.st_ino;
    s.stx_size = st.st_size as u64;
    s.stx_blocks = st.st_blocks as u64;
    s.stx_mtime.tv_sec = st.st_mtime;
    s.stx_mtime.tv_nsec = st.st_mtime_nsec as u32;
    s.stx_atime = s.stx_mtime;
    s.stx_ctime.tv_sec = st.st_ctime;
    s.stx_ctime.tv_nsec = st.st_ctime_nsec as u32;
    s.stx_dev_minor = 42;
    0
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, m: c_int) -> c_int {
    if !active() {
        return conv(raw(21, path as usize, m as usize, 0, 0, 0, 0)) as c_int;
    }
    match stat_path(AT_FDCWD, path, true) {
        Ok((i, _, _)) => {
            let md = w().inodes[i].mode;
            if (m & 2 != 0 && md & 0o200 == 0) || (m & 4 != 0 && md & 0o400 == 0) {
                return fail(EACCES);
            }
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(_d: c_int, path: *const c_char, m: c_int, _f: c_int) -> c_int {
    access(path, m)
}

// ------------------------------------------------------------------ names
unsafe fn two_paths(
    class: u8,
    d1: c_int,
    p1: *const c_char,
    d2: c_int,
    p2: *const c_char,
    f: impl Fn(&mut World, &[u8], &[u8]) -> R<()>,
) -> c_int {
    let w = w();
    let (r1, r2) = (cstr(p1), cstr(p2));
    let i1 = resolve_at(d1, r1, false).and_then(|p| w.path_id(p.as_slice())).unwrap_or(0);
    let i2 = resolve_at(d2, r2, false).and_then(|p| w.path_id(p.as_slice())).unwrap_or(0);
    // faults on a rename are matched by its target
    let a = begin(class, i2, 0);
    let r = (|| {
        if a.errno != 0 {
            return Err(a.errno);
        }
        let a1 = resolve_at(d1, r1, false)?;
        let a2 = resolve_at(d2, r2, false)?;
        f(w, a1.as_slice(), a2.as_slice())
    })();
    match r {
        Ok(()) => {
            let ino = w.paths[i2].ino as usize;
            finish(class, i1, i2, 0, 0, true, ino, &a);
            0
        }
        Err(e) => {
            finish(class, i1, i2, 0, -i64::from(e), false, 0, &a);
            fail(e)
        }
    }
}
unsafe fn one_path(
    class: u8,
    d: c_int,
    p: *const c_char,
    follow: bool,
    f: impl Fn(&mut World, &[u8]) -> R<()>,
) -> c_int {
    let w = w();
    let r1 = cstr(p);
    let i1 = resolve_at(d, r1, follow).and_then(|p| w.path_id(p.as_slice())).unwrap_or(0);
    let a = begin(class, i1, 0);
    let r = (|| {
        if a.errno != 0 {
            return Err(a.errno);
        }
        let a1 = resolve_at(d, r1, follow)?;
        f(w, a1.as_slice())
    })();
    match r {
        Ok(()) => {
            let ino = w.paths[i1].ino as usize;
            finish(class, i1, 0, 0, 0, true, ino, &a);
            0
        }
        Err(e) => {
            finish(class, i1, 0, 0, -i64::from(e), false, 0, &a);
            fail(e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn rename(p1: *const c_char, p2: *const c_char) -> c_int {
    if !active() {
        return conv(raw(82, p1 as usize, p2 as usize, 0, 0, 0, 0)) as c_int;
    }
    two_paths(op::RENAME, AT_FDCWD, p1, AT_FDCWD, p2, |w, a, b| w.rename(a, b, false))
}
#[no_mangle]
pub unsafe extern "C" fn renameat(
    d1: c_int,
    p1: *const c_char,
    d2: c_int,
    p2: *const c_char,
) -> c_int {
    two_paths(op::RENAME, d1, p1, d2, p2, |w, a, b| w.rename(a, b, false))
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(
    d1: c_int,
    p1: *const c_char,
    d2: c_int,
    p2: *const c_char,
    fl: u32,
) -> c_int {
    if fl & !1 != 0 {
        return fail(EINVAL);
    }
    two_paths(op::RENAME, d1, p1, d2, p2, |w, a, b| w.rename(a, b, fl & 1 != 0))
}
#[no_mangle]
pub unsafe extern "C" fn link(p1: *const c_char, p2: *const c_char) -> c_int {
    two_paths(op::LINK, AT_FDCWD, p1, AT_FDCWD, p2, |w, a, b| w.link(a, b))
}
#[no_mangle]
pub unsafe extern "C" fn linkat(
    d1: c_int,
    p1: *const c_char,
    d2: c_int,
    p2: *const c_char,
    _fl: c_int,
) -> c_int {
    two_paths(op::LINK, d1, p1, d2, p2, |w, a, b| w.link(a, b))
}
#[no_mangle]
pub unsafe extern "C" fn symlink(target: *const c_char, p: *const c_char) -> c_int {
    let t = cstr(target);
    one_path(op::SYMLINK, AT_FDCWD, p, false, |w, a| {
        let ino = w.create(a, ik::LINK, 0o777)?;
        let o = w.arena_put(t)?;
        w.inodes[ino].off = o;
        w.inodes[ino].len = t.len() as u64;
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if !active() {
        return conv(raw(87, p as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    one_path(op::UNLINK, AT_FDCWD, p, false, |w, a| w.unlink(a))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if fl & 0x200 != 0 {
        one_path(op::RMDIR, d, p, false, |w, a| w.rmdir(a))
    } else {
        one_path(op::UNLINK, d, p, false, |w, a| w.unlink(a))
    }
}
#[no_mangle]
pub unsafe extern "C" fn remove(p: *const c_char) -> c_int {
    unlink(p)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    one_path(op::RMDIR, AT_FDCWD, p, false, |w, a| w.rmdir(a))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: u32) -> c_int {
    one_path(op::MKDIR, AT_FDCWD, p, false, |w, a| w.create(a, ik::DIR, m & 0o777).map(|_| ()))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> c_int {
    one_path(op::CHMOD, AT_FDCWD, p, true, |w, a| {
        let i = w.path_find(a).map_or(0, |i| w.paths[i].ino as usize);
        if i == 0 {
            return Err(ENOENT);
        }
        w.inodes[i].mode = m & 0o7777;
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(_d: c_int, p: *const c_char, m: u32, _f: c_int) -> c_int {
    chmod(p, m)
}

unsafe fn fd_op(class: u8, fd: c_int, f: impl Fn(&mut World, usize) -> R<()>) -> c_int {
    let d = match fd_get(fd) {
        Ok(d) => d,
        Err(e) => return fail(e),
    };
    if d.kind != fdk::FILE {
        return if class == op::FSYNC { fail(EINVAL) } else { 0 };
    }
    let w = w();
    let a = begin(class, d.path as usize, 0);
    let r = if a.errno != 0 { Err(a.errno) } else { f(w, d.ino as usize) };
    match r {
        Ok(()) => {
            finish(class, d.path as usize, 0, 0, 0, class == op::TRUNC, d.ino as usize, &a);
            0
        }
        Err(e) => {
            finish(class, d.path as usize, 0, 0, -i64::from(e), false, 0, &a);
            fail(e)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: u32) -> c_int {
    if !active() {
        return conv(raw(91, fd as usize, m as usize, 0, 0, 0, 0)) as c_int;
    }
    fd_op(op::CHMOD, fd, |w, i| {
        w.inodes[i].mode = m & 0o7777;
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn fchown(_fd: c_int, _u: u32, _g: u32) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn chown(_p: *const c_char, _u: u32, _g: u32) -> c_int {
    0
}
fn sync_ino(w: &mut World, i: usize) -> R<()> {
    if w.inodes[i].kind == ik::DIR {
        w.sync_dir();
    } else {
        w.sync_inode(i);
    }
    Ok(())
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    fd_op(op::FSYNC, fd, sync_ino)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fd_op(op::FSYNC, fd, sync_ino)
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(_fd: c_int, _o: i64, _n: i64, _f: u32) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if active() {
        let w = w();
        for i in 1..=w.inodes_n as usize {
            w.sync_inode(i);
        }
        w.sync_dir();
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    fd_op(op::TRUNC, fd, |w, i| w.truncate(i, n as u64))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, _m: c_int, _o: i64, _l: i64) -> c_int {
    let _ = fd;
    fail(EOPNOTSUPP)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(_fd: c_int, _o: i64, _l: i64) -> c_int {
    EOPNOTSUPP
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    let ts = if t.is_null() { None } else { Some(*t.add(1)) };
    fd_op(op::UTIME, fd, |w, i| {
        w.inodes[i].mtime = match ts {
            Some(t) if t.tv_nsec < 1_000_000_000 => t.tv_sec * 1_000_000_000 + t.tv_nsec,
            Some(t) if t.tv_nsec == 0x3fff_fffe => w.inodes[i].mtime,
            _ => w.mstamp(),
        };
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(
    d: c_int,
    p: *const c_char,
    t: *const libc::timespec,
    _f: c_int,
) -> c_int {
    let ts = if t.is_null() { None } else { Some(*t.add(1)) };
    one_path(op::UTIME, d, p, true, |w, a| {
        let i = w.path_find(a).map_or(0, |i| w.paths[i].ino as usize);
        if i == 0 {
            return Err(ENOENT);
        }
        w.inodes[i].mtime = match ts {
            Some(t) if t.tv_nsec < 1_000_000_000 => t.tv_sec * 1_000_000_000 + t.tv_nsec,
            Some(t) if t.tv_nsec == 0x3fff_fffe => w.inodes[i].mtime,
            _ => w.mstamp(),
        };
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn flock(_fd: c_int, _o: c_int) -> c_int {
    harness(40, 0)
}
#[no_mangle]
pub unsafe extern "C" fn umask(m: u32) -> u32 {
    if !active() {
        return raw(95, m as usize, 0, 0, 0, 0, 0) as u32;
    }
    let p = &mut w().procs[PROC];
    let o = p.umask;
    p.umask = m & 0o777;
    o
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    fin: c_int,
    oin: *mut i64,
    fout: c_int,
    oout: *mut i64,
    len: usize,
    _fl: u32,
) -> isize {
    if !active() {
        return conv(raw(
            libc::SYS_copy_file_range,
            fin as usize,
            oin as usize,
            fout as usize,
            oout as usize,
            len,
            0,
        ));
    }
    let w = w();
    match w.copy_range_mode {
        1 => return fail(ENOSYS),
        2 => return fail(EXDEV),
        _ => {}
    }
    let (fi, fo) = match (fd_get(fin), fd_get(fout)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return fail(EBADF),
    };
    if fi.kind != fdk::FILE || fo.kind != fdk::FILE || !oin.is_null() || !oout.is_null() {
        return fail(EINVAL);
    }
    let have = w.inodes[fi.ino as usize].len.saturating_sub(fi.pos) as usize;
    let a = begin(op::COPYRANGE, fo.path as usize, len.min(have.max(1)));
    if a.errno != 0 {
        finish(
            op::COPYRANGE,
            fi.path as usize,
            fo.path as usize,
            len as i64,
            -i64::from(a.errno),
            false,
            0,
            &a,
        );
        return fail(a.errno);
    }
    let c = w.content(fi.ino as usize);
    let pos = (fi.pos as usize).min(c.len());
    let mut n = (c.len() - pos).min(len);
    if a.short >= 0 {
        n = n.min(a.short as usize);
    }
    let d: Vec<u8> = c[pos..pos + n].to_vec();
    let r = w.write_at(fo.ino as usize, fo.pos, &d);
    match r {
        Ok(n) => {
            fd_mut(fin).pos += n as u64;
            fd_mut(fout).pos += n as u64;
            finish(
                op::COPYRANGE,
                fi.path as usize,
                fo.path as usize,
                len as i64,
                n as i64,
                true,
                fo.ino as usize,
                &a,
            );
            n as isize
        }
        Err(e) => {
            finish(
                op::COPYRANGE,
                fi.path as usize,
                fo.path as usize,
                len as i64,
                -i64::from(e),
                false,
                0,
                &a,
            );
            fail(e)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_o: c_int, _i: c_int, _p: *mut i64, _n: usize) -> isize {
    fail(EINVAL)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(_o: c_int, _i: c_int, _p: *mut i64, _n: usize) -> isize {
    fail(EINVAL)
}
#[no_mangle]
pub unsafe extern "C" fn splice() -> isize {
    fail(EINVAL)
}

// ------------------------------------------------------------------ readlink, realpath, cwd
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut u8, n: usize) -> isize {
    if !active() {
        return conv(raw(89, p as usize, buf as usize, n, 0, 0, 0));
    }
    let w = w();
    let rp = cstr(p);
    let pid = w.resolve(cwd(), rp, false).and_then(|p| w.path_id(p.as_slice())).unwrap_or(0);
    let a = begin(op::READLINK, pid, 0);
    let ino = w.paths[pid].ino as usize;
    let e = if a.errno != 0 {
        a.errno
    } else if ino == 0 {
        ENOENT
    } else if w.inodes[ino].kind != ik::LINK {
        EINVAL
    } else {
        0
    };
    finish(op::READLINK, pid, 0, 0, -i64::from(e), false, 0, &a);
    if e != 0 {
        return fail(e);
    }
    let c = w.content(ino);
    let k = c.len().min(n);
    std::ptr::copy_nonoverlapping(c.as_ptr(), buf, k);
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !active() {
        return std::ptr::null_mut();
    }
    let w = w();
    let rp = cstr(p);
    let pid = w.resolve(cwd(), rp, true).and_then(|p| w.path_id(p.as_slice())).unwrap_or(0);
    let a = begin(op::READLINK, pid, 0);
    let r = w.resolve(cwd(), rp, true);
    let e = if a.errno != 0 {
        a.errno
    } else {
        match &r {
            Err(e) => *e,
            Ok(q) => {
                if w.path_find(q.as_slice()).map_or(0, |i| w.paths[i].ino) == 0 {
                    ENOENT
                } else {
                    0
                }
            }
        }
    };
    finish(op::READLINK, pid, 0, 0, -i64::from(e), false, 0, &a);
    if e != 0 {
        set_errno(e);
        return std::ptr::null_mut();
    }
    let q = match r {
        Ok(q) => q,
        Err(_) => return std::ptr::null_mut(),
    };
    let o = if out.is_null() { libc::malloc(4096) as *mut u8 } else { out.cast() };
    std::ptr::copy_nonoverlapping(q.b.as_ptr(), o, q.len);
    *o.add(q.len) = 0;
    o.cast()
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    if !active() {
        let r = raw(79, buf as usize, n, 0, 0, 0, 0);
        return if r < 0 {
            set_errno(-r as i32);
            std::ptr::null_mut()
        } else {
            buf
        };
    }
    let c = cwd();
    if c.len() + 1 > n {
        set_errno(34);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(c.as_ptr(), buf, c.len());
    *buf.add(c.len()) = 0;
    buf
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    let w = w();
    match w.resolve(cwd(), cstr(p), true) {
        Ok(q) => {
            let i = w.path_find(q.as_slice()).map_or(0, |i| w.paths[i].ino as usize);
            if i == 0 {
                return fail(ENOENT);
            }
            if w.inodes[i].kind != ik::DIR {
                return fail(ENOTDIR);
            }
            let pr = &mut w.procs[PROC];
            pr.cwd[..q.len].copy_from_slice(q.as_slice());
            pr.cwd_len = q.len as u32;
            0
        }
        Err(e) => fail(e),
    }
}

// ------------------------------------------------------------------ directories
pub struct Dir {
    names: Vec<(Vec<u8>, u8, u64)>,
    i: usize,
    fd: c_int,
    ent: libc::dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut Dir {
    if !active() {
        return std::ptr::null_mut();
    }
    let fd = do_open(AT_FDCWD, p, 0o200_000, 0);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    fdopendir(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut Dir {
    let w = w();
    let f = match fd_get(fd) {
        Ok(f) => f,
        Err(e) => {
            set_errno(e);
            return std::ptr::null_mut();
        }
    };
    let base = w.paths[f.path as usize];
    let base = &base.name[..base.len as usize];
    let mut names: Vec<(Vec<u8>, u8, u64)> = vec![];
    for i in 1..=w.paths_n as usize {
        let e = &w.paths[i];
        let q = &e.name[..e.len as usize];
        if e.ino != 0 && q.len() > 1 && World::parent_of(q) == base {
            let skip = if base.len() == 1 { 1 } else { base.len() + 1 };
            let k = match w.inodes[e.ino as usize].kind {
                ik::DIR => 4,
                ik::LINK => 10,
                _ => 8,
            };
            names.push((q[skip..].to_vec(), k, 1000 + u64::from(e.ino)));
        }
    }
    names.sort();
    if w.readdir_shuffle != 0 {
        for i in (1..names.len()).rev() {
            let j = w.io_rng.below(i as u64 + 1) as usize;
            names.swap(i, j);
        }
    }
    names.insert(0, (b"..".to_vec(), 4, 1));
    names.insert(0, (b".".to_vec(), 4, 2));
    Box::into_raw(Box::new(Dir { names, i: 0, fd, ent: std::mem::zeroed() }))
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut Dir) -> *mut libc::dirent64 {
    let d = &mut *d;
    let f = match fd_get(d.fd) {
        Ok(f) => f,
        Err(_) => return std::ptr::null_mut(),
    };
    let a = begin(op::READDIR, f.path as usize, 0);
    finish(op::READDIR, f.path as usize, 0, d.i as i64, -i64::from(a.errno), false, 0, &a);
    if a.errno != 0 {
        set_errno(a.errno);
        return std::ptr::null_mut();
    }
    if d.i >= d.names.len() {
        return std::ptr::null_mut();
    }
    let (n, k, ino) = &d.names[d.i];
    d.i += 1;
    d.ent = std::mem::zeroed();
    d.ent.d_ino = *ino;
    d.ent.d_type = *k;
    d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    for (i, b) in n.iter().enumerate().take(255) {
        d.ent.d_name[i] = *b as c_char;
    }
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut Dir) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut Dir) -> c_int {
    (*d).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut Dir) -> c_int {
    let d = Box::from_raw(d);
    close(d.fd)
}

// ------------------------------------------------------------------ descriptors
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !active() {
        return conv(raw(72, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int;
    }
    let f = match fd_get(fd) {
        Ok(f) => f,
        Err(e) => return fail(e),
    };
    match cmd {
        0 | 1030 => {
            if f.kind == fdk::FILE {
                w().inodes[f.ino as usize].opens += 1;
            } else {
                netapi::dup_fd(f);
            }
            match fd_alloc(f, arg.max(3)) {
                Ok(n) => n,
                Err(e) => fail(e),
            }
        }
        1 => 1,
        2 => 0,
        3 => f.flags as c_int,
        4 => {
            fd_mut(fd).flags = arg as u32;
            0
        }
        _ => fail(EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    fcntl(fd, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: usize) -> c_int {
    if !active() {
        return conv(raw(16, fd as usize, req as usize, arg, 0, 0, 0)) as c_int;
    }
    match fd_get(fd) {
        Ok(f) if f.kind == fdk::SOCK && req == 0x5421 => 0,
        Ok(_) => fail(25),
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if !active() {
        return 0;
    }
    match fd_get(fd) {
        Ok(_) => set_errno(25),
        Err(e) => set_errno(e),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn __errno_unused() {}
