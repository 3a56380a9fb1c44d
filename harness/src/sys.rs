//! System calls on files, seen and disturbed from inside: these definitions take precedence over
//! those of the C library for the standard library linked into this program. A tap is per thread.
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_void, CStr};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Open { path: String, flags: i32, fd: i32 },
    Close { fd: i32 },
    Write { fd: i32, at: i64, data: Vec<u8> },
    Seek { fd: i32, pos: i64 },
    Read { fd: i32, n: i64 },
    Truncate { what: String, len: i64 },
    /// any other call which changes the file system
    Change(&'static str, String),
    Sync { fd: i32 },
    /// the fault was injected into this call
    Fault(&'static str, i32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// fails with errno
    Errno(i32),
    /// a write that takes only a part (at least one byte); the others are left alone
    Short,
    /// a write that takes a part, and the next call fails with errno
    ShortThen(i32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    /// index among the calls on output (creation, write, seek, truncate, sync, rename)
    pub at: u64,
    pub kind: Kind,
    /// it goes on failing from there
    pub lasting: bool,
}

#[derive(Default)]
pub struct Tap {
    pub events: Vec<Ev>,
    pub keep_data: bool,
    pub fault: Option<Fault>,
    /// the same for input (open, read, seek of files opened for reading, reopening)
    pub rfault: Option<Fault>,
    pub rcalls: u64,
    /// calls on output so far
    pub calls: u64,
    /// injected failures (not those that a caller has to take in its stride)
    pub failed: u64,
    pub pending: Option<i32>,
    /// descriptors opened for writing under the tap
    pub out: Vec<i32>,
    pub pos: Vec<(i32, i64)>,
}

thread_local! {
    static TAP: Cell<*mut Tap> = const { Cell::new(std::ptr::null_mut()) };
}

/// Run with a tap on the system calls of this thread.
pub fn tapped<T>(tap: &mut Tap, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            TAP.with(|t| t.set(std::ptr::null_mut()));
        }
    }
    TAP.with(|t| t.set(tap));
    let _off = Off;
    f()
}

fn tap() -> Option<&'static mut Tap> {
    let p = TAP.try_with(|t| t.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

fn fail(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

enum Todo {
    Go,
    Fail(i32),
    Part,
}

impl Tap {
    fn output(&mut self, what: &'static str, is_write: bool) -> Todo {
        let k = self.calls;
        self.calls += 1;
        if let Some(e) = self.pending.take() {
            self.failed += 1;
            self.events.push(Ev::Fault(what, e));
            return Todo::Fail(e);
        }
        let Some(f) = self.fault else { return Todo::Go };
        if k == f.at || (f.lasting && k > f.at) {
            match f.kind {
                // only these calls can be interrupted
                Kind::Errno(libc::EINTR) if !(is_write || what == "open" || what == "sync") => {}
                Kind::Errno(e) => {
                    if e != libc::EINTR {
                        self.failed += 1;
                    }
                    self.events.push(Ev::Fault(what, e));
                    return Todo::Fail(e);
                }
                Kind::Short if is_write => {
                    self.events.push(Ev::Fault(what, 0));
                    return Todo::Part;
                }
                Kind::ShortThen(e) if is_write => {
                    self.pending = Some(e);
                    self.events.push(Ev::Fault(what, 0));
                    return Todo::Part;
                }
                Kind::Short => {}
                Kind::ShortThen(e) => {
                    self.failed += 1;
                    self.events.push(Ev::Fault(what, e));
                    return Todo::Fail(e);
                }
            }
        }
        Todo::Go
    }
    /// The same decision for a call on input: errno, or a part of what was asked for.
    fn input(&mut self, what: &'static str) -> Todo {
        let k = self.rcalls;
        self.rcalls += 1;
        let Some(f) = self.rfault else { return Todo::Go };
        if k == f.at || (f.lasting && k > f.at) {
            match f.kind {
                Kind::Errno(libc::EINTR) if what == "seek" => {}
                Kind::Errno(e) => {
                    if e != libc::EINTR {
                        self.failed += 1;
                    }
                    self.events.push(Ev::Fault(what, e));
                    return Todo::Fail(e);
                }
                _ if what == "read" => {
                    self.events.push(Ev::Fault(what, 0));
                    return Todo::Part;
                }
                _ => {}
            }
        }
        Todo::Go
    }
    fn at(&mut self, fd: i32) -> &mut i64 {
        if let Some(k) = self.pos.iter().position(|p| p.0 == fd) {
            return &mut self.pos[k].1;
        }
        self.pos.push((fd, 0));
        &mut self.pos.last_mut().unwrap().1
    }
    fn wrote(&mut self, fd: i32, at: i64, p: *const u8, n: isize) {
        let data = if self.keep_data && n > 0 {
            unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec()
        } else {
            vec![]
        };
        self.events.push(Ev::Write { fd, at, data });
    }
    fn is_out(&self, fd: i32) -> bool {
        self.out.contains(&fd)
    }
}

unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let Some(t) = tap() else { return libc::syscall(libc::SYS_openat, dir, path, flags, mode as libc::c_uint) as c_int };
    let w = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    if w {
        if let Todo::Fail(e) = t.output("open", false) {
            fail(e);
            return -1;
        }
    } else if let Todo::Fail(e) = t.input("open") {
        fail(e);
        return -1;
    }
    let fd = libc::syscall(libc::SYS_openat, dir, path, flags, mode as libc::c_uint) as c_int;
    t.events.push(Ev::Open { path: text(path), flags, fd });
    if fd >= 0 {
        *t.at(fd) = 0;
        t.out.retain(|f| *f != fd);
        if w {
            t.out.push(fd);
        }
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(t) = tap() {
        t.events.push(Ev::Close { fd });
        t.out.retain(|f| *f != fd);
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    let Some(t) = tap() else { return libc::syscall(libc::SYS_write, fd, p, n) as isize };
    if !t.is_out(fd) {
        return libc::syscall(libc::SYS_write, fd, p, n) as isize;
    }
    let m = match t.output("write", true) {
        Todo::Fail(e) => {
            fail(e);
            return -1;
        }
        Todo::Part => n.div_ceil(2),
        Todo::Go => n,
    };
    let r = libc::syscall(libc::SYS_write, fd, p, m) as isize;
    let at = *t.at(fd);
    t.wrote(fd, at, p as *const u8, r);
    if r > 0 {
        *t.at(fd) += r as i64;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    match tap() {
        Some(t) if t.is_out(fd) => {
            // one part at a time: allowed, and simpler to record
            for i in 0..n as isize {
                let x = &*v.offset(i);
                if x.iov_len > 0 {
                    return write(fd, x.iov_base, x.iov_len);
                }
            }
            0
        }
        _ => libc::syscall(libc::SYS_writev, fd, v, n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: usize, off: i64) -> isize {
    let Some(t) = tap() else { return libc::syscall(libc::SYS_pwrite64, fd, p, n, off) as isize };
    let m = match t.output("write", true) {
        Todo::Fail(e) => {
            fail(e);
            return -1;
        }
        Todo::Part => n.div_ceil(2),
        Todo::Go => n,
    };
    let r = libc::syscall(libc::SYS_pwrite64, fd, p, m, off) as isize;
    t.wrote(fd, off, p as *const u8, r);
    r
}
unsafe fn do_seek(fd: c_int, off: i64, whence: c_int) -> i64 {
    let Some(t) = tap() else { return libc::syscall(libc::SYS_lseek, fd, off, whence) as i64 };
    if t.is_out(fd) {
        if let Todo::Fail(e) = t.output("seek", false) {
            fail(e);
            return -1;
        }
    } else if let Todo::Fail(e) = t.input("seek") {
        fail(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_lseek, fd, off, whence) as i64;
    t.events.push(Ev::Seek { fd, pos: r });
    if r >= 0 {
        *t.at(fd) = r;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    do_seek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    do_seek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
    let Some(t) = tap() else { return libc::syscall(libc::SYS_read, fd, p, n) as isize };
    let m = match t.input("read") {
        Todo::Fail(e) => {
            fail(e);
            return -1;
        }
        Todo::Part => n.min(1 + n / 7),
        Todo::Go => n,
    };
    let r = libc::syscall(libc::SYS_read, fd, p, m) as isize;
    t.events.push(Ev::Read { fd, n: r as i64 });
    if r > 0 {
        *t.at(fd) += r as i64;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if let Some(t) = tap() {
        if let Todo::Fail(e) = t.output("truncate", false) {
            fail(e);
            return -1;
        }
        t.events.push(Ev::Truncate { what: format!("fd {fd}"), len });
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
unsafe fn do_sync(fd: c_int, nr: libc::c_long) -> c_int {
    if let Some(t) = tap() {
        if let Todo::Fail(e) = t.output("sync", false) {
            fail(e);
            return -1;
        }
        t.events.push(Ev::Sync { fd });
    }
    libc::syscall(nr, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}
unsafe fn change(what: &'static str, p: *const c_char) -> Option<c_int> {
    if let Some(t) = tap() {
        if let Todo::Fail(e) = t.output(what, false) {
            fail(e);
            return Some(-1);
        }
        t.events.push(Ev::Change(what, text(p)));
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    change("unlink", p).unwrap_or_else(|| libc::syscall(libc::SYS_unlink, p) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int {
    change("rename", p).unwrap_or_else(|| libc::syscall(libc::SYS_rename, p, q) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: libc::mode_t) -> c_int {
    change("mkdir", p).unwrap_or_else(|| libc::syscall(libc::SYS_mkdir, p, m as libc::c_uint) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    change("rmdir", p).unwrap_or_else(|| libc::syscall(libc::SYS_rmdir, p) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: libc::mode_t) -> c_int {
    change("chmod", p).unwrap_or_else(|| libc::syscall(libc::SYS_chmod, p, m as libc::c_uint) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(p: *const c_char, q: *const c_char) -> c_int {
    change("symlink", q).unwrap_or_else(|| libc::syscall(libc::SYS_symlink, p, q) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn link(p: *const c_char, q: *const c_char) -> c_int {
    change("link", q).unwrap_or_else(|| libc::syscall(libc::SYS_link, p, q) as c_int)
}

/// Seconds added to the time of day of this process.
pub static CLOCK_SHIFT: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

#[no_mangle]
unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, c, t) as c_int;
    if r == 0 && c == libc::CLOCK_REALTIME {
        (*t).tv_sec += CLOCK_SHIFT.load(std::sync::atomic::Ordering::Relaxed);
    }
    r
}
