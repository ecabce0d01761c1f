//! System-call seam: the harness binary defines `write`, `read`, `lseek`, `open` and
//! `getrandom` itself, so the answers the code under test gets from the operating system are
//! decided by the explorer.  Calls pass through unless a script is installed on the thread.
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Open,
    Write,
    Read,
    Seek,
    Other,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ans {
    Normal,
    One,
    Half,
    Intr,
    Err(i32),
}
pub struct Script {
    /// (call index, answer): everything else is answered normally
    pub deviations: Vec<(usize, Ans)>,
    /// answer every call from `index` on with this
    pub from: Option<(usize, Ans)>,
    pub log: Vec<(Op, usize, Ans)>,
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static SCRIPT: RefCell<Script> = const { RefCell::new(Script { deviations: Vec::new(), from: None, log: Vec::new() }) };
    static SEED: Cell<u64> = const { Cell::new(0) };
    static OPENS: Cell<u64> = const { Cell::new(0) };
}
pub fn script(deviations: Vec<(usize, Ans)>, from: Option<(usize, Ans)>) {
    SCRIPT.with(|s| *s.borrow_mut() = Script { deviations, from, log: Vec::new() });
    ON.with(|o| o.set(true));
}
/// stop scripting and return the log of calls made
pub fn script_off() -> Vec<(Op, usize, Ans)> {
    ON.with(|o| o.set(false));
    SCRIPT.with(|s| std::mem::take(&mut s.borrow_mut().log))
}
fn ask(op: Op, n: usize) -> Ans {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return Ans::Normal;
    }
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.log.len();
        let mut a = s.deviations.iter().find(|d| d.0 == i).map(|d| d.1).unwrap_or(Ans::Normal);
        if let Some((k, b)) = s.from {
            if i >= k {
                a = b;
            }
        }
        s.log.push((op, n, a));
        a
    })
}
unsafe fn err(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}
fn cut(a: Ans, n: usize) -> Result<usize, i32> {
    match a {
        Ans::Normal => Ok(n),
        Ans::One => Ok(n.min(1)),
        Ans::Half => Ok((n + 1) / 2),
        Ans::Intr => Err(libc::EINTR),
        Ans::Err(e) => Err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let n = if fd > 2 {
        match cut(ask(Op::Write, n), n) {
            Ok(n) => n,
            Err(e) => return err(e),
        }
    } else {
        n
    };
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fd > 2 && ON.try_with(|o| o.get()).unwrap_or(false) {
        // a vectored write may always be short: serve the first non-empty part
        for i in 0..cnt as isize {
            let e = &*v.offset(i);
            if e.iov_len > 0 {
                return write(fd, e.iov_base, e.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_writev, fd, v, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let n = match cut(ask(Op::Write, n), n) {
        Ok(n) => n,
        Err(e) => return err(e),
    };
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let n = if fd > 2 {
        match cut(ask(Op::Read, n), n) {
            Ok(n) => n,
            Err(e) => return err(e),
        }
    } else {
        n
    };
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, w: c_int) -> off64_t {
    match ask(Op::Seek, 0) {
        Ans::Err(e) => return err(e) as off64_t,
        _ => {}
    }
    libc::syscall(libc::SYS_lseek, fd, off, w) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    match ask(Op::Other, 0) {
        Ans::Err(e) => return err(e) as c_int,
        _ => {}
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    OPENS.with(|o| o.set(o.get() + 1));
    match ask(Op::Open, 0) {
        Ans::Err(e) => return err(e) as c_int,
        Ans::Intr => return err(libc::EINTR) as c_int,
        _ => {}
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode as libc::c_uint) as c_int
}
/// files opened by this thread so far
pub fn opens() -> u64 {
    OPENS.with(|o| o.get())
}
/// the seed every new `RandomState` of this thread will get (hash iteration order)
pub fn hash_seed(s: u64) {
    SEED.with(|x| x.set(s));
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, _flags: libc::c_uint) -> ssize_t {
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    let s = SEED.try_with(|x| x.get()).unwrap_or(0);
    for (i, x) in b.iter_mut().enumerate() {
        let mut z = s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i as u64 + 1);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        *x = (z ^ (z >> 31)) as u8;
    }
    n as ssize_t
}
