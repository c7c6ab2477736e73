//! Stand-ins for the C library's functions that open, read and write files. They do what the
//! originals do, except for files below a given directory while a plan is in force: then transfers
//! may be shorter than asked for, be interrupted by a signal, be delayed, or fail.
use libc::{c_char, c_int, c_uint, c_void, iovec, off64_t, size_t, ssize_t};
use crate::gen::mix;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Class {
    Read,
    Write,
    Open,
}

#[derive(Clone, Copy, Debug)]
pub enum Mode {
    /// only count
    Count,
    /// whatever a correct program copes with: short transfers, interruptions, delays
    Chaos { seed: u64, delays: bool },
    /// the call with this number of its class fails, and all later ones of the class if `sticky`;
    /// a failing transfer may be preceded by a short one
    Fail { class: Class, at: u64, errno: c_int, sticky: bool, short: bool },
}

struct Plan {
    prefix: Vec<u8>,
    mode: Mode,
    counts: [u64; 3],
    hits: u64,
}

static ARMED: AtomicBool = AtomicBool::new(false);
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

/// The plan is in force until this is dropped.
pub struct Armed(());

pub fn arm(prefix: &Path, mode: Mode) -> Armed {
    let mut prefix = prefix.as_os_str().as_bytes().to_vec();
    prefix.push(b'/');
    *PLAN.lock().unwrap() = Some(Plan { prefix, mode, counts: [0; 3], hits: 0 });
    ARMED.store(true, Ordering::SeqCst);
    Armed(())
}

impl Armed {
    /// Calls per class, and how many of them the plan disturbed.
    pub fn end(self) -> ([u64; 3], u64) {
        ARMED.store(false, Ordering::SeqCst);
        let p = PLAN.lock().unwrap().take();
        p.map_or(([0; 3], 0), |p| (p.counts, p.hits))
    }
}

impl Drop for Armed {
    fn drop(&mut self) {
        ARMED.store(false, Ordering::SeqCst);
        if let Ok(mut p) = PLAN.lock() {
            *p = None;
        }
    }
}

enum Verdict {
    Normal,
    Short(usize),
    Fails(c_int),
}

fn decide(class: Class, n: usize, below: impl FnOnce(&[u8]) -> bool) -> Verdict {
    let mut delay = 0;
    let v = {
        let Ok(mut g) = PLAN.lock() else { return Verdict::Normal };
        let Some(p) = g.as_mut() else { return Verdict::Normal };
        if !below(&p.prefix) {
            return Verdict::Normal;
        }
        let k = p.counts[class as usize];
        p.counts[class as usize] += 1;
        let v = match p.mode {
            Mode::Count => Verdict::Normal,
            Mode::Chaos { seed, delays } => {
                let h = mix(seed ^ mix(k ^ (class as u64) << 60));
                if delays && h % 32 == 3 {
                    delay = (h >> 8) % 1500;
                }
                match (h >> 20) % 16 {
                    0 | 1 => Verdict::Fails(libc::EINTR),
                    2 if n > 1 => Verdict::Short(1),
                    3..=9 if n > 1 => Verdict::Short(1 + (h >> 30) as usize % (n - 1)),
                    10 if n > 4096 => Verdict::Short(4096),
                    _ => Verdict::Normal,
                }
            }
            Mode::Fail { class: c, at, errno, sticky, short } => {
                if c == class && short && k + 1 == at && n > 1 {
                    p.hits += 1;
                    Verdict::Short(n / 2)
                } else if c == class && (k == at || sticky && k > at) {
                    Verdict::Fails(errno)
                } else {
                    Verdict::Normal
                }
            }
        };
        p.hits += !matches!(v, Verdict::Normal) as u64;
        v
    };
    if delay > 0 {
        unsafe { libc::usleep(delay as c_uint) };
    }
    v
}

/// Whether the file behind a descriptor lies below the directory.
fn below_fd(fd: c_int) -> impl FnOnce(&[u8]) -> bool {
    move |prefix| {
        let mut buf = [0u8; 4096];
        let mut link = [0u8; 40];
        let head = b"/proc/self/fd/";
        link[..head.len()].copy_from_slice(head);
        let mut digits = [0u8; 12];
        let (mut i, mut v) = (0, fd.max(0));
        loop {
            digits[i] = b'0' + (v % 10) as u8;
            v /= 10;
            i += 1;
            if v == 0 {
                break;
            }
        }
        for k in 0..i {
            link[head.len() + k] = digits[i - 1 - k];
        }
        let n = unsafe { libc::syscall(libc::SYS_readlink, link.as_ptr(), buf.as_mut_ptr(), buf.len()) };
        n > 0 && buf[..n as usize].starts_with(prefix)
    }
}

unsafe fn fail(errno: c_int) -> ssize_t {
    *libc::__errno_location() = errno;
    -1
}

macro_rules! transfer {
    ($class:expr, $fd:expr, $n:expr, |$len:ident| $call:expr) => {{
        let $len: usize = $n;
        if !ARMED.load(Ordering::Relaxed) {
            return $call as ssize_t;
        }
        match decide($class, $len, below_fd($fd)) {
            Verdict::Normal => $call as ssize_t,
            Verdict::Short(k) => {
                let $len = k.min($len);
                $call as ssize_t
            }
            Verdict::Fails(e) => fail(e),
        }
    }};
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    transfer!(Class::Read, fd, n, |k| libc::syscall(libc::SYS_read, fd, buf, k))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    transfer!(Class::Write, fd, n, |k| libc::syscall(libc::SYS_write, fd, buf, k))
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, at: off64_t) -> ssize_t {
    transfer!(Class::Read, fd, n, |k| libc::syscall(libc::SYS_pread64, fd, buf, k, at))
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, at: off64_t) -> ssize_t {
    transfer!(Class::Write, fd, n, |k| libc::syscall(libc::SYS_pwrite64, fd, buf, k, at))
}

/// A shortened vectored transfer is one of (part of) its first non-empty buffer.
unsafe fn vectored(class: Class, nr: libc::c_long, plain: libc::c_long, fd: c_int, iov: *const iovec, count: c_int) -> ssize_t {
    if !ARMED.load(Ordering::Relaxed) {
        return libc::syscall(nr, fd, iov, count) as ssize_t;
    }
    let all = std::slice::from_raw_parts(iov, count.max(0) as usize);
    let total: usize = all.iter().map(|v| v.iov_len).sum();
    match decide(class, total, below_fd(fd)) {
        Verdict::Normal => libc::syscall(nr, fd, iov, count) as ssize_t,
        Verdict::Short(k) => match all.iter().find(|v| v.iov_len > 0) {
            Some(v) => libc::syscall(plain, fd, v.iov_base, k.min(v.iov_len)) as ssize_t,
            None => 0,
        },
        Verdict::Fails(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, count: c_int) -> ssize_t {
    vectored(Class::Read, libc::SYS_readv, libc::SYS_read, fd, iov, count)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, count: c_int) -> ssize_t {
    vectored(Class::Write, libc::SYS_writev, libc::SYS_write, fd, iov, count)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if ARMED.load(Ordering::Relaxed) && flags & libc::O_DIRECTORY == 0 {
        let name = std::ffi::CStr::from_ptr(path).to_bytes();
        if let Verdict::Fails(e) = decide(Class::Open, 0, |p| name.starts_with(p)) {
            return fail(e) as c_int;
        }
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}
