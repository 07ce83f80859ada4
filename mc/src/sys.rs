//! Interposed libc calls: a scripted clock and a fault-injecting, recording
//! `write`, both per thread and off by default.
use std::cell::Cell;
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// accept only this many bytes (at least 1, at most len-1 when possible)
    Short(ShortBy),
    Eintr,
    /// fail once
    Err(i32),
    /// fail from here on
    ErrForever(i32),
    /// accept a part, then fail from the next call on
    ShortThenErr(i32),
    /// accept nothing, without an error
    Zero,
    /// the process dies here
    Die,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ShortBy {
    One,
    Half,
    AllButOne,
}
#[derive(Default)]
pub struct Plan {
    /// next monotonic clock readings; afterwards the last one plus `tick`
    pub clock: Option<Vec<u64>>,
    pub clock_pos: usize,
    pub tick: u64,
    pub realtime: Option<(i64, i64)>,
    pub io: bool,
    pub faults: Vec<(usize, Fault)>,
    pub calls: usize,
    pub lens: Vec<usize>,
    pub forever: i32,
    pub errors_raised: usize,
    /// after every call the file must have grown by appending only
    pub watch: Option<PathBuf>,
    pub last: Vec<u8>,
    pub sizes: Vec<usize>,
    pub broken: Option<String>,
    pub mute: bool,
    /// no call accepts more than this
    pub max_accept: usize,
    /// every call is interrupted once before it goes through
    pub eintr_each: bool,
    pub interrupted: bool,
    pub pid: Option<i32>,
    /// size of the file when the first error was raised
    pub size_at_error: Option<usize>,
}
thread_local! {
    static PLAN: Cell<*mut Plan> = const { Cell::new(std::ptr::null_mut()) };
}
pub fn with_plan<T>(p: &mut Plan, f: impl FnOnce() -> T) -> T {
    struct Reset(*mut Plan);
    impl Drop for Reset {
        fn drop(&mut self) {
            PLAN.with(|c| c.set(self.0));
        }
    }
    let _r = Reset(PLAN.with(|c| c.replace(p as *mut Plan)));
    f()
}
/// Runs `f` with what it prints to stderr thrown away.
pub fn muted<T>(f: impl FnOnce() -> T) -> T {
    let mut p = Plan { mute: true, ..Default::default() };
    with_plan(&mut p, f)
}
fn plan() -> Option<&'static mut Plan> {
    PLAN.try_with(|c| {
        let p = c.get();
        if p.is_null() {
            None
        } else {
            Some(unsafe { &mut *p })
        }
    })
    .ok()
    .flatten()
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e };
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if let Some(p) = plan() {
        if id == libc::CLOCK_MONOTONIC || id == libc::CLOCK_BOOTTIME || id == libc::CLOCK_MONOTONIC_RAW {
            if let Some(c) = &mut p.clock {
                if p.clock_pos >= c.len() {
                    let last = c.last().copied().unwrap_or(0);
                    c.push(last + p.tick);
                }
                let t = c[p.clock_pos];
                p.clock_pos += 1;
                (*ts).tv_sec = (t / 1_000_000_000) as i64;
                (*ts).tv_nsec = (t % 1_000_000_000) as i64;
                return 0;
            }
        } else if id == libc::CLOCK_REALTIME {
            if let Some((s, n)) = p.realtime {
                (*ts).tv_sec = s;
                (*ts).tv_nsec = n;
                return 0;
            }
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if let Some(Some(n)) = plan().map(|p| p.pid) {
        return n;
    }
    libc::syscall(libc::SYS_getpid) as libc::pid_t
}

enum Act {
    Pass,
    Cut(usize),
    Zero,
    Fail(i32),
}
fn before(p: &mut Plan, n: usize) -> Act {
    let k = p.calls;
    p.calls += 1;
    p.lens.push(n);
    if p.forever != 0 {
        p.errors_raised += 1;
        return Act::Fail(p.forever);
    }
    if p.eintr_each {
        p.interrupted = !p.interrupted;
        if p.interrupted {
            return Act::Fail(libc::EINTR);
        }
    }
    match p.faults.iter().find(|f| f.0 == k).map(|f| f.1) {
        None if p.max_accept > 0 && n > p.max_accept => Act::Cut(p.max_accept),
        None => Act::Pass,
        Some(Fault::Short(s)) => match s {
            _ if n <= 1 => Act::Pass,
            ShortBy::One => Act::Cut(1),
            ShortBy::Half => Act::Cut((n + 1) / 2),
            ShortBy::AllButOne => Act::Cut(n - 1),
        },
        Some(Fault::Eintr) => Act::Fail(libc::EINTR),
        Some(Fault::Err(e)) => {
            p.errors_raised += 1;
            Act::Fail(e)
        }
        Some(Fault::ErrForever(e)) => {
            p.forever = e;
            p.errors_raised += 1;
            Act::Fail(e)
        }
        Some(Fault::ShortThenErr(e)) => {
            p.forever = e;
            if n <= 1 {
                p.errors_raised += 1;
                Act::Fail(e)
            } else {
                Act::Cut(n / 2)
            }
        }
        Some(Fault::Zero) => Act::Zero,
        Some(Fault::Die) => unsafe { libc::_exit(99) },
    }
}
fn after(p: &mut Plan) {
    let Some(w) = &p.watch else { return };
    let now = std::fs::read(w).unwrap_or_default();
    if now.len() < p.last.len() || now[..p.last.len()] != p.last[..] {
        if p.broken.is_none() {
            p.broken = Some(format!("bytes already on disk changed after write call {}", p.calls - 1));
        }
    }
    p.sizes.push(now.len());
    if p.errors_raised > 0 && p.size_at_error.is_none() {
        p.size_at_error = Some(now.len());
    }
    p.last = now;
}
unsafe fn hooked(n: usize, raw: impl FnOnce(usize) -> i64) -> isize {
    let p = plan().unwrap();
    match before(p, n) {
        Act::Fail(e) => {
            after(p);
            set_errno(e);
            -1
        }
        Act::Zero => {
            after(p);
            0
        }
        Act::Pass => {
            let r = raw(n);
            after(p);
            r as isize
        }
        Act::Cut(m) => {
            let r = raw(m);
            after(p);
            r as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    if let Some(p) = plan() {
        if p.mute && fd == 2 {
            return n as isize;
        }
        if p.io && fd > 2 {
            return hooked(n, |m| libc::syscall(libc::SYS_write, fd, buf, m));
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, c: i32) -> isize {
    if let Some(p) = plan() {
        if p.io && fd > 2 {
            let iov = std::slice::from_raw_parts(v, c as usize);
            let n: usize = iov.iter().map(|i| i.iov_len).sum();
            return hooked(n, |m| {
                if m == n {
                    return libc::syscall(libc::SYS_writev, fd, v, c);
                }
                let mut flat = Vec::with_capacity(n);
                for i in iov {
                    flat.extend_from_slice(std::slice::from_raw_parts(i.iov_base as *const u8, i.iov_len));
                }
                libc::syscall(libc::SYS_write, fd, flat.as_ptr(), m)
            });
        }
    }
    libc::syscall(libc::SYS_writev, fd, v, c) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const libc::c_void, n: usize, o: i64) -> isize {
    if let Some(p) = plan() {
        if p.io && fd > 2 {
            return hooked(n, |m| libc::syscall(libc::SYS_pwrite64, fd, buf, m, o));
        }
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, o) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    let r = libc::syscall(libc::SYS_ftruncate, fd, n) as i32;
    if let Some(p) = plan() {
        if p.io {
            after(p);
        }
    }
    r
}
