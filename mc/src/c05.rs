//! C05: short and interrupted writes are invisible, errors are not swallowed.
use crate::session::*;
use crate::sys::{with_plan, Fault, Plan, ShortBy};
use common::explore::*;
use common::sup::Check;
use common::{ensure, fail, tier, Res};
use measureme::{PageTag, Profiler, SerializationSinkBuilder};
use std::io::Write;
use std::path::Path;

const SESSIONS: [&[Op]; 6] = [
    &[],
    &[Op::Events(1), Op::Composed, Op::Guard],
    &[Op::Events(9000), Op::Text(600_000)],
    &[Op::Text(150_000), Op::Map, Op::Text(150_000), Op::Bulk(9000), Op::Events(2)],
    &[Op::Text(262_143), Op::Text(262_144), Op::Events(17_000)],
    &[Op::Bulk(20_000), Op::Composed, Op::Bulk(40)],
];
const TRANSIENT: [Fault; 4] = [Fault::Short(ShortBy::One), Fault::Short(ShortBy::Half), Fault::Short(ShortBy::AllButOne), Fault::Eintr];

/// A workload writing a file; returns an error only if the code reported one.
#[derive(Clone, Copy)]
enum Work {
    Profile(usize),
    /// sinks used directly, with flushes in between
    Sinks(usize),
}
fn do_work(w: Work, stem: &Path) -> Result<(), String> {
    match w {
        Work::Profile(i) => session(stem, SESSIONS[i]).map(|_| ()),
        Work::Sinks(i) => {
            let f = std::fs::File::create(stem.with_extension("mm_profdata")).map_err(|e| e.to_string())?;
            let b = SerializationSinkBuilder::new_from_file(f).map_err(|e| e.to_string())?;
            let (x, y) = (b.new_sink(PageTag::Events), b.new_sink(PageTag::StringData));
            let big = vec![7u8; 200_000];
            x.as_std_write().write_all(b"header").map_err(|e| e.to_string())?;
            if i & 1 != 0 {
                x.as_std_write().flush().map_err(|e| e.to_string())?;
            }
            y.write_bytes_atomic(b"0123456789");
            y.write_bytes_atomic(&big);
            if i & 2 != 0 {
                y.as_std_write().flush().map_err(|e| e.to_string())?;
            }
            x.write_atomic(100, |b| b.fill(9));
            y.write_bytes_atomic(&vec![8u8; 400_000]);
            y.write_atomic(5, |b| b.fill(3));
            if i & 1 != 0 {
                x.as_std_write().flush().map_err(|e| e.to_string())?;
            }
            drop(x);
            drop(y);
            Ok(())
        }
    }
}
fn pick_work(c: &mut Ctx) -> Work {
    let i = c.choose(SESSIONS.len() + 4);
    if i < SESSIONS.len() {
        Work::Profile(i)
    } else {
        Work::Sinks(i - SESSIONS.len())
    }
}
/// The fault-free file and the number of write calls it takes.
fn reference(w: Work, stem: &Path) -> Result<(Vec<u8>, usize), String> {
    let mut pl = Plan { io: true, ..plan() };
    with_plan(&mut pl, || do_work(w, stem))?;
    let f = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| e.to_string())?;
    Ok((f, pl.calls))
}
fn name(w: Work) -> String {
    match w {
        Work::Profile(i) => format!("session {:?}", SESSIONS[i]),
        Work::Sinks(i) => format!("sinks, flushing pattern {}", i),
    }
}
fn transient(c: &mut Ctx, w: Work, pl: Plan, what: String) -> Res {
    let stem = c.scratch().join("c05");
    let file = stem.with_extension("mm_profdata");
    let (want, _) = reference(w, &stem)?;
    let _ = std::fs::remove_file(&file);
    let mut pl = pl;
    let r = catches(|| with_plan(&mut pl, || do_work(w, &stem)));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail!("{}, {}: reported as an error: {}", name(w), what, e),
        Err(m) => fail!("{}, {}: panics: {}", name(w), what, m),
    }
    let got = std::fs::read(&file).map_err(|e| e.to_string())?;
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        fail!("{}, {}: the file differs from the undisturbed one at byte {} ({} bytes instead of {})", name(w), what, i, got.len(), want.len());
    }
    c.step();
    c.validated();
    Ok(())
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("up to two short or interrupted writes anywhere", |c| {
        let w = pick_work(c);
        let stem = c.scratch().join("c05");
        let (_, calls) = reference(w, &stem)?;
        let mut faults = vec![];
        let mut at = 0;
        for _ in 0..tier(2, 3) {
            // a short write adds one more call, on which the next fault may fall
            let left = (calls + faults.len()).saturating_sub(at);
            let k = c.choose(left + 1);
            if k == 0 {
                break;
            }
            at += k;
            faults.push((at - 1, *c.pick(&TRANSIENT)));
        }
        c.state(format!("{:?}{}", faults, name(w)).as_bytes());
        let what = format!("{:?}", faults);
        c.sample(|| what.clone());
        transient(c, w, Plan { io: true, faults, ..plan() }, what)
    }));
    sc.push(scenario("every write is short or interrupted", |c| {
        let w = pick_work(c);
        let m = *c.pick(&[0usize, 1, 2, 3, 4, 5, 7, 100, 4096, 65_536]);
        let e = c.flag();
        c.state(&[m as u8, (m >> 8) as u8, e as u8]);
        transient(c, w, Plan { io: true, max_accept: m, eintr_each: e, ..plan() }, format!("at most {} bytes per write (0 = any), each interrupted: {}", m, e))
    }));
    sc.push(scenario("a hard error at every write call", |c| {
        let w = pick_work(c);
        let stem = c.scratch().join("c05h");
        let file = stem.with_extension("mm_profdata");
        let (want, calls) = reference(w, &stem)?;
        let k = c.choose(calls);
        let e = *c.pick(&[libc::ENOSPC, libc::EIO, libc::EAGAIN, libc::EBADF, libc::EFBIG, libc::EPIPE]);
        let f = match c.choose(4) {
            0 => vec![(k, Fault::Err(e))],
            1 => vec![(k, Fault::ErrForever(e))],
            2 => vec![(k, Fault::ShortThenErr(e))],
            _ => vec![(k, Fault::Eintr), (k + 1, Fault::Short(ShortBy::One)), (k + 2, Fault::ErrForever(e))],
        };
        let _ = std::fs::remove_file(&file);
        let what = format!("{}, {:?}", name(w), f);
        let end = forked(|| {
            let mut pl = Plan { io: true, faults: f.clone(), watch: Some(file.clone()), ..plan() };
            let r = catches(|| with_plan(&mut pl, || do_work(w, &stem)));
            if pl.errors_raised == 0 {
                return 20; // the fault was not reached
            }
            if pl.broken.is_some() {
                return 21;
            }
            let at = pl.size_at_error.unwrap_or(0);
            if !pl.last.get(..at).map(|b| want.starts_with(b)).unwrap_or(false) {
                return 22;
            }
            match r {
                Ok(Ok(())) => 23, // nobody noticed
                Ok(Err(m)) if m.is_empty() => 24,
                _ => 25,
            }
        });
        match end {
            Ok(25) | Err(libc::SIGABRT) => {}
            Ok(20) => ensure!(f.len() == 3 || matches!(f[0].1, Fault::ShortThenErr(_)), "HARNESS: {}: the fault was not reached", what),
            Ok(21) => fail!("{}: bytes already on disk changed", what),
            Ok(22) => fail!("{}: the bytes on disk before the failure are not a prefix of the fault-free file", what),
            Ok(23) => fail!("{}: the error is never reported", what),
            Ok(24) => fail!("{}: an error without a message", what),
            e => fail!("{}: the run ended with {:?}", what, e),
        }
        c.step();
        c.state(format!("{:?}{}", end, what).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("a write call that accepts nothing", |c| {
        let w = pick_work(c);
        let stem = c.scratch().join("c05z");
        let file = stem.with_extension("mm_profdata");
        let (want, calls) = reference(w, &stem)?;
        let k = c.choose(calls);
        let n = c.choose(2) + 1;
        let _ = std::fs::remove_file(&file);
        let end = forked(|| {
            let faults = (k..k + n).map(|i| (i, Fault::Zero)).collect();
            let mut pl = Plan { io: true, faults, watch: Some(file.clone()), ..plan() };
            let r = catches(|| with_plan(&mut pl, || do_work(w, &stem)));
            if pl.broken.is_some() {
                return 21;
            }
            match r {
                // retrying is fine, losing data is not
                Ok(Ok(())) if pl.last == want => 26,
                Ok(Ok(())) => 23,
                _ => 25,
            }
        });
        match end {
            Ok(25 | 26) | Err(libc::SIGABRT) => {}
            Ok(21) => fail!("{}, write call {} accepts nothing: bytes already on disk changed", name(w), k),
            Ok(23) => fail!("{}, write call {} accepts nothing: success is reported although data is missing", name(w), k),
            e => fail!("{}, write call {} accepts nothing: the run ended with {:?}", name(w), k, e),
        }
        c.step();
        c.state(format!("{:?}{}{}{}", end, name(w), k, n).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("a call that fails is not taken for a success later", |c| {
        // after each step that panicked or failed, go on: at the end somebody must have been told
        let stem = c.scratch().join("c05l");
        let file = stem.with_extension("mm_profdata");
        let (_, calls) = reference(Work::Profile(2), &stem)?;
        let k = c.choose(calls + 4);
        let e = *c.pick(&[libc::ENOSPC, libc::EIO]);
        let forever = c.flag();
        let _ = std::fs::remove_file(&file);
        let end = forked(|| {
            let mut pl = Plan { io: true, faults: vec![(k, if forever { Fault::ErrForever(e) } else { Fault::Err(e) })], ..plan() };
            let mut told = false;
            with_plan(&mut pl, || {
                let p = match catches(|| Profiler::new(&stem)) {
                    Ok(Ok(p)) => p,
                    _ => {
                        told = true;
                        return;
                    }
                };
                for op in [Op::Events(9000), Op::Text(600_000), Op::Bulk(20_000), Op::Events(9000)] {
                    told |= catches(|| play(&p, &[op])).is_err();
                }
                told |= catches(std::panic::AssertUnwindSafe(|| drop(p))).is_err();
            });
            match (pl.errors_raised > 0, told) {
                (false, false) => 0,
                (true, true) => 1,
                (true, false) => 2,
                (false, true) => 3,
            }
        });
        match end {
            Ok(0) | Ok(1) | Err(libc::SIGABRT) => {}
            Ok(2) => fail!("error {} at write call {}: no call reports it", e, k),
            e => fail!("write call {}: ended with {:?}", k, e),
        }
        c.step();
        c.state(format!("{:?}{}", end, k).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("the file cannot be created", |c| {
        let d = c.scratch().join("c05c");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("dir.mm_profdata")).unwrap();
        std::fs::write(d.join("file"), b"keep").unwrap();
        let long = "n".repeat(300);
        let stems = ["file/p", "file/x/y/p", "dir", &long, &*format!("{}/p", long), "nul\0byte"];
        let s = *c.pick(&stems);
        let r = catches(|| Profiler::new(d.join(s)).map(|_| ()));
        ensure!(!matches!(r, Ok(Ok(()))), "creating a profile at {:?} succeeds", s);
        ensure!(std::fs::read(d.join("file")).ok().as_deref() == Some(b"keep"), "creating a profile at {:?} changes another file", s);
        c.step();
        c.state(s.as_bytes());
        c.validated();
        Ok(())
    }));
    Check {
        id: "C05",
        scenarios: sc,
        rule: "Every write call of a set of sessions (profiler and bare sinks, every page kind, multi-page data) is made short (one byte, half, \
               all but one), interrupted or failing, singly and in every combination up to the bound, and all calls at once; transient faults \
               must leave a byte-identical file, calls accepting nothing must not pass for success, hard errors (once, forever, after a partial write) must surface as an error, panic or abort \
               and leave what was on disk a prefix. Creation failures must be reported. states = fault placements."
            .into(),
        assumptions: vec!["faults are injected at write, writev and pwrite by interposition".into()],
    }
}
