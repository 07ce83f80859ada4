//! Recording sessions used by the crash and fault checks: deterministic (the
//! clock, the start time and the process id are scripted), so that the same
//! session always leaves the same bytes.
use crate::sys::Plan;
use crate::util::*;
use common::spec::Pay;
use measureme::{EventId, EventIdBuilder, Profiler, StringId};
use std::path::Path;

pub struct Orig {
    pub ev: Ev,
    pub kind: u64,
    pub id: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Events(usize),
    Text(usize),
    Map,
    Bulk(usize),
    Composed,
    Guard,
}
pub fn plan() -> Plan {
    Plan { clock: Some(vec![1000]), tick: 7, realtime: Some((1_600_000_000, 5)), pid: Some(4242), ..Default::default() }
}
pub struct Run {
    pub orig: Vec<Orig>,
}
pub fn play(p: &Profiler, ops: &[Op]) -> Run {
    let mut orig = vec![];
    let mut n = 0u64;
    let kind = p.alloc_string("some kind");
    let first = (p.alloc_string("first label"), "first label".to_string());
    let mut last = first.clone();
    let mut nv = 0u64;
    for op in ops {
        match *op {
            Op::Events(k) => {
                for i in 0..k {
                    // only the first uses the latest text, which may be long
                    let l = if i == 0 { &last } else { &first };
                    p.record_integer_event(kind, EventId::from_label(l.0), n as u32, n);
                    orig.push(Orig {
                        ev: Ev { kind: "some kind".into(), label: l.1.clone(), args: vec![], thread: n as u32, pay: Pay::Integer(n) },
                        kind: kind.as_u64(),
                        id: l.0.as_u64(),
                    });
                    n += 1;
                }
            }
            Op::Text(len) => {
                let mut s = format!("text {} ", n);
                n += 1;
                while s.len() < len {
                    s.push((b'a' + (s.len() % 23) as u8) as char);
                }
                last = (p.alloc_string(&*s), s);
            }
            Op::Map => {
                let v = StringId::new_virtual(nv);
                nv += 1;
                p.map_virtual_to_concrete_string(v, if last.0.is_virtual() { kind } else { last.0 });
                if last.0.is_virtual() {
                    last.1 = "some kind".into();
                }
                last.0 = v;
            }
            Op::Bulk(k) => {
                let to = if last.0.is_virtual() { kind } else { last.0 };
                if last.0.is_virtual() {
                    last.1 = "some kind".into();
                }
                let ids: Vec<StringId> = (nv..nv + k as u64).map(StringId::new_virtual).collect();
                nv += k as u64;
                p.bulk_map_virtual_to_single_concrete_string(ids.iter().copied(), to);
                if let Some(v) = ids.last() {
                    last.0 = *v;
                }
            }
            Op::Composed => {
                let a = p.alloc_string("an argument");
                let id = EventIdBuilder::new(p).from_label_and_arg(last.0, a);
                p.record_integer_event(kind, id, 3, n);
                orig.push(Orig {
                    ev: Ev { kind: "some kind".into(), label: last.1.clone(), args: vec!["an argument".into()], thread: 3, pay: Pay::Integer(n) },
                    kind: kind.as_u64(),
                    id: id.as_u64(),
                });
                n += 1;
            }
            Op::Guard => {
                // times are not compared here, only that the bytes are the same each time
                drop(p.start_recording_interval_event(kind, EventId::from_label(last.0), 5));
                orig.push(Orig {
                    ev: Ev { kind: "some kind".into(), label: last.1.clone(), args: vec![], thread: 5, pay: Pay::Interval(0, 0) },
                    kind: kind.as_u64(),
                    id: last.0.as_u64(),
                });
            }
        }
    }
    Run { orig }
}
/// The whole session. Err = creation failed.
pub fn session(stem: &Path, ops: &[Op]) -> Result<Run, String> {
    let p = Profiler::new(stem).map_err(|e| e.to_string())?;
    Ok(play(&p, ops))
}
pub const OPS: [Op; 9] = [
    Op::Events(1),
    Op::Text(10),
    Op::Composed,
    Op::Map,
    Op::Events(9000),
    Op::Text(150_000),
    Op::Text(600_000),
    Op::Bulk(9000),
    Op::Guard,
];

/// Runs `f` in a forked child; Ok(exit code) or Err(signal).
pub fn forked(f: impl FnOnce() -> i32) -> Result<i32, i32> {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            // messages of an aborting run are of no interest
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(null, 2);
            let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(98);
            libc::_exit(c);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            Err(libc::WTERMSIG(st))
        } else {
            Ok(libc::WEXITSTATUS(st))
        }
    }
}
