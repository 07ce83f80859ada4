//! C30: a tool that cannot write its result completely says so.
use crate::cli::{tool, tool_with_room};
use crate::trace::*;
use crate::util::*;
use common::explore::*;
use common::sup::Check;
use common::{ensure, tier};

/// How the tools are run, and the file the result goes to (none: to the
/// standard output).
const RUNS: [(&str, &[&str], Option<&str>); 11] = [
    ("mmview", &["p"], None),
    ("mmview", &["p", "-t", "0"], None),
    ("summarize", &["summarize", "p"], None),
    ("summarize", &["summarize", "p", "--json"], Some("p.json")),
    ("summarize", &["diff", "q", "p"], None),
    ("summarize", &["aggregate", "p", "r"], None),
    ("summarize", &["diff", "q", "p", "--json"], Some("p.json")),
    ("stack_collapse", &["p"], Some("out.stacks_folded")),
    ("flamegraph", &["p"], Some("rustc.svg")),
    ("crox", &["p", "q"], Some("chrome_profiler.json")),
    ("mmedit", &["truncate", "p.mm_profdata"], Some("p.truncated.mm_profdata")),
];
fn profile(n: usize, base: u64) -> Vec<u8> {
    let mut t = Trace::default();
    for i in 0..n as u64 {
        let l = format!("label {}", i);
        let at = base + 100_000 * i;
        t.start(0, QUERY, &l, &[], at);
        t.whole(0, LOAD, "inner", at + 10 + i % 400, at + 500);
        t.instant(0, HIT, &l, &[], at + 1000);
        t.end(0, at + 2_000 + 7 * i);
        t.integer(0, ARTIFACT, &l, 10 + i);
    }
    file_of(&t.evs, Store::Flat)
}
fn squeeze(c: &mut Ctx, n: usize, room: impl Fn(&mut Ctx, usize) -> usize) -> common::Res {
    let run = c.pick(&RUNS).clone();
    let d = c.scratch().join("c30");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    let p = profile(n, 1_000);
    std::fs::write(d.join("p.mm_profdata"), &p).unwrap();
    std::fs::write(d.join("r.mm_profdata"), profile(n, 1_200)).unwrap();
    std::fs::write(d.join("q.mm_profdata"), profile(2, 5_000)).unwrap();
    let o = tool(run.0, run.1, &d);
    ensure!(o.code == Some(0), "{} {:?} fails with all the room it needs: {}", run.0, run.1, o.err);
    let whole = match run.2 {
        Some(f) => std::fs::read(d.join(f)).map_err(|e| format!("{}: {}", f, e))?,
        None => o.out.clone().into_bytes(),
    };
    ensure!(!whole.is_empty(), "HARNESS: {} writes nothing", run.0);
    let room = room(c, whole.len());
    if let Some(f) = run.2 {
        std::fs::remove_file(d.join(f)).unwrap();
    }
    let to = d.join("stdout");
    let o = tool_with_room(run.0, run.1, &d, room as u64, &to);
    let got = std::fs::read(run.2.map(|f| d.join(f)).unwrap_or(to)).unwrap_or_default();
    let what = format!("{} {:?} with room for {} of {} bytes", run.0, run.1, room, whole.len());
    if room >= whole.len() {
        ensure!(o.code == Some(0), "{} fails: {}", what, o.err);
        ensure!(got.len() == whole.len(), "{} writes {} bytes", what, got.len());
    } else {
        ensure!(got.len() <= room, "HARNESS: {}: {} bytes were written", what, got.len());
        ensure!(o.code != Some(0), "{} ends successfully", what);
        ensure!(o.code.is_some(), "{} does not end by itself", what);
        ensure!(!o.err.trim().is_empty(), "{} fails without a message", what);
    }
    ensure!(std::fs::read(d.join("p.mm_profdata")).ok() == Some(p), "{} changes its input", what);
    c.step();
    c.state(format!("{:?}{}", run, room).as_bytes());
    c.sample(|| what.clone());
    c.validated();
    Ok(())
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("a small result, room for every number of bytes", |c| {
        squeeze(c, 1, |c, n| {
            let step = if n > 2000 { tier(7, 1) } else { 1 };
            let k = c.choose(n / step + 8);
            // the last ones are around the full size
            if k < n / step {
                k * step
            } else {
                n + (k - n / step) - 4
            }
        })
    }));
    sc.push(scenario("a result of many buffers", |c| {
        squeeze(c, 1200, |c, n| {
            let mut v = vec![0, 1, n - 1, n, n + 1, n / 2];
            for unit in [1024, 4096, 8192] {
                let m = n / unit;
                for k in [1, 2, m / 2, m.saturating_sub(1), m, m + 1] {
                    v.extend([k * unit, k * unit + 1, (k * unit).saturating_sub(1)]);
                }
            }
            v.sort();
            v.dedup();
            *c.pick(&v)
        })
    }));
    Check {
        id: "C30",
        scenarios: sc,
        rule: "Every tool run on a profile with room for every possible number of bytes of its result (and, for large results, around every \
               buffer boundary at the start, middle and end), by a limit on the size of files that makes further writes fail: too little room \
               must end in a failure status with a message, enough must give the whole result. states = tool and room."
            .into(),
        assumptions: vec!["a full disk is represented by the file size limit: writes are cut at it and then fail".into()],
    }
}
