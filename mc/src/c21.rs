//! C21: the viewer; C22: truncating a profile.
use crate::c15::big;
use crate::c17::fresh;
use crate::cli::*;
use crate::session::{self, Op};
use crate::trace::*;
use crate::util::*;
use common::explore::*;
use common::spec::{self, Pay};
use common::sup::Check;
use common::{ensure, tier, Res};

/// What the viewer prints for the events.
pub fn printed(evs: &[Ev], thread: Option<u32>) -> String {
    let t0 = evs
        .iter()
        .filter_map(|e| match e.pay {
            Pay::Interval(a, _) | Pay::Instant(a) => Some(a),
            _ => None,
        })
        .min()
        .unwrap_or(0);
    let us = |t: u64| (t - t0) / 1000;
    let mut s = String::new();
    for e in evs.iter().filter(|e| thread.map(|t| t == e.thread).unwrap_or(true)) {
        let p = match e.pay {
            Pay::Interval(a, b) => format!("{} μs - {} μs", us(a), us(b)),
            Pay::Instant(a) => format!("{} μs", us(a)),
            Pay::Integer(v) => format!("{}", v),
        };
        s += &format!(
            "{{\n    kind: {},\n    label: {},\n    additional_data: [{}],\n    payload: {},\n    thread_id: {},\n}}\n",
            e.kind,
            e.label,
            e.args.join(","),
            p,
            e.thread
        );
    }
    s
}
fn view(o: &Out, evs: &[Ev], thread: Option<u32>) -> Res {
    ensure!(o.code == Some(0), "the viewer ends with {:?}: {}", o.code, o.err);
    let want = printed(evs, thread);
    if o.out != want {
        let i = o.out.lines().zip(want.lines()).position(|(a, b)| a != b).unwrap_or(o.out.lines().count().min(want.lines().count()));
        return Err(format!("line {} is {:?}, expected {:?}", i, o.out.lines().nth(i), want.lines().nth(i)));
    }
    let none = o.err.contains("No events");
    ensure!(none == evs.is_empty(), "{} events: it says {:?}", evs.len(), o.err);
    Ok(())
}
pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("histories, all and selected threads", |c| {
        let t = history(c, &Cfg {
            threads: &[0, 7],
            ops: tier(4, 5),
            starts: &[(QUERY, "a"), ("K", "b b")],
            instants: &[(HIT, "h")],
            integers: &[(ARTIFACT, "lib", 7)],
            dts: &[1, 1500],
            base: 5_000_000_000,
            nest: 3,
            ..Default::default()
        });
        let sel = *c.pick(&[None, Some(0), Some(7), Some(1)]);
        let d = fresh(c, "c21");
        std::fs::write(d.join("p.mm_profdata"), file_of(&t.evs, Store::Flat)).unwrap();
        let th = sel.map(|s: u32| s.to_string()).unwrap_or_default();
        let args = if sel.is_some() { vec!["p", "-t", &th] } else { vec!["p"] };
        view(&tool("mmview", &args, &d), &t.evs, sel).map_err(|e| format!("thread {:?} of {}: {}", sel, brief(&t), e))?;
        c.state(&key(&t));
        c.validated();
        Ok(())
    }));
    sc.push(scenario("thread ids that are nearly the same", |c| {
        let (a, b) = pair(c, &NEAR_THREADS);
        let sel = *c.pick(&[a, b, 2]);
        let evs: Vec<Ev> = [a, b, a].iter().enumerate().map(|(i, t)| Ev::new("k", "l", &[], *t, Pay::Interval(i as u64 * 1000, 9000))).collect();
        let d = fresh(c, "c21n");
        std::fs::write(d.join("p.mm_profdata"), file_of(&evs, Store::Flat)).unwrap();
        view(&tool("mmview", &["p", "-t", &sel.to_string()], &d), &evs, Some(sel)).map_err(|e| format!("thread {} of {:?}: {}", sel, evs, e))?;
        c.step();
        c.state(format!("{:?}{}", evs, sel).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("all orders and kinds of payload", |c| {
        let n = c.choose(tier(5, 6));
        let m = spec::MAX_INTERVAL;
        let evs: Vec<Ev> = (0..n)
            .map(|i| {
                let p = *c.pick(&[Pay::Interval(1_000_000, 1_000_999), Pay::Interval(999, m), Pay::Instant(0), Pay::Instant(m), Pay::Instant(5_001_000), Pay::Integer(0), Pay::Integer(m)]);
                Ev::new("k", &format!("e{}", i), [&[] as &[&str], &["x"], &["x", "y, z"]][i % 3], [0, u32::MAX, 4][i % 3], p)
            })
            .collect();
        let d = fresh(c, "c21o");
        std::fs::write(d.join("p.mm_profdata"), file_of(&evs, Store::Composite)).unwrap();
        let sel = if n == 3 { Some(u32::MAX) } else { None };
        let args = if n == 3 { vec!["p.mm_profdata", "--thread-id", "4294967295"] } else { vec!["p.mm_profdata"] };
        view(&tool("mmview", &args, &d), &evs, sel).map_err(|e| format!("{:?}: {}", evs, e))?;
        c.step();
        c.state(format!("{:?}", evs).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("texts of every kind", |c| {
        // every pair of odd texts as kind, label and arguments
        let a = *c.pick(&ODD);
        let b = *c.pick(&ODD);
        let evs = match c.choose(4) {
            0 => vec![Ev::new(a, b, &[], 1, Pay::Instant(7_000))],
            1 => vec![Ev::new("k", a, &[b], 1, Pay::Interval(2_000, 7_000))],
            2 => vec![Ev::new("k", "l", &[a, b], 1, Pay::Integer(12))],
            _ => vec![Ev::new("k", "l", &[a, "x", b], 1, Pay::Instant(3_000)), Ev::new(b, a, &[a], 2, Pay::Instant(4_000))],
        };
        let d = fresh(c, "c21t");
        std::fs::write(d.join("p.mm_profdata"), file_of(&evs, *c.pick(&[Store::Flat, Store::Composite]))).unwrap();
        view(&tool("mmview", &["p"], &d), &evs, None).map_err(|e| format!("{:?}: {}", evs, e))?;
        c.step();
        c.state(format!("{:?}", evs).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("large profiles", |c| {
        let n = c.choose(8);
        let t = big(n);
        let sel = *c.pick(&[None, Some(0), Some(1), Some(0x9E37_79B9)]);
        let d = fresh(c, "c21b");
        std::fs::write(d.join("p.mm_profdata"), file_of(&t.evs, Store::Virtual)).unwrap();
        let th = sel.map(|s: u32| s.to_string()).unwrap_or_default();
        let args = if sel.is_some() { vec!["p", "-t", &th] } else { vec!["p"] };
        view(&tool("mmview", &args, &d), &t.evs, sel).map_err(|e| format!("large profile {}, thread {:?}: {}", n, sel, e))?;
        c.steps(t.evs.len() as u64);
        c.state(format!("{}{:?}", n, sel).as_bytes());
        c.validated();
        Ok(())
    }));
    Check {
        id: "C21",
        scenarios: sc,
        rule: "All bounded recording histories, all short sequences of payloads at the edges of their ranges in any order, and large profiles are \
               printed by the real tool with and without a selected thread; the output must be exactly one block per (selected) event in recorded \
               order with times relative to the earliest, and be declared empty only without events. states = distinct profiles."
            .into(),
        assumptions: vec!["times are shown in whole microseconds, rounded down".into()],
    }
}

// ---------------------------------------------------------------- C22

fn truncate(c: &Ctx, name: &str, file: &[u8], old: bool) -> Result<Result<Vec<u8>, String>, String> {
    let d = fresh(c, "c22");
    let f = d.join(format!("{}.mm_profdata", name));
    std::fs::write(&f, file).unwrap();
    let out = f.with_extension("truncated.mm_profdata");
    if old {
        stale(&out, &file[file.len() - 40..]);
    }
    let o = tool("mmedit", &["truncate", f.file_name().unwrap().to_str().unwrap()], &d);
    ensure!(std::fs::read(&f).unwrap() == file, "the input was changed");
    let others = std::fs::read_dir(&d).unwrap().flatten().filter(|e| e.path() != f && e.path() != out).count();
    ensure!(others == 0, "unexpected files are left");
    if o.code == Some(0) {
        Ok(Ok(std::fs::read(out).map_err(|e| format!("no output: {}", e))?))
    } else {
        ensure!(!out.exists(), "refused, but an output was written");
        Ok(Err(format!("{:?}: {}", o.code, o.err)))
    }
}
/// The truncated profile must hold the first event page and everything else.
fn truncated(c: &Ctx, file: &[u8]) -> Result<usize, String> {
    let out = truncate(c, "p", file, true)?.map_err(|e| format!("refused: {}", e))?;
    let pages = spec::pages(&file[8..]).map_err(|_| "HARNESS: torn input")?;
    let first = pages.iter().find(|p| p.0 == spec::EVENTS).map(|p| p.1).unwrap_or(&[]);
    let want = spec::streams_of(&pages);
    ensure!(out.get(..8) == Some(&file[..8]), "the file header is changed");
    let got = spec::streams_of(&spec::pages(&out[8..]).map_err(|_| "the output is torn")?);
    ensure!(got[0] == first, "the event stream has {} bytes, the first event page {}", got[0].len(), first.len());
    ensure!(got[1] == want[1] && got[2] == want[2], "string data is lost or changed");
    // read by the library
    let (a, b) = (open_bytes(file.to_vec())?, open_bytes(out.clone()).map_err(|e| format!("the truncated profile: {}", e))?);
    let n = b.num_events();
    let per = if u32::from_le_bytes(file[4..8].try_into().unwrap()) == 8 { 24 } else { 32 };
    ensure!(n == first.len().saturating_sub(8) / per, "{} events are read, the page holds {}", n, first.len());
    let t0 = a.metadata().start_time;
    ensure!(
        (t0, a.metadata().process_id, &a.metadata().cmd) == (b.metadata().start_time, b.metadata().process_id, &b.metadata().cmd),
        "the metadata is changed"
    );
    for (i, (x, y)) in a.iter_full().zip(b.iter_full()).enumerate() {
        ensure!(ev_of(&x, t0)? == ev_of(&y, t0)?, "event {} is changed", i);
    }
    // again
    let twice = truncate(c, "p.truncated", &out, false)?.map_err(|e| format!("truncating again is refused: {}", e))?;
    ensure!(twice == out, "truncating again changes the file");
    Ok(n)
}
pub fn check_truncate() -> Check {
    let mut sc = vec![];
    sc.push(scenario("every arrangement of pages", |c| {
        // a profile of 5 events, its streams cut at chosen places, its pages in chosen order
        let mut w = Writer::new(*c.pick(&[Store::Flat, Store::Composite, Store::Virtual]));
        for i in 0..5u64 {
            w.event(&Ev::new("kind", &format!("label {}", i), &["arg"], i as u32, Pay::Interval(i * 10, i * 10 + 5)));
        }
        let b = w.b;
        let mut parts: Vec<std::collections::VecDeque<(u8, Vec<u8>)>> = vec![];
        let cut = |s: &[u8], at: &[usize], tag: u8| {
            let mut v = std::collections::VecDeque::new();
            let mut p = 0;
            for x in at.iter().copied().chain([s.len()]) {
                v.push_back((tag, s[p..x].to_vec()));
                p = x;
            }
            v
        };
        let evcuts: [&[usize]; 4] = [&[], &[8 + 32], &[8, 8 + 96], &[8 + 64, 8 + 96, 8 + 128]];
        parts.push(cut(&b.events, evcuts[c.choose(4)], 0));
        let h = b.strings.len();
        let sd: [&[usize]; 3] = [&[], &[8], &[h / 2, h / 2 + 1]];
        parts.push(cut(&b.strings, sd[c.choose(3)], 1));
        let si: [&[usize]; 3] = [&[], &[8], &[13, 14]];
        parts.push(cut(&b.index, si[c.choose(3)], 2));
        let mut f = spec::header(b"MMPD", 9);
        loop {
            let left: Vec<usize> = (0..3).filter(|i| !parts[*i].is_empty()).collect();
            if left.is_empty() {
                break;
            }
            let i = left[c.choose(left.len())];
            let (t, p) = parts[i].pop_front().unwrap();
            spec::push_page(&mut f, t, &p);
        }
        truncated(c, &f)?;
        c.step();
        c.state(&f);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("recorded sessions", |c| {
        let stem = c.scratch().join("c22s");
        let ops: Vec<Op> = (0..tier(3, 4)).map(|_| *c.pick(&[Op::Events(1), Op::Events(9000), Op::Text(300_000), Op::Bulk(9000), Op::Composed, Op::Events(30_000)])).collect();
        let mut pl = session::plan();
        crate::sys::with_plan(&mut pl, || session::session(&stem, &ops)).map_err(|e| e.to_string())?;
        let f = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| e.to_string())?;
        truncated(c, &f).map_err(|e| format!("{:?}: {}", ops, e))?;
        c.step();
        c.state(format!("{:?}", ops).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("previous format", |c| {
        let t = if c.flag() { big(*c.pick(&[0, 1, 2, 4, 5, 6])) } else { history(c, &Cfg { ops: 3, instants: &[(HIT, "h")], integers: &[(ARTIFACT, "x", 3)], ..Default::default() }) };
        let evs: Vec<Ev> = t.evs.iter().filter(|e| crate::v8::representable(e)).cloned().collect();
        let f = crate::v8::file_of(&evs);
        truncated(c, &f)?;
        c.step();
        c.state(&f[..f.len().min(4000)]);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("old version numbers and files that are no profiles", |c| {
        let t = big(6);
        let mut f = file_of(&t.evs, Store::Flat);
        match c.choose(3) {
            0 => {
                let v = *c.pick(&[0u32, 1, 6, 7, 8, 9, 10, 11, 100, 1 << 24, u32::MAX]);
                f[4..8].copy_from_slice(&v.to_le_bytes());
                let r = truncate(c, "v", &f, false)?;
                ensure!(r.is_ok() == (7..=9).contains(&v), "version {}: {:?}", v, r.map(|x| x.len()));
            }
            1 => {
                let i = c.choose(4);
                f[i] ^= 1 << c.choose(8);
                let r = truncate(c, "m", &f, false)?;
                ensure!(r.is_err(), "a file with the signature {:?} is truncated", &f[..4]);
            }
            _ => {
                let n = c.choose(8);
                let r = truncate(c, "s", &f[..n], false)?;
                ensure!(r.is_err(), "a file of {} bytes is truncated", n);
            }
        }
        c.step();
        c.state(&f[..8]);
        c.validated();
        Ok(())
    }));
    Check {
        id: "C22",
        scenarios: sc,
        rule: "Profiles with every arrangement of pages up to the bound, recorded sessions of every size, and profiles in the previous format are \
               truncated by the real tool; the streams and what the library reads must be the first event page and all strings, a second run \
               must change nothing, the input must stay as it was; other signatures, versions and short files must be refused. states = \
               distinct input files."
            .into(),
        assumptions: vec!["pages hold whole events, as in every file the library writes".into()],
    }
}
