//! C26: queries about the time of events; C27: profiles assembled in memory;
//! C28: what the tools do with inputs they can and cannot read; C29: the
//! counter of a profile.
use crate::c17::fresh;
use crate::cli::*;
use crate::sys::{self, Plan};
use crate::trace::*;
use crate::util::*;
use analyzeme::{Event, EventPayload, LightweightEvent, ProfilingData, ProfilingDataBuilder, Timestamp};
use common::explore::*;
use common::spec::{self, Pay};
use common::sup::Check;
use common::{ensure, fail, tier, Res};
use measureme::counters::Counter;
use measureme::{EventId, Profiler};
use std::time::{Duration, UNIX_EPOCH};

// ---------------------------------------------------------------- C26

/// Does `a` contain `b`, by the recorded values.
fn encloses(a: Pay, b: Pay) -> bool {
    match (a, b) {
        (Pay::Interval(s, e), Pay::Interval(x, y)) => s <= x && y <= e,
        (Pay::Interval(s, e), Pay::Instant(t)) => s <= t && t <= e,
        _ => false,
    }
}
fn queries(c: &mut Ctx, start: u64, pays: &[Pay], v8: bool) -> Res {
    let evs: Vec<Ev> = pays.iter().enumerate().map(|(i, p)| Ev::new("k", "l", &[], i as u32 % 3, *p)).collect();
    let pd = open_bytes(if v8 {
        let mut o = crate::v8::Old::new(start, 1, "x");
        for e in &evs {
            o.event(e);
        }
        o.file()
    } else {
        let mut w = Writer::on(spec::Build::with_meta(start, 1, "x"), Store::Flat);
        for e in &evs {
            w.event(e);
        }
        w.b.file()
    })?;
    let t0 = UNIX_EPOCH + Duration::from_nanos(start);
    let at = |t: u64| t0 + Duration::from_nanos(t);
    let light: Vec<LightweightEvent> = pd.iter().collect();
    let full: Vec<Event> = pd.iter_full().collect();
    ensure!(light.len() == pays.len() && full.len() == pays.len(), "{} of {} events are read", light.len(), pays.len());
    for (i, p) in pays.iter().enumerate() {
        let (l, f) = (&light[i], &full[i]);
        let y: EventPayload = l.payload;
        ensure!(y == f.payload, "{:?}: full and lightweight payload differ", p);
        let dur = match *p {
            Pay::Interval(a, b) => Some(Duration::from_nanos(b - a)),
            _ => None,
        };
        let ends = match *p {
            Pay::Interval(a, b) => Some((at(a), at(b))),
            Pay::Instant(a) => Some((at(a), at(a))),
            Pay::Integer(_) => None,
        };
        let num = if let Pay::Integer(v) = *p { Some(v) } else { None };
        ensure!(l.duration() == dur && f.duration() == dur && y.duration() == dur, "{:?}: durations {:?} {:?} {:?}", p, l.duration(), f.duration(), y.duration());
        ensure!(l.start() == ends.map(|x| x.0) && l.end() == ends.map(|x| x.1), "{:?}: from {:?} to {:?}", p, l.start(), l.end());
        ensure!(f.integer() == num && y.integer() == num, "{:?}: integer {:?} {:?}", p, f.integer(), y.integer());
        let is = (matches!(p, Pay::Interval(..)), matches!(p, Pay::Instant(_)), num.is_some());
        ensure!((y.is_interval(), y.is_instant(), y.is_integer()) == is, "{:?}: is_interval, is_instant, is_integer give {:?}", p, (y.is_interval(), y.is_instant(), y.is_integer()));
        ensure!(l.timestamp() == y.timestamp(), "{:?}: timestamps differ", p);
        match (y.timestamp(), ends) {
            (None, None) => {}
            (Some(t), Some((a, b))) => {
                ensure!(t.start() == a && t.end() == b && t.duration() == dur && t.is_instant() == is.1, "{:?}: timestamp {:?}", p, t);
                let want = if is.1 { Timestamp::Instant(a) } else { Timestamp::Interval { start: a, end: b } };
                ensure!(t == want, "{:?}: timestamp {:?}", p, t);
                // points in time: every end of the others, and next to them
                for q in pays {
                    let pts = match *q {
                        Pay::Interval(a, b) => [a, b],
                        Pay::Instant(a) => [a, a],
                        Pay::Integer(_) => continue,
                    };
                    for x in pts.into_iter().flat_map(|x| [x.saturating_sub(1), x, x + 1]) {
                        let want = is.0 && a <= at(x) && at(x) < b;
                        ensure!(t.contains(at(x)) == want, "{:?} contains the time {}: {}", p, x, !want);
                    }
                }
            }
            (t, _) => fail!("{:?}: timestamp {:?}", p, t),
        }
        for (j, q) in pays.iter().enumerate() {
            let want = encloses(*p, *q);
            let got = (y.contains(&light[j].payload), l.contains(&light[j]), f.contains(&full[j]));
            ensure!(got == (want, want, want), "{:?} contains {:?}: payload {}, lightweight {}, full {}", p, q, got.0, got.1, got.2);
            c.step();
        }
    }
    Ok(())
}
pub fn check_queries() -> Check {
    let mut sc = vec![];
    sc.push(scenario("all pairs on a small grid of times", |c| {
        let v8 = c.flag();
        let start = *c.pick(&[0u64, 1, 999_999_999, 1_700_000_000_123_456_789]);
        let off = *c.pick(&[0u64, 1, 999_999_990, 0xffff_fffa, 0x1_0000_0000 - 3, (1 << 47) - 4]);
        let n = tier(8, 14);
        let mut pays = vec![];
        for a in off..off + n {
            pays.push(Pay::Instant(a));
            pays.push(Pay::Integer(a));
            pays.extend((a..off + n).map(|b| Pay::Interval(a, b)));
        }
        queries(c, start, &pays, v8)?;
        c.state(format!("{}{}{}", v8, start, off).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("all pairs of boundary times", |c| {
        let v8 = c.flag();
        let start = *c.pick(&[0u64, 1_600_000_000_999_999_999, 1 << 62]);
        let mut ts = vec![0u64, spec::MAX_INTERVAL];
        for i in (0..48).step_by(tier(4, 1)) {
            ts.extend([1u64 << i, (1u64 << i) - 1, (1u64 << i) + 1]);
        }
        ts.retain(|t| *t <= spec::MAX_INTERVAL);
        ts.sort();
        ts.dedup();
        // the first time of the intervals is chosen, everything else is paired
        let a = *c.pick(&ts);
        let mut pays = vec![];
        for &b in &ts {
            pays.push(Pay::Interval(a.min(b), a.max(b)));
            pays.push(Pay::Instant(b));
            pays.push(Pay::Integer(b));
        }
        queries(c, start, &pays, v8)?;
        c.state(format!("{}{}{}", v8, start, a).as_bytes());
        c.validated();
        Ok(())
    }));
    Check {
        id: "C26",
        scenarios: sc,
        rule: "Profiles holding every interval, instant and integer over a grid of times (at several offsets and start times) and over every power \
               of two, in both formats; every ordered pair is asked for containment through payload, lightweight and full event, every timestamp \
               for every neighbouring point in time, and every event for its durations, ends and type. states = grids."
            .into(),
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C27

fn meta_of_builder(pd: &ProfilingData) -> Res {
    ensure!(pd.metadata().start_time == UNIX_EPOCH, "the start time is {:?}", pd.metadata().start_time);
    Ok(())
}
/// Calls recorded in a builder: nested while `depth` allows.
fn fill(c: &mut Ctx, b: &mut ProfilingDataBuilder, left: &mut usize, depth: usize, n: &mut usize, want: &mut Vec<Ev>) {
    let (mut kinds, mut ids) = (Reused::new(), Reused::new());
    while *left > 0 {
        let op = c.choose(if depth > 0 { 5 } else { 4 });
        if op == 0 {
            return;
        }
        *left -= 1;
        let i = *n;
        *n += 1;
        c.step();
        // texts of equal lengths, handed over in buffers that are used again
        let kind = kinds.set(["Query", "Querz", "kin\u{e9}"][i % 3]);
        let th = [0u32, 3, u32::MAX][i % 3];
        let (label, args): (String, Vec<String>) = match i % 3 {
            0 => (format!("label {}", i), vec![]),
            1 => ("same".into(), vec![format!("arg {}", i)]),
            _ => ("\u{1f600}".into(), vec!["a".into(), format!("b{}", i)]),
        };
        let id = std::iter::once(&label).chain(&args).map(|s| s.as_str()).collect::<Vec<_>>().join("\u{1e}");
        let id = ids.set(&id);
        let ev = |pay| Ev { kind: kind.into(), label: label.clone(), args: args.clone(), thread: th, pay };
        let t = [0u64, 5, spec::MAX_INTERVAL, 1 << 32, 999_999_999][i % 5];
        match op {
            1 => {
                b.instant(kind, id, th, t);
                want.push(ev(Pay::Instant(t)));
            }
            2 => {
                b.integer(kind, id, th, t);
                want.push(ev(Pay::Integer(t)));
            }
            3 => {
                b.interval(kind, id, th, t / 3, t, |_| {});
                want.push(ev(Pay::Interval(t / 3, t)));
            }
            _ => {
                b.interval(kind, id, th, t / 2, t, |b| fill(c, b, left, depth - 1, n, want));
                want.push(ev(Pay::Interval(t / 2, t)));
            }
        }
    }
}
pub fn check_builder() -> Check {
    let mut sc = vec![];
    sc.push(scenario("histories of builder calls", |c| {
        let mut b = ProfilingDataBuilder::new();
        let mut want = vec![];
        let mut left = tier(6, 8);
        fill(c, &mut b, &mut left, 3, &mut 0, &mut want);
        let pd = b.into_profiling_data();
        meta_of_builder(&pd)?;
        same_events(&pd, &want, Some(UNIX_EPOCH))?;
        c.state(format!("{:?}", want).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("values and texts over their range", |c| {
        let v = {
            let i = c.choose(50);
            let base = if i < 48 { 1u64 << i } else { [spec::MAX_INTERVAL, 1 << 48][i - 48] };
            (base as i64 + [-1i64, 0, 1][c.choose(3)]) as u64
        };
        let text = *c.pick(&ODD);
        let kind = *c.pick(&ODD);
        let mut want = vec![];
        let mut b = ProfilingDataBuilder::new();
        let id = format!("{}\u{1e}{}", text, kind);
        for op in 0..4 {
            let pay = match op {
                0 => Pay::Instant(v),
                1 => Pay::Integer(v),
                2 => Pay::Interval(0, v),
                _ => Pay::Interval(v, v),
            };
            let fits = v <= match pay {
                Pay::Interval(..) => spec::MAX_INTERVAL,
                _ => (1 << 48) - 1,
            };
            let r = catches(|| {
                match pay {
                    Pay::Instant(t) => b.instant(kind, &id, 7, t),
                    Pay::Integer(t) => b.integer(kind, &id, 7, t),
                    Pay::Interval(x, y) => b.interval(kind, &id, 7, x, y, |_| {}),
                };
            });
            ensure!(r.is_ok() == fits, "{:?} is {}", pay, if fits { "refused" } else { "accepted" });
            if fits {
                want.push(Ev::new(kind, text, &[kind], 7, pay));
            }
        }
        // an interval that ends before it starts
        if v > 0 && v <= spec::MAX_INTERVAL {
            ensure!(catches(|| { b.interval(kind, &id, 7, v, v - 1, |_| {}); }).is_err(), "an interval from {} to {} is accepted", v, v - 1);
        }
        same_events(&b.into_profiling_data(), &want, Some(UNIX_EPOCH))?;
        c.step();
        c.state(format!("{}{}{}", v, text, kind).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("texts and threads that are nearly the same", |c| {
        let (x, y) = pair(c, &NEAR);
        let (a, b) = pair(c, &NEAR_THREADS);
        let mut p = ProfilingDataBuilder::new();
        let mut want = vec![];
        let swap = c.flag();
        for i in 0..6u64 {
            let kind = [x, y][(i % 2) as usize];
            let label = [x, y][(i / 2 % 2) as usize];
            let th = [a, b][(i / 3 % 2) as usize];
            let (kind, label) = if swap { (label, kind) } else { (kind, label) };
            let id = if i < 4 { label.to_string() } else { format!("{}\u{1e}{}", label, kind) };
            let args: &[&str] = if i < 4 { &[] } else { &[kind] };
            p.interval(kind, &id, th, i, 2 * i, |_| {});
            want.push(Ev::new(kind, label, args, th, Pay::Interval(i, 2 * i)));
        }
        same_events(&p.into_profiling_data(), &want, Some(UNIX_EPOCH)).map_err(|e| format!("{:?} {:?}: {}", (x, y), (a, b), e))?;
        c.step();
        c.state(format!("{:?}", want).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("any number of events", |c| {
        // across the sizes at which pages fill up
        let n = *c.pick(&[0usize, 1, 2, 1000, 4095, 4096, 8190, 8191, 8192, 8193, 16_383, 16_384, 16_385, 40_000, 100_000]);
        let mut b = ProfilingDataBuilder::new();
        let mut want = vec![];
        let long = c.flag();
        for i in 0..n {
            let l = if long { format!("{}{}", "x".repeat(i % 200), i) } else { format!("{}", i) };
            match i % 3 {
                0 => b.instant("Query", &l, i as u32, i as u64),
                1 => b.integer("Query", &l, i as u32, i as u64),
                _ => b.interval("Query", &l, i as u32, i as u64, 2 * i as u64, |_| {}),
            };
            let p = [Pay::Instant(i as u64), Pay::Integer(i as u64), Pay::Interval(i as u64, 2 * i as u64)][i % 3];
            want.push(Ev { kind: "Query".into(), label: l, args: vec![], thread: i as u32, pay: p });
        }
        same_events(&b.into_profiling_data(), &want, Some(UNIX_EPOCH))?;
        c.steps(n as u64);
        c.state(&n.to_le_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("analyses of profiles assembled and recorded", |c| {
        let t = history(c, &Cfg {
            ops: tier(4, 6),
            starts: &[(QUERY, "a"), (LOAD, "b"), (BLOCKED, "a")],
            instants: &[(HIT, "a")],
            integers: &[(ARTIFACT, "lib", 3)],
            dts: &[0, 4],
            ..Default::default()
        });
        let mut b = ProfilingDataBuilder::new();
        for e in &t.evs {
            match e.pay {
                Pay::Instant(x) => b.instant(&e.kind, &e.label, e.thread, x),
                Pay::Integer(x) => b.integer(&e.kind, &e.label, e.thread, x),
                Pay::Interval(x, y) => b.interval(&e.kind, &e.label, e.thread, x, y, |_| {}),
            };
        }
        let pd = b.into_profiling_data();
        let st: std::collections::BTreeMap<String, u64> = analyzeme::collapse_stacks(&pd).into_iter().filter(|x| x.1 > 0).collect();
        ensure!(st == stacks(&t), "{}: stacks {:?}, expected {:?}", brief(&t), st, stacks(&t));
        crate::c15::differs(&crate::c15::of_results(&pd.perform_analysis())?, &analysis(&t)).map_err(|e| format!("{}: {}", brief(&t), e))?;
        c.state(&key(&t));
        c.validated();
        Ok(())
    }));
    Check {
        id: "C27",
        scenarios: sc,
        rule: "All bounded histories of builder calls with nesting, every power-of-two value and its neighbours with every difficult text, every \
               number of events around the page sizes, and all bounded well-nested histories analysed; the assembled profile must hold exactly the \
               described events, refuse what cannot be stored, and be analysed like the recorded one. states = distinct event sequences."
            .into(),
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C28

/// Every way of running a tool on one input; the second part is what else it
/// is given, the third where its result goes.
const RUNS: [(&str, &[&str], Option<&str>); 11] = [
    ("mmview", &["@"], None),
    ("mmview", &["@", "-t", "0"], None),
    ("summarize", &["summarize", "@"], None),
    ("summarize", &["summarize", "@", "--json"], Some("json")),
    ("summarize", &["diff", "@", "other"], None),
    ("summarize", &["diff", "other", "@"], None),
    ("summarize", &["aggregate", "@", "other"], None),
    ("summarize", &["aggregate", "other", "@"], None),
    ("stack_collapse", &["@"], Some("out.stacks_folded")),
    ("flamegraph", &["@"], Some("rustc.svg")),
    ("crox", &["@"], None),
];
fn args_for<'a>(run: &'a [&'a str], at: &'a str) -> Vec<&'a str> {
    run.iter().map(|a| if *a == "@" { at } else { a }).collect()
}
fn listing(d: &std::path::Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    let mut m = std::collections::BTreeMap::new();
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if e.path().is_dir() {
            m.extend(listing(&e.path()).into_iter().map(|(k, v)| (format!("{}/{}", n, k), v)));
        } else {
            m.insert(n, std::fs::read(e.path()).unwrap());
        }
    }
    m
}
fn whole_profile() -> Trace {
    let mut t = Trace::default();
    t.start(0, QUERY, "outer", &[], 1_000);
    t.instant(0, HIT, "outer", &[], 1_500);
    t.whole(0, LOAD, "inner", 2_000, 7_000);
    t.end(0, 9_000);
    t
}
fn clean(d: &std::path::Path) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        if e.path().is_dir() {
            std::fs::remove_dir_all(e.path()).unwrap();
        }
    }
}
pub fn check_inputs() -> Check {
    let mut sc = vec![];
    sc.push(scenario("inputs that cannot be read", |c| {
        let run = c.pick(&RUNS).clone();
        let good = file_of(&whole_profile().evs, Store::Flat);
        let kind = c.choose(16);
        let bytes: Option<Vec<u8>> = match kind {
            0 => None,
            1 => Some(vec![]),
            2 => Some(good[..4].to_vec()),
            3 => Some(good[..7].to_vec()),
            4 => Some(b"just a text\n".to_vec()),
            5 => Some([b"MMPX", &good[4..]].concat()),
            6 => Some([b"MMES", &good[4..]].concat()),
            7 => Some([b"MMPD\x07\0\0\0", &good[8..]].concat()),
            8 => Some([b"MMPD\x0a\0\0\0", &good[8..]].concat()),
            9 => Some([b"MMPD\x09\x01\0\0", &good[8..]].concat()),
            10 => Some(good[..8].to_vec()),
            11 => Some(good[..9].to_vec()),
            12 => Some(good[..12].to_vec()),
            13 => Some([&good[..4], &[0xff; 4][..], &good[8..]].concat()),
            14 => Some(vec![0; 5000]),
            _ => None, // a directory of that name
        };
        let d = fresh(c, "c28");
        clean(&d);
        std::fs::write(d.join("other.mm_profdata"), &good).unwrap();
        if let Some(b) = &bytes {
            std::fs::write(d.join("bad.mm_profdata"), b).unwrap();
        }
        if kind == 15 {
            std::fs::create_dir_all(d.join("bad.mm_profdata")).unwrap();
        }
        let before = listing(&d);
        let how = *c.pick(&["bad", "bad.mm_profdata", "./bad"]);
        let o = tool(run.0, &args_for(run.1, how), &d);
        let after = listing(&d);
        let what = format!("{} {:?} with input {} of kind {}", run.0, args_for(run.1, how), how, kind);
        ensure!(o.code != Some(0), "{} ends successfully: {}", what, o.out);
        ensure!(o.code.is_some(), "{} does not end by itself", what);
        ensure!(!o.err.trim().is_empty(), "{} fails without a message", what);
        for (n, b) in &before {
            ensure!(after.get(n) == Some(b), "{} changes {}", what, n);
        }
        if run.0 != "crox" {
            let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
            ensure!(new.is_empty(), "{} leaves {:?}", what, new);
        }
        c.step();
        c.state(format!("{}{:?}{}{}", run.0, run.1, how, kind).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("inputs that cannot be read, next to ones that can", |c| {
        // the file named is unusable; its neighbours are no replacement for it
        let runs: Vec<_> = RUNS.iter().filter(|r| r.1[0] == "diff").collect();
        let good = file_of(&whole_profile().evs, Store::Flat);
        let d = fresh(c, "c28n");
        clean(&d);
        std::fs::write(d.join("other.mm_profdata"), &good).unwrap();
        let o = tool("summarize", &["summarize", "other", "--json"], &d);
        ensure!(o.code == Some(0), "no summary is written: {}", o.err);
        let json = std::fs::read(d.join("other.json")).unwrap();
        std::fs::remove_file(d.join("other.json")).unwrap();
        let (run, how, what): (_, &str, String) = if c.flag() {
            let run = **c.pick(&runs);
            let n = 12;
            let k = c.choose(n + 6);
            let text: Option<Vec<u8>> = match k {
                0 => None,
                k if k < n => Some(json[..json.len() * k / n].to_vec()),
                k if k == n => Some(vec![]),
                k if k == n + 1 => Some(b"[]".to_vec()),
                k if k == n + 2 => Some(b"{}".to_vec()),
                k if k == n + 3 => Some(good.clone()),
                k if k == n + 4 => Some([&json[..], b"}"].concat()),
                _ => Some(String::from_utf8_lossy(&json).replace("query_data", "queries").into_bytes()),
            };
            std::fs::write(d.join("bad.mm_profdata"), &good).unwrap();
            std::fs::write(d.join("bad"), &json).unwrap();
            if let Some(t) = text {
                std::fs::write(d.join("bad.json"), t).unwrap();
            }
            (run, "bad.json", format!("an unusable summary of kind {}", k))
        } else {
            let run = *c.pick(&RUNS);
            let old = ["events", "string_data", "string_index"];
            let mask = c.choose(8);
            for (i, e) in old.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    std::fs::write(d.join("bad").with_extension(e), &good).unwrap();
                }
            }
            if c.flag() {
                std::fs::write(d.join("bad.json"), &json).unwrap();
                std::fs::write(d.join("bad"), &good).unwrap();
                std::fs::write(d.join("bad.mm_profdata.old"), &good).unwrap();
            }
            (run, "bad", format!("files of the old format {:03b}", mask))
        };
        let before = listing(&d);
        let o = tool(run.0, &args_for(run.1, how), &d);
        let after = listing(&d);
        let what = format!("{} {:?} with {}", run.0, args_for(run.1, how), what);
        ensure!(o.code != Some(0), "{} ends successfully: {}", what, o.out);
        ensure!(o.code.is_some(), "{} does not end by itself", what);
        ensure!(!o.err.trim().is_empty(), "{} fails without a message", what);
        if how == "bad" {
            let said = o.err.contains("out-dated version");
            let there = before.keys().any(|n| n.starts_with("bad.events") || n.starts_with("bad.string"));
            ensure!(said == there, "{} says {:?}", what, o.err);
        }
        for (n, b) in &before {
            ensure!(after.get(n) == Some(b), "{} changes {}", what, n);
        }
        if run.0 != "crox" {
            ensure!(after.len() == before.len(), "{} leaves new files", what);
        }
        c.step();
        c.state(what.as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("missing inputs among files with similar names", |c| {
        const NEAR_NAMES: [&str; 18] = [
            "bad2.mm_profdata", "bad-2.mm_profdata", "bad_.mm_profdata", "bad.1.mm_profdata", "bad.truncated.mm_profdata", "Bad.mm_profdata",
            "BAD.MM_PROFDATA", "abad.mm_profdata", "ba.mm_profdata", "bad.mm_profdata.bak", "bad.mm_profdata~", "bad.mm_profdat", "bad.profdata",
            "bad.mm_profdata2", "bad", "bad.bad", "bad ", "bad /bad.mm_profdata",
        ];
        let run = *c.pick(&RUNS);
        let which = c.choose(NEAR_NAMES.len() + 1);
        let how = c.choose(4);
        let d = fresh(c, "c28s");
        clean(&d);
        let good = file_of(&whole_profile().evs, Store::Flat);
        std::fs::write(d.join("other.mm_profdata"), &good).unwrap();
        for (i, n) in NEAR_NAMES.iter().enumerate() {
            if i == which || (which == NEAR_NAMES.len() && *n != "bad ") {
                let f = d.join(n);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(f, &good).unwrap();
            }
        }
        let name = ["bad".to_string(), "bad.mm_profdata".into(), "./bad".into(), d.join("bad").display().to_string()][how].clone();
        let before = listing(&d);
        let o = tool(run.0, &args_for(run.1, &name), &d);
        let after = listing(&d);
        let what = format!("{} {:?} next to {:?}", run.0, args_for(run.1, &name), NEAR_NAMES.get(which));
        ensure!(o.code != Some(0), "{} ends successfully: {}", what, o.out);
        ensure!(o.code.is_some(), "{} does not end by itself", what);
        ensure!(!o.err.trim().is_empty(), "{} fails without a message", what);
        for (n, b) in &before {
            ensure!(after.get(n) == Some(b), "{} changes {}", what, n);
        }
        c.step();
        c.state(what.as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("options that make no sense", |c| {
        const CASES: [(&str, &[&str]); 33] = [
            ("summarize", &["summarize", "p", "-p", "100.5"]),
            ("summarize", &["summarize", "p", "-p", "1e300"]),
            ("summarize", &["summarize", "p", "--percent-above", "101"]),
            ("summarize", &["summarize", "p", "-p=-0.5"]),
            ("summarize", &["summarize", "p", "--percent-above=-1"]),
            ("summarize", &["summarize", "p", "-p", "half"]),
            ("summarize", &["summarize", "p", "-p", ""]),
            ("summarize", &["summarize", "p", "-p"]),
            ("summarize", &["summarize"]),
            ("summarize", &["summarize", "p", "p"]),
            ("summarize", &["summarize", "p", "--jsonn"]),
            ("summarize", &["diff", "p"]),
            ("summarize", &["diff", "p", "p", "p"]),
            ("summarize", &["diff", "p", "p", "--exclude"]),
            ("summarize", &["difference", "p", "p"]),
            ("summarize", &["p"]),
            ("summarize", &[]),
            ("mmview", &[]),
            ("mmview", &["p", "p"]),
            ("mmview", &["p", "-t", "one"]),
            ("mmview", &["p", "-t=-1"]),
            ("mmview", &["p", "-t", "4294967296"]),
            ("mmview", &["p", "-t", ""]),
            ("mmview", &["p", "-x"]),
            ("crox", &[]),
            ("crox", &["p", "--minimum-duration", "short"]),
            ("crox", &["p", "--minimum-duration=-1"]),
            ("crox", &["p", "--collapse"]),
            ("stack_collapse", &[]),
            ("flamegraph", &[]),
            ("mmedit", &["truncate"]),
            ("mmedit", &["cut", "p.mm_profdata"]),
            ("mmedit", &["p.mm_profdata"]),
        ];
        let (name, args) = *c.pick(&CASES);
        let d = fresh(c, "c28o");
        clean(&d);
        std::fs::write(d.join("p.mm_profdata"), file_of(&whole_profile().evs, Store::Flat)).unwrap();
        let before = listing(&d);
        let o = tool(name, args, &d);
        let what = format!("{} {:?}", name, args);
        ensure!(o.code.is_some() && o.code != Some(0), "{} ends with {:?}: {}", what, o.code, o.out);
        ensure!(!o.err.trim().is_empty(), "{} fails without a message", what);
        ensure!(listing(&d) == before, "{} changes or leaves a file", what);
        c.step();
        c.state(what.as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("inputs that cannot be truncated", |c| {
        let good = file_of(&whole_profile().evs, *c.pick(&[Store::Flat, Store::Virtual]));
        let pages = common::spec::pages(&good[8..]).map_err(|_| "torn pages")?;
        let only = |keep: &dyn Fn(u8) -> bool| {
            let mut f = good[..8].to_vec();
            for (t, b) in pages.iter().filter(|p| keep(p.0)) {
                f.push(*t);
                f.extend((b.len() as u32).to_le_bytes());
                f.extend_from_slice(b);
            }
            f
        };
        let kind = c.choose(18);
        let d = fresh(c, "c28t");
        clean(&d);
        let bytes = match kind {
            0 => vec![],
            n @ 1..=3 => good[..[4, 7, 9][n - 1]].to_vec(),
            4 => b"just a text\n".to_vec(),
            5 => [b"MMPX", &good[4..]].concat(),
            6 => [b"MMES", &good[4..]].concat(),
            7 => [b"MMPD\x0a\0\0\0", &good[8..]].concat(),
            8 => [b"MMPD\x06\0\0\0", &good[8..]].concat(),
            9 => good[..good.len() - 1].to_vec(),
            10 => good[..8].to_vec(),
            11 => only(&|t| t != 0),
            12 => only(&|t| t == 1),
            // an empty page, which no page is; a page of an unknown kind
            15 => [&good[..8], &[0; 5], &good[8..]].concat(),
            16 => [&good[..], &[1, 0, 0, 0, 0]].concat(),
            17 => [&good[..], &[3, 1, 0, 0, 0, 7]].concat(),
            _ => vec![],
        };
        if kind == 13 {
            std::fs::create_dir_all(d.join("bad.mm_profdata")).unwrap();
        } else if kind != 14 {
            std::fs::write(d.join("bad.mm_profdata"), &bytes).unwrap();
        }
        std::fs::write(d.join("other.mm_profdata"), &good).unwrap();
        let before = listing(&d);
        let o = tool("mmedit", &["truncate", "bad.mm_profdata"], &d);
        let after = listing(&d);
        let what = format!("mmedit truncate with input of kind {}", kind);
        ensure!(o.code != Some(0), "{} ends successfully", what);
        ensure!(o.code.is_some(), "{} does not end by itself", what);
        ensure!(!o.err.trim().is_empty(), "{} fails without a message", what);
        ensure!(after == before, "{} changes or leaves a file", what);
        c.step();
        c.state(&[kind as u8]);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("several inputs and directories for the Chrome trace", |c| {
        let good = file_of(&whole_profile().evs, Store::Flat);
        let kind = c.choose(9);
        let d = fresh(c, "c28d");
        clean(&d);
        let sub = d.join("all");
        std::fs::create_dir_all(&sub).unwrap();
        let bad = sub.join(*c.pick(&["bad.mm_profdata", "z.mm_profdata"]));
        match kind {
            0 => std::fs::write(&bad, b"").unwrap(),
            1 => std::fs::write(&bad, &good[..4]).unwrap(),
            2 => std::fs::write(&bad, &good[..8]).unwrap(),
            3 => std::fs::write(&bad, &good[..good.len() - 1]).unwrap(),
            4 => std::fs::write(&bad, [b"MMPX", &good[4..]].concat()).unwrap(),
            5 => std::fs::write(&bad, [b"MMPD\x07\0\0\0", &good[8..]].concat()).unwrap(),
            6 => std::fs::write(&bad, b"just a text\n").unwrap(),
            7 => std::fs::create_dir_all(&bad).unwrap(),
            _ => {} // there is no such file
        }
        for p in [d.join("other.mm_profdata"), sub.join("m.mm_profdata")] {
            std::fs::write(p, &good).unwrap();
        }
        std::fs::write(sub.join("text.txt"), "no profile\n").unwrap();
        let b = bad.to_string_lossy().into_owned();
        let forms: [&[&str]; 8] = [
            &["--dir", "all"], &["other", "--dir", "all"], &["--dir", "all", "other"], &["other", &b], &[&b, "other"], &["other", &b, "other"],
            &["--dir", "nothing"], &["--dir", "other.mm_profdata"],
        ];
        let form = c.choose(forms.len());
        let mut args = forms[form].to_vec();
        args.extend(*c.pick(&[&[][..], &["--collapse-threads"][..], &["--minimum-duration", "100000"][..]]));
        let before = listing(&d);
        let o = tool("crox", &args, &d);
        let after = listing(&d);
        let what = format!("crox {:?} with input {:?} of kind {}", args, bad.file_name(), kind);
        if form < 3 && kind == 8 {
            // everything in the directory can be read
            ensure!(o.code == Some(0), "{} fails: {}", what, o.err);
        } else {
            ensure!(o.code != Some(0), "{} ends successfully: {}", what, o.out);
            ensure!(o.code.is_some(), "{} does not end by itself", what);
            ensure!(!o.err.trim().is_empty(), "{} fails without a message", what);
        }
        for (n, b) in &before {
            ensure!(after.get(n) == Some(b), "{} changes {}", what, n);
        }
        c.step();
        c.state(what.as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("inputs that can be read stay as they are, however named", |c| {
        let run = c.pick(&RUNS).clone();
        let d = fresh(c, "c28g");
        clean(&d);
        let d = std::fs::canonicalize(&d).unwrap();
        let sub = d.join("sub dir");
        std::fs::create_dir_all(&sub).unwrap();
        let v8 = c.flag();
        let evs = whole_profile().evs;
        let good = if v8 { crate::v8::file_of(&evs) } else { file_of(&evs, Store::Composite) };
        for p in [d.join("other.mm_profdata"), d.join("good.mm_profdata"), sub.join("good.mm_profdata"), d.join("rustc-12.mm_profdata")] {
            std::fs::write(p, &good).unwrap();
        }
        let abs = d.join("good").to_string_lossy().into_owned();
        let abs2 = sub.join("good.mm_profdata").to_string_lossy().into_owned();
        let names = ["good", "good.mm_profdata", "./good", "sub dir/good", "sub dir/../good.mm_profdata", &abs, &abs2, "rustc-12"];
        let how = *c.pick(&names);
        let base = tool(run.0, &args_for(run.1, "other"), &d);
        ensure!(base.code == Some(0), "{} fails: {}", run.0, base.err);
        let result = |p: &std::path::Path| std::fs::read(p).ok();
        let out_of = |stem: &str| match run.2 {
            None if run.0 == "crox" => Some(d.join("chrome_profiler.json")),
            None => None,
            Some("json") => Some(d.join(stem).with_extension("json")),
            Some(f) => Some(d.join(f)),
        };
        let first = out_of("other").map(|p| (result(&p), std::fs::remove_file(&p)).0);
        ensure!(first != Some(None), "{} writes no result", run.0);
        let before = listing(&d);
        let o = tool(run.0, &args_for(run.1, how), &d);
        ensure!(o.code == Some(0), "{} {:?} fails: {}", run.0, args_for(run.1, how), o.err);
        ensure!(o.out == base.out, "{} {:?} says {:?}, for the same file in the current directory {:?}", run.0, args_for(run.1, how), o.out, base.out);
        let second = out_of(how).map(|p| result(&p));
        if run.0 == "crox" || run.2.is_none() || run.2 == Some("json") || run.2 == Some("out.stacks_folded") {
            let norm = |x: &Option<Option<Vec<u8>>>| {
                x.as_ref().map(|y| {
                    y.as_ref().map(|z| {
                        // the order of labels of equal standing is open
                        let mut l: Vec<String> = String::from_utf8_lossy(z).lines().map(|s| s.to_string()).collect();
                        l.sort();
                        l
                    })
                })
            };
            ensure!(norm(&second) == norm(&first), "{} {:?} writes something else than for the same file in the current directory", run.0, args_for(run.1, how));
        }
        let after = listing(&d);
        for (n, b) in &before {
            ensure!(after.get(n) == Some(b), "{} {:?} changes {}", run.0, args_for(run.1, how), n);
        }
        let new = after.len() - before.len();
        ensure!(new == out_of(how).is_some() as usize, "{} {:?} leaves {} new files", run.0, args_for(run.1, how), new);
        c.step();
        c.state(format!("{}{:?}{}{}", run.0, run.1, how, v8).as_bytes());
        c.validated();
        Ok(())
    }));
    Check {
        id: "C28",
        scenarios: sc,
        rule: "Every tool and command, with every kind of unreadable input in every position and name form, and with the same readable profile named \
               in every way (stem, full name, relative, absolute, subdirectory, both formats): exit status, messages, files written and the \
               inputs afterwards are compared. states = distinct runs."
            .into(),
        assumptions: vec!["what crox leaves of its output after a failure is open".into()],
    }
}

// ---------------------------------------------------------------- C29

const NAMES: [&str; 4] = ["wall-time", "instructions:u", "instructions-minus-irqs:u", "instructions-minus-r0420:u"];
fn counter_of(c: &Ctx, name: &str) -> Result<(serde_json::Value, Vec<Ev>), String> {
    let stem = c.scratch().join("c29");
    let mut p = Plan { clock: Some(vec![100, 107, 207, 1_107]), ..Default::default() };
    sys::with_plan(&mut p, || -> Res {
        let p = match name {
            "" => Profiler::new(&stem),
            n => Counter::by_name(n).and_then(|c| Profiler::with_counter(&stem, c)),
        }
        .map_err(|e| e.to_string())?;
        let k = p.alloc_string("k");
        p.record_instant_event(k, EventId::from_label(k), 0);
        let g = p.start_recording_interval_event(k, EventId::from_label(k), 0);
        drop(g);
        Ok(())
    })?;
    let f = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| e.to_string())?;
    let s = spec::streams_of(&spec::pages(&f[8..]).map_err(|_| "torn file")?);
    let t = spec::Strings::new(&s[1], &s[2]);
    let m = t.get(spec::METADATA_ID).ok_or("no metadata")?;
    let v: serde_json::Value = serde_json::from_str(&m).map_err(|e| format!("{:?}: {}", m, e))?;
    let pd = open_bytes(f)?;
    let t0 = pd.metadata().start_time;
    let evs = pd.iter_full().map(|e| ev_of(&e, t0)).collect::<Result<Vec<_>, _>>()?;
    Ok((v, evs))
}
pub fn check_counters() -> Check {
    let mut sc = vec![];
    sc.push(scenario("names next to those of counters", |c| {
        let name = *c.pick(&NAMES);
        let n = name.len();
        let mut s: Vec<u8> = name.bytes().collect();
        match c.choose(8) {
            0 => {
                s.remove(c.choose(n));
            }
            1 => s[c.choose(n)] = (33 + c.choose(94)) as u8,
            2 => s.insert(c.choose(n + 1), (32 + c.choose(95)) as u8),
            3 => s.truncate(c.choose(n)),
            4 => s = s.split_off(1 + c.choose(n)),
            5 => s = name.to_uppercase().into_bytes(),
            6 => {
                let i = c.choose(n);
                s[i] = s[i].to_ascii_uppercase();
            }
            _ => {
                let b = c.pick(&["\0", "\n", " ", ":k", ":u:u", "-", "\u{a0}"]).as_bytes();
                if c.flag() {
                    s.extend_from_slice(b);
                } else {
                    s.splice(0..0, b.iter().copied());
                }
            }
        }
        let s = String::from_utf8(s).unwrap();
        if NAMES.contains(&s.as_str()) {
            return Ok(());
        }
        match catches(|| sys::muted(|| Counter::by_name(&s).map(|_| ()).map_err(|e| e.to_string()))) {
            Ok(Err(m)) => ensure!(m.contains(&format!("{:?}", s)) || m.contains(&s), "refusing {:?}, the message is {:?}", s, m),
            r => fail!("the counter {:?} gives {:?}", s, r),
        }
        c.step();
        c.state(s.as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("all short names", |c| {
        let a: Vec<char> = "wallinstructonsuWT-_: 0\u{e9}".chars().collect();
        let n = c.choose(tier(4, 5));
        let s: String = (0..n).map(|_| *c.pick(&a)).collect();
        let r = catches(|| Counter::by_name(&s).map(|_| ()).map_err(|e| e.to_string()));
        ensure!(matches!(r, Ok(Err(_))), "the counter {:?} gives {:?}", s, r);
        c.step();
        c.state(s.as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("the counter used is the one named", |c| {
        let i = c.choose(5);
        let name = if i == 4 { "" } else { NAMES[i] };
        let r = catches(|| sys::muted(|| counter_of(c, name)));
        let wall = i == 0 || i == 4;
        match r {
            Ok(Ok((meta, evs))) => {
                let want = if wall { "wall-time" } else { name };
                ensure!(meta["counter"]["name"] == want, "the profile names the counter {}, used is {:?}", meta["counter"], want);
                let units = if wall { serde_json::json!([["ns", 1], ["\u{3bc}s", 1000], ["ms", 1_000_000], ["s", 1_000_000_000]]) } else { serde_json::json!([["instructions", 1]]) };
                ensure!(meta["counter"]["units"] == units, "the profile states the units {}, expected {}", meta["counter"]["units"], units);
                if wall {
                    ensure!(evs.len() == 2 && evs[0].pay == Pay::Instant(7) && evs[1].pay == Pay::Interval(107, 1_007), "the counter reads {:?}", evs);
                }
            }
            // hardware counters may be missing on this machine
            Ok(Err(m)) => ensure!(!wall && !m.is_empty(), "the counter {:?} is refused: {:?}", name, m),
            Err(m) => fail!("the counter {:?} panics: {}", name, m),
        }
        c.step();
        c.state(&[i as u8]);
        c.validated();
        Ok(())
    }));
    Check {
        id: "C29",
        scenarios: sc,
        rule: "Every name one edit (deletion, substitution, insertion, cut, case) away from a counter's name and every short name is asked for and must be \
               refused with a message; each real name, if granted, must be the counter the profile states, with its units, and the wall-time \
               counter must read the scripted clock. states = distinct names."
            .into(),
        assumptions: vec!["hardware counters are not available here: only their names and refusal are explored".into()],
    }
}
