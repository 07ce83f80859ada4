//! C10: a recorded session decodes to the same events with the same times.
use crate::sys::{self, Plan};
use crate::util::*;
use common::explore::*;
use common::spec::{Pay, MAX_INTERVAL};
use common::sup::Check;
use common::{ensure, fail, tier};
use measureme::counters::{Counter, WallTime};
use measureme::{DetachedTiming, EventId, EventIdBuilder, Profiler, StringId, TimingGuard};
use std::path::{Path, PathBuf};

/// Runs one call with the clock standing at `t`.
fn at<T>(t: u64, f: impl FnOnce() -> T) -> T {
    let mut p = Plan { clock: Some(vec![t]), ..Default::default() };
    sys::with_plan(&mut p, f)
}
/// Ends the scope of a guard by unwinding.
fn unwind(t: u64, g: TimingGuard) {
    let r = at(t, || {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _g = g;
            std::panic::resume_unwind(Box::new(()));
        }))
    });
    assert!(r.is_err());
}
enum Open<'a> {
    Guard(TimingGuard<'a>),
    Detached(DetachedTiming),
}
struct O<'a> {
    h: Open<'a>,
    start: u64,
    n: usize,
}
fn new_profiler(stem: &Path, base: u64, how: usize) -> Result<Profiler, String> {
    at(base, || match how {
        0 => Profiler::new(stem),
        1 => Profiler::with_counter(stem, Counter::WallTime(WallTime::new())),
        _ => Counter::by_name("wall-time").and_then(|c| Profiler::with_counter(stem, c)),
    })
    .map_err(|e| e.to_string())
}
const KINDS: [&str; 3] = ["kind", "other kind \u{e9}", ""];
const THREADS: [u32; 4] = [0, 7, u32::MAX, 0x8000_0000];

fn histories(c: &mut Ctx, depth: usize, steps: &[u64], only_time: bool) -> common::Res {
    let stem = c.scratch().join("c10");
    let base = 5_000_000_007u64;
    let how = if only_time { 0 } else { c.choose(3) };
    let p = new_profiler(&stem, base, how)?;
    let mut now = base;
    let mut want: Vec<Ev> = vec![];
    let mut open: Vec<O> = vec![];
    let mut log: Vec<String> = vec![];
    let kinds: Vec<StringId> = KINDS.iter().map(|k| p.alloc_string(*k)).collect();
    // event n has its own label, argument, kind and thread
    let what = |n: usize| (kinds[n % 3], KINDS[n % 3], THREADS[n % 4], format!("label {}", n), format!("arg {}", n));
    let ids: Vec<EventId> = (0..depth)
        .map(|n| {
            let (_, _, _, l, a) = what(n);
            let (l, a) = (p.alloc_string(&*l), p.alloc_string(&*a));
            EventIdBuilder::new(&p).from_label_and_arg(l, a)
        })
        .collect();
    let over = EventId::from_label(p.alloc_string("overridden"));
    for n in 0..depth {
        now += *c.pick(steps);
        let (k, kt, th, l, a) = what(n);
        let t = now - base;
        let new = |pay| Ev::new(kt, &l, &[&a], th, pay);
        let nopen = open.len();
        let fresh = if nopen < 3 { 2 } else { 0 };
        let extra = if only_time { 0 } else { 5 };
        let op = c.choose(2 + extra + fresh + nopen * if only_time { 1 } else { 2 });
        match op {
            0 => {
                at(now, || p.record_instant_event(k, ids[n], th));
                want.push(new(Pay::Instant(t)));
                log.push(format!("instant@{}", t));
            }
            1 => break,
            _ if op < 2 + extra => match op - 2 {
                0 => {
                    let v = [0, 1, u32::MAX as u64 + 1, (1 << 48) - 1][n % 4];
                    at(now, || p.record_integer_event(k, ids[n], th, v));
                    want.push(new(Pay::Integer(v)));
                    log.push("integer".into());
                }
                1 => {
                    at(now, || drop(p.start_recording_interval_event(k, ids[n], th)));
                    want.push(new(Pay::Interval(t, t)));
                    log.push(format!("empty interval@{}", t));
                }
                2 => {
                    let g = at(now, || p.start_recording_interval_event(k, ids[n], th));
                    now += 3;
                    at(now, || g.finish_with_override_event_id(over));
                    want.push(Ev::new(kt, "overridden", &[], th, Pay::Interval(t, t + 3)));
                    log.push(format!("overridden@{}", t));
                }
                3 => {
                    // the activity ends by a panic passing through
                    let g = at(now, || p.start_recording_interval_event(k, ids[n], th));
                    now += 2;
                    unwind(now, g);
                    want.push(new(Pay::Interval(t, t + 2)));
                    log.push(format!("unwound@{}", t));
                }
                _ => {
                    let s = p.alloc_string("something in between");
                    p.map_virtual_to_concrete_string(StringId::new_virtual(n as u64), s);
                    log.push("strings".into());
                }
            },
            _ if op < 2 + extra + fresh => {
                let det = op - 2 - extra == 1;
                let h = at(now, || {
                    if det {
                        Open::Detached(p.start_recording_interval_event_detached(k, ids[n], th))
                    } else {
                        Open::Guard(p.start_recording_interval_event(k, ids[n], th))
                    }
                });
                open.push(O { h, start: t, n });
                log.push(format!("start {}{}@{}", if det { "detached " } else { "" }, n, t));
            }
            _ => {
                let i = op - 2 - extra - fresh;
                let o = open.remove(i % nopen);
                let (_, kt, th, l, a) = what(o.n);
                let overridden = i >= nopen;
                let mut e = Ev::new(kt, &l, &[&a], th, Pay::Interval(o.start, t));
                match o.h {
                    Open::Guard(g) if overridden => {
                        at(now, || g.finish_with_override_event_id(over));
                        e.label = "overridden".into();
                        e.args.clear();
                    }
                    Open::Guard(g) => at(now, || drop(g)),
                    Open::Detached(d) => at(now, || p.finish_recording_interval_event(d)),
                }
                want.push(e);
                log.push(format!("end {}@{}", o.n, t));
            }
        }
        c.step();
        c.state(format!("{:?}{:?}", want.len(), open.iter().map(|o| (o.start, o.n)).collect::<Vec<_>>()).as_bytes());
    }
    // guards still open end when dropped, here in order of creation, the last
    // one by unwinding
    let last = open.len();
    for (i, o) in open.into_iter().enumerate() {
        now += 1;
        let t = now - base;
        let (_, kt, th, l, a) = what(o.n);
        match o.h {
            Open::Guard(g) => {
                if i + 1 == last {
                    unwind(now, g);
                } else {
                    at(now, || drop(g));
                }
                want.push(Ev::new(kt, &l, &[&a], th, Pay::Interval(o.start, t)));
            }
            Open::Detached(_) => {} // abandoned: no event
        }
    }
    drop(p);
    same_events(&open_stem(&stem)?, &want, None).map_err(|e| format!("{:?}: {}", log, e))?;
    c.validated();
    c.sample(|| format!("{:?}", log));
    Ok(())
}

/// Several profilers used in turns by one thread (a new one, so that nothing an
/// earlier execution left in the thread matters), created and finished at any
/// point between the others' calls.
fn side_by_side(c: &mut Ctx, depth: usize) -> common::Res {
    in_fresh_thread(|| one_thread(c, depth))
}
fn one_thread(c: &mut Ctx, depth: usize) -> common::Res {
    struct P {
        p: Option<Profiler>,
        stem: PathBuf,
        base: u64,
        kind: StringId,
        want: Vec<Ev>,
        open: Option<(DetachedTiming, u64, String)>,
    }
    let mut ps: Vec<P> = vec![];
    let mut now = 1_000u64;
    let mut log = vec![];
    let mut n = 0usize;
    while n < depth {
        n += 1;
        now += 5;
        let live: Vec<usize> = (0..ps.len()).filter(|&i| ps[i].p.is_some()).collect();
        let can_new = (ps.len() < 3) as usize;
        if can_new == 0 && live.is_empty() {
            break;
        }
        let both = (live.len() >= 2) as usize;
        let op = c.choose(can_new + both + live.len() * 5);
        if op < can_new {
            let i = ps.len();
            let stem = c.scratch().join(format!("side{}", i));
            let p = new_profiler(&stem, now, i)?;
            // the kind's id is the same number in all of them
            let kind = p.alloc_string(&*format!("kind{}", i));
            ps.push(P { p: Some(p), stem, base: now, kind, want: vec![], open: None });
            log.push(format!("new {}", i));
        } else if op < can_new + both {
            // guards of two profilers, overlapping
            let (i, j) = (live[0], live[live.len() - 1]);
            let (a, b) = (&ps[i], &ps[j]);
            let (pa, pb) = (a.p.as_ref().unwrap(), b.p.as_ref().unwrap());
            let la = pa.alloc_string(&*format!("guard {} of {}", n, i));
            let lb = pb.alloc_string(&*format!("guard {} of {}", n, j));
            let t = now;
            let ga = at(t, || pa.start_recording_interval_event(a.kind, EventId::from_label(la), 1));
            let gb = at(t + 1, || pb.start_recording_interval_event(b.kind, EventId::from_label(lb), 1));
            at(t + 2, || drop(ga));
            at(t + 4, || drop(gb));
            now += 4;
            let ea = Ev::new(&format!("kind{}", i), &format!("guard {} of {}", n, i), &[], 1, Pay::Interval(t - a.base, t + 2 - a.base));
            let eb = Ev::new(&format!("kind{}", j), &format!("guard {} of {}", n, j), &[], 1, Pay::Interval(t + 1 - b.base, t + 4 - b.base));
            ps[i].want.push(ea);
            ps[j].want.push(eb);
            log.push(format!("guards {} {}", i, j));
        } else {
            let x = op - can_new - both;
            let i = live[x / 5];
            let s = &mut ps[i];
            let p = s.p.as_ref().unwrap();
            let t = now - s.base;
            let kt = format!("kind{}", i);
            match x % 5 {
                0 => {
                    // the same text in every profiler, at different addresses
                    let l = p.alloc_string("the same text");
                    let a = p.alloc_string(&*format!("arg {} of {}", n, i));
                    let id = EventIdBuilder::new(p).from_label_and_arg(l, a);
                    at(now, || p.record_instant_event(s.kind, id, 1));
                    s.want.push(Ev::new(&kt, "the same text", &[&format!("arg {} of {}", n, i)], 1, Pay::Instant(t)));
                }
                1 => {
                    // the same virtual id, each time mapped to something else
                    // by a new profiler, or to what it already is
                    let text = format!("mapped in {}", i);
                    let v = StringId::new_virtual(9u64);
                    let l = p.alloc_string(&*text);
                    p.map_virtual_to_concrete_string(v, l);
                    p.record_integer_event(s.kind, EventId::from_virtual(v), 1, n as u64);
                    s.want.push(Ev::new(&kt, &text, &[], 1, Pay::Integer(n as u64)));
                }
                2 => match s.open.take() {
                    None => {
                        let text = format!("interval {} of {}", n, i);
                        let l = EventId::from_label(p.alloc_string(&*text));
                        let d = at(now, || p.start_recording_interval_event_detached(s.kind, l, 1));
                        s.open = Some((d, t, text));
                    }
                    Some((d, t0, text)) => {
                        at(now, || p.finish_recording_interval_event(d));
                        s.want.push(Ev::new(&kt, &text, &[], 1, Pay::Interval(t0, t)));
                    }
                },
                3 => {
                    // finish this profile while the others go on
                    s.p = None;
                    same_events(&open_stem(&s.stem)?, &s.want, None).map_err(|e| format!("{:?}: profile {} when finished: {}", log, i, e))?;
                }
                _ => {
                    // a long string, so that pages are written at different points
                    let text = format!("{} of {} {}", n, i, "long ".repeat(if i == 0 { 60_000 } else { 100 }));
                    let text = text.trim_end();
                    let l = EventId::from_label(p.alloc_string(text));
                    at(now, || p.record_instant_event(s.kind, l, 1));
                    s.want.push(Ev::new(&kt, text, &[], 1, Pay::Instant(t)));
                }
            }
            log.push(format!("{}:{}", i, x % 5));
        }
        c.step();
        c.state(format!("{:?}", log).as_bytes());
    }
    for s in &mut ps {
        s.p = None;
    }
    for (i, s) in ps.iter().enumerate() {
        same_events(&open_stem(&s.stem)?, &s.want, None).map_err(|e| format!("{:?}: profile {}: {:.300}", log, i, e))?;
    }
    c.validated();
    c.sample(|| format!("{:?}", log));
    Ok(())
}

fn tree(d: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
            tree(&e.path(), out);
        } else {
            out.push(e.path());
        }
    }
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("histories of profiler calls", |c| histories(c, tier(5, 6), &[3], false)));
    sc.push(scenario("histories with the clock standing still or leaping", |c| {
        histories(c, tier(5, 6), tier(&[0, 1, (1 << 32) + 1, 1 << 45], &[0, 1, 999_999_999, (1 << 32) + 1, 1 << 45]), true)
    }));
    sc.push(scenario("clock readings over the whole range", |c| {
        let stem = c.scratch().join("c10r");
        let pts = {
            let mut v = vec![0u64, MAX_INTERVAL, MAX_INTERVAL - 1];
            for i in 0..48 {
                v.push(1 << i);
                v.push((1 << i) - 1);
                v.push((1 << i) + 999_999_999);
            }
            v.retain(|x| *x <= MAX_INTERVAL);
            v.sort();
            v.dedup();
            v
        };
        let base = *c.pick(&[0u64, 1, 999_999_999, 5_000_000_000, 1 << 50]);
        let i = c.choose(pts.len());
        let p = new_profiler(&stem, base, 0)?;
        let k = p.alloc_string("k");
        let l = EventId::from_label(p.alloc_string("l"));
        let mut want = vec![];
        for &e in &pts[i..] {
            let g = at(base + pts[i], || p.start_recording_interval_event(k, l, 1));
            at(base + e, || drop(g));
            want.push(Ev::new("k", "l", &[], 1, Pay::Interval(pts[i], e)));
            let d = at(base + pts[i], || p.start_recording_interval_event_detached(k, l, 2));
            at(base + e, || p.finish_recording_interval_event(d));
            want.push(Ev::new("k", "l", &[], 2, Pay::Interval(pts[i], e)));
            at(base + e, || p.record_instant_event(k, l, 3));
            want.push(Ev::new("k", "l", &[], 3, Pay::Instant(e)));
            c.steps(3);
        }
        drop(p);
        same_events(&open_stem(&stem)?, &want, None)?;
        c.state(&[base.to_le_bytes(), pts[i].to_le_bytes()].concat());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("long sessions crossing page boundaries", |c| {
        let stem = c.scratch().join("c10l");
        let n = *c.pick(&[0usize, 1, 4095, 4096, 8190, 8191, 8192, 8193, 16_383, 20_000, 40_000]);
        let nest = *c.pick(&[0usize, 1, 50]);
        let labels = *c.pick(&[1usize, 5000]);
        let p = new_profiler(&stem, 100, 0)?;
        let k = p.alloc_string("k");
        let mut now = 100;
        let mut want = vec![];
        let mut open: Vec<(TimingGuard, u64, usize)> = vec![];
        let mut id = vec![];
        for i in 0..n {
            now += 1;
            if i < labels {
                id.push(EventId::from_label(p.alloc_string(&*format!("label number {}", i))));
            }
            let l = i % labels;
            let text = |l: usize| format!("label number {}", l);
            if open.len() <= nest {
                let g = at(now, || p.start_recording_interval_event(k, id[l], (i % 3) as u32));
                open.push((g, now - 100, i));
            } else {
                let (g, s, j) = open.remove(open.len() / 2);
                at(now, || drop(g));
                want.push(Ev::new("k", &text(j % labels), &[], (j % 3) as u32, Pay::Interval(s, now - 100)));
                at(now, || p.record_integer_event(k, id[l], 4, i as u64));
                want.push(Ev::new("k", &text(l), &[], 4, Pay::Integer(i as u64)));
            }
        }
        for (g, s, j) in open.drain(..) {
            now += 1;
            at(now, || drop(g));
            want.push(Ev::new("k", &format!("label number {}", j % labels), &[], (j % 3) as u32, Pay::Interval(s, now - 100)));
        }
        drop(open);
        drop(p);
        same_events(&open_stem(&stem)?, &want, None)?;
        c.steps(n as u64);
        c.state(&[n as u8, (n >> 8) as u8, nest as u8, labels as u8]);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("several profilers side by side", |c| side_by_side(c, tier(7, 8))));
    sc.push(scenario("file names and replaced files", |c| {
        use std::os::unix::ffi::OsStrExt;
        let root = c.scratch().join("names");
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).map_err(|e| e.to_string())?;
        // (stem, file it must become)
        let names: [(&[u8], &[u8]); 14] = [
            (b"p", b"p.mm_profdata"),
            (b"p.x", b"p.mm_profdata"),
            (b"p.x.y", b"p.x.mm_profdata"),
            (b"p-1234", b"p-1234.mm_profdata"),
            (b"p.mm_profdata", b"p.mm_profdata"),
            (b"p.mm_profdata.old", b"p.mm_profdata.mm_profdata"),
            (b".hidden", b".hidden.mm_profdata"),
            (b"new/dirs/p", b"new/dirs/p.mm_profdata"),
            (b"dir.ext/p", b"dir.ext/p.mm_profdata"),
            (b"a b/c d", b"a b/c d.mm_profdata"),
            (b"\xc3\xa9", b"\xc3\xa9.mm_profdata"),
            (b"bad\xff", b"bad\xff.mm_profdata"),
            (b"x/../p", b"p.mm_profdata"),
            (b"p.", b"p.mm_profdata"),
        ];
        let (stem, file) = *c.pick(&names);
        let stem = root.join(std::ffi::OsStr::from_bytes(stem));
        let file = root.join(std::ffi::OsStr::from_bytes(file));
        if stem.components().any(|c| c.as_os_str() == "..") {
            std::fs::create_dir_all(root.join("x")).unwrap();
        }
        let before = c.choose(5);
        let old = match before {
            0 => None,
            1 => Some(vec![]),
            2 => Some(b"short".to_vec()),
            3 => Some(vec![0xAA; 3_000_000]),
            _ => Some(file_of(&(0..50).map(|i| Ev::new("old", &format!("old {}", i), &[], 3, Pay::Integer(i))).collect::<Vec<_>>(), Store::Flat)),
        };
        if let Some(o) = &old {
            std::fs::create_dir_all(file.parent().unwrap()).unwrap();
            std::fs::write(&file, o).unwrap();
        }
        let nb = root.join("p.other");
        std::fs::write(&nb, b"untouched").unwrap();
        let n = *c.pick(&[0usize, 1, 9000]);
        for round in 0..2u64 {
            // the second round replaces the first round's file
            let n = if round == 1 { n / 2 } else { n };
            let p = new_profiler(&stem, 1, 0)?;
            let k = p.alloc_string("k");
            let l = EventId::from_label(p.alloc_string(&*format!("round {}", round)));
            let mut want = vec![];
            for i in 0..n as u64 {
                p.record_integer_event(k, l, 1, i);
                want.push(Ev::new("k", &format!("round {}", round), &[], 1, Pay::Integer(i)));
            }
            drop(p);
            let mut got = vec![];
            tree(&root, &mut got);
            let mut exp = vec![nb.clone(), file.clone()];
            got.sort();
            exp.sort();
            ensure!(got == exp, "stem {:?}: the files are {:?}, expected {:?}", stem, got, exp);
            if std::fs::read(&nb).unwrap() != b"untouched" {
                fail!("another file was changed");
            }
            same_events(&open_stem(&stem)?, &want, None).map_err(|e| format!("stem {:?}, previous file {}: {}", stem, before, e))?;
            same_events(&open_stem(&file)?, &want, None)?;
            streams(&std::fs::read(&file).unwrap()).map_err(|e| format!("after replacing file {}: {}", before, e))?;
            c.steps(n as u64);
        }
        c.state(&[before as u8, n as u8]);
        c.validated();
        Ok(())
    }));
    Check {
        id: "C10",
        scenarios: sc,
        rule: "All histories up to the depth bound of profiler calls (instant, integer, guards with up to three open at once and ended in any \
               order, detached timings, overridden ids, guards dropped while unwinding, abandoned timings, allocations in between) under a scripted clock that advances by \
               every listed step, three ways of creating the profiler; every pair of clock readings from a set covering each power of two up \
               to the limit; long sessions; every combination of file name form and previous file content. The finished file is compared \
               event by event with the recorded calls. states = model states (events so far, open timings)."
            .into(),
        assumptions: vec![
            "the wall-time counter; hardware counters are not available here".into(),
            "the clock is CLOCK_MONOTONIC read through clock_gettime, replaced by a script".into(),
        ],
    }
}
