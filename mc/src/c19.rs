//! C19: the Chrome trace; C20: collapsing threads.
use crate::c15::big;
use crate::c17::fresh;
use crate::cli::*;
use crate::trace::*;
use crate::util::*;
use common::explore::*;
use common::spec::{self, Pay};
use common::sup::Check;
use common::{ensure, tier, Res};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct Prof {
    pub evs: Vec<Ev>,
    pub start: u64,
    pub pid: u32,
    pub cmd: String,
}
pub fn file(p: &Prof, s: Store) -> Vec<u8> {
    let mut w = Writer::on(spec::Build::with_meta(p.start, p.pid, &p.cmd), s);
    for e in &p.evs {
        w.event(e);
    }
    w.b.file()
}
/// What the trace must contain for one profile; `tid` maps thread ids.
fn expected(p: &Prof, min: Option<u64>, tid: impl Fn(u32) -> u32) -> Vec<Value> {
    let mut v = vec![];
    for e in &p.evs {
        let Pay::Interval(a, b) = e.pay else { continue };
        if min.map(|m| (b - a) / 1000 < m).unwrap_or(false) {
            continue;
        }
        let mut args = json!({});
        for (i, x) in e.args.iter().enumerate() {
            args[format!("arg{}", i)] = json!(x);
        }
        v.push(json!({
            "name": e.label, "cat": e.kind, "ph": "X", "ts": (p.start as u128 + a as u128) as u64 / 1000, "dur": (b - a) / 1000,
            "pid": p.pid, "tid": tid(e.thread), "args": args,
        }));
    }
    if let Some(i) = p.cmd.find(" --crate-name ") {
        let name = p.cmd[i + 14..].split(' ').next().unwrap();
        v.push(json!({"name": "process_name", "ph": "M", "pid": p.pid, "args": {"name": name}}));
    }
    v.push(json!({"name": "process_sort_index", "ph": "M", "pid": p.pid, "args": {"sort_index": p.start / 1000}}));
    v
}
fn same(got: &Value, want: &Value) -> Res {
    for (k, w) in want.as_object().unwrap() {
        let g = &got[k];
        let empty = |v: &Value| v.is_null() || v == &json!({});
        ensure!(g == w || (k == "args" && empty(g) && empty(w)), "{:?} is {}, expected {}: {}", k, g, w, got);
    }
    Ok(())
}
fn trace_file(o: &Out, d: &std::path::Path) -> Result<Vec<Value>, String> {
    ensure!(o.code == Some(0), "the tool ends with {:?}: {}", o.code, o.err);
    let text = std::fs::read_to_string(d.join("chrome_profiler.json")).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_str(&text).map_err(|e| format!("the trace is not JSON: {}", e))?;
    v.as_array().cloned().ok_or_else(|| "the trace is no array".to_string())
}
fn matches(got: &[Value], want: &[Value]) -> Res {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        same(g, w).map_err(|e| format!("entry {}: {}", i, e))?;
    }
    ensure!(got.len() == want.len(), "{} entries, expected {}; next: {:?}", got.len(), want.len(), got.get(want.len()).or(want.get(got.len())));
    Ok(())
}
fn cmds() -> [&'static str; 7] {
    [
        "rustc --crate-name foo --edition 2021",
        "rustc --crate-name foo",
        "rustc",
        "",
        "rustc --crate-name  x",
        "rustc --crate-name a --crate-name b -C \"q\\uote\u{7}d\" ä\u{1F600}",
        "--crate-name foo",
    ]
}
pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("histories", |c| {
        let t = history(c, &Cfg {
            threads: &[0, u32::MAX],
            ops: tier(4, 5),
            starts: &[(QUERY, "a"), ("K \"q\"", "b\\\u{e4}")],
            instants: &[(HIT, "h")],
            integers: &[(ARTIFACT, "lib", 7)],
            dts: &[1, 1500],
            nest: 3,
            ..Default::default()
        });
        let p = Prof { evs: t.evs.clone(), start: 1_700_000_000_123_456_789, pid: 321, cmd: cmds()[0].into() };
        let d = fresh(c, "c19");
        std::fs::write(d.join("p.mm_profdata"), file(&p, Store::Flat)).unwrap();
        stale(&d.join("chrome_profiler.json"), &key(&t));
        let got = trace_file(&tool("crox", &["p"], &d), &d).map_err(|e| format!("{}: {}", brief(&t), e))?;
        matches(&got, &expected(&p, None, |x| x)).map_err(|e| format!("{}: {}", brief(&t), e))?;
        c.state(&key(&t));
        c.validated();
        Ok(())
    }));
    sc.push(scenario("times, arguments and metadata", |c| {
        let start = *c.pick(&[0u64, 999, 1000, 1_600_000_000_000_000_999, 1_700_000_000_999_999_999]);
        let pid = *c.pick(&[0u32, 1, u32::MAX]);
        let cmd = *c.pick(&cmds());
        let m = spec::MAX_INTERVAL;
        let times = [(0, 0), (1, 1000), (999, 1000), (500, 2_500), (0, 999), (0, m), (m - 1, m), (1_000_000_000, 3_999_999_999)];
        let argsets: [&[&str]; 5] = [&[], &["x"], &["x", "y \" \\ \n", "z"], &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"], &["ä", "x"]];
        let mut evs = vec![];
        for (i, (a, b)) in times.iter().enumerate() {
            for (j, ar) in argsets.iter().enumerate() {
                evs.push(Ev::new("Kind", &format!("l{}\"{}", i, j), ar, (i * j) as u32, Pay::Interval(*a, *b)));
                evs.push(Ev::new("Kind", "inst", ar, 3, Pay::Instant(*a)));
                evs.push(Ev::new("Kind", "int", ar, 3, Pay::Integer(*b)));
            }
        }
        let p = Prof { evs, start, pid, cmd: cmd.into() };
        let d = fresh(c, "c19t");
        std::fs::write(d.join("p.mm_profdata"), file(&p, Store::Composite)).unwrap();
        let got = trace_file(&tool("crox", &["p.mm_profdata"], &d), &d)?;
        matches(&got, &expected(&p, None, |x| x)).map_err(|e| format!("start {} pid {} cmd {:?}: {}", start, pid, cmd, e))?;
        c.step();
        c.state(format!("{}{}{}", start, pid, cmd).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("minimum durations", |c| {
        let min = *c.pick(&["0", "1", "2", "3", "999", "1000", "1001", "1000000", "281474976710", "281474976711", "340282366920938463463374607431768211455"]);
        let durs = [0u64, 1, 999, 1000, 1001, 1999, 2000, 2001, 2999, 3000, 998_999, 999_999, 1_000_000, 1_000_999, 1_001_000, 999_999_999, 1_000_000_000, 1_000_000_001, spec::MAX_INTERVAL];
        let p = Prof {
            evs: durs.iter().map(|d| Ev::new(QUERY, "q", &["a"], 1, Pay::Interval(0, *d))).collect(),
            start: 5_000,
            pid: 3,
            cmd: "rustc".into(),
        };
        let d = fresh(c, "c19m");
        std::fs::write(d.join("p.mm_profdata"), file(&p, Store::Flat)).unwrap();
        let extra = c.flag();
        let mut args = vec!["p", "--minimum-duration", min];
        if extra {
            args.push("--collapse-threads");
        }
        let got = trace_file(&tool("crox", &args, &d), &d)?;
        let m = min.parse::<u64>().unwrap_or(u64::MAX);
        matches(&got, &expected(&p, Some(m), |x| if extra { 0 } else { x })).map_err(|e| format!("minimum {}: {}", min, e))?;
        c.step();
        c.state(format!("{}{}", min, extra).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("several inputs, by name and by directory", |c| {
        let d = fresh(c, "c19d");
        let sub = d.join("traces");
        let _ = std::fs::remove_dir_all(&sub);
        std::fs::create_dir_all(&sub).unwrap();
        let mk = |i: u64| Prof {
            evs: (0..i % 3 + 1).map(|k| Ev::new(QUERY, &format!("p{}e{}", i, k), &[], k as u32, Pay::Interval(k * 1000, k * 3000 + i * 1000))).collect(),
            start: 1_000_000 * (i + 1),
            pid: 100 + i as u32,
            cmd: format!("rustc --crate-name c{} x", i),
        };
        let named = c.choose(4);
        let order = c.choose(2);
        let within = c.choose(4);
        let dir = within > 0 || c.flag();
        if named == 0 && !dir {
            return Ok(());
        }
        let mut args: Vec<String> = vec![];
        let mut want_named = vec![];
        for i in 0..named {
            let k = if order == 0 { i } else { named - 1 - i };
            let stem = ["one", "two.x", "three"][k];
            let f = format!("{}.mm_profdata", stem);
            std::fs::write(d.join(&f), file(&mk(k as u64), Store::Flat)).unwrap();
            args.push(f);
            want_named.extend(expected(&mk(k as u64), None, |x| x));
        }
        let mut want_dir: Vec<Vec<Value>> = vec![];
        for i in 0..within {
            std::fs::write(sub.join(["a.mm_profdata", "b.c.mm_profdata", "d e.mm_profdata"][i]), file(&mk(10 + i as u64), Store::Virtual)).unwrap();
            want_dir.push(expected(&mk(10 + i as u64), None, |x| x));
        }
        if dir {
            for n in ["notes.txt", "x.mm_profdata.bak", "x.json", "mm_profdata"] {
                std::fs::write(sub.join(n), b"not a profile").unwrap();
            }
            args.push("--dir".into());
            args.push("traces".into());
        }
        let got = trace_file(&tool("crox", &args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &d), &d).map_err(|e| format!("{:?}: {}", args, e))?;
        ensure!(got.len() >= want_named.len(), "{:?}: {} entries", args, got.len());
        matches(&got[..want_named.len()], &want_named).map_err(|e| format!("{:?}: {}", args, e))?;
        // those of the directory in any order, each in one piece
        let mut rest = &got[want_named.len()..];
        while !rest.is_empty() {
            let i = want_dir.iter().position(|w| rest.len() >= w.len() && matches(&rest[..w.len()], w).is_ok());
            let i = i.ok_or_else(|| format!("{:?}: unexpected entry {}", args, rest[0]))?;
            rest = &rest[want_dir.remove(i).len()..];
        }
        ensure!(want_dir.is_empty(), "{:?}: a profile of the directory is missing: {:?}", args, want_dir[0]);
        c.step();
        c.state(format!("{:?}{}", args, within).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("inputs of the same name", |c| {
        // the same file name in several directories, profiles alike in
        // everything else
        let d = fresh(c, "c19n");
        let sub = d.join("n");
        let _ = std::fs::remove_dir_all(&sub);
        let mk = |i: u64, pid: u32| Prof {
            evs: vec![Ev::new(QUERY, &format!("e{}", i), &[], 0, Pay::Interval(1000 * i, 5000 * i))],
            start: 7_000_000,
            pid,
            cmd: "rustc --crate-name same".into(),
        };
        let pid = if c.flag() { 0 } else { 5 };
        let places = ["a", "b", "a/x", "dir"];
        for (i, p) in places.iter().enumerate() {
            std::fs::create_dir_all(sub.join(p)).unwrap();
            std::fs::write(sub.join(p).join("p.mm_profdata"), file(&mk(1 + i as u64, 50 + pid * i as u32), Store::Flat)).unwrap();
        }
        let form = c.choose(3);
        let mut used = 0;
        let mut args: Vec<String> = vec![];
        let mut want = vec![];
        for _ in 0..3 {
            let i = c.choose(5);
            if i == 4 || used & 1 << i != 0 {
                break;
            }
            used |= 1 << i;
            args.push(match form {
                0 => format!("n/{}/p.mm_profdata", places[i]),
                1 => format!("n/{}/p", places[i]),
                _ => format!("{}/../{}/p", sub.join(places[i]).display(), places[i].rsplit('/').next().unwrap()),
            });
            want.extend(expected(&mk(1 + i as u64, 50 + pid * i as u32), None, |x| x));
        }
        if used >> 3 == 0 && c.flag() {
            args.push("--dir".into());
            args.push("n/dir".into());
            want.extend(expected(&mk(4, 50 + pid * 3), None, |x| x));
        }
        if args.is_empty() {
            return Ok(());
        }
        let got = trace_file(&tool("crox", &args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &d), &d).map_err(|e| format!("{:?}: {}", args, e))?;
        matches(&got, &want).map_err(|e| format!("{:?}: {}", args, e))?;
        c.step();
        c.state(format!("{:?}{}", args, pid).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("thread ids and texts that are nearly the same", |c| {
        let (a, b) = pair(c, &NEAR_THREADS);
        let (x, y) = pair(c, &NEAR);
        let t = |l: &str, th: u32, n: u64| Ev::new(l, l, &[l, "z"], th, Pay::Interval(n, n + 2500));
        let p = Prof { evs: vec![t(x, a, 0), t(y, a, 1), t(x, b, 2000), t(y, b, 9000)], start: 3_000, pid: 8, cmd: "rustc".into() };
        let d = fresh(c, "c19s");
        std::fs::write(d.join("p.mm_profdata"), file(&p, Store::Flat)).unwrap();
        let got = trace_file(&tool("crox", &["p"], &d), &d)?;
        matches(&got, &expected(&p, None, |x| x)).map_err(|e| format!("{:?}: {}", p.evs, e))?;
        c.step();
        c.state(format!("{:?}", p.evs).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("an unreadable input", |c| {
        let d = fresh(c, "c19u");
        std::fs::write(d.join("good.mm_profdata"), file(&Prof { evs: vec![], start: 0, pid: 0, cmd: "x".into() }, Store::Flat)).unwrap();
        std::fs::write(d.join("bad.mm_profdata"), *c.pick(&[&b""[..], b"MMPD\x0a\0\0\0", b"XXXXXXXXXXXXXXXX"])).unwrap();
        let args = *c.pick(&[["good", "bad"], ["bad", "good"], ["--dir", "."], ["good", "missing"]]);
        let o = tool("crox", &args, &d);
        ensure!(o.code != Some(0) && o.code != Some(101), "{:?}: ends with {:?}", args, o.code);
        c.step();
        c.state(format!("{:?}", args).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("large profiles", |c| {
        let n = c.choose(8);
        let t = big(n);
        let p = Prof { evs: t.evs, start: 77_777, pid: 9, cmd: "r --crate-name big".into() };
        let min = *c.pick(&[None, Some(1u64), Some(3)]);
        let d = fresh(c, "c19b");
        std::fs::write(d.join("p.mm_profdata"), file(&p, Store::Composite)).unwrap();
        let m = min.map(|m| m.to_string()).unwrap_or_default();
        let args: Vec<&str> = if min.is_some() { vec!["p", "--minimum-duration", &m] } else { vec!["p"] };
        let got = trace_file(&tool("crox", &args, &d), &d)?;
        matches(&got, &expected(&p, min, |x| x)).map_err(|e| format!("large profile {}: {}", n, e))?;
        c.steps(p.evs.len() as u64);
        c.state(&[n as u8, m.len() as u8]);
        c.validated();
        Ok(())
    }));
    Check {
        id: "C19",
        scenarios: sc,
        rule: "All bounded recording histories, and profiles with extreme times, arguments, metadata and durations around every threshold, singly \
               and in every combination of names and a directory, are converted by the real tool; the trace must be JSON with exactly the \
               expected entries in order. states = distinct inputs."
            .into(),
        assumptions: vec!["profiles from a directory may come in any order; an absent and an empty argument object are the same".into()],
    }
}

// ---------------------------------------------------------------- C20

/// Active period per thread: first event start to last event end.
fn periods(evs: &[Ev]) -> BTreeMap<u32, (u64, u64)> {
    let mut m: BTreeMap<u32, (u64, u64)> = BTreeMap::new();
    for e in evs {
        let (a, b) = match e.pay {
            Pay::Interval(a, b) => (a, b),
            Pay::Instant(a) => (a, a),
            _ => continue,
        };
        let x = m.entry(e.thread).or_insert((a, b));
        *x = (x.0.min(a), x.1.max(b));
    }
    m
}
fn is_shown(e: &Ev, min: Option<u64>) -> bool {
    matches!(e.pay, Pay::Interval(a, b) if (b - a) / 1000 >= min.unwrap_or(0))
}
/// Checks the ids shown for one profile's intervals.
fn collapsed(evs: &[Ev], min: Option<u64>, got: &[Value]) -> Res {
    let per = periods(evs);
    let shown: Vec<&Ev> = evs.iter().filter(|e| is_shown(e, min)).collect();
    let mut map: BTreeMap<u32, u64> = BTreeMap::new();
    ensure!(got.len() == shown.len(), "{} intervals shown, {} recorded", got.len(), shown.len());
    for (g, e) in got.iter().zip(&shown) {
        ensure!(g["name"] == json!(e.label), "another event is shown: {}", g);
        let t = g["tid"].as_u64().ok_or_else(|| format!("thread id {}", g["tid"]))?;
        ensure!(*map.entry(e.thread).or_insert(t) == t, "thread {} is shown under the ids {} and {}", e.thread, map[&e.thread], t);
    }
    for (a, x) in &map {
        for (b, y) in &map {
            let (p, q) = (per[a], per[b]);
            if a < b && x == y {
                ensure!(p.1 < q.0 || q.1 < p.0, "threads {} {:?} and {} {:?} share id {}", a, p, b, q, x);
            }
        }
    }
    // the largest number of threads active at one time (touching counts)
    let need = per.values().map(|p| per.values().filter(|q| q.0 <= p.0 && p.0 <= q.1).count()).max().unwrap_or(0);
    let ids: BTreeSet<u64> = map.values().copied().collect();
    if let Some(m) = ids.iter().next_back() {
        ensure!((*m as usize) < need, "id {} is used, {} ids suffice", m, need);
    }
    // with intervals on every thread nothing hides an id
    if map.len() == per.len() {
        ensure!(ids.len() == need && ids.iter().enumerate().all(|(i, x)| i as u64 == *x), "ids {:?}, expected 0..{}", ids, need);
    }
    Ok(())
}
fn run_collapse(c: &Ctx, profs: &[Prof]) -> Res {
    run_collapse_min(c, profs, None)
}
fn run_collapse_min(c: &Ctx, profs: &[Prof], min: Option<u64>) -> Res {
    let d = fresh(c, "c20");
    let mut args = vec![];
    for (i, p) in profs.iter().enumerate() {
        std::fs::write(d.join(format!("p{}.mm_profdata", i)), file(p, Store::Flat)).unwrap();
        args.push(format!("p{}", i));
    }
    args.push("--collapse-threads".into());
    if let Some(m) = min {
        args.extend(["--minimum-duration".into(), m.to_string()]);
    }
    let o = tool("crox", &args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &d);
    let got = trace_file(&o, &d)?;
    // ids start anew for every profile
    let mut rest: Vec<Value> = got.into_iter().filter(|v| v["ph"] == "X").collect();
    for p in profs {
        let n = p.evs.iter().filter(|e| is_shown(e, min)).count();
        ensure!(rest.len() >= n, "intervals are missing");
        let tail = rest.split_off(n);
        collapsed(&p.evs, min, &rest)?;
        rest = tail;
    }
    ensure!(rest.is_empty(), "more intervals than recorded");
    Ok(())
}
fn plain(evs: Vec<Ev>) -> Prof {
    Prof { evs, start: 1_000_000_000, pid: 1, cmd: "rustc".into() }
}
pub fn check_collapse() -> Check {
    let mut sc = vec![];
    sc.push(scenario("every arrangement of active periods", |c| {
        // all multisets of periods over a small time line
        let n = 1 + c.choose(tier(4, 5));
        let grid = 5u64;
        let mut per: Vec<(u64, u64)> = vec![];
        let mut lo = 0;
        let all: Vec<(u64, u64)> = (0..grid).flat_map(|a| (a..grid).map(move |b| (a, b))).collect();
        for _ in 0..n {
            lo += c.choose(all.len() - lo);
            per.push(all[lo]);
        }
        let rot = c.choose(n.min(2));
        per.rotate_left(rot);
        let evs = per.iter().enumerate().map(|(i, (a, b))| Ev::new(QUERY, &format!("e{}", i), &[], [7, 0, 1_000_000, 3, 2][i], Pay::Interval(a * 10, b * 10))).collect();
        run_collapse(c, &[plain(evs)]).map_err(|e| format!("periods {:?}: {}", per, e))?;
        c.step();
        c.state(format!("{:?}", per).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("periods made of several events", |c| {
        // up to three events of up to three threads on a small time line
        let n = 2 + c.choose(tier(2, 3));
        let mut evs = vec![];
        for i in 0..n {
            let th = c.choose(3.min(i + 1)) as u32;
            let a = c.choose(4) as u64 * 5_000;
            let p = match c.choose(4) {
                0 => Pay::Instant(a),
                1 => Pay::Interval(a, a + 3_000),
                2 => Pay::Interval(a, a + 5_000),
                _ => Pay::Interval(a, a + 12_000),
            };
            evs.push(Ev::new(QUERY, &format!("e{}", i), &[], th, p));
        }
        // events that are not shown keep their thread active all the same
        let min = *c.pick(&[None, Some(4u64)]);
        run_collapse_min(c, &[plain(evs.clone())], min).map_err(|e| format!("minimum {:?}: {:?}: {}", min, evs, e))?;
        c.step();
        c.state(format!("{:?}", evs).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("several profiles, integers, no collapsing", |c| {
        let mk = |c: &mut Ctx, k: u64| {
            let mut evs = vec![];
            for th in 0..1 + c.choose(3) as u32 {
                let a = c.choose(3) as u64 * 10;
                evs.push(Ev::new(QUERY, "q", &[], th * 11 + k as u32, Pay::Interval(a, a + 7)));
                evs.push(Ev::new(QUERY, "i", &[], 200 + th, Pay::Integer(a)));
            }
            plain(evs)
        };
        let p = [mk(c, 0), mk(c, 5)];
        run_collapse(c, &p).map_err(|e| format!("{:?} and {:?}: {}", p[0].evs, p[1].evs, e))?;
        let d = fresh(c, "c20n");
        std::fs::write(d.join("p.mm_profdata"), file(&p[0], Store::Flat)).unwrap();
        let got = trace_file(&tool("crox", &["p"], &d), &d)?;
        matches(&got, &expected(&p[0], None, |x| x)).map_err(|e| format!("without collapsing: {}", e))?;
        c.step();
        c.state(format!("{:?}{:?}", p[0].evs, p[1].evs).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("several profiles with the same threads", |c| {
        // what is collapsible in one is not in the other
        let (a, b) = pair(c, &NEAR_THREADS);
        let mk = |c: &mut Ctx| {
            let evs: Vec<Ev> = [a, b, 77].into_iter().filter_map(|th| {
                let s = c.choose(4) as u64 * 10;
                (s > 0).then(|| Ev::new(QUERY, "q", &[], th, Pay::Interval(s, s + 7)))
            }).collect();
            plain(evs)
        };
        let p = [mk(c), mk(c)];
        run_collapse(c, &p).map_err(|e| format!("{:?} and {:?}: {}", p[0].evs, p[1].evs, e))?;
        c.step();
        c.state(format!("{:?}{:?}", p[0].evs, p[1].evs).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("many threads", |c| {
        let n = *c.pick(&[50u64, 300, 1000]);
        let pat = c.choose(7);
        let evs: Vec<Ev> = (0..n)
            .map(|i| {
                let (a, b) = match pat {
                    0 => (i * 10, i * 10 + 9),           // one after the other
                    1 => (i * 10, i * 10 + 10),          // touching
                    2 => (i * 10, i * 10 + 35),          // four at a time
                    3 => (i, 10_000 - i),                // nested
                    4 => ((i * 7919) % 997, (i * 7919) % 997 + i % 50),
                    5 => (if i % 2 == 0 { 0 } else { 1000 + i }, if i % 2 == 0 { 999 } else { 3000 }),
                    _ => ((i / 10) * 100, (i / 10) * 100 + 99),
                };
                Ev::new(QUERY, &format!("e{}", i), &[], (n - i) as u32 * 3, Pay::Interval(a, b))
            })
            .collect();
        run_collapse(c, &[plain(evs)]).map_err(|e| format!("{} threads, pattern {}: {}", n, pat, e))?;
        c.steps(n);
        c.state(&[n as u8, pat as u8]);
        c.validated();
        Ok(())
    }));
    Check {
        id: "C20",
        scenarios: sc,
        rule: "All arrangements of up to the bound many thread periods over a small time line (overlapping, touching, nested, equal, single \
               points; made of one or several intervals and instants), over several profiles, are converted by the real tool; the ids must be \
               one per thread, never shared by periods that overlap or touch, as few as the maximum number active at once, numbered from zero. \
               states = distinct arrangements."
            .into(),
        assumptions: vec!["ids of threads without intervals are not visible in the trace".into()],
    }
}
