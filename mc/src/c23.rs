//! C23: profiles in the previous file format.
use crate::c15::{big, differs, of_results};
use crate::c17::fresh;
use crate::c19::{file, Prof};
use crate::cli::*;
use crate::trace::*;
use crate::util::*;
use crate::v8::{representable, Old};
use analyzeme::collapse_stacks;
use common::explore::*;
use common::spec::{self, Pay};
use common::sup::Check;
use common::{ensure, tier, Res};

fn old_file(p: &Prof, store: Store) -> Vec<u8> {
    let mut o = Old::new(p.start, p.pid, &p.cmd);
    for e in &p.evs {
        o.event_as(e, store);
    }
    o.file()
}
/// Both profiles present `p`, and everything computed from them is equal.
fn equal(p: &Prof, old: Vec<u8>, new: Vec<u8>, nested: bool) -> Res {
    ensure!(old[4] == 8 && new[4] == 9, "HARNESS: versions");
    let (o, n) = (open_bytes(old).map_err(|e| format!("previous format: {}", e))?, open_bytes(new)?);
    let m = |d: &analyzeme::ProfilingData| (d.metadata().start_time, d.metadata().process_id, d.metadata().cmd.clone());
    ensure!(m(&o) == m(&n), "metadata {:?} in the previous format, {:?} in the current", m(&o), m(&n));
    let t0 = std::time::UNIX_EPOCH + std::time::Duration::from_nanos(p.start);
    ensure!(m(&o) == (t0, p.pid, p.cmd.clone()), "metadata {:?}", m(&o));
    same_events(&o, &p.evs, None).map_err(|e| format!("previous format: {}", e))?;
    same_events(&n, &p.evs, None)?;
    // the light-weight events, both ways round
    let lw = |d: &analyzeme::ProfilingData| catches(|| (d.iter().collect::<Vec<_>>(), d.iter().rev().collect::<Vec<_>>()));
    let (a, b) = (lw(&o)?, lw(&n)?);
    ensure!(a == b, "light-weight events differ: {:?} and {:?}", a, b);
    for (i, e) in a.0.iter().enumerate() {
        ensure!(ev_of(&o.to_full_event(e), t0)? == p.evs[i], "light-weight event {} leads to another full event", i);
        ensure!(e.thread_id == p.evs[i].thread && pay_of(&e.payload, t0)? == p.evs[i].pay, "light-weight event {} is {:?}", i, e);
    }
    if nested {
        let (x, y) = (catches(|| collapse_stacks(&o))?, catches(|| collapse_stacks(&n))?);
        ensure!(x == y, "the collapsed stacks differ");
        let x = of_results(&catches(|| o.perform_analysis())?)?;
        let y = of_results(&catches(|| n.perform_analysis())?)?;
        differs(&x, &y).map_err(|e| format!("analysis of the previous format: {}", e))?;
    }
    Ok(())
}
fn keep(evs: &[Ev]) -> Vec<Ev> {
    evs.iter().filter(|e| representable(e)).cloned().collect()
}
pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("recording histories", |c| {
        let t = history(c, &Cfg {
            threads: &[0, 3],
            ops: tier(4, 5),
            starts: &[(QUERY, "a"), (LOAD, "b")],
            instants: &[(HIT, "a"), ("Odd", "x")],
            integers: &[(ARTIFACT, "l", 4)],
            dts: &[0, 5],
            nest: 3,
            ..Default::default()
        });
        let p = Prof { evs: t.evs.clone(), start: 1_000_000, pid: 42, cmd: "rustc --crate-name x".into() };
        let s = *c.pick(&[Store::Flat, Store::Composite, Store::Virtual]);
        equal(&p, old_file(&p, s), file(&p, s), true).map_err(|e| format!("{}: {}", brief(&t), e))?;
        c.state(&key(&t));
        c.validated();
        Ok(())
    }));
    sc.push(scenario("all kinds and boundary values of payloads", |c| {
        let m = spec::MAX_INTERVAL;
        let v = [0u64, 1, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001, 0x7FFF_FFFF_FFFF, m - 1, m];
        let n = c.choose(tier(2, 3)) + 1;
        let mut evs = vec![];
        for i in 0..n {
            let (a, b) = (*c.pick(&v), *c.pick(&v));
            let pay = match c.choose(3) {
                0 => Pay::Interval(a.min(b), a.max(b)),
                1 => Pay::Instant(a),
                _ => Pay::Integer(a),
            };
            let th = *c.pick(&[0u32, 1, 0x7FFF_FFFF, u32::MAX]);
            evs.push(Ev::new(["K", QUERY, ARTIFACT][i % 3], "l", &[], th, pay));
        }
        let p = Prof { evs, start: 1, pid: 0, cmd: String::new() };
        let s = *c.pick(&[Store::Flat, Store::Virtual]);
        equal(&p, old_file(&p, s), file(&p, s), false).map_err(|e| format!("{:?}: {}", p.evs, e))?;
        c.step();
        c.state(format!("{:?}", p.evs).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("texts", |c| {
        let t = ["a", "label with spaces", "quo\"te\\", "ünï → 🦀", "new\nline\ttab", "<html>&", "a,b;c"];
        let label = *c.pick(&t);
        let kind = *c.pick(&t);
        let n = c.choose(3);
        let args: Vec<&str> = (0..n).map(|_| *c.pick(&t)).collect();
        let long = c.flag();
        let big = "long ".repeat(if long { 70_000 } else { 1 });
        let evs = vec![
            Ev::new(kind, label, &args, 1, Pay::Interval(1, 2)),
            Ev::new("k", &big, &args, 1, Pay::Instant(7)),
            Ev::new(&big, label, &["arg", &big], 1, Pay::Integer(9)),
            Ev::new(kind, label, &args, 2, Pay::Interval(4, 9)),
        ];
        let p = Prof { evs, start: 7, pid: u32::MAX, cmd: label.into() };
        let s = *c.pick(&[Store::Flat, Store::Composite, Store::Virtual]);
        equal(&p, old_file(&p, s), file(&p, s), true).map_err(|e| format!("{:?} {:?} {:?}: {}", kind, label, args, e.chars().take(500).collect::<String>()))?;
        c.step();
        c.state(format!("{}/{}/{:?}/{}", kind, label, args, long).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("metadata", |c| {
        let p = Prof {
            evs: vec![Ev::new("k", "l", &[], 1, Pay::Interval(1, 2))],
            start: *c.pick(&[0u64, 1, 999, 1 << 32, (1 << 53) + 1, 1_600_000_000_123_456_789, i64::MAX as u64, i64::MAX as u64 + 1]),
            pid: *c.pick(&[0u32, 1, 0x8000_0000, u32::MAX]),
            cmd: c.pick(&["", "rustc a b", "q\"uo\\te", "tab\tnl\n", "é🦀\u{7f}", " --crate-name  x "]).to_string(),
        };
        equal(&p, old_file(&p, Store::Flat), file(&p, Store::Flat), true).map_err(|e| format!("start {} pid {} cmd {:?}: {}", p.start, p.pid, p.cmd, e))?;
        c.step();
        c.state(format!("{}{}{}", p.start, p.pid, p.cmd).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("large profiles", |c| {
        let n = c.choose(8);
        let t = big(n);
        let p = Prof { evs: keep(&t.evs), start: 5_000_000, pid: 3, cmd: "rustc".into() };
        let s = *c.pick(&[Store::Flat, Store::Composite, Store::Virtual]);
        equal(&p, old_file(&p, s), file(&p, s), p.evs.len() == t.evs.len()).map_err(|e| format!("large profile {}: {}", n, e))?;
        c.steps(p.evs.len() as u64);
        c.state(format!("{}{:?}", n, s).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("from a file, every tool", |c| {
        let t = match c.choose(3) {
            0 => history(c, &Cfg {
                ops: tier(3, 4),
                starts: &[(QUERY, "a"), (LOAD, "b c")],
                instants: &[(HIT, "a")],
                integers: &[(ARTIFACT, "lib", 77)],
                dts: &[1500],
                ..Default::default()
            }),
            1 => history(c, &Cfg { threads: &[1, 2], ops: tier(4, 5), starts: &[(HASHING, "a")], dts: &[2], ..Default::default() }),
            _ => big(*c.pick(&[0, 1, 2, 4, 5, 6])),
        };
        let p = Prof { evs: keep(&t.evs), start: 5_000_000, pid: 3, cmd: "rustc --crate-name x".into() };
        if p.evs.len() != t.evs.len() {
            return Ok(());
        }
        let s = *c.pick(&[Store::Flat, Store::Composite]);
        let run = |c: &Ctx, name: &str, f: Vec<u8>, tool_no: usize| -> Result<(Option<i32>, Vec<String>, Option<Vec<u8>>), String> {
            let d = fresh(c, name);
            let _ = std::fs::remove_dir_all(&d);
            let _ = std::fs::create_dir_all(&d);
            std::fs::write(d.join("p.mm_profdata"), f).unwrap();
            let (tool_name, args, out): (&str, &[&str], Option<&str>) = match tool_no {
                0 => ("mmview", &["p"], None),
                1 => ("summarize", &["summarize", "p"], None),
                2 => ("summarize", &["summarize", "--json", "p"], Some("p.json")),
                3 => ("crox", &["p"], Some("chrome_profiler.json")),
                4 => ("crox", &["--collapse-threads", "p"], Some("chrome_profiler.json")),
                _ => ("stack_collapse", &["p"], Some("out.stacks_folded")),
            };
            let o = tool(tool_name, args, &d);
            ensure!(o.code == Some(0), "{} {:?} ends with {:?}: {}", tool_name, args, o.code, o.err);
            let mut lines: Vec<String> = o.out.lines().map(|l| l.to_string()).collect();
            let file = match out {
                None => None,
                Some(x) => {
                    let b = std::fs::read(d.join(x)).map_err(|e| format!("{} {:?}: {}: {}", tool_name, args, x, e))?;
                    if tool_no == 5 {
                        lines = String::from_utf8_lossy(&b).lines().map(|l| l.to_string()).collect();
                        lines.sort();
                        None
                    } else {
                        Some(b)
                    }
                }
            };
            if tool_no == 1 {
                lines.sort();
            }
            Ok((o.code, lines, file))
        };
        let (o, n) = (old_file(&p, s), file(&p, s));
        for k in 0..6 {
            let a = run(c, "c23o", o.clone(), k).map_err(|e| format!("previous format, {}: {}", brief(&t).chars().take(600).collect::<String>(), e))?;
            let b = run(c, "c23n", n.clone(), k)?;
            let a = (a.0, a.1, a.2.map(norm));
            let b = (b.0, b.1, b.2.map(norm));
            ensure!(a == b, "tool {} prints {:.600} for the previous format and {:.600} for the current, {:.600}", k, format!("{:?}", a), format!("{:?}", b), brief(&t));
            c.step();
        }
        c.state(&key(&t));
        c.validated();
        Ok(())
    }));
    Check {
        id: "C23",
        scenarios: sc,
        rule: "All bounded recording histories, all payload kinds and boundary values, texts, metadata, large profiles are written in the previous \
               format by the previous release of the library and in the current format; events (full and light-weight, both directions), \
               metadata, analysis, collapsed stacks and the output of every tool must be what was recorded and equal. states = distinct sessions."
            .into(),
        assumptions: vec![
            "texts that the separately released decoder of the previous format rejects (vertical tabs) are left out".into(),
            "rows of equal rank may come in any order".into(),
        ],
    }
}
/// Order of rows does not count in JSON written from maps.
fn norm(b: Vec<u8>) -> String {
    fn sort(v: &mut serde_json::Value) {
        if let serde_json::Value::Array(a) = v {
            a.iter_mut().for_each(sort);
            a.sort_by_key(|x| x.to_string());
        } else if let serde_json::Value::Object(o) = v {
            o.values_mut().for_each(sort);
        }
    }
    match serde_json::from_slice::<serde_json::Value>(&b) {
        Ok(mut v) => {
            sort(&mut v);
            v.to_string()
        }
        Err(_) => String::from_utf8_lossy(&b).into_owned(),
    }
}
