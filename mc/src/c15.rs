//! C15: the summary analysis; C16: collapsed stacks.
use crate::trace::*;
use crate::util::*;
use analyzeme::{collapse_stacks, AnalysisResults};
use common::explore::*;
use common::spec::Pay;
use common::sup::Check;
use common::{ensure, tier, Res};
use std::collections::BTreeMap;

pub fn of_results(r: &AnalysisResults) -> Result<Analysis, String> {
    let mut a = Analysis { total: r.total_time.as_nanos() as u64, ..Default::default() };
    for q in &r.query_data {
        let row = Row {
            time: q.time.as_nanos() as u64,
            self_time: q.self_time.as_nanos() as u64,
            misses: q.number_of_cache_misses as u64,
            hits: q.number_of_cache_hits as u64,
            invocations: q.invocation_count as u64,
            blocked: q.blocked_time.as_nanos() as u64,
            load: q.incremental_load_time.as_nanos() as u64,
            hashing: q.incremental_hashing_time.as_nanos() as u64,
        };
        ensure!(a.rows.insert(q.label.clone(), row).is_none(), "label {:?} is listed twice", q.label);
    }
    for q in &r.artifact_sizes {
        ensure!(a.artifacts.insert(q.label.clone(), q.value).is_none(), "artifact {:?} is listed twice", q.label);
    }
    Ok(a)
}
pub fn differs(got: &Analysis, want: &Analysis) -> Res {
    for (l, w) in &want.rows {
        match got.rows.get(l) {
            None => return Err(format!("label {:?} is missing, expected {:?}", l, w)),
            Some(g) => ensure!(g == w, "label {:?}: {:?}, expected {:?}", l, g, w),
        }
    }
    for l in got.rows.keys() {
        ensure!(want.rows.contains_key(l), "label {:?} is listed but has no events", l);
    }
    ensure!(got.artifacts == want.artifacts, "artifact sizes {:?}, expected {:?}", got.artifacts, want.artifacts);
    ensure!(got.total == want.total, "total time {} ns, expected {}", got.total, want.total);
    Ok(())
}
pub fn analysed(file: Vec<u8>) -> Result<Analysis, String> {
    let pd = open_bytes(file)?;
    match catches(|| pd.perform_analysis()) {
        Ok(r) => of_results(&r),
        Err(m) => Err(format!("the analysis panics: {}", m)),
    }
}
pub fn collapsed(file: Vec<u8>) -> Result<BTreeMap<String, u64>, String> {
    let pd = open_bytes(file)?;
    match catches(|| collapse_stacks(&pd)) {
        Ok(r) => Ok(r.into_iter().filter(|x| x.1 > 0).collect()),
        Err(m) => Err(format!("collapsing the stacks panics: {}", m)),
    }
}
fn verify_analysis(c: &mut Ctx, t: &Trace, store: Store) -> Res {
    let want = analysis(t);
    let sum: u64 = want.rows.values().map(|r| r.self_time).sum();
    let top: u64 = t.nodes.iter().filter(|n| n.parent.is_none()).map(|n| n.end - n.start).sum();
    ensure!(sum == top, "HARNESS: reference self times do not add up");
    let got = analysed(file_of(&t.evs, store)).map_err(|e| format!("{}: {}", brief(t), e))?;
    differs(&got, &want).map_err(|e| format!("{}: {}", brief(t), e))?;
    c.state(&key(t));
    c.validated();
    c.sample(|| brief(t));
    Ok(())
}
fn verify_stacks(c: &mut Ctx, t: &Trace, store: Store) -> Res {
    let want = stacks(t);
    let got = collapsed(file_of(&t.evs, store)).map_err(|e| format!("{}: {}", brief(t), e))?;
    ensure!(got == want, "{}: stacks {:?}, expected {:?}", brief(t), got, want);
    let sum: u64 = got.values().sum();
    ensure!(sum == t.total(), "{}: the stacks add up to {} ns, the threads span {}", brief(t), sum, t.total());
    c.state(&key(t));
    c.validated();
    c.sample(|| brief(t));
    Ok(())
}
type Verify = fn(&mut Ctx, &Trace, Store) -> Res;

/// Large and unusual traces, the same for both analyses.
pub fn big(n: usize) -> Trace {
    let mut t = Trace::default();
    match n {
        // deep nesting
        0 => {
            for i in 0..300u64 {
                t.start(0, KINDS[i as usize % 6], ["x", "y", "z"][i as usize % 3], &[], 10 + i);
            }
            t.close_all(3);
        }
        // many labels, siblings under one parent
        1 => {
            t.start(7, ACTIVITY, "root", &[], 1);
            for i in 0..3000u64 {
                t.whole(7, QUERY, &format!("label {}", i % 700), 2 + 3 * i, 4 + 3 * i);
            }
            t.end(7, 20_000);
        }
        // times around 2^32, 2^47 and the end of the range
        2 => {
            let m = common::spec::MAX_INTERVAL;
            t.start(0, QUERY, "o", &[], 0);
            t.whole(0, QUERY, "a", (1 << 32) - 2, (1 << 32) + 3);
            t.whole(0, QUERY, "b", (1 << 47) - 1, (1 << 47) + 1_000_000_007);
            t.whole(0, LOAD, "a", m - 5, m - 1);
            t.end(0, m);
            t.whole(1, QUERY, "o", m - 10, m);
        }
        // many threads, thread ids over the whole range
        3 => {
            for i in 0..2000u32 {
                let th = i.wrapping_mul(0x9E37_79B9);
                t.start(th, QUERY, "q", &[], 5);
                t.start(th, BLOCKED, "w", &[], 7 + i as u64);
            }
            for i in 0..2000u32 {
                let th = i.wrapping_mul(0x9E37_79B9);
                t.end(th, 3000 + i as u64);
            }
            for i in (0..2000u32).rev() {
                let th = i.wrapping_mul(0x9E37_79B9);
                t.end(th, 6000 + i as u64);
            }
        }
        // many events crossing page boundaries, with everything else mixed in
        4 => {
            let mut now = 0;
            for i in 0..12_000u64 {
                let th = (i % 3) as u32;
                now += i % 5;
                match i % 11 {
                    0 | 3 | 6 => t.start(th, KINDS[(i % 6) as usize], ["a", "b", "c", "d"][(i % 4) as usize], &[], now),
                    1 | 4 | 7 | 10 if t.depth(th) > 0 => t.end(th, now),
                    2 => t.instant(th, HIT, "b", &[], now),
                    5 => t.instant(th, "Other", "e", &[], now),
                    8 => t.integer(th, ARTIFACT, ["lib", "obj"][(i % 2) as usize], i),
                    _ => t.integer(th, "Other", "f", i),
                }
            }
            t.close_all(1);
        }
        // labels that contain each other, separators, spaces, the root's name
        5 => {
            let l = ["rustc", "a", "a;a", "a a", "rustc;a", "ä", "aa", " ", "(", "a 5", "<invalid>"];
            let mut now = 3;
            for (i, x) in l.iter().enumerate() {
                t.start(1, QUERY, x, &[], now);
                for y in l.iter() {
                    t.whole(1, ACTIVITY, y, now + 1, now + 2 + i as u64);
                    now += 3 + i as u64;
                }
                t.end(1, now);
                now += 2;
            }
        }
        // the same label at every level and in every kind
        6 => {
            let mut now = 1;
            for k in KINDS.iter().take(6) {
                for l in KINDS.iter().take(6) {
                    t.start(0, k, "same", &[], now);
                    t.start(0, l, "same", &[], now + 3);
                    t.end(0, now + 10);
                    t.end(0, now + 15);
                    now += 20;
                }
            }
        }
        // artifact sizes adding up beyond what one value can hold
        _ => {
            for i in 0..70_000u64 {
                t.integer(i as u32, ARTIFACT, if i % 2 == 0 { "even" } else { "odd" }, (1 << 46) - i);
            }
            t.whole(0, QUERY, "q", 5, 9);
        }
    }
    t
}
const BIG: usize = 8;

fn scenarios(v: Verify) -> Vec<Scenario> {
    let mut sc = vec![];
    sc.push(scenario("nesting on one thread", move |c| {
        let t = history(c, &Cfg { ops: tier(6, 8), starts: &[(QUERY, "a"), (QUERY, "b")], dts: &[0, 1, 7], ..Default::default() });
        v(c, &t, Store::Flat)
    }));
    sc.push(scenario("deeper nesting with one time step", move |c| {
        let t = history(c, &Cfg { ops: tier(11, 14), starts: &[(QUERY, "a"), (ACTIVITY, "b")], dts: &[1], ..Default::default() });
        v(c, &t, Store::Composite)
    }));
    sc.push(scenario("every kind inside every kind", move |c| {
        let st: Vec<(&str, &str)> = KINDS.iter().flat_map(|k| [(*k, "a"), (*k, "b")]).collect();
        let t = history(c, &Cfg { ops: tier(4, 5), starts: &st, dts: &[1, 5], nest: 4, ..Default::default() });
        v(c, &t, Store::Flat)
    }));
    sc.push(scenario("three levels of kinds over one label", move |c| {
        let st: Vec<(&str, &str)> = KINDS.iter().map(|k| (*k, "a")).collect();
        let t = history(c, &Cfg { ops: tier(6, 7), starts: &st[..6], dts: &[2], nest: 3, ..Default::default() });
        v(c, &t, Store::Virtual)
    }));
    sc.push(scenario("threads interleaved in the stream", move |c| {
        let t = history(c, &Cfg {
            threads: &[0, 1, u32::MAX],
            ops: tier(6, 7),
            starts: &[(QUERY, "a"), (HASHING, "b")],
            dts: &[1, 4],
            nest: 3,
            ..Default::default()
        });
        v(c, &t, Store::Flat)
    }));
    sc.push(scenario("instants and integers in between", move |c| {
        let t = history(c, &Cfg {
            threads: &[3, 0],
            ops: tier(4, 5),
            starts: &[(QUERY, "a"), (BLOCKED, "b")],
            instants: &[(HIT, "a"), (HIT, "c"), (QUERY, "a"), (ARTIFACT, "a")],
            integers: &[(ARTIFACT, "a", 5), (ARTIFACT, "d", (1 << 48) - 3), (HIT, "a", 9), (QUERY, "b", 0)],
            dts: &[3],
            nest: 3,
            ..Default::default()
        });
        v(c, &t, Store::Composite)
    }));
    sc.push(scenario("thread ids that are nearly the same", move |c| {
        let (a, b) = pair(c, &NEAR_THREADS);
        let t = history(c, &Cfg { threads: &[a, b], ops: tier(4, 5), dts: &[2, 3], nest: 3, ..Default::default() });
        v(c, &t, Store::Flat)
    }));
    sc.push(scenario("labels that are nearly the same", move |c| {
        let (a, b) = pair(c, &NEAR);
        let t = history(c, &Cfg {
            ops: tier(4, 5),
            starts: &[(QUERY, a), (BLOCKED, b)],
            instants: &[(HIT, a), (HIT, b)],
            integers: &[(ARTIFACT, a, 5), (ARTIFACT, b, 70)],
            dts: &[2],
            nest: 3,
            ..Default::default()
        });
        v(c, &t, Store::Composite)
    }));
    sc.push(scenario("kinds that are nearly the same", move |c| {
        let a = *c.pick(&NEAR_KINDS);
        let b = *c.pick(&["Querycachehit", "QueryCacheHit ", "querycachehit", "Artifactsize", "ArtifactSize ", "artifactsize", ""]);
        let t = history(c, &Cfg {
            ops: tier(4, 5),
            starts: &[(QUERY, "a"), (a, "a"), (LOAD, "b")],
            instants: &[(b, "a")],
            integers: &[(b, "a", 5)],
            dts: &[2],
            nest: 3,
            ..Default::default()
        });
        v(c, &t, Store::Flat)
    }));
    sc.push(scenario("long times", move |c| {
        let base = *c.pick(&[0, 999_999_999, (1 << 32) - 1]);
        let t = history(c, &Cfg {
            ops: tier(5, 6),
            starts: &[(QUERY, "a"), (LOAD, "b")],
            dts: &[1, 999_999_999, 1_000_000_000, 1 << 41],
            base,
            ..Default::default()
        });
        v(c, &t, Store::Flat)
    }));
    sc.push(scenario("trees of intervals recorded in any order", move |c| {
        let t = history(c, &Cfg {
            threads: &[0, 9],
            ops: tier(7, 8),
            starts: &[(QUERY, "a")],
            dts: &[3],
            nest: 3,
            ..Default::default()
        });
        let t = reordered(c, &t);
        v(c, &t, Store::Flat)
    }));
    sc.push(scenario("trees of intervals of one thread recorded in any order", move |c| {
        let t = history(c, &Cfg { ops: tier(8, 10), starts: &[(QUERY, "a"), (LOAD, "b")], dts: &[1, 4], nest: 2, ..Default::default() });
        let t = reordered(c, &t);
        v(c, &t, Store::Composite)
    }));
    sc.push(scenario("large profiles", move |c| {
        let n = c.choose(BIG);
        let s = *c.pick(&[Store::Flat, Store::Composite, Store::Virtual]);
        let t = big(n);
        c.steps(t.evs.len() as u64);
        v(c, &t, s).map_err(|e| format!("large profile {}: {}", n, &e[e.len().saturating_sub(400)..]))
    }));
    sc
}
const RULE: &str = "All recording histories up to the depth bound (start, end, instant, integer steps on up to three threads with a choice of time \
    steps including zero, labels and kinds) are written as profiles and analysed by the real code; ";

pub fn check() -> Check {
    Check {
        id: "C15",
        scenarios: scenarios(verify_analysis),
        rule: format!(
            "{}every figure of every label, the artifact sizes and the total time must equal a reference computed from the recorded tree of \
             intervals (who encloses whom is known from recording). states = distinct histories.",
            RULE
        ),
        assumptions: vec!["intervals are well nested per thread, as recorded by guards".into()],
    }
}
pub fn check_stacks() -> Check {
    let mut sc = scenarios(verify_stacks);
    sc.push(scenario("the stack collapse tool", |c| {
        let t = pick_trace(c);
        let d = c.scratch().join("sc");
        let _ = std::fs::create_dir_all(&d);
        let out = d.join("out.stacks_folded");
        // a longer file of an earlier run
        std::fs::write(&out, "rustc;old 99999999\n".repeat(if c.flag() { 400 } else { 0 })).unwrap();
        std::fs::write(d.join("p.mm_profdata"), file_of(&t.evs, Store::Flat)).unwrap();
        let o = crate::cli::tool("stack_collapse", &["p"], &d);
        ensure!(o.code == Some(0), "{}: the tool ends with {:?}: {}", brief(&t), o.code, o.err);
        let text = std::fs::read_to_string(&out).map_err(|e| e.to_string())?;
        let mut got = BTreeMap::new();
        for l in text.lines() {
            let (s, n) = l.rsplit_once(' ').ok_or_else(|| format!("line {:?}", l))?;
            let n: u64 = n.parse().map_err(|_| format!("line {:?} has no count", l))?;
            ensure!(!got.contains_key(s), "stack {:?} is written twice", s);
            if n > 0 {
                got.insert(s.to_string(), n);
            }
        }
        ensure!(text.is_empty() || text.ends_with('\n'), "the last line is cut off");
        ensure!(got == stacks(&t), "{}: the tool writes {:?}, expected {:?}", brief(&t), got, stacks(&t));
        c.step();
        c.state(&key(&t));
        c.validated();
        Ok(())
    }));
    Check {
        id: "C16",
        scenarios: sc,
        rule: format!(
            "{}the collapsed stacks with non-zero time must equal the chains and own times known from recording, with the gaps at the root, and \
             add up to the spans of the threads; the tool must write exactly those. states = distinct histories.",
            RULE
        ),
        assumptions: vec!["intervals are well nested per thread; stacks without any time may or may not be listed".into()],
    }
}
/// Traces for driving the command line tools: small histories and the large ones.
pub fn pick_trace(c: &mut Ctx) -> Trace {
    match c.choose(3) {
        0 => history(c, &Cfg { ops: tier(4, 5), starts: &[(QUERY, "a"), (LOAD, "b c")], dts: &[1, 1500], ..Default::default() }),
        1 => history(c, &Cfg {
            threads: &[1, 2],
            ops: tier(4, 5),
            starts: &[(HASHING, "a")],
            instants: &[(HIT, "h")],
            integers: &[(ARTIFACT, "lib", 77)],
            dts: &[2],
            ..Default::default()
        }),
        _ => big(c.choose(7)),
    }
}
#[allow(unused)]
fn unused(_: Pay) {}
