//! C18: aggregating profiles of identical runs.
use crate::c17::fresh;
use crate::cli::*;
use crate::trace::*;
use crate::util::*;
use common::explore::*;
use common::spec::Pay;
use common::sup::Check;
use common::{ensure, fail, tier, Res};
use std::collections::BTreeMap;

/// One recording step of a single-threaded run.
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Start(&'static str, &'static str, &'static [&'static str]),
    End,
    Instant(&'static str, &'static str, &'static [&'static str]),
    Integer(u64),
}
use Step::*;
/// Lays the steps out in time; `gap(i)` is the time before timed step i.
fn lay(steps: &[Step], th: u32, mut gap: impl FnMut(usize) -> u64) -> Trace {
    let mut t = Trace::default();
    let mut now = 50;
    let mut i = 0;
    for s in steps {
        if !matches!(s, Integer(_)) {
            now += gap(i);
            i += 1;
        }
        match s {
            Start(k, l, a) => t.start(th, k, l, a, now),
            End => t.end(th, now),
            Instant(k, l, a) => t.instant(th, k, l, a, now),
            Integer(v) => t.integer(th, "Sizes", "n", *v),
        }
    }
    t
}
fn desc(k: &str, l: &str, a: &[&str]) -> String {
    let p = if k == QUERY || k == ACTIVITY { String::new() } else { format!("{} ", k) };
    format!("{}`{}({})`", p, l, a.join(", "))
}
/// For each interval between consecutive timed steps, how it is to be named.
fn names(steps: &[Step]) -> Vec<String> {
    let timed: Vec<&Step> = steps.iter().filter(|s| !matches!(s, Integer(_))).collect();
    // for every boundary: what it is, its event and its event's parent
    let mut open: Vec<String> = vec![];
    let mut b: Vec<(u8, String, Option<String>)> = vec![];
    for s in timed {
        match s {
            Start(k, l, a) => {
                let d = desc(k, l, a);
                b.push((0, d.clone(), open.last().cloned()));
                open.push(d);
            }
            End => {
                let d = open.pop().unwrap();
                b.push((1, d, open.last().cloned()));
            }
            Instant(k, l, a) => b.push((2, desc(k, l, a), open.last().cloned())),
            Integer(_) => {}
        }
    }
    b.windows(2)
        .map(|w| {
            let ((s, x, px), (e, y, _)) = (&w[0], &w[1]);
            match (s, e) {
                (0, 1) => x.clone(),
                (0, _) => format!("in {}, before {}", x, y),
                (_, 1) => format!("in {}, after {}", y, x),
                _ => match px {
                    Some(p) => format!("in {}, between {} and {}", p, x, y),
                    None => format!("between {} and {}", x, y),
                },
            }
        })
        .collect()
}
type Entry = (f64, String);
fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// Parses the output into its four lists.
fn sections(out: &str) -> Result<Vec<(String, usize, Vec<Entry>)>, String> {
    let mut v: Vec<(String, usize, Vec<Entry>)> = vec![];
    for l in out.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if (l.starts_with("Smallest ") || l.starts_with("Largest ")) && l.ends_with(':') && w.len() == 3 {
            v.push((format!("{} {}", w[0], w[2].trim_end_matches(':')), w[1].parse().map_err(|_| format!("header {:?}", l))?, vec![]));
        } else if let Some((n, rest)) = l.trim_start().split_once(" ns: ").filter(|(n, _)| n.trim_start_matches('±').parse::<f64>().is_ok()) {
            let s = v.last_mut().ok_or("an entry before any header")?;
            s.2.push((n.trim_start_matches('±').parse().unwrap(), rest.to_string()));
        } else if !l.trim().is_empty() {
            let s = v.last_mut().and_then(|s| s.2.last_mut()).ok_or_else(|| format!("line {:?}", l))?;
            s.1.push(' ');
            s.1.push_str(l);
        }
    }
    for s in &mut v {
        for e in &mut s.2 {
            e.1 = squeeze(&e.1);
        }
    }
    Ok(v)
}
fn expect(values: &[(u64, usize)], names: &[String], scale: f64, largest: bool) -> Vec<Entry> {
    let mut m: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
    for (v, i) in values {
        m.entry(*v).or_default().push(*i);
    }
    let all: Vec<(&u64, &Vec<usize>)> = m.iter().collect();
    let pick = if largest { &all[all.len().saturating_sub(10)..] } else { &all[..all.len().min(10)] };
    pick.iter()
        .map(|(v, is)| {
            let d = if is.len() == 1 {
                squeeze(&names[is[0]])
            } else {
                format!("{} occurrences, or {:.2}%", is.len(), is.len() as f64 / names.len() as f64 * 100.0)
            };
            (**v as f64 * scale, d)
        })
        .collect()
}
fn faithful(o: &Out, steps: &[Step], traces: &[Trace]) -> Res {
    ensure!(o.code == Some(0), "the tool ends with {:?}: {}", o.code, o.err);
    let names = names(steps);
    // durations of every interval in every profile
    let times: Vec<Vec<u64>> = traces
        .iter()
        .map(|t| {
            let mut v: Vec<u64> = t
                .evs
                .iter()
                .flat_map(|e| match e.pay {
                    Pay::Interval(a, b) => vec![a, b],
                    Pay::Instant(a) => vec![a],
                    _ => vec![],
                })
                .collect();
            v.sort();
            v.windows(2).map(|w| w[1] - w[0]).collect()
        })
        .collect();
    let n = names.len();
    let min: Vec<(u64, usize)> = (0..n).map(|i| (times.iter().map(|t| t[i]).min().unwrap(), i)).collect();
    let max: Vec<(u64, usize)> = (0..n).map(|i| (times.iter().map(|t| t[i]).max().unwrap(), i)).collect();
    let var: Vec<(u64, usize)> = (0..n).map(|i| (max[i].0 - min[i].0, i)).collect();
    let want = [
        ("Smallest durations", expect(&min, &names, 1.0, false)),
        ("Largest durations", expect(&max, &names, 1.0, true)),
        ("Smallest variances", expect(&var, &names, 0.5, false)),
        ("Largest variances", expect(&var, &names, 0.5, true)),
    ];
    let got = sections(&o.out)?;
    ensure!(got.len() == 4, "{} lists: {}", got.len(), o.out);
    for ((gn, count, ge), (wn, we)) in got.iter().zip(&want) {
        ensure!(gn == wn, "list {:?} instead of {:?}", gn, wn);
        ensure!(ge == we, "{}: {:?}, expected {:?}", wn, ge, we);
        ensure!(*count == ge.len(), "{}: announced {}, {} listed", wn, count, ge.len());
    }
    Ok(())
}
/// Bounded single-threaded runs.
fn steps(c: &mut Ctx, n: usize, menu: &[Step]) -> Vec<Step> {
    let mut v = vec![];
    let mut open = 0;
    for _ in 0..n {
        let k = c.choose(menu.len() + 1 + (open > 0) as usize);
        if k == 0 {
            break;
        }
        if k == menu.len() + 1 {
            open -= 1;
            v.push(End);
        } else {
            let s = menu[k - 1].clone();
            open += matches!(s, Start(..)) as usize;
            v.push(s);
        }
    }
    v.extend((0..open).map(|_| End));
    v
}
fn aggregate(c: &Ctx, dir: &str, traces: &[Trace]) -> Out {
    let d = fresh(c, dir);
    let mut args = vec!["aggregate".to_string()];
    for (i, t) in traces.iter().enumerate() {
        std::fs::write(d.join(format!("p{}.mm_profdata", i)), file_of(&t.evs, [Store::Flat, Store::Composite, Store::Virtual][i % 3])).unwrap();
        args.push(format!("p{}", i));
    }
    tool("summarize", &args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &d)
}
const MENU: [Step; 5] = [
    Start(QUERY, "a", &[]),
    Start(LOAD, "b", &["x", "y z"]),
    Instant(HIT, "h", &["k"]),
    Instant(ACTIVITY, "a", &[]),
    Integer(3),
];
/// All single changes that make a run a different one.
fn mutations(s: &[Step]) -> Vec<(String, Vec<Step>)> {
    let mut out: Vec<(String, Vec<Step>)> = vec![];
    for i in 0..s.len() {
        let mut put = |n: &str, st: Step| {
            let mut v = s.to_vec();
            v[i] = st;
            out.push((format!("{} {}", n, i), v));
        };
        match &s[i] {
            Start(k, l, a) => {
                put("other label", Start(k, "zz", a));
                put("other kind", Start(if *k == QUERY { ACTIVITY } else { QUERY }, l, a));
                put("one argument more", Start(k, l, if a.is_empty() { &["n"] } else { &["x", "y z", "n"] }));
                put("other arguments", Start(k, l, if a.is_empty() { &["m", "n"] } else { &["y z", "x"] }));
                put("label in capitals", Start(k, if *l == "a" { "A" } else { "B" }, a));
                put("label with a space", Start(k, if *l == "a" { "a " } else { " b" }, a));
                put("kind in lower case", Start(if *k == QUERY { "query" } else { "incrementalLoadResult" }, l, a));
                put("arguments split elsewhere", Start(k, l, if a.is_empty() { &["N"] } else { &["x y", "z"] }));
                put("arguments joined", Start(k, l, if a.is_empty() { &[" "] } else { &["x,y z"] }));
            }
            Instant(k, l, a) => {
                put("other label", Instant(k, "zz", a));
                put("other kind", Instant("Other", l, a));
                put("other argument", Instant(k, l, if a.is_empty() { &["n"] } else { &[] }));
                put("argument in capitals", Instant(k, l, &["K"]));
            }
            _ => {}
        }
        if matches!(s[i], Instant(..)) {
            let mut v = s.to_vec();
            v.remove(i);
            out.push((format!("without {}", i), v));
        }
        // leave out a whole interval, or end it elsewhere
        if matches!(s[i], Start(..)) {
            let mut depth = 0;
            let e = (i..s.len())
                .find(|&j| {
                    match s[j] {
                        Start(..) => depth += 1,
                        End => depth -= 1,
                        _ => {}
                    }
                    depth == 0
                })
                .unwrap();
            let mut v = s.to_vec();
            v.remove(e);
            v.remove(i);
            out.push((format!("without interval {}", i), v));
            // ended before its last nested step
            if e > i + 1 && !matches!(s[e - 1], End | Integer(_)) {
                let mut v = s.to_vec();
                v.swap(e - 1, e);
                out.push((format!("interval {} ends earlier", i), v));
            }
        }
        if i + 1 < s.len() && s[i] != s[i + 1] && matches!(s[i], Instant(..)) && !matches!(s[i + 1], Integer(_)) {
            let mut v = s.to_vec();
            v.swap(i, i + 1);
            out.push((format!("swapped {}", i), v));
        }
    }
    for i in 0..=s.len() {
        let mut v = s.to_vec();
        v.insert(i, Instant("Extra", "e", &[]));
        out.push((format!("an instant more at {}", i), v));
        let mut v = s.to_vec();
        v.insert(i, End);
        v.insert(i, Start("Extra", "e", &[]));
        out.push((format!("an interval more at {}", i), v));
    }
    // changes to integer events or none at all do not count
    let timed = |v: &[Step]| v.iter().filter(|s| !matches!(s, Integer(_))).cloned().collect::<Vec<_>>();
    out.retain(|(_, v)| timed(v) != timed(s));
    out
}
fn bounds(s: &[Step]) -> usize {
    s.iter().filter(|s| !matches!(s, Integer(_))).count()
}
pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("one profile", |c| {
        let s = steps(c, tier(5, 6), &MENU);
        let t = lay(&s, *c.pick(&[0, 77]), |i| [1, 5, 2, 5, 9, 3][i % 6]);
        faithful(&aggregate(c, "c18a", &[t.clone()]), &s, &[t]).map_err(|e| format!("{:?}: {}", s, e))?;
        c.steps(s.len() as u64);
        c.state(format!("{:?}", s).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("two and three profiles with varying times", |c| {
        let s = steps(c, tier(3, 4), &MENU);
        let n = bounds(&s);
        let a: Vec<u64> = (0..n).map(|i| [4, 7, 4, 10, 2, 30, 1][i % 7]).collect();
        let b: Vec<u64> = (0..n).map(|i| *c.pick(&[a[i], a[i] + 3, 1])).collect();
        let d: Vec<u64> = if c.flag() { (0..n).map(|i| if i % 2 == 0 { 2 } else { 20 }).collect() } else { vec![] };
        let mut tr = vec![lay(&s, 1, |i| a[i]), lay(&s, 9, |i| b[i])];
        if !d.is_empty() || n == 0 {
            tr.push(lay(&s, 1, |i| d[i]));
        }
        let o = aggregate(c, "c18b", &tr);
        faithful(&o, &s, &tr).map_err(|e| format!("{:?} with gaps {:?} {:?} {:?}: {}", s, a, b, d, e))?;
        c.steps((s.len() * tr.len()) as u64);
        c.state(format!("{:?}{:?}{:?}", s, b, d).as_bytes());
        c.validated();
        c.sample(|| format!("{:?}: {}", s, o.out));
        Ok(())
    }));
    sc.push(scenario("more durations than are listed", |c| {
        // 30 intervals; durations of both profiles follow chosen patterns
        let mut s = vec![];
        for i in 0..10 {
            s.push(Start(QUERY, ["p", "q", "r"][i % 3], &[]));
            s.push(Start("Custom", "in", &["n"]));
            s.push(End);
            s.push(End);
        }
        let pats: [fn(usize) -> u64; 7] = [
            |i| i as u64 + 1,
            |i| 100 - i as u64,
            |i| (i as u64 % 11) + 1,
            |i| (i as u64 * 7919) % 41 + 1,
            |i| 1_000_000_000 * (1 + i as u64 / 4),
            |i| 1 + (i as u64 % 2),
            |_| 5,
        ];
        let tr: Vec<Trace> = (0..tier(3, 4)).map(|_| c.choose(pats.len() + 1)).take_while(|k| *k > 0).map(|k| lay(&s, 0, pats[k - 1])).collect();
        if tr.is_empty() {
            return Ok(());
        }
        faithful(&aggregate(c, "c18c", &tr), &s, &tr)?;
        c.steps((s.len() * tr.len()) as u64);
        c.state(tr.iter().map(brief).collect::<String>().as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("runs that differ", |c| {
        let s = steps(c, tier(3, 4), &MENU);
        let m = mutations(&s);
        if m.is_empty() {
            return Ok(());
        }
        let (what, other) = m[c.choose(m.len())].clone();
        if bounds(&s) < 2 && bounds(&other) < 2 {
            return Ok(()); // nothing to aggregate in either
        }
        let n = 2 + c.choose(2);
        let odd = c.choose(n);
        let tr: Vec<Trace> = (0..n).map(|i| lay(if i == odd { &other } else { &s }, 0, |k| 1 + (k as u64 * 3 + i as u64) % 5)).collect();
        let o = aggregate(c, "c18d", &tr);
        ensure!(o.code != Some(0), "{:?} and the same {} (profile {} of {}) are aggregated: {}", s, what, odd, n, o.out);
        ensure!(o.out.trim().is_empty(), "rejected only after reporting {}", o.out);
        c.step();
        c.state(format!("{:?}{}{}", s, what, odd).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("several threads", |c| {
        let s = steps(c, 4, &MENU[..3]);
        if bounds(&s) == 0 {
            return Ok(());
        }
        let n = 1 + c.choose(2);
        let odd = c.choose(n);
        let what = c.choose(3);
        let at_end = c.flag();
        let (one, two) = *c.pick(&[(1u32, 5u32), (1 << 16, 1 << 31), (1 << 8, u32::MAX)]);
        let mut tr: Vec<Trace> = (0..n).map(|_| lay(&s, 0, |k| 1 + k as u64)).collect();
        // one event of the profile on another thread, or one more there
        let timed: Vec<usize> = tr[odd].evs.iter().enumerate().filter(|e| !matches!(e.1.pay, Pay::Integer(_))).map(|e| e.0).collect();
        match what {
            0 => {
                if timed.len() < 2 {
                    return Ok(());
                }
                let i = timed[c.choose(timed.len())];
                tr[odd].evs[i].thread = one;
            }
            w => {
                let e = Ev::new(QUERY, "other", &[], two, if w == 1 { Pay::Interval(1, 3) } else { Pay::Instant(2) });
                // all profiles alike, so that only the thread can be objected to
                for t in &mut tr {
                    let p = if at_end { t.evs.len() } else { 0 };
                    t.evs.insert(p, e.clone());
                }
            }
        }
        let o = aggregate(c, "c18e", &tr);
        ensure!(o.code != Some(0), "profiles with several threads are aggregated: {}: {}", brief(&tr[odd]), o.out);
        c.step();
        c.state(&key(&tr[odd]));
        c.validated();
        Ok(())
    }));
    sc.push(scenario("unreadable input among the profiles", |c| {
        let s = vec![Start(QUERY, "a", &[]), End];
        let t = lay(&s, 0, |_| 2);
        let d = fresh(c, "c18f");
        let bad = c.choose(3);
        for i in 0..3 {
            let f = d.join(format!("p{}.mm_profdata", i));
            if i == bad {
                match c.choose(2) {
                    0 => {}
                    _ => std::fs::write(f, b"MMPX\x09\0\0\0").unwrap(),
                }
            } else {
                std::fs::write(f, file_of(&t.evs, Store::Flat)).unwrap();
            }
        }
        let o = tool("summarize", &["aggregate", "p0", "p1", "p2"], &d);
        if o.code == Some(0) || !o.out.is_empty() {
            fail!("an unreadable profile {} is ignored: {}", bad, o.out);
        }
        c.step();
        c.state(&[bad as u8]);
        c.validated();
        Ok(())
    }));
    Check {
        id: "C18",
        scenarios: sc,
        rule: "All bounded single-threaded runs (nested intervals with labels, kinds and arguments, instants, integers), laid out in time in up to \
               three profiles with every choice of gaps from a small set, are aggregated by the real tool; its four lists must equal those of a \
               reference computing minimum, maximum and spread per interval between consecutive boundaries, with names and counts. Every single \
               change of a run (label, kind, argument, missing, additional, moved event, nesting), in every position, and any second thread must \
               be refused. states = distinct runs and layouts."
            .into(),
        assumptions: vec![
            "event boundaries of one profile are at distinct times (at equal times the nesting is ambiguous)".into(),
            "profiles with fewer than two boundaries have nothing to aggregate; whether such different ones are refused is left open".into(),
        ],
    }
}
