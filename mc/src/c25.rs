//! C25: the flame graph.
use crate::c15::{big, pick_trace};
use crate::c17::fresh;
use crate::cli::*;
use crate::trace::*;
use crate::util::*;
use common::explore::*;
use common::sup::Check;
use common::{ensure, tier, Res};
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
struct Frame {
    name: String,
    value: u64,
    x: f64,
    w: f64,
    y: f64,
}
fn unescape(s: &str) -> String {
    s.replace("\u{a0}", " ").replace("&nbsp;", " ").replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&amp;", "&")
}
fn attr(s: &str, k: &str) -> Option<f64> {
    let i = s.find(&format!(" {}=\"", k))? + k.len() + 3;
    s[i..].split('"').next()?.trim_end_matches('%').parse().ok()
}
fn frames(svg: &str) -> Result<Vec<Frame>, String> {
    let mut v = vec![];
    for part in svg.split("<title>").skip(1) {
        let (title, rest) = part.split_once("</title>").ok_or("an unfinished title")?;
        let (head, tail) = title.rsplit_once(" (").ok_or_else(|| format!("title {:?}", title))?;
        let n = tail.split(' ').next().unwrap().replace(',', "");
        let rect = &rest[rest.find("<rect").ok_or("a frame without a shape")?..];
        let rect = &rect[..rect.find('>').ok_or("an unfinished shape")?];
        let g = |k: &str| attr(rect, k).ok_or_else(|| format!("no {} in {:?}", k, rect));
        v.push(Frame {
            name: unescape(head),
            value: n.parse().map_err(|_| format!("title {:?}", title))?,
            x: g("x")?,
            w: g("width")?,
            y: g("y")?,
        });
    }
    Ok(v)
}
/// All chains with the time spent in them and below.
fn inclusive(t: &Trace) -> BTreeMap<Vec<String>, u64> {
    let mut m: BTreeMap<Vec<String>, u64> = BTreeMap::new();
    for (s, v) in stacks(t) {
        let p: Vec<String> = s.split(';').map(|x| x.to_string()).collect();
        for k in 1..=p.len() {
            *m.entry(p[..k].to_vec()).or_default() += v;
        }
    }
    m
}
fn faithful(o: &Out, d: &std::path::Path, t: &Trace) -> Res {
    ensure!(o.code == Some(0), "the tool ends with {:?}: {}", o.code, o.err);
    let svg = std::fs::read_to_string(d.join("rustc.svg")).map_err(|e| e.to_string())?;
    ensure!(svg.trim_end().ends_with("</svg>") && svg.contains("<svg"), "no complete SVG");
    let fr = frames(&svg)?;
    let want = inclusive(t);
    // the enclosing frame of each: the narrowest row below that spans it
    let mut rows: Vec<f64> = fr.iter().map(|f| f.y).collect();
    rows.sort_by(|a, b| b.partial_cmp(a).unwrap());
    rows.dedup();
    let mut chain: Vec<Vec<String>> = vec![vec![]; fr.len()];
    let mut order: Vec<usize> = (0..fr.len()).collect();
    order.sort_by(|a, b| fr[*b].y.partial_cmp(&fr[*a].y).unwrap());
    let mut got: BTreeMap<Vec<String>, u64> = BTreeMap::new();
    // the lowest row is the common root "all"
    let base = rows.first().copied().ok_or("no frames")?;
    for &i in &order {
        let f = &fr[i];
        if f.y == base {
            ensure!(f.value == t.total(), "the root states {} ns, the threads span {}", f.value, t.total());
            continue;
        }
        let below = rows[rows.iter().position(|r| *r == f.y).unwrap() - 1];
        let p = (0..fr.len()).filter(|&j| fr[j].y == below && fr[j].x <= f.x + 1e-3 && f.x + f.w <= fr[j].x + fr[j].w + 1e-3).min_by(|a, b| {
            // of two candidates sharing an edge the one containing the middle
            let off = |j: usize| ((fr[j].x + fr[j].w / 2.0) - (f.x + f.w / 2.0)).abs();
            off(*a).partial_cmp(&off(*b)).unwrap()
        });
        let p = p.ok_or_else(|| format!("frame {:?} lies over nothing", f))?;
        ensure!(f.value <= fr[p].value, "frame {:?} is larger than the one below, {:?}", f, fr[p]);
        let mut c = chain[p].clone();
        c.push(f.name.clone());
        chain[i] = c.clone();
        ensure!(got.insert(c.clone(), f.value).is_none(), "{:?} is drawn twice", c);
        let share = f.value as f64 / t.total() as f64 * 100.0;
        ensure!((f.w - share).abs() < 0.02, "{:?} is {} wide for a share of {}", c, f.w, share);
    }
    for (c, v) in &want {
        match got.get(c) {
            Some(g) => ensure!(g == v, "{:?} states {} ns, expected {}", c, g, v),
            None => ensure!((*v as f64) < t.total() as f64 * 0.0002, "{:?} with {} ns does not appear", c, v),
        }
    }
    for c in got.keys() {
        ensure!(want.contains_key(c), "{:?} appears although no time was spent there", c);
    }
    Ok(())
}
fn run(c: &mut Ctx, t: &Trace) -> Res {
    if t.total() == 0 {
        return Ok(());
    }
    let d = fresh(c, "c25");
    std::fs::write(d.join("p.mm_profdata"), file_of(&t.evs, Store::Flat)).unwrap();
    stale(&d.join("rustc.svg"), &key(t));
    let o = tool("flamegraph", &["p"], &d);
    faithful(&o, &d, t).map_err(|e| format!("{}: {}", brief(t).chars().take(600).collect::<String>(), e))?;
    c.step();
    c.state(&key(t));
    c.validated();
    Ok(())
}
pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("nesting on one thread", |c| {
        let t = history(c, &Cfg { ops: tier(5, 6), starts: &[(QUERY, "a"), (LOAD, "b c")], dts: &[0, 1, 7], ..Default::default() });
        run(c, &t)
    }));
    sc.push(scenario("deeper nesting", |c| {
        let t = history(c, &Cfg { ops: tier(8, 10), starts: &[(QUERY, "a"), (HASHING, "rustc")], dts: &[1], ..Default::default() });
        run(c, &t)
    }));
    sc.push(scenario("several threads, other events in between", |c| {
        let t = history(c, &Cfg {
            threads: &[0, 9],
            ops: tier(5, 6),
            starts: &[(QUERY, "a<b> & \"c\""), (BLOCKED, "x::y")],
            instants: &[(HIT, "h")],
            integers: &[(ARTIFACT, "lib", 5)],
            dts: &[3],
            nest: 3,
            ..Default::default()
        });
        run(c, &t)
    }));
    sc.push(scenario("labels that look like numbers and counts", |c| {
        let t = history(c, &Cfg {
            ops: tier(4, 6),
            starts: &[(QUERY, "cgu 12"), (LOAD, "7"), (QUERY, "pass 1.5"), (HASHING, "10 cgu"), (QUERY, "cgu")],
            dts: &[3],
            ..Default::default()
        });
        run(c, &t)
    }));
    sc.push(scenario("large and long profiles", |c| {
        let t = if c.flag() { big(*c.pick(&[0, 1, 4, 6])) } else { pick_trace(c) };
        if t.evs.iter().any(|e| e.label.contains(';') || e.label.trim() != e.label || e.label.contains('(')) {
            return Ok(());
        }
        run(c, &t)
    }));
    Check {
        id: "C25",
        scenarios: sc,
        rule: "The real tool draws all bounded recording histories and large profiles; from the frames' positions the chain of callers of each is \
               rebuilt, and the frames must be exactly the chains known from recording, each stating the time spent in it and below, with \
               matching width. states = distinct histories."
            .into(),
        assumptions: vec![
            "frames narrower than 0.02 % of the picture may be left out; profiles without any time have no picture".into(),
            "labels without semicolons or surrounding blanks".into(),
        ],
    }
}
