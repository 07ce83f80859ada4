//! C17: comparing two profiles. C24: the summary table.
use crate::c15::{big, differs};
use crate::cli::*;
use crate::trace::*;
use crate::util::*;
use common::explore::*;
use common::sup::Check;
use common::{ensure, fail, tier, Res};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// Parses a duration as `Debug` prints it, into nanoseconds and the
/// uncertainty left by rounding to two digits.
pub fn duration(s: &str) -> Option<(f64, f64)> {
    let i = s.find(|c: char| !(c.is_ascii_digit() || c == '.'))?;
    let mult = match &s[i..] {
        "ns" => 1.0,
        "µs" => 1e3,
        "ms" => 1e6,
        "s" => 1e9,
        _ => return None,
    };
    let v: f64 = s[..i].parse().ok()?;
    let digits = s[..i].split_once('.').map(|x| x.1.len()).unwrap_or(0);
    let tol = match digits {
        2 => 0.5 * mult / 100.0,
        _ => 0.0,
    };
    Some((v * mult, tol + v * mult * 1e-12 + 1e-6))
}
pub fn signed(s: &str) -> Option<(f64, f64)> {
    if let Some(r) = s.strip_prefix('-') {
        duration(r).map(|(v, t)| (-v, t))
    } else {
        duration(s.strip_prefix('+').unwrap_or(s))
    }
}
/// The rows of the tables in a tool's output: per table its lines of cells.
pub fn tables(out: &str) -> Vec<Vec<Vec<String>>> {
    let mut v: Vec<Vec<Vec<String>>> = vec![];
    let mut inside = false;
    for l in out.lines() {
        if l.starts_with('+') {
            if !inside {
                v.push(vec![]);
            }
            inside = true;
        } else if let (true, Some(r)) = (inside, l.strip_prefix('|')) {
            let r = r.strip_suffix('|').unwrap_or(r);
            v.last_mut().unwrap().push(r.split('|').map(|c| c.trim().to_string()).collect());
        } else {
            inside = false;
        }
    }
    v
}
fn nanos(v: &Value) -> Option<i128> {
    Some(v.get("secs")?.as_u64()? as i128 * 1_000_000_000 + v.get("nanos")?.as_u64()? as i128)
}
fn signed_nanos(v: &Value) -> Option<i128> {
    let n = nanos(v.get("duration")?)?;
    Some(if v.get("is_positive")?.as_bool()? { n } else { -n })
}
/// A saved summary, read back.
pub fn from_json(text: &str) -> Result<Analysis, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("the summary is not JSON: {}", e))?;
    let mut a = Analysis::default();
    let bad = || "the summary lacks a field".to_string();
    a.total = nanos(&v["total_time"]).ok_or_else(bad)? as u64;
    for q in v["query_data"].as_array().ok_or_else(bad)? {
        let t = |k: &str| nanos(&q[k]).map(|x| x as u64).ok_or_else(bad);
        let n = |k: &str| q[k].as_u64().ok_or_else(bad);
        let r = Row {
            time: t("time")?,
            self_time: t("self_time")?,
            misses: n("number_of_cache_misses")?,
            hits: n("number_of_cache_hits")?,
            invocations: n("invocation_count")?,
            blocked: t("blocked_time")?,
            load: t("incremental_load_time")?,
            hashing: t("incremental_hashing_time")?,
        };
        let l = q["label"].as_str().ok_or_else(bad)?;
        ensure!(a.rows.insert(l.into(), r).is_none(), "label {:?} is listed twice", l);
    }
    for q in v["artifact_sizes"].as_array().ok_or_else(bad)? {
        let l = q["label"].as_str().ok_or_else(bad)?;
        ensure!(a.artifacts.insert(l.into(), q["value"].as_u64().ok_or_else(bad)?).is_none(), "artifact {:?} is listed twice", l);
    }
    Ok(a)
}

/// Expected difference of one figure.
fn d(b: u64, c: u64) -> i128 {
    c as i128 - b as i128
}
/// Is `got` (None: not a finite number) the change from b to c in percent?
fn percent_ok(got: Option<f64>, has_b: bool, has_c: bool, b: u64, c: u64) -> bool {
    if b == 0 || !has_b {
        // nothing to relate the change to
        return got.is_none() || (!has_c && (got == Some(-100.0) || got == Some(0.0))) || (b == c && got == Some(0.0));
    }
    let want = (c as i128 - b as i128) as f64 / b as f64 * 100.0;
    match got {
        Some(g) => (g - want).abs() <= 1e-9 * want.abs().max(1.0),
        None => false,
    }
}
fn diff_json(text: &str, b: &Analysis, c: &Analysis) -> Res {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("the comparison is not JSON: {}", e))?;
    let all: BTreeSet<&String> = b.rows.keys().chain(c.rows.keys()).collect();
    let mut seen = BTreeSet::new();
    let zero = Row::default();
    for q in v["query_data"].as_array().ok_or("no query_data")? {
        let l = q["label"].as_str().ok_or("no label")?.to_string();
        ensure!(all.contains(&l), "label {:?} is in neither profile", l);
        let (rb, rc) = (b.rows.get(&l).unwrap_or(&zero), c.rows.get(&l).unwrap_or(&zero));
        let (hb, hc) = (b.rows.contains_key(&l), c.rows.contains_key(&l));
        for (k, x, y) in [
            ("time", rb.time, rc.time),
            ("self_time", rb.self_time, rc.self_time),
            ("blocked_time", rb.blocked, rc.blocked),
            ("incremental_load_time", rb.load, rc.load),
            ("incremental_hashing_time", rb.hashing, rc.hashing),
        ] {
            ensure!(signed_nanos(&q[k]) == Some(d(x, y)), "{:?}: {} is {}, expected {} - {}", l, k, q[k], y, x);
        }
        for (k, x, y) in [
            ("number_of_cache_misses", rb.misses, rc.misses),
            ("number_of_cache_hits", rb.hits, rc.hits),
            ("invocation_count", rb.invocations, rc.invocations),
        ] {
            ensure!(q[k].as_i64().map(|v| v as i128) == Some(d(x, y)), "{:?}: {} is {}, expected {} - {}", l, k, q[k], y, x);
        }
        for (k, x, y) in [("time_change", rb.time, rc.time), ("self_time_change", rb.self_time, rc.self_time)] {
            ensure!(percent_ok(q[k].as_f64(), hb, hc, x, y), "{:?}: {} is {} for a change from {} to {}", l, k, q[k], x, y);
        }
        ensure!(seen.insert(l.clone()), "label {:?} is listed twice", l);
    }
    ensure!(seen.len() == all.len(), "{} of {} labels are listed", seen.len(), all.len());
    let mut arts = BTreeMap::new();
    for q in v["artifact_sizes"].as_array().ok_or("no artifact_sizes")? {
        let l = q["label"].as_str().ok_or("no label")?.to_string();
        ensure!(arts.insert(l.clone(), q["size_change"].as_i64().ok_or("no size_change")?).is_none(), "artifact {:?} twice", l);
    }
    ensure!(arts == art_diff(b, c), "artifact sizes {:?}, expected {:?}", arts, art_diff(b, c));
    ensure!(signed_nanos(&v["total_time"]) == Some(d(b.total, c.total)), "total time {}, expected {} - {}", v["total_time"], c.total, b.total);
    Ok(())
}
fn art_diff(b: &Analysis, c: &Analysis) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for l in b.artifacts.keys().chain(c.artifacts.keys()) {
        let g = |a: &Analysis| a.artifacts.get(l).copied().unwrap_or(0) as i64;
        m.insert(l.clone(), g(c) - g(b));
    }
    m
}
fn near(cell: &str, want: i128) -> bool {
    signed(cell).map(|(v, tol)| (v - want as f64).abs() <= tol).unwrap_or(false)
}
fn pct(cell: &str) -> Option<Option<f64>> {
    let s = cell.strip_suffix('%')?;
    let v: f64 = s.strip_prefix('+').unwrap_or(s).parse().ok()?;
    Some(if v.is_finite() { Some(v) } else { None })
}
fn diff_table(out: &str, b: &Analysis, c: &Analysis, hide: impl Fn(&str) -> bool) -> Res {
    let t = tables(out);
    ensure!(t.len() == 2 && !t[0].is_empty() && !t[1].is_empty(), "no tables in {:?}", out);
    let col = |name: &str| t[0][0].iter().position(|h| h == name).ok_or_else(|| format!("no column {:?}", name));
    let all: BTreeSet<&String> = b.rows.keys().chain(c.rows.keys()).filter(|l| !hide(l)).collect();
    let mut seen = BTreeSet::new();
    let zero = Row::default();
    for r in &t[0][1..] {
        let l = r[col("Item")?].clone();
        ensure!(all.contains(&l), "label {:?} should not be listed", l);
        let (rb, rc) = (b.rows.get(&l).unwrap_or(&zero), c.rows.get(&l).unwrap_or(&zero));
        let (hb, hc) = (b.rows.contains_key(&l), c.rows.contains_key(&l));
        for (k, x, y) in [
            ("Self Time", rb.self_time, rc.self_time),
            ("Time", rb.time, rc.time),
            ("Blocked time", rb.blocked, rc.blocked),
            ("Incremental load time", rb.load, rc.load),
            ("Incremental hashing time", rb.hashing, rc.hashing),
        ] {
            ensure!(near(&r[col(k)?], d(x, y)), "{:?}: {} is {}, expected {} - {}", l, k, r[col(k)?], y, x);
        }
        for (k, x, y) in [("Item count", rb.invocations, rc.invocations), ("Cache hits", rb.hits, rc.hits)] {
            ensure!(r[col(k)?].parse::<i64>().ok().map(|v| v as i128) == Some(d(x, y)), "{:?}: {} is {}, expected {} - {}", l, k, r[col(k)?], y, x);
        }
        for (k, x, y) in [("Self Time Change", rb.self_time, rc.self_time), ("Time Change", rb.time, rc.time)] {
            let g = pct(&r[col(k)?]).ok_or_else(|| format!("{:?}: {} is {}", l, k, r[5]))?;
            let ok = match g {
                Some(v) if x > 0 => (v - d(x, y) as f64 / x as f64 * 100.0).abs() <= 0.0051 + v.abs() * 1e-9,
                g => percent_ok(g, hb, hc, x, y),
            };
            ensure!(ok, "{:?}: {} is {} for a change from {} to {}", l, k, r[col(k)?], x, y);
        }
        ensure!(seen.insert(l.clone()), "label {:?} is listed twice", l);
    }
    ensure!(seen.len() == all.len(), "{} of {} labels are listed", seen.len(), all.len());
    let mut arts = BTreeMap::new();
    for r in &t[1][1..] {
        let n: i64 = r[1].strip_suffix(" bytes").and_then(|x| x.parse().ok()).ok_or_else(|| format!("artifact row {:?}", r))?;
        ensure!(arts.insert(r[0].clone(), n).is_none(), "artifact {:?} twice", r[0]);
    }
    let mut want = art_diff(b, c);
    want.retain(|l, _| !hide(l));
    ensure!(arts == want, "artifact sizes {:?}, expected {:?}", arts, want);
    let tt = out.lines().find_map(|l| l.strip_prefix("Total cpu time: ")).ok_or("no total time")?;
    ensure!(near(tt.trim(), d(b.total, c.total)), "total time {}, expected {} - {}", tt, c.total, b.total);
    Ok(())
}

/// One side of a comparison, assembled from small parts.
fn side(a: usize, b: usize, art: usize) -> Trace {
    let mut t = Trace::default();
    let mut now = 10;
    match a {
        0 => {}
        1 => t.whole(0, QUERY, "a", now, now + 5),
        2 => {
            t.start(0, QUERY, "a", &[], now);
            t.whole(0, ACTIVITY, "in", now + 2, now + 4);
            t.end(0, now + 12);
            t.instant(0, HIT, "a", &[], now + 12);
        }
        3 => t.whole(1, BLOCKED, "a", now, now + 7),
        4 => t.whole(0, LOAD, "a", now, now + 1_000_000_003),
        5 => t.whole(0, HASHING, "a", now, now + 3),
        6 => t.whole(0, QUERY, "a", now, now),
        _ => t.instant(0, HIT, "a", &[], now),
    }
    now = 2_000_000_000;
    match b {
        0 => {}
        1 => {
            for _ in 0..3 {
                t.whole(0, QUERY, "b", now, now + 333);
                now += 400;
            }
        }
        _ => t.whole(2, "Custom", "b", now, now + 7_200_000_000_001),
    }
    match art {
        0 => {}
        1 => t.integer(0, ARTIFACT, "lib", 5),
        3 => {
            t.integer(0, ARTIFACT, "lib", 0);
            t.integer(0, ARTIFACT, "b", 1);
            t.integer(9, ARTIFACT, "z", 0);
        }
        _ => {
            t.integer(0, ARTIFACT, "lib", 1 << 45);
            t.integer(9, ARTIFACT, "a", 1);
        }
    }
    t
}
fn put(d: &Path, name: &str, t: &Trace, s: Store) -> std::path::PathBuf {
    let f = d.join(format!("{}.mm_profdata", name));
    std::fs::write(&f, file_of(&t.evs, s)).unwrap();
    f
}
fn ok(o: &Out) -> Res {
    ensure!(o.code == Some(0), "the tool ends with {:?}: {}", o.code, o.err);
    Ok(())
}
/// Runs the comparison through JSON and checks it.
fn run_diff(dir: &Path, base: &str, change: &str, b: &Analysis, ch: &Analysis) -> Res {
    let res = dir.join(change).with_extension("json");
    let saved = std::fs::read(&res).ok();
    let o = tool("summarize", &["diff", base, change, "--json"], dir);
    ok(&o)?;
    let text = std::fs::read_to_string(&res).map_err(|e| format!("no result file: {}", e))?;
    match saved {
        Some(s) if change.ends_with("json") => std::fs::write(&res, s).unwrap(),
        _ => std::fs::remove_file(&res).unwrap(),
    }
    diff_json(&text, b, ch)
}
pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("all pairs of small profiles", |c| {
        let x = side(c.choose(8), c.choose(3), c.choose(4));
        let y = side(c.choose(8), c.choose(3), c.choose(4));
        let dir = fresh(c, "c17");
        put(&dir, "base", &x, Store::Flat);
        put(&dir, "change", &y, Store::Composite);
        let (ax, ay) = (analysis(&x), analysis(&y));
        stale(&dir.join("change.json"), &[key(&x), key(&y)].concat());
        run_diff(&dir, "base", "change", &ax, &ay).map_err(|e| format!("[{}] to [{}]: {}", brief(&x), brief(&y), e))?;
        c.step();
        c.state(&[key(&x), vec![0], key(&y)].concat());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("profiles and saved summaries as inputs", |c| {
        let x = side(c.choose(8), c.choose(3), 2);
        let y = side(c.choose(8), c.choose(3), 1);
        let dir = fresh(c, "c17j");
        put(&dir, "base", &x, Store::Flat);
        put(&dir, "change", &y, Store::Flat);
        let (ax, ay) = (analysis(&x), analysis(&y));
        ok(&tool("summarize", &["summarize", "--json", "base"], &dir))?;
        ok(&tool("summarize", &["summarize", "--json", "change"], &dir))?;
        std::fs::rename(dir.join("change.json"), dir.join("saved.json")).unwrap();
        for (b, ch) in [("base.json", "change"), ("base", "saved.json"), ("base.json", "saved.json"), ("base.mm_profdata", "change.mm_profdata")] {
            let want = if ch == "saved.json" { std::fs::read(dir.join(ch)).unwrap() } else { vec![] };
            run_diff(&dir, b, ch, &ax, &ay).map_err(|e| format!("{} to {}: [{}] to [{}]: {}", b, ch, brief(&x), brief(&y), e))?;
            let o = tool("summarize", &["diff", b, ch], &dir);
            ok(&o)?;
            diff_table(&o.out, &ax, &ay, |_| false).map_err(|e| format!("{} to {}: [{}] to [{}]: {}", b, ch, brief(&x), brief(&y), e))?;
            ensure!(want.is_empty() || std::fs::read(dir.join(ch)).unwrap() == want, "the saved summary was changed");
            c.step();
        }
        c.state(&[key(&x), vec![0], key(&y)].concat());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("the table, with labels left out", |c| {
        let x = side(c.choose(8), c.choose(3), [0, 1, 3][c.choose(3)]);
        let y = side(c.choose(8), c.choose(3), 2);
        let exs: [&[&str]; 5] = [&[], &["a"], &["b", "li"], &["in", "zz"], &[""]];
        let ex = exs[c.choose(exs.len())];
        let dir = fresh(c, "c17t");
        put(&dir, "p.base", &x, Store::Flat);
        put(&dir, "change", &y, Store::Virtual);
        let mut args = vec!["diff", "p.base.mm_profdata", "change.mm_profdata"];
        for e in ex {
            args.extend(["--exclude", e]);
        }
        let o = tool("summarize", &args, &dir);
        ok(&o)?;
        diff_table(&o.out, &analysis(&x), &analysis(&y), |l| ex.iter().any(|e| l.contains(e)))
            .map_err(|e| format!("without {:?}: [{}] to [{}]: {}", ex, brief(&x), brief(&y), e))?;
        c.step();
        c.state(format!("{:?}{}{}", ex, brief(&x), brief(&y)).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("labels that are nearly the same", |c| {
        // the comparison as JSON: table cells do not show white space
        let (a, b) = pair(c, &NEAR);
        let art = c.flag();
        let mk = |w: usize, k: u64| {
            let mut t = Trace::default();
            let mut now = 5;
            for (i, l) in [a, b].iter().enumerate().filter(|x| w >> x.0 & 1 == 1) {
                let n = 10 * (i as u64 + 1) + k;
                if art {
                    t.integer(0, ARTIFACT, l, n);
                } else {
                    t.whole(0, QUERY, l, now, now + n);
                    t.instant(0, HIT, l, &[], now + n);
                    now += 1000;
                }
            }
            t
        };
        let (x, y) = (mk(1 + c.choose(3), 0), mk(1 + c.choose(3), 3));
        let dir = fresh(c, "c17w");
        put(&dir, "base", &x, Store::Flat);
        put(&dir, "change", &y, Store::Flat);
        run_diff(&dir, "base", "change", &analysis(&x), &analysis(&y)).map_err(|e| format!("[{}] to [{}]: {}", brief(&x), brief(&y), e))?;
        c.step();
        c.state(&[key(&x), vec![0], key(&y)].concat());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("saved summaries with figures over their whole range", |c| {
        // every pair of values of every figure
        let values = [0, 1, 999, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 5, 1 << 53, (1 << 53) + 1, (1 << 62) + 3];
        let field = c.choose(10);
        let (v, w) = (*c.pick(&values), *c.pick(&values));
        let mk = |v: u64| {
            let mut a = Analysis::default();
            let mut r = Row { time: 5, self_time: 4, misses: 3, hits: 2, invocations: 9, blocked: 1, load: 1, hashing: 1 };
            a.rows.insert("other".into(), r.clone());
            a.artifacts.insert("b".into(), 6);
            a.total = 77;
            let mut art = 8;
            match field {
                0 => r.time = v,
                1 => r.self_time = v,
                2 => r.misses = v,
                3 => r.hits = v,
                4 => r.invocations = v,
                5 => r.blocked = v,
                6 => r.load = v,
                7 => r.hashing = v,
                8 => art = v,
                _ => a.total = v,
            }
            a.rows.insert("a".into(), r);
            a.artifacts.insert("a".into(), art);
            a
        };
        let text = |a: &Analysis| {
            let t = |n: u64| serde_json::json!({"secs": n / 1_000_000_000, "nanos": n % 1_000_000_000});
            let rows: Vec<Value> = a.rows.iter().map(|(l, r)| serde_json::json!({
                "label": l, "time": t(r.time), "self_time": t(r.self_time), "number_of_cache_misses": r.misses, "number_of_cache_hits": r.hits,
                "invocation_count": r.invocations, "blocked_time": t(r.blocked), "incremental_load_time": t(r.load),
                "incremental_hashing_time": t(r.hashing),
            })).collect();
            let arts: Vec<Value> = a.artifacts.iter().map(|(l, v)| serde_json::json!({"label": l, "value": v})).collect();
            serde_json::json!({"query_data": rows, "artifact_sizes": arts, "total_time": t(a.total)}).to_string()
        };
        let (x, y) = (mk(v), mk(w));
        let dir = fresh(c, "c17v");
        std::fs::write(dir.join("x.json"), text(&x)).unwrap();
        std::fs::write(dir.join("y.json"), text(&y)).unwrap();
        let o = tool("summarize", &["diff", "x.json", "y.json"], &dir);
        ok(&o)?;
        diff_table(&o.out, &x, &y, |_| false).map_err(|e| format!("figure {} from {} to {}: {}", field, v, w, e))?;
        run_diff(&dir, "x.json", "y.json", &x, &y).map_err(|e| format!("figure {} from {} to {}: {}", field, v, w, e))?;
        c.step();
        c.state(&[&[field as u8][..], &v.to_le_bytes(), &w.to_le_bytes()].concat());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("pairs of histories", |c| {
        let g = Cfg { ops: tier(4, 5), starts: &[(QUERY, "a"), (HASHING, "b")], instants: &[(HIT, "c")], dts: &[1, 300], ..Default::default() };
        let x = history(c, &g);
        let y = history(c, &Cfg { ops: tier(2, 3), ..g });
        let dir = fresh(c, "c17h");
        put(&dir, "base", &x, Store::Flat);
        put(&dir, "change", &y, Store::Flat);
        let (ax, ay) = (analysis(&x), analysis(&y));
        run_diff(&dir, "base", "change", &ax, &ay).map_err(|e| format!("[{}] to [{}]: {}", brief(&x), brief(&y), e))?;
        c.state(&[key(&x), vec![0], key(&y)].concat());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("large profiles, with themselves and each other", |c| {
        let (i, j) = (c.choose(8), c.choose(8));
        let (x, y) = (big(i), big(j));
        let dir = fresh(c, "c17b");
        put(&dir, "base", &x, Store::Flat);
        put(&dir, "change", &y, Store::Composite);
        run_diff(&dir, "base", "change", &analysis(&x), &analysis(&y)).map_err(|e| format!("large {} to {}: {}", i, j, e))?;
        if i == j {
            run_diff(&dir, "base", "base", &analysis(&x), &analysis(&x)).map_err(|e| format!("large {} to itself: {}", i, e))?;
        }
        c.state(&[i as u8, j as u8]);
        c.steps((x.evs.len() + y.evs.len()) as u64);
        c.validated();
        Ok(())
    }));
    Check {
        id: "C17",
        scenarios: sc,
        rule: "All pairs of small profiles assembled from every combination of absent, present, changed labels, kinds and artifacts, and of \
               bounded recording histories and large profiles, compared by the real tool from profiles and saved summaries; the JSON and \
               the table must hold exactly the differences of the reference analyses, label by label. Comparing with itself and swapping are \
               among the pairs. states = distinct pairs."
            .into(),
        assumptions: vec![
            "a change from nothing has no finite percentage; where base and change are both without time, -100, 0 and none are accepted".into(),
        ],
    }
}
pub fn fresh(c: &Ctx, name: &str) -> std::path::PathBuf {
    let d = c.scratch().join(name);
    let _ = std::fs::create_dir_all(&d);
    if let Ok(r) = std::fs::read_dir(&d) {
        for e in r.flatten() {
            let _ = std::fs::remove_file(e.path());
        }
    }
    d
}

// ---------------------------------------------------------------- C24

/// The summary table of `t` with a threshold must be faithful.
fn summary(o: &Out, t: &Trace, p: Option<f64>) -> Res {
    ok(o)?;
    let a = analysis(t);
    let tab = tables(&o.out);
    ensure!(tab.len() == 2 && !tab[0].is_empty() && !tab[1].is_empty(), "no tables in {:?}", o.out);
    let head = &tab[0][0];
    let col = |n: &str| head.iter().position(|h| h == n);
    let any = |f: &dyn Fn(&Row) -> u64| a.rows.values().any(|r| f(r) > 0);
    let columns: Vec<(&str, bool)> = vec![
        ("Item", true),
        ("Self time", true),
        ("% of total time", true),
        ("Time", true),
        ("Item count", true),
        ("Cache hits", any(&|r| r.hits)),
        ("Blocked time", any(&|r| r.blocked)),
        ("Incremental load time", any(&|r| r.load)),
        ("Incremental result hashing time", any(&|r| r.hashing)),
    ];
    for (n, want) in &columns {
        ensure!(col(n).is_some() || !want, "the column {:?} is missing although it is not empty", n);
    }
    let p100 = |r: &Row| r.self_time as f64 * 100.0 / a.total as f64;
    // exact comparison with the threshold: self * 100 >= p * total
    let shown = |r: &Row| match p {
        None => true,
        Some(p) => {
            // thresholds used here have at most three decimals
            let q = (p * 1000.0).round() as u128;
            r.self_time as u128 * 100_000 >= q * a.total as u128
        }
    };
    let want: BTreeMap<&String, &Row> = a.rows.iter().filter(|(_, r)| shown(r)).collect();
    let mut seen = BTreeSet::new();
    let mut last = u64::MAX;
    for r in &tab[0][1..] {
        ensure!(r.len() == head.len(), "row {:?} does not match the header {:?}", r, head);
        let l = &r[0];
        let Some(w) = want.get(l) else { fail!("label {:?} should not be listed: {:?}", l, a.rows.get(l)) };
        let cell = |n: &str| col(n).map(|i| r[i].as_str());
        for (n, v) in [
            ("Self time", w.self_time),
            ("Time", w.time),
            ("Blocked time", w.blocked),
            ("Incremental load time", w.load),
            ("Incremental result hashing time", w.hashing),
        ] {
            if let Some(x) = cell(n) {
                ensure!(near(x, v as i128), "{:?}: {} is {}, expected {} ns", l, n, x, v);
            }
        }
        for (n, v) in [("Item count", w.invocations), ("Cache hits", w.hits)] {
            if let Some(x) = cell(n) {
                ensure!(x.parse() == Ok(v), "{:?}: {} is {}, expected {}", l, n, x, v);
            }
        }
        let x: f64 = cell("% of total time").unwrap().parse().map_err(|_| format!("{:?}: share {:?}", l, cell("% of total time")))?;
        ensure!((x - p100(w)).abs() <= 0.00051 || a.total == 0, "{:?}: share {}, expected {}", l, x, p100(w));
        ensure!(w.self_time <= last, "{:?} with {} ns follows one with {}", l, w.self_time, last);
        last = w.self_time;
        ensure!(seen.insert(l.clone()), "label {:?} is listed twice", l);
    }
    for l in want.keys() {
        ensure!(seen.contains(*l), "label {:?} is not listed ({:?})", l, a.rows[*l]);
    }
    let tt = o.out.lines().find_map(|l| l.strip_prefix("Total cpu time: ")).ok_or("no total time")?;
    ensure!(near(tt.trim(), a.total as i128), "total time {}, expected {}", tt, a.total);
    let share = o.out.lines().find_map(|l| l.strip_prefix("Filtered results account for "));
    if p.unwrap_or(0.0) != 0.0 {
        let s = share.and_then(|s| s.split('%').next()).and_then(|s| s.parse::<f64>().ok()).ok_or("no share of the total time is stated")?;
        let w: f64 = want.values().map(|r| p100(r)).sum();
        ensure!((s - w).abs() <= 0.00051 + 1e-6, "the stated share is {}, the labels shown add up to {}", s, w);
    }
    let mut arts = BTreeMap::new();
    for r in &tab[1][1..] {
        let n: u64 = r[1].strip_suffix(" bytes").and_then(|x| x.parse().ok()).ok_or_else(|| format!("artifact row {:?}", r))?;
        ensure!(arts.insert(r[0].clone(), n).is_none(), "artifact {:?} twice", r[0]);
    }
    ensure!(arts == a.artifacts, "artifact sizes {:?}, expected {:?}", arts, a.artifacts);
    Ok(())
}
pub fn check_table() -> Check {
    let mut sc = vec![];
    sc.push(scenario("figures of every kind", |c| {
        let mut t = side(c.choose(8), c.choose(3), c.choose(3));
        if c.flag() {
            let k = c.choose(8);
            t.whole(5, KINDS[k], "extra", 40, 90);
        }
        if c.flag() {
            t.instant(5, HIT, "a", &[], 99);
        }
        let dir = fresh(c, "c24");
        put(&dir, "p", &t, *c.pick(&[Store::Flat, Store::Composite]));
        let o = tool("summarize", &["summarize", "p"], &dir);
        summary(&o, &t, None).map_err(|e| format!("{}: {}", brief(&t), e))?;
        c.step();
        c.state(&key(&t));
        c.validated();
        Ok(())
    }));
    sc.push(scenario("histories", |c| {
        let t = history(c, &Cfg {
            ops: tier(5, 6),
            starts: &[(QUERY, "a"), (BLOCKED, "b"), (LOAD, "c")],
            instants: &[(HIT, "a")],
            dts: &[1, 1_234],
            ..Default::default()
        });
        let dir = fresh(c, "c24h");
        put(&dir, "p", &t, Store::Flat);
        let o = tool("summarize", &["summarize", "p"], &dir);
        summary(&o, &t, None).map_err(|e| format!("{}: {}", brief(&t), e))?;
        c.state(&key(&t));
        c.validated();
        Ok(())
    }));
    sc.push(scenario("every threshold around every share", |c| {
        // labels with shares k/n of the total
        let n = *c.pick(&[100u64, 1000, 7, 64, 100_000, 12_345_678_900]);
        let ks: Vec<u64> = match n {
            100 | 1000 => vec![n / 100, n * 7 / 100, n * 29 / 100, n * 57 / 100, n / 20],
            7 => vec![1, 2, 1, 3],
            64 => vec![1, 2, 4, 8, 16, 32],
            100_000 => vec![1, 28, 1_001, 29_000, 57_000],
            _ => vec![123_456_789 * 29, 123_456_789 * 57, 123_456_789 * 7, 123_456_789],
        };
        let mut t = Trace::default();
        let mut now = 5;
        for (i, k) in ks.iter().enumerate() {
            t.whole(0, QUERY, &format!("l{}", i), now, now + k);
            now += k;
        }
        let rest = 5 + n - now;
        if rest > 0 {
            t.whole(0, QUERY, "rest", now, now + rest);
        }
        let p = *c.pick(&["0", "0.001", "0.1", "0.5", "1", "1.0", "3", "5", "6.25", "7", "12.5", "14.285", "14.286", "25", "28", "28.5", "29", "29.001", "30", "50", "56.999", "57", "58", "99.999", "100"]);
        let dir = fresh(c, "c24t");
        put(&dir, "p", &t, Store::Flat);
        let opt = if c.flag() { "-p" } else { "--percent-above" };
        let o = tool("summarize", &["summarize", "p", opt, p], &dir);
        summary(&o, &t, Some(p.parse().unwrap())).map_err(|e| format!("threshold {}: {}: {}", p, brief(&t), e))?;
        c.step();
        c.state(format!("{}{}", n, p).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("thresholds out of range", |c| {
        let t = side(1, 1, 1);
        let dir = fresh(c, "c24r");
        put(&dir, "p", &t, Store::Flat);
        let p = *c.pick(&["--percent-above=-0.1", "--percent-above=100.5", "--percent-above=x", "--percent-above=-100"]);
        let o = tool("summarize", &["summarize", "p", p], &dir);
        ensure!(o.code != Some(0) && o.code != Some(101) && tables(&o.out).is_empty(), "{}: ends with {:?}: {}", p, o.code, o.out);
        c.step();
        c.state(p.as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("saved summaries", |c| {
        let t = match c.choose(2) {
            0 => side(c.choose(8), c.choose(3), c.choose(3)),
            _ => big(c.choose(8)),
        };
        let dir = fresh(c, "c24j");
        put(&dir, "p", &t, Store::Flat);
        stale(&dir.join("p.json"), &key(&t));
        ok(&tool("summarize", &["summarize", "--json", if c.flag() { "p" } else { "p.mm_profdata" }], &dir))?;
        let text = std::fs::read_to_string(dir.join("p.json")).map_err(|e| format!("no summary file: {}", e))?;
        differs(&from_json(&text)?, &analysis(&t)).map_err(|e| format!("saved summary: {}", e))?;
        // and it reads back with the library's own types
        let r: analyzeme::AnalysisResults = serde_json::from_str(&text).map_err(|e| format!("the summary does not read back: {}", e))?;
        differs(&crate::c15::of_results(&r)?, &analysis(&t)).map_err(|e| format!("summary read back: {}", e))?;
        c.step();
        c.state(&key(&t));
        c.validated();
        Ok(())
    }));
    sc.push(scenario("large profiles", |c| {
        let n = c.choose(8);
        let t = big(n);
        let p = *c.pick(&["", "0.1", "1", "10"]);
        let dir = fresh(c, "c24b");
        put(&dir, "p", &t, Store::Composite);
        if n == 5 {
            return Ok(()); // labels with spaces at the ends do not survive the table
        }
        let args: Vec<&str> = if p.is_empty() { vec!["summarize", "p"] } else { vec!["summarize", "p", "-p", p] };
        let o = tool("summarize", &args, &dir);
        summary(&o, &t, p.parse().ok()).map_err(|e| format!("large profile {}: {}", n, e))?;
        c.state(&[n as u8, p.len() as u8]);
        c.steps(t.evs.len() as u64);
        c.validated();
        Ok(())
    }));
    Check {
        id: "C24",
        scenarios: sc,
        rule: "The real tool summarises all bounded histories and combinations of kinds, with thresholds placed at, just below and just above \
               the share of every label; the rows, their order, figures and shares, the columns present, the stated share, total time and \
               artifact table, and the saved JSON, must match the reference analysis. states = distinct profiles and thresholds."
            .into(),
        assumptions: vec!["labels without vertical bars or line breaks; total time above zero where a threshold is given".into()],
    }
}
