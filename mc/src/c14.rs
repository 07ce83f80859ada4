//! C14: reading forwards, backwards or by index gives one sequence.
use crate::util::*;
use analyzeme::{Event, LightweightEvent, ProfilingData};
use common::explore::*;
use common::spec::Pay;
use common::sup::Check;
use common::{ensure, tier, Res};
use std::collections::VecDeque;

fn profile(n: usize, mix: usize, v8: bool) -> Result<ProfilingData, String> {
    let evs: Vec<Ev> = (0..n)
        .map(|i| {
            let pay = match (i + mix) % 4 {
                0 => Pay::Interval(i as u64, 10 + i as u64),
                1 => Pay::Instant(7 * i as u64),
                2 => Pay::Integer(1000 + i as u64),
                _ => Pay::Interval(5, 5),
            };
            Ev::new(["k", "kind two"][i % 2], &format!("event {}", i), if i % 3 == 0 { &["arg"] } else { &[] }, (i % 2) as u32 * 5, pay)
        })
        .collect();
    if v8 {
        open_bytes(crate::v8::file_of(&evs))
    } else {
        open_bytes(file_of(&evs, Store::Flat))
    }
}
fn full_eq(a: &Event, b: &Event) -> bool {
    a == b && a.event_kind == b.event_kind && a.label == b.label && a.additional_data == b.additional_data && a.payload == b.payload && a.thread_id == b.thread_id
}
fn agree(pd: &ProfilingData, l: &LightweightEvent, f: &Event) -> Res {
    ensure!(l.thread_id == f.thread_id, "event {}: thread {} in the lightweight view, {} in the full one", l.event_index, l.thread_id, f.thread_id);
    ensure!(l.payload == f.payload, "event {}: payload {:?} in the lightweight view, {:?} in the full one", l.event_index, l.payload, f.payload);
    ensure!(l.duration() == f.duration(), "event {}: durations differ", l.event_index);
    ensure!(l.start() == f.payload.timestamp().map(|t| t.start()) && l.end() == f.payload.timestamp().map(|t| t.end()), "event {}: times differ", l.event_index);
    let again = pd.to_full_event(l);
    ensure!(full_eq(&again, f), "event {} looked up again is {:?}, first {:?}", l.event_index, again, f);
    Ok(())
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("every mix of reading operations", |c| {
        let v8 = c.flag();
        let full = c.flag();
        let n = c.choose(tier(5, 6));
        let pd = profile(n, 0, v8)?;
        // the reference order, read by plain forward iteration and checked below
        let light: Vec<LightweightEvent> = pd.iter().collect();
        ensure!(light.len() == n && pd.num_events() == n, "{} events read forwards, num_events {}, recorded {}", light.len(), pd.num_events(), n);
        let fulls: Vec<Event> = light.iter().map(|l| pd.to_full_event(l)).collect();
        for (i, f) in fulls.iter().enumerate() {
            ensure!(f.label == format!("event {}", i), "event {} read forwards is {:?}", i, f);
            ensure!(light[i].event_index == i, "event {} has index {}", i, light[i].event_index);
            agree(&pd, &light[i], f)?;
        }
        let mut left: VecDeque<usize> = (0..n).collect();
        let mut log = vec![];
        let depth = tier(6, 7);
        let mut il = pd.iter();
        let mut ifu = pd.iter_full();
        for _ in 0..depth {
            let op = c.choose(8);
            let want: Option<usize>;
            let (ol, of): (Option<LightweightEvent>, Option<Event>);
            macro_rules! call {
                ($m:ident $(, $a:expr)*) => { if full { ol = None; of = ifu.$m($($a),*); } else { ol = il.$m($($a),*); of = None; } };
            }
            match op {
                0 => {
                    log.push("next");
                    want = left.pop_front();
                    call!(next);
                }
                1 => {
                    log.push("next_back");
                    want = left.pop_back();
                    call!(next_back);
                }
                2 => {
                    log.push("nth(1)");
                    left.pop_front();
                    want = left.pop_front();
                    call!(nth, 1);
                }
                3 => {
                    log.push("nth_back(1)");
                    left.pop_back();
                    want = left.pop_back();
                    call!(nth_back, 1);
                }
                4 => {
                    log.push("nth(3)");
                    for _ in 0..3 {
                        left.pop_front();
                    }
                    want = left.pop_front();
                    call!(nth, 3);
                }
                5 => {
                    log.push("nth_back(2)");
                    for _ in 0..2 {
                        left.pop_back();
                    }
                    want = left.pop_back();
                    call!(nth_back, 2);
                }
                6 => {
                    log.push("len");
                    let k = left.len();
                    let (h, l) = if full { (ifu.size_hint(), ifu.len()) } else { (il.size_hint(), il.len()) };
                    ensure!(h == (k, Some(k)) && l == k, "{:?}: {} events left but size_hint is {:?} and len {}", log, k, h, l);
                    continue;
                }
                _ => {
                    log.push("finish");
                    let rest: Vec<usize> = left.iter().copied().collect();
                    let way = c.choose(5);
                    let got: Vec<Option<String>> = if full {
                        let it = ifu;
                        match way {
                            0 => it.map(|e| Some(e.label.to_string())).collect(),
                            1 => {
                                let mut v: Vec<_> = it.rev().map(|e| Some(e.label.to_string())).collect();
                                v.reverse();
                                v
                            }
                            2 => vec![Some(it.count().to_string())],
                            3 => vec![it.last().map(|e| e.label.to_string())],
                            _ => it.fold(vec![], |mut v, e| {
                                v.push(Some(e.label.to_string()));
                                v
                            }),
                        }
                    } else {
                        let name = |e: &LightweightEvent| pd.to_full_event(e).label.to_string();
                        let it = il;
                        match way {
                            0 => it.map(|e| Some(name(&e))).collect(),
                            1 => {
                                let mut v: Vec<_> = it.rev().map(|e| Some(name(&e))).collect();
                                v.reverse();
                                v
                            }
                            2 => vec![Some(it.count().to_string())],
                            3 => vec![it.last().map(|e| name(&e))],
                            _ => it.rfold(vec![], |mut v, e| {
                                v.insert(0, Some(name(&e)));
                                v
                            }),
                        }
                    };
                    let text = |i: &usize| Some(format!("event {}", i));
                    let exp: Vec<Option<String>> = match way {
                        2 => vec![Some(rest.len().to_string())],
                        3 => vec![rest.last().and_then(text)],
                        _ => rest.iter().map(text).collect(),
                    };
                    ensure!(got == exp, "{:?} (way {}): {:?} instead of {:?}", log, way, got, exp);
                    c.step();
                    c.validated();
                    return Ok(());
                }
            }
            c.step();
            c.state(format!("{}{}{:?}", full, v8, left).as_bytes());
            if full {
                match (&of, want) {
                    (None, None) => {}
                    (Some(f), Some(w)) if full_eq(f, &fulls[w]) => {}
                    _ => return Err(format!("of {} events, {:?} yields {:?}, expected event {:?}", n, log, of, want)),
                }
            } else {
                match (&ol, want) {
                    (None, None) => {}
                    (Some(l), Some(w)) if *l == light[w] => agree(&pd, l, &fulls[w])?,
                    _ => return Err(format!("of {} events, {:?} yields {:?}, expected event {:?}", n, log, ol, want)),
                }
            }
            // the two iterators do not share state
        }
        c.validated();
        c.sample(|| format!("{} events: {:?}", n, log));
        Ok(())
    }));
    sc.push(scenario("profiles of every size read from both ends", |c| {
        let v8 = c.flag();
        let sizes: Vec<usize> = (0..tier(300, 1500)).chain([8190, 8191, 8192, 8193, 20_000]).collect();
        let n = *c.pick(&sizes);
        let pd = profile(n, c.choose(4), v8)?;
        ensure!(pd.num_events() == n, "num_events is {} for {} events", pd.num_events(), n);
        let f: Vec<_> = pd.iter().collect();
        let mut b: Vec<_> = pd.iter().rev().collect();
        b.reverse();
        ensure!(f == b && f.len() == n, "forwards and backwards differ for {} events", n);
        let mut ff = pd.iter_full();
        let mut k = n;
        let (mut lo, mut hi) = (0, n);
        let mut i = 0usize;
        while k > 0 {
            ensure!(ff.len() == k, "len {} with {} left", ff.len(), k);
            let (e, want) = if i % 3 == 2 {
                hi -= 1;
                (ff.next_back(), hi)
            } else {
                lo += 1;
                (ff.next(), lo - 1)
            };
            let Some(e) = e else { return Err(format!("exhausted with {} left", k)) };
            ensure!(e.label == format!("event {}", want), "expected event {}, got {:?}", want, e);
            agree(&pd, &f[want], &e)?;
            k -= 1;
            i += 1;
        }
        for _ in 0..3 {
            ensure!(ff.next().is_none() && ff.next_back().is_none() && ff.len() == 0, "an exhausted iterator yields more");
        }
        c.steps(n as u64);
        c.state(&n.to_le_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("both views of every type, value and thread", |c| {
        let v8 = c.flag();
        let threads = [0u32, 1, 5, 255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, u32::MAX];
        let th = *c.pick(&threads);
        let kind = *c.pick(&["Query", "GenericActivity", "QueryCacheHit", "QueryBlocked", "ArtifactSize", "other", ""]);
        let mut vals = vec![0u64];
        for i in 0..48 {
            vals.extend([1u64 << i, (1u64 << i) - 1, (1u64 << i) + 1]);
        }
        vals.retain(|v| *v <= common::spec::MAX_INTERVAL);
        vals.sort();
        vals.dedup();
        let mut evs = vec![];
        for (i, &v) in vals.iter().enumerate() {
            let args: &[&str] = [&[][..], &["x"], &["x", "y z"]][i % 3];
            let l = ["label", "\u{e9}", "with space"][i % 3];
            evs.push(Ev::new(kind, l, args, th, Pay::Integer(v)));
            evs.push(Ev::new(kind, l, args, th, Pay::Instant(v)));
            evs.push(Ev::new(kind, l, args, th, Pay::Interval(0, v)));
            evs.push(Ev::new(kind, l, args, th, Pay::Interval(v, v)));
            evs.push(Ev::new(kind, l, args, th, Pay::Interval(v / 3, v)));
        }
        if v8 {
            evs.retain(crate::v8::representable);
        }
        let pd = open_bytes(if v8 { crate::v8::file_of(&evs) } else { file_of(&evs, Store::Flat) })?;
        ensure!(pd.num_events() == evs.len(), "{} events, recorded {}", pd.num_events(), evs.len());
        let mut back: Vec<LightweightEvent> = pd.iter().rev().collect();
        back.reverse();
        for (i, (l, e)) in pd.iter().zip(&evs).enumerate() {
            ensure!(l == back[i] && l.event_index == i, "event {} backwards is {:?}, forwards {:?}", i, back[i], l);
            let f = pd.to_full_event(&l);
            agree(&pd, &l, &f)?;
            let got = ev_of(&f, pd.metadata().start_time)?;
            ensure!(got == *e, "event {} reads {:?}, recorded {:?}", i, got, e);
            c.step();
        }
        c.state(format!("{}{}{}", v8, th, kind).as_bytes());
        c.validated();
        Ok(())
    }));
    Check {
        id: "C14",
        scenarios: sc,
        rule: "All sequences of next, next_back, nth, nth_back, len/size_hint and the consuming adapters up to the depth bound on profiles of \
               0..n events of mixed types, in both file formats, for the lightweight and the full iterator, against a double-ended queue of \
               indices; plus every profile size up to a bound read from both ends, and both views of every combination of type, boundary value, kind and thread id. states = remaining index sets."
            .into(),
        assumptions: vec![],
    }
}
