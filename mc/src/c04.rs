//! C04: a profile cut short by a crash never shows anything not recorded.
use crate::session::*;
use crate::sys::{with_plan, Fault, Plan};
use crate::util::*;
use analyzeme::ProfilingData;
use common::explore::*;
use common::spec::{self, Pay, Strings};
use common::sup::Check;
use common::{ensure, fail, tier, Res};

/// The invariants of the bytes left by a crash: `part` is what is on disk,
/// `whole` what the completed session leaves.
fn crashed(part: &[u8], whole: &[u8], orig: &[Orig], texts: bool) -> Res {
    ensure!(part.len() <= whole.len() && part == &whole[..part.len()], "{} bytes on disk are not a prefix of the complete file", part.len());
    let n = part.len();
    if n < 8 {
        return Ok(());
    }
    ensure!(part[..8] == spec::header(b"MMPD", 9)[..], "the file header is {:x?}", &part[..8]);
    let (pages, torn) = match spec::pages(&part[8..]) {
        Ok(p) => (p, 0),
        Err((p, t)) => (p, t),
    };
    ensure!(torn < n, "no page structure");
    for (t, b) in &pages {
        ensure!(*t <= 2 && !b.is_empty() && b.len() <= spec::MAX_PAGE, "cut at {}: a page with tag {} and {} bytes", n, t, b.len());
    }
    let s = spec::streams_of(&pages);
    let full = streams(whole)?;
    for k in 0..3 {
        ensure!(full[k].starts_with(&s[k]), "cut at {}: stream {} is not a prefix of the complete one", n, k);
    }
    let ev = &s[0];
    ensure!(ev.is_empty() || (ev.len() >= 8 && (ev.len() - 8) % 32 == 0), "cut at {}: the event stream holds {} bytes, not whole events", n, ev.len());
    let got = ev.get(8..).unwrap_or(&[]).chunks(32).map(spec::decode_event).collect::<Vec<_>>();
    ensure!(got.len() <= orig.len(), "cut at {}: more events than recorded", n);
    let tab = Strings::new(&s[1], &s[2]);
    let mut cache: std::collections::HashMap<u64, Option<String>> = Default::default();
    for (i, ((k, id, th, pay), o)) in got.iter().zip(orig).enumerate() {
        ensure!(*k == o.kind && *id == o.id && *th == o.ev.thread, "cut at {}: event {} is {:?}, recorded {:?}", n, i, (k, id, th), o.ev);
        match (pay, o.ev.pay) {
            (Pay::Interval(..), Pay::Interval(..)) => {}
            (a, b) => ensure!(*a == b, "cut at {}: event {} is {:?}, recorded {:?}", n, i, a, b),
        }
        if texts {
            let t = cache.entry(*id).or_insert_with(|| tab.get(*id));
            if let Some(t) = t {
                ensure!(parse_event_id(t) == (o.ev.label.clone(), o.ev.args.clone()), "cut at {}: event {} has the text {:?}, recorded {:?}", n, i, &t[..t.len().min(40)], o.ev.label.len());
            }
            let t = cache.entry(*k).or_insert_with(|| tab.get(*k));
            if let Some(t) = t {
                ensure!(*t == o.ev.kind, "cut at {}: event {} has the kind {:?}", n, i, t);
            }
        }
    }
    Ok(())
}
/// What the library makes of the whole pages of a crashed file.
fn recovered(part: &[u8], orig: &[Orig]) -> Result<bool, String> {
    let got = catches(|| {
        let pd = ProfilingData::from_paged_buffer(part.to_vec(), None).ok()?;
        let t0 = pd.metadata().start_time;
        Some(pd.iter_full().map(|e| ev_of(&e, t0)).collect::<Result<Vec<_>, _>>())
    });
    let Ok(Some(got)) = got else { return Ok(false) };
    let got = got?;
    ensure!(got.len() <= orig.len(), "{} events are recovered, {} were recorded", got.len(), orig.len());
    let s = spec::streams_of(&spec::pages(&part[8..]).map_err(|_| "torn")?);
    let tab = Strings::new(&s[1], &s[2]);
    for (i, (g, o)) in got.iter().zip(orig).enumerate() {
        let same = match (g.pay, o.ev.pay) {
            (Pay::Interval(..), Pay::Interval(..)) => true,
            (a, b) => a == b,
        };
        ensure!(same && g.thread == o.ev.thread, "recovered event {} is {:?} {}, recorded {:?} {}", i, g.pay, g.thread, o.ev.pay, o.ev.thread);
        if (&g.label, &g.args) != (&o.ev.label, &o.ev.args) {
            ensure!(tab.get(o.id).is_none(), "recovered event {} has label {:?} although its text is on disk", i, &g.label[..g.label.len().min(60)]);
            ensure!(g.label.contains('<') || g.args.iter().any(|a| a.contains('<')), "recovered event {} has the text {:?} {:?}, never recorded", i, &g.label[..g.label.len().min(60)], g.args);
        }
        ensure!(g.kind == o.ev.kind || (tab.get(o.kind).is_none() && g.kind.contains('<')), "recovered event {} has kind {:?}", i, g.kind);
    }
    Ok(true)
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("histories of bursts, crashes at every write and around every page", |c| {
        let stem = c.scratch().join("c04");
        let file = stem.with_extension("mm_profdata");
        let depth = tier(4, 5);
        let mut ops = vec![];
        for _ in 0..depth {
            let i = c.choose(OPS.len() + 1);
            if i == 0 {
                break;
            }
            ops.push(OPS[i - 1]);
        }
        let _ = std::fs::remove_file(&file);
        // the file as it is after every step of the session, without the
        // destructors, then complete
        let mut pl = plan();
        pl.io = true;
        pl.watch = Some(file.clone());
        let mut snaps: Vec<Vec<u8>> = vec![];
        let run = with_plan(&mut pl, || -> Result<Run, String> {
            let p = measureme::Profiler::new(&stem).map_err(|e| e.to_string())?;
            snaps.push(std::fs::read(&file).unwrap_or_default());
            let r = play(&p, &ops);
            snaps.push(std::fs::read(&file).unwrap_or_default());
            drop(p);
            Ok(r)
        })?;
        if let Some(b) = &pl.broken {
            fail!("{:?}: {}", ops, b);
        }
        let whole = std::fs::read(&file).map_err(|e| e.to_string())?;
        streams(&whole).map_err(|e| format!("{:?}: complete session: {}", ops, e))?;
        (|| -> Res {
            for s in &snaps {
                crashed(s, &whole, &run.orig, true)?;
            }
            let mut cuts: Vec<usize> = pl.sizes.iter().flat_map(|s| [s.saturating_sub(1), *s, s + 1]).collect();
            let mut pos = 8usize;
            let mut bounds = vec![8];
            for (_, b) in spec::pages(&whole[8..]).map_err(|_| "torn")? {
                cuts.extend(pos.saturating_sub(2)..pos + 9);
                cuts.push(pos + 5 + b.len() / 2);
                pos += 5 + b.len();
                bounds.push(pos);
            }
            cuts.extend(0..10);
            cuts.retain(|x| *x <= whole.len());
            cuts.sort();
            cuts.dedup();
            let mut last = usize::MAX;
            for n in cuts {
                // texts only when the set of whole pages changed
                let pages = bounds.iter().filter(|b| **b <= n).count();
                crashed(&whole[..n], &whole, &run.orig, pages != last)?;
                last = pages;
                c.step();
            }
            for b in bounds {
                let opened = recovered(&whole[..b], &run.orig)?;
                ensure!(opened || b < whole.len(), "the complete profile does not read");
                c.step();
                c.outcome(&[b.to_le_bytes(), whole.len().to_le_bytes()].concat());
            }
            Ok(())
        })()
        .map_err(|e| format!("{:?}: {}", ops, e))?;
        c.state(format!("{:?}", ops).as_bytes());
        c.validated();
        c.sample(|| format!("{:?}: {} write calls, {} bytes", ops, pl.calls, whole.len()));
        Ok(())
    }));
    sc.push(scenario("texts longer than a page, the rest of them not on disk", |c| {
        // the first text decides how much of the second one is written when
        // it comes; its mapping and its events are on disk before the rest
        let stem = c.scratch().join("c04l");
        let a = *c.pick(&[0usize, 100_000, 120_000, 130_500, 131_064, 200_000]);
        let b = *c.pick(&[262_144usize, 270_000, 300_000, 330_000, 400_000, 525_000, 700_000]);
        let rest: [&[Op]; 6] = [
            &[Op::Bulk(20_000), Op::Events(9000)],
            &[Op::Events(9000), Op::Bulk(20_000)],
            &[Op::Events(1), Op::Events(9000), Op::Bulk(20_000), Op::Events(20_000)],
            &[Op::Map, Op::Bulk(20_000), Op::Events(9000), Op::Events(9000)],
            &[Op::Map, Op::Composed, Op::Bulk(9000), Op::Bulk(9000), Op::Events(9000)],
            &[Op::Bulk(9000), Op::Events(9000), Op::Text(10), Op::Bulk(9000), Op::Events(9000)],
        ];
        let mut ops = vec![Op::Text(a), Op::Text(b)];
        ops.extend_from_slice(*c.pick(&rest));
        let mut pl = plan();
        let run = with_plan(&mut pl, || session(&stem, &ops))?;
        let whole = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| e.to_string())?;
        (|| -> Res {
            let mut bounds = vec![8usize];
            for (_, b) in spec::pages(&whole[8..]).map_err(|_| "torn")? {
                bounds.push(bounds.last().unwrap() + 5 + b.len());
            }
            for b in bounds {
                crashed(&whole[..b], &whole, &run.orig, true)?;
                let opened = recovered(&whole[..b], &run.orig).map_err(|e| format!("cut after {} of {} bytes: {}", b, whole.len(), e))?;
                ensure!(opened || b < whole.len(), "the complete profile does not read");
                c.step();
                c.outcome(&[b.to_le_bytes(), whole.len().to_le_bytes()].concat());
            }
            Ok(())
        })()
        .map_err(|e| format!("{:?}: {}", ops, e))?;
        c.state(format!("{:?}", ops).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("every byte prefix of small sessions", |c| {
        let stem = c.scratch().join("c04s");
        let small = [Op::Events(1), Op::Text(10), Op::Composed, Op::Map, Op::Guard, Op::Bulk(3), Op::Text(0)];
        let ops: Vec<Op> = (0..tier(4, 5)).map(|_| *c.pick(&small)).collect();
        let mut pl = plan();
        let run = with_plan(&mut pl, || session(&stem, &ops))?;
        let whole = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| e.to_string())?;
        let mut last = usize::MAX;
        for n in 0..=whole.len() {
            let pages = match spec::pages(&whole[8.min(n)..n]) {
                Ok(p) => p.len(),
                Err((p, _)) => p.len(),
            };
            crashed(&whole[..n], &whole, &run.orig, pages != last).map_err(|e| format!("{:?}: {}", ops, e))?;
            last = pages;
        }
        c.steps(whole.len() as u64);
        c.state(format!("{:?}", ops).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("the process dies at a write call, for real", |c| {
        let all: [&[Op]; 6] = [
            &[Op::Events(1)],
            &[Op::Events(9000), Op::Text(600_000), Op::Events(9000)],
            &[Op::Text(150_000), Op::Map, Op::Composed, Op::Text(150_000), Op::Bulk(9000), Op::Events(2)],
            &[Op::Bulk(20_000), Op::Composed, Op::Bulk(20_000), Op::Text(300_000), Op::Events(9000)],
            &[Op::Events(30_000), Op::Composed],
            &[Op::Text(262_143), Op::Text(262_144), Op::Text(1), Op::Events(1), Op::Text(131_072)],
        ];
        let ops = *c.pick(&all);
        let stem = c.scratch().join("c04d");
        let file = stem.with_extension("mm_profdata");
        let mut pl = plan();
        pl.io = true;
        let run = with_plan(&mut pl, || session(&stem, ops))?;
        let whole = std::fs::read(&file).map_err(|e| e.to_string())?;
        let k = c.choose(pl.calls);
        let how = c.choose(3);
        let _ = std::fs::remove_file(&file);
        let end = forked(|| {
            // die before the call, or after a part of it was written
            let mut f = Plan { io: true, ..plan() };
            f.faults = match how {
                0 => vec![(k, Fault::Die)],
                1 => vec![(k, Fault::Short(crate::sys::ShortBy::One)), (k + 1, Fault::Die)],
                _ => vec![(k, Fault::Short(crate::sys::ShortBy::Half)), (k + 1, Fault::Die)],
            };
            let _ = with_plan(&mut f, || session(&stem, ops));
            0
        });
        let part = std::fs::read(&file).unwrap_or_default();
        ensure!(matches!(end, Ok(99)) || (how > 0 && end == Ok(0)), "HARNESS: the child ended with {:?}", end);
        crashed(&part, &whole, &run.orig, true).map_err(|e| format!("{:?}, death at write call {}: {}", ops, k, e))?;
        c.step();
        c.state(&[part.len().to_le_bytes(), whole.len().to_le_bytes()].concat());
        c.validated();
        Ok(())
    }));
    Check {
        id: "C04",
        scenarios: sc,
        rule: "All recording sessions up to the depth bound over operations small and large enough to fill every kind of page, with the file \
               compared after every write call (bytes on disk never change, only grow) and every crash point around every write call and page \
               boundary, every byte for small sessions; real processes ended at every write call and after a torn write. Each crashed file \
               must be a prefix of the complete one, consist of header, whole pages and at most one torn page, hold whole recorded events in \
               order, and every text an independent decoder finds on disk must be the recorded one; the library reading the whole pages must \
               agree. states = sessions or distinct crash states."
            .into(),
        assumptions: vec![
            "a crash keeps a prefix of the bytes handed to the operating system (process death, in-order persistence)".into(),
            "start time, clock and process id are scripted so that sessions are reproducible".into(),
        ],
    }
}
