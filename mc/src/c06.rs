//! C06: event records round-trip over their whole value range.
use crate::util::*;
use common::explore::*;
use common::spec::{self, Pay, INSTANT, INTEGER, MAX_INTERVAL};
use common::sup::Check;
use common::{ensure, fail, tier, Res};
use decodeme::event_payload::{EventPayload, Timestamp};
use measureme::{EventId, RawEvent, StringId};
use std::time::{Duration, UNIX_EPOCH};

fn bitwalk(bits: u32) -> Vec<u64> {
    let all = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mut v = vec![0, all];
    for i in 0..bits {
        v.push(1 << i);
        v.push((1u64 << i) - 1);
        v.push(all & !(1 << i));
        v.push(all - (1 << i));
    }
    for k in 0..4 {
        v.push(all - k);
        v.push(k);
    }
    v.extend([0x0123_4567_89AB_CDEFu64 & all, 0xFEDC_BA98_7654_3210u64 & all, 0xAAAA_AAAA_AAAA_AAAAu64 & all, 0x5555_5555_5555_5555u64 & all]);
    v.sort();
    v.dedup();
    v
}
fn mk(kind: u64, id: u64, th: u32, p: Pay) -> RawEvent {
    let k = StringId::new(kind);
    let i = EventId::from_u64(id);
    match p {
        Pay::Interval(s, e) => RawEvent::new_interval(k, i, th, s, e),
        Pay::Instant(t) => RawEvent::new_instant(k, i, th, t),
        Pay::Integer(v) => RawEvent::new_integer(k, i, th, v),
    }
}
fn roundtrip(kind: u64, id: u64, th: u32, p: Pay) -> Res {
    let ev = mk(kind, id, th, p);
    let mut b = [0u8; 32];
    ev.serialize(&mut b);
    let want = spec::encode_event(kind, id, th, p);
    ensure!(b == want, "{:?} kind {:#x} id {:#x} thread {:#x} is stored as {:x?}, the format says {:x?}", p, kind, id, th, b, want);
    let back = RawEvent::deserialize(&b);
    ensure!(back == ev, "{:?} reads back as a different record {:?}", p, back);
    ensure!(back.event_kind.as_u64() == kind && back.event_id.as_u64() == id && back.thread_id == th, "{:?}: ids changed: {:?}", p, back);
    look(&back, p)
}
/// What every reading interface says about the record.
fn look(r: &RawEvent, p: Pay) -> Res {
    let (inst, int) = (matches!(p, Pay::Instant(_)), matches!(p, Pay::Integer(_)));
    ensure!(r.is_instant() == inst && r.is_integer() == int, "{:?}: type reads as instant={} integer={}", p, r.is_instant(), r.is_integer());
    match p {
        Pay::Interval(s, e) => ensure!(r.start_value() == s && r.end_value() == e, "{:?} reads as {}..{}", p, r.start_value(), r.end_value()),
        Pay::Instant(v) | Pay::Integer(v) => ensure!(r.value() == v && r.start_value() == v, "{:?} reads as {}", p, r.value()),
    }
    let t0 = UNIX_EPOCH + Duration::from_nanos(1_600_000_000_123_456_789);
    let at = |n: u64| t0 + Duration::from_nanos(n);
    let got = EventPayload::from_raw_event(r, t0);
    let want = match p {
        Pay::Interval(s, e) => EventPayload::Timestamp(Timestamp::Interval { start: at(s), end: at(e) }),
        Pay::Instant(t) => EventPayload::Timestamp(Timestamp::Instant(at(t))),
        Pay::Integer(v) => EventPayload::Integer(v),
    };
    ensure!(got == want, "{:?} decodes to the payload {:?}", p, got);
    ensure!(got.is_interval() == (!inst && !int) && got.is_instant() == inst && got.is_integer() == int, "{:?}: payload type tests disagree", p);
    let dur = match p {
        Pay::Interval(s, e) => Some(Duration::from_nanos(e - s)),
        _ => None,
    };
    ensure!(got.duration() == dur, "{:?} has duration {:?}", p, got.duration());
    ensure!(got.integer() == if let Pay::Integer(v) = p { Some(v) } else { None }, "{:?} has integer {:?}", p, got.integer());
    Ok(())
}
fn refused(what: &str, f: impl FnOnce() -> RawEvent) -> Res {
    match catches(f) {
        Err(_) => Ok(()),
        Ok(ev) => {
            let mut b = [0u8; 32];
            ev.serialize(&mut b);
            fail!("{} is accepted and stored as {:?}", what, spec::decode_event(&b))
        }
    }
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("all pairs of boundary interval times", |c| {
        let v = bitwalk(48);
        let s = *c.pick(&v);
        for &e in &v {
            if s <= e && e <= MAX_INTERVAL {
                for (k, i, t) in [(0u64, 0u64, 0u32), (u64::MAX, u64::MAX, u32::MAX), (0x0102_0304_0506_0708, 0x1112_1314_1516_1718, 0x2122_2324)] {
                    roundtrip(k, i, t, Pay::Interval(s, e))?;
                    c.step();
                }
                c.state(&spec::encode_event(0, 0, 0, Pay::Interval(s, e)));
                c.validated();
            } else {
                let k = StringId::new(5u64);
                refused(&format!("interval {}..{}", s, e), || RawEvent::new_interval(k, EventId::from_u64(6), 1, s, e))?;
                c.step();
                c.validated();
            }
        }
        Ok(())
    }));
    sc.push(scenario("all boundary instants and integers", |c| {
        let v = bitwalk(48);
        let x = *c.pick(&v);
        for (k, i, t) in [(0u64, 0u64, 0u32), (u64::MAX, u64::MAX, u32::MAX), (0xFF00_FF00_FF00_FF00, 0x00FF_00FF_00FF_00FF, 0xF0F0_0F0F)] {
            roundtrip(k, i, t, Pay::Instant(x))?;
            roundtrip(k, i, t, Pay::Integer(x))?;
            c.steps(2);
        }
        c.validated();
        c.state(&x.to_le_bytes());
        c.sample(|| format!("instant and integer {:#x} with three id patterns", x));
        Ok(())
    }));
    sc.push(scenario("every 16-bit part of a time sweeps all its values", |c| {
        let part = c.choose(3) as u32;
        let other = *c.pick(&[0u64, 0xFFFF_FFFF_FFFF, 0x8000_0001_8001]);
        let hi = c.choose(256) as u64;
        for lo in 0..256u64 {
            let x = (other & !(0xFFFFu64 << (16 * part))) | ((hi << 8 | lo) << (16 * part));
            roundtrip(7, 9, 3, Pay::Instant(x))?;
            roundtrip(7, 9, 3, Pay::Integer(x))?;
            if x <= MAX_INTERVAL {
                roundtrip(7, 9, 3, Pay::Interval(x, MAX_INTERVAL))?;
                roundtrip(7, 9, 3, Pay::Interval(0, x))?;
                roundtrip(7, 9, 3, Pay::Interval(x, x))?;
            }
            c.steps(5);
        }
        c.validated();
        c.state(&[part as u8, hi as u8, other as u8]);
        Ok(())
    }));
    sc.push(scenario("all boundary ids and threads", |c| {
        let v = bitwalk(64);
        let t = bitwalk(32);
        let k = *c.pick(&v);
        for &i in &v {
            roundtrip(k, i, 0x1234, Pay::Interval(1, 2))?;
            c.step();
        }
        for &th in &t {
            roundtrip(k, !k, th as u32, Pay::Instant(3))?;
            roundtrip(!k, k, th as u32, Pay::Integer(3))?;
            c.steps(2);
        }
        c.validated();
        Ok(())
    }));
    sc.push(scenario("thread ids sweep", |c| {
        let hi = c.choose(tier(512, 4096)) as u32;
        for lo in 0..256u32 {
            let low = hi * 256 + lo;
            roundtrip(1, 2, low, Pay::Integer(5))?;
            roundtrip(1, 2, low << 16, Pay::Interval(5, 6))?;
            roundtrip(1, 2, !low, Pay::Instant(5))?;
        }
        c.steps(768);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("stored records with every pair of bits set or cleared", |c| {
        let a = c.choose(256);
        for b in a..256 {
            for inv in [0u8, 0xFF] {
                let mut r = [inv; 32];
                r[a / 8] ^= 1 << (a % 8);
                if b != a {
                    r[b / 8] ^= 1 << (b % 8);
                }
                let (k, i, t, p) = spec::decode_event(&r);
                let ev = RawEvent::deserialize(&r);
                ensure!(ev.event_kind.as_u64() == k && ev.event_id.as_u64() == i && ev.thread_id == t, "record {:x?} reads as {:?}", r, ev);
                if let Pay::Interval(s, e) = p {
                    if s > e {
                        // never written; only has to be read without confusion
                        ensure!(ev.start_value() == s && ev.end_value() == e && !ev.is_instant() && !ev.is_integer(), "record {:x?} reads as {:?}", r, ev);
                        continue;
                    }
                }
                look(&ev, p)?;
                let mut back = [0; 32];
                ev.serialize(&mut back);
                ensure!(back == r, "record {:x?} is written back as {:x?}", r, back);
                c.step();
            }
        }
        c.validated();
        c.state(&[a as u8]);
        Ok(())
    }));
    sc.push(scenario("values that cannot be represented are refused", |c| {
        let mut bad = vec![INTEGER, INSTANT, INSTANT + 1];
        for i in 48..64 {
            bad.push(1 << i);
            bad.push((1 << i) + 1);
            bad.push((1u64 << i) | INSTANT);
            bad.push((1u64 << i) | 5);
        }
        bad.push(u64::MAX);
        let x = *c.pick(&bad);
        let k = StringId::new(5u64);
        let i = EventId::from_u64(6);
        for s in [0, 1, x - 1, x] {
            refused(&format!("interval {}..{:#x}", s, x), || RawEvent::new_interval(k, i, 1, s, x))?;
        }
        refused(&format!("interval {:#x}..0", x), || RawEvent::new_interval(k, i, 1, x, 0))?;
        refused(&format!("interval {:#x}..{:#x}", x, MAX_INTERVAL), || RawEvent::new_interval(k, i, 1, x, MAX_INTERVAL))?;
        if x > INSTANT {
            refused(&format!("instant {:#x}", x), || RawEvent::new_instant(k, i, 1, x))?;
            refused(&format!("integer {:#x}", x), || RawEvent::new_integer(k, i, 1, x))?;
        }
        c.steps(8);
        c.validated();
        c.state(&x.to_le_bytes());
        Ok(())
    }));
    sc.push(scenario("values through the profiler: stored exactly or refused, the file stays good", |c| {
        let v = [0u64, 1, 0xFFFF_FFFF, 0x1_0000_0000, INTEGER - 1, INTEGER, INSTANT, INSTANT + 1, 1 << 63, u64::MAX];
        let n = 3;
        let vals: Vec<u64> = (0..n).map(|_| *c.pick(&v)).collect();
        let stem = c.scratch().join("c06");
        let p = measureme::Profiler::new(&stem).map_err(|e| e.to_string())?;
        let k = p.alloc_string("k");
        let l = p.alloc_string("l");
        let mut want = vec![];
        for &x in &vals {
            let r = catches(|| p.record_integer_event(k, EventId::from_label(l), 3, x));
            ensure!(r.is_ok() == (x <= INSTANT), "integer {:#x} is {}", x, if r.is_ok() { "accepted" } else { "refused" });
            if r.is_ok() {
                want.push(Ev::new("k", "l", &[], 3, Pay::Integer(x)));
            }
            c.step();
        }
        drop(p);
        let pd = open_stem(&stem)?;
        same_events(&pd, &want, None)?;
        c.validated();
        c.outcome(format!("{:?}", vals).as_bytes());
        Ok(())
    }));
    Check {
        id: "C06",
        scenarios: sc,
        rule: "All pairs of boundary times (every single bit, every run of low bits, complements, type-marker neighbours), every value of each \
               16-bit part of a time, every boundary id pair and thread id, every stored record with at most two bits set or cleared, and \
               every boundary unrepresentable value, through RawEvent, EventPayload and the Profiler, against an independent encoder and \
               decoder of the 32-byte record. states = distinct value combinations."
            .into(),
        assumptions: vec!["values outside the bit-walk and the 16-bit sweeps behave like their neighbours".into()],
    }
}
