//! C13: a truncated profile is never silently accepted with wrong data.
use crate::util::*;
use analyzeme::ProfilingData;
use common::explore::*;
use common::spec::{self, Build, Comp, Pay, Strings};
use common::sup::Check;
use common::{ensure, fail, tier, Res};

/// One original event and the string ids its texts come from.
struct Orig {
    ev: Ev,
    kind: u64,
    id: u64,
}
fn marked(s: &str) -> bool {
    s.contains("<unknown>") || s.contains("<invalid>") || s.contains("<parse error>")
}
type Meta = (std::time::SystemTime, u32, String);
/// When the small sessions start.
const START: u64 = 1_000_000_123;
/// Reads everything; Ok(None) = refused or failed, which is fine.
fn read(data: Vec<u8>) -> Option<(Vec<Ev>, Meta)> {
    catches(|| {
        let pd = ProfilingData::from_paged_buffer(data, None).ok()?;
        let t0 = std::time::UNIX_EPOCH + std::time::Duration::from_nanos(START);
        let v: Vec<Ev> = pd.iter_full().map(|e| ev_of(&e, t0)).collect::<Result<_, _>>().ok()?;
        let m = pd.metadata();
        Some((v, (m.start_time, m.process_id, m.cmd.clone())))
    })
    .ok()
    .flatten()
}
fn judge(got: &[Ev], orig: &[Orig], data: &[u8], cut: usize) -> Res {
    ensure!(got.len() <= orig.len(), "cut to {} bytes: {} events instead of at most {}", cut, got.len(), orig.len());
    let mut res: Option<[Vec<u8>; 3]> = None;
    for (i, (g, o)) in got.iter().zip(orig).enumerate() {
        ensure!(g.pay == o.ev.pay && g.thread == o.ev.thread, "cut to {} bytes: event {} reads {:?}, recorded {:?}", cut, i, g, o.ev);
        if *g == o.ev {
            continue;
        }
        // some text differs: its data must be missing, and it must say so
        let s = res.get_or_insert_with(|| {
            let p = match spec::pages(&data[8..]) {
                Ok(p) => p,
                Err((p, _)) => p,
            };
            spec::streams_of(&p)
        });
        let tab = Strings::new(&s[1], &s[2]);
        if g.kind != o.ev.kind {
            ensure!(tab.get(o.kind).is_none(), "cut to {} bytes: event {} has kind {:?}, recorded {:?}, whose data is present", cut, i, g.kind, o.ev.kind);
            ensure!(marked(&g.kind), "cut to {} bytes: event {} has kind {:?}, recorded {:?}", cut, i, g.kind, o.ev.kind);
        }
        if g.label != o.ev.label || g.args != o.ev.args {
            ensure!(tab.get(o.id).is_none(), "cut to {} bytes: event {} reads {:?} {:?}, recorded {:?} {:?}, whose data is present", cut, i, g.label, g.args, o.ev.label, o.ev.args);
            let mut any = g.label != o.ev.label;
            ensure!(g.label == o.ev.label || marked(&g.label), "cut to {} bytes: event {} has label {:?}, recorded {:?}", cut, i, g.label, o.ev.label);
            ensure!(g.args.len() <= o.ev.args.len(), "cut to {} bytes: event {} has arguments {:?}", cut, i, g.args);
            for (a, b) in g.args.iter().zip(&o.ev.args) {
                ensure!(a == b || marked(a), "cut to {} bytes: event {} has argument {:?}, recorded {:?}", cut, i, a, b);
                any |= a != b;
            }
            ensure!(any, "cut to {} bytes: event {} silently lost arguments: {:?}", cut, i, g.args);
        }
    }
    Ok(())
}
fn all_cuts(c: &mut Ctx, file: &[u8], orig: &[Orig], cuts: impl Iterator<Item = usize>) -> Res {
    let mut opened = 0u64;
    let Some((_, meta)) = read(file.to_vec()) else {
        fail!("the whole file does not read");
    };
    for cut in cuts {
        let part = &file[..cut.min(file.len())];
        if let Some((got, m)) = read(part.to_vec()) {
            opened += 1;
            ensure!(m == meta, "cut to {} bytes: the session is {:?}, it was {:?}", cut, m, meta);
            if cut < file.len() {
                judge(&got, orig, part, cut)?;
            } else {
                ensure!(got.len() == orig.len() && got.iter().zip(orig).all(|(g, o)| *g == o.ev), "the whole file reads {:?}", got);
            }
            c.outcome(format!("{:?}", got).as_bytes());
        } else if cut >= file.len() {
            fail!("the whole file does not read");
        }
        c.step();
    }
    c.state(&opened.to_le_bytes());
    Ok(())
}
/// A small session: flat, composite, virtual and nested texts.
fn small(extra: usize) -> (Build, Vec<Orig>) {
    let mut b = Build::bare();
    let mut orig = vec![];
    let pre = if extra > 0 { Some(b.string(&"z".repeat(extra))) } else { None };
    b.meta(START, 1, "c");
    let k = b.string("kind");
    let l = b.string("label");
    let a = b.string("arg");
    let comp = b.composite(&[Comp::Ref(l), Comp::Val("\x1e".into()), Comp::Ref(a)]);
    let mut add = |b: &mut Build, kind: u64, id: u64, ev: Ev| {
        b.event(kind, id, ev.thread, ev.pay);
        orig.push(Orig { ev, kind, id });
    };
    add(&mut b, k, comp, Ev::new("kind", "label", &["arg"], 1, Pay::Interval(1, 9)));
    let s = b.string("virtual text");
    b.map(5, s);
    add(&mut b, 5, 5, Ev::new("virtual text", "virtual text", &[], 2, Pay::Instant(3)));
    let t = b.composite(&[Comp::Val("x".into()), Comp::Ref(comp), Comp::Ref(5)]);
    b.map(6, t);
    add(&mut b, k, 6, Ev::new("kind", "xlabel", &["argvirtual text"], 1, Pay::Integer(7)));
    let _ = pre;
    (b, orig)
}
fn merge_orders(n: [usize; 3]) -> Vec<Vec<usize>> {
    fn go(left: [usize; 3], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left == [0, 0, 0] {
            out.push(cur.clone());
            return;
        }
        for k in 0..3 {
            if left[k] > 0 {
                let mut l = left;
                l[k] -= 1;
                cur.push(k);
                go(l, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}
fn layout(head: &[u8], s: &[Vec<u8>; 3], cuts: [&[usize]; 3], order: &[usize]) -> Vec<u8> {
    let mut f = head.to_vec();
    let mut next = [0usize; 3];
    let mut pos = [0usize; 3];
    for &k in order {
        let end = cuts[k].get(next[k]).copied().unwrap_or(s[k].len());
        spec::push_page(&mut f, k as u8, &s[k][pos[k]..end]);
        pos[k] = end;
        next[k] += 1;
    }
    f
}
fn small_layouts(c: &mut Ctx, ver: u32) -> Res {
    let (s, orig) = if ver == 9 {
        let (b, o) = small(if tier(false, true) && c.flag() { 300 } else { 0 });
        ([b.events, b.strings, b.index], o)
    } else {
        let (b, o) = old_small();
        (streams(&b)?, o)
    };
    let head = spec::header(b"MMPD", ver);
    // which stream is cut at every position; the others whole or in two
    let fine = c.choose(3);
    let p = 1 + c.choose(s[fine].len() - 1);
    let one = [vec![p], vec![s[0].len() - 32], vec![s[1].len() / 2], vec![s[2].len() - if ver == 9 { 16 } else { 8 }]];
    let other = c.choose(4);
    let mut cuts: [&[usize]; 3] = [&[], &[], &[]];
    cuts[fine] = &one[0];
    let o: Vec<usize> = (0..3).filter(|k| *k != fine).collect();
    if other & 1 != 0 {
        cuts[o[0]] = &one[1 + o[0]];
    }
    if other & 2 != 0 {
        cuts[o[1]] = &one[1 + o[1]];
    }
    let orders = merge_orders([cuts[0].len() + 1, cuts[1].len() + 1, cuts[2].len() + 1]);
    for (i, ord) in orders.iter().enumerate() {
        if ver == 8 && i % tier(8, 1) != 0 {
            continue;
        }
        let f = layout(&head, &s, cuts, ord);
        all_cuts(c, &f, &orig, 0..=f.len()).map_err(|e| format!("streams cut at {:?}, pages ordered {:?}: {}", cuts, ord, e))?;
        c.validated();
    }
    Ok(())
}
fn old_small() -> (Vec<u8>, Vec<Orig>) {
    use measureme_10 as old;
    let mut o = crate::v8::Old::new(START, 1, "c");
    let mut orig = vec![];
    let k = o.text("kind");
    let l = o.text("label");
    let a = o.text("arg");
    let comp = o.tab.alloc(&[old::StringComponent::Ref(l), old::StringComponent::Value("\x1e"), old::StringComponent::Ref(a)]);
    // in this version only the markers are checked, not what data is present
    let mut add = |kind: old::StringId, id: old::StringId, ev: Ev, o: &crate::v8::Old| {
        o.raw(kind, old::EventId::from_label(id), ev.thread, ev.pay);
        orig.push(Orig { ev, kind: u64::MAX, id: u64::MAX });
    };
    add(k, comp, Ev::new("kind", "label", &["arg"], 1, Pay::Interval(1, 9)), &o);
    let s = o.text("virtual text");
    let v = old::StringId::new_virtual(5);
    o.tab.map_virtual_to_concrete_string(v, s);
    add(v, v, Ev::new("virtual text", "virtual text", &[], 2, Pay::Instant(3)), &o);
    (o.file(), orig)
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("every truncation of every page layout of a small profile", |c| small_layouts(c, 9)));
    sc.push(scenario("every truncation of page layouts of a small profile in the previous format", |c| small_layouts(c, 8)));
    sc.push(scenario("profiles with many tiny pages", |c| {
        let (b, orig) = small(0);
        let s = [b.events, b.strings, b.index];
        let n = c.choose(40) + 1;
        let rot = c.choose(6);
        // every stream in pages of n bytes, dealt out in rotation
        let mut cuts: Vec<Vec<usize>> = vec![];
        for k in 0..3 {
            cuts.push((1..).map(|i| i * n).take_while(|p| *p < s[k].len()).collect());
        }
        let mut left: Vec<usize> = cuts.iter().map(|x| x.len() + 1).collect();
        let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][rot];
        let mut ord = vec![];
        while left.iter().any(|x| *x > 0) {
            for k in perm {
                if left[k] > 0 {
                    ord.push(k);
                    left[k] -= 1;
                }
            }
        }
        let f = layout(&spec::header(b"MMPD", 9), &s, [&cuts[0], &cuts[1], &cuts[2]], &ord);
        all_cuts(c, &f, &orig, 0..=f.len()).map_err(|e| format!("pages of {} bytes in rotation {:?}: {}", n, perm, e))?;
        c.validated();
        Ok(())
    }));
    sc.push(scenario("large recorded profiles", |c| {
        let stem = c.scratch().join("c13");
        let strings = *c.pick(&[10usize, 9000, 30_000]);
        let events = *c.pick(&[10usize, 8191, 20_000]);
        let p = measureme::Profiler::new(&stem).map_err(|e| e.to_string())?;
        let k = p.alloc_string("kind");
        let mut orig = vec![];
        let mut ids = vec![];
        let flavour = c.choose(3);
        for i in 0..strings.max(events) {
            if i < strings {
                let text = format!("some label number {}", i);
                let s = p.alloc_string(&*text);
                let id = match flavour {
                    0 => s,
                    1 => {
                        let v = measureme::StringId::new_virtual(i as u64);
                        p.map_virtual_to_concrete_string(v, s);
                        v
                    }
                    _ => p.alloc_string(&[measureme::StringComponent::Ref(s), measureme::StringComponent::Value("\x1ez")]),
                };
                ids.push((id, text));
            }
            if i < events {
                let (id, text) = &ids[i % ids.len()];
                p.record_integer_event(k, measureme::EventId::from_label(*id), i as u32, i as u64);
                orig.push(Orig {
                    ev: Ev::new("kind", text, if flavour == 2 { &["z"] } else { &[] }, i as u32, Pay::Integer(i as u64)),
                    kind: k.as_u64(),
                    id: id.as_u64(),
                });
            }
        }
        drop(p);
        let f = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| e.to_string())?;
        let mut cuts: Vec<usize> = (0..40).chain([f.len()]).collect();
        let mut pos: usize = 8;
        for (_, b) in spec::pages(&f[8..]).map_err(|_| "torn file")? {
            cuts.extend(pos.saturating_sub(40)..pos + 47);
            for q in 1..8 {
                cuts.push(pos + 5 + b.len() * q / 8);
            }
            pos += 5 + b.len();
        }
        cuts.retain(|x| *x <= f.len());
        cuts.sort();
        cuts.dedup();
        all_cuts(c, &f, &orig, cuts.into_iter())?;
        c.validated();
        c.state(format!("{}{}{}", strings, events, flavour).as_bytes());
        Ok(())
    }));
    Check {
        id: "C13",
        scenarios: sc,
        rule: "A small profile with flat, composite, nested and virtual texts, laid out in pages in every order with every cut position of \
               each stream (and in tiny pages of every size), truncated at every byte; recorded profiles of several pages truncated around \
               every page boundary and inside pages. Reading must fail (error or panic) or yield a leading part of the events with their \
               payloads and threads; a text may differ only if an independent decoder finds its data missing, and must then contain a \
               placeholder. outcomes = distinct readings; both file formats."
            .into(),
        assumptions: vec![
            "for the previous format (decoded by an external release of the library) missing data is not located independently; a differing text must contain a placeholder".into(),
            "no virtual id is mapped twice (a truncation may legitimately end before the second mapping)".into(),
        ],
    }
}
