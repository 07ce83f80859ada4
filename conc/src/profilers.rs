//! C03: one profiler used from several threads.
use crate::engine::*;
use crate::Family;
use analyzeme::{EventPayload, ProfilingData, Timestamp};
use common::spec::{self, Pay, MAX_PAGE};
use common::{h64, tier};
use measureme::{DetachedTiming, EventId, EventIdBuilder, Profiler, StringComponent, StringId};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// allocate a plain string, record an instant event labelled with it
    Str,
    /// label and two arguments composed with EventIdBuilder, interval guard
    Args,
    /// nested composite string, detached interval
    Comp,
    /// map a virtual id of one's own, then record an integer event with it
    Virt,
    /// record the event first, map its virtual id afterwards
    Late,
    /// bulk-map two virtual ids, use both
    Bulk,
    /// map the virtual id shared by all threads to one's own string
    Shared,
    /// nested interval guards on pre-allocated strings
    Nest,
    /// a long string
    Long,
    /// a string of many bytes
    Big(usize),
    /// a composite string with a long literal piece
    BigComp(usize),
    /// many virtual ids mapped at once, the first and last used
    ManyIds(usize),
    /// instant event on pre-allocated strings only
    Mark,
    /// a string that reads the same whoever allocates it
    Same,
    /// many instant events
    Marks(usize),
    /// allocate a string, record an event, and let the others use the string
    Give,
    /// an event labelled with the string the other threads allocated last, if any
    Use,
    /// start an interval for some thread to end, ending the one already there
    Hand,
    /// strings, a virtual id and events in a second profiler
    Other,
}
const SHARED_VIRT: u64 = 77;

#[derive(Clone)]
struct Spec {
    ops: Vec<Vec<Op>>,
    /// room left in the current pages; None = fresh profiler
    room: Option<(usize, usize)>,
}
/// What a thread recorded, in order: (kind, label, args, payload without times)
#[derive(Clone, Debug, PartialEq)]
enum What {
    Interval,
    Instant,
    Integer(u64),
}
#[derive(Clone, Debug)]
struct Rec {
    kind: String,
    label: String,
    args: Vec<String>,
    what: What,
    shared: bool,
}
struct Live {
    spec: Spec,
    path: std::path::PathBuf,
    p: Profiler,
    kinds: Vec<StringId>,
    labels: Vec<StringId>,
    pre_events: usize,
    recs: Vec<Mutex<Vec<Rec>>>,
    /// the string allocated last by any thread
    last: Mutex<Option<(StringId, String)>>,
    /// an interval started by one thread, to be ended by another
    handed: Mutex<Option<(DetachedTiming, usize, String)>>,
    q: Option<(Profiler, std::path::PathBuf)>,
    recs_q: Vec<Mutex<Vec<Rec>>>,
}
fn kind_name(t: usize) -> String {
    format!("kind{}", t)
}
fn long(t: usize, k: usize) -> String {
    format!("long{}.{}:{}", t, k, "\u{e9}x".repeat(40))
}
fn big(t: usize, k: usize, n: usize) -> String {
    let s = format!("big{}.{}:", t, k);
    let c = (b'a' + t as u8) as char;
    let mut r = s.clone();
    r.extend(std::iter::repeat(c).take(n.saturating_sub(s.len())));
    r
}
impl Live {
    fn push(&self, t: usize, label: String, args: Vec<String>, what: What, shared: bool) {
        self.recs[t].lock().unwrap().push(Rec { kind: kind_name(t), label, args, what, shared });
    }
}
impl Exec for Live {
    fn threads(&self) -> usize {
        self.spec.ops.len()
    }
    fn body(&self, t: usize) {
        let p = &self.p;
        let kind = self.kinds[t];
        let th = t as u32;
        for (k, op) in self.spec.ops[t].iter().enumerate() {
            let uniq = format!("s{}.{}", t, k);
            match *op {
                Op::Str => {
                    let s = p.alloc_string(&*uniq);
                    p.record_instant_event(kind, EventId::from_label(s), th);
                    self.push(t, uniq, vec![], What::Instant, false);
                }
                Op::Args => {
                    let l = p.alloc_string(&*uniq);
                    let a = format!("a{}.{}", t, k);
                    let arg = p.alloc_string(&*a);
                    let id = EventIdBuilder::new(p).from_label_and_args(l, &[arg, self.labels[t]]);
                    drop(p.start_recording_interval_event(kind, id, th));
                    self.push(t, uniq, vec![a, format!("pre{}", t)], What::Interval, false);
                }
                Op::Comp => {
                    let a = p.alloc_string(&*uniq);
                    let b = p.alloc_string(&[
                        StringComponent::Value("<"),
                        StringComponent::Ref(a),
                        StringComponent::Ref(self.labels[t]),
                        StringComponent::Value(">"),
                    ]);
                    let d = p.start_recording_interval_event_detached(kind, EventId::from_label(b), th);
                    p.finish_recording_interval_event(d);
                    self.push(t, format!("<{}pre{}>", uniq, t), vec![], What::Interval, false);
                }
                Op::Virt => {
                    let v = StringId::new_virtual((100 + t * 10 + k) as u64);
                    let s = p.alloc_string(&*uniq);
                    p.map_virtual_to_concrete_string(v, s);
                    p.record_integer_event(kind, EventId::from_virtual(v), th, (t * 1000 + k) as u64);
                    self.push(t, uniq, vec![], What::Integer((t * 1000 + k) as u64), false);
                }
                Op::Late => {
                    let v = StringId::new_virtual((200 + t * 10 + k) as u64);
                    p.record_instant_event(kind, EventId::from_virtual(v), th);
                    let s = p.alloc_string(&*uniq);
                    p.map_virtual_to_concrete_string(v, s);
                    self.push(t, uniq, vec![], What::Instant, false);
                }
                Op::Bulk => {
                    let v: Vec<_> = (0..2).map(|i| StringId::new_virtual((300 + t * 20 + k * 2 + i) as u64)).collect();
                    let s = p.alloc_string(&*uniq);
                    p.bulk_map_virtual_to_single_concrete_string(v.iter().copied(), s);
                    for &x in &v {
                        p.record_instant_event(kind, EventId::from_virtual(x), th);
                        self.push(t, uniq.clone(), vec![], What::Instant, false);
                    }
                }
                Op::Shared => {
                    let s = p.alloc_string(&*uniq);
                    let v = StringId::new_virtual(SHARED_VIRT);
                    p.map_virtual_to_concrete_string(v, s);
                    p.record_instant_event(kind, EventId::from_virtual(v), th);
                    self.push(t, uniq, vec![], What::Instant, true);
                }
                Op::Nest => {
                    let id = EventId::from_label(self.labels[t]);
                    let g = p.start_recording_interval_event(kind, id, th);
                    drop(p.start_recording_interval_event(self.kinds[0], id, th));
                    let n = p.start_recording_interval_event(kind, EventId::INVALID, th);
                    n.finish_with_override_event_id(EventId::from_label(self.kinds[t]));
                    drop(g);
                    let l = format!("pre{}", t);
                    self.push(t, l.clone(), vec![], What::Interval, false);
                    self.recs[t].lock().unwrap().last_mut().unwrap().kind = kind_name(0);
                    self.push(t, kind_name(t), vec![], What::Interval, false);
                    self.push(t, l, vec![], What::Interval, false);
                }
                Op::Long => {
                    let s = p.alloc_string(&*long(t, k));
                    p.record_instant_event(kind, EventId::from_label(s), th);
                    self.push(t, long(t, k), vec![], What::Instant, false);
                }
                Op::Big(n) => {
                    let l = big(t, k, n);
                    let s = p.alloc_string(&*l);
                    p.record_instant_event(kind, EventId::from_label(s), th);
                    self.push(t, l, vec![], What::Instant, false);
                }
                Op::BigComp(n) => {
                    let l = big(t, k, n);
                    let s = p.alloc_string(&[StringComponent::Value(&l), StringComponent::Ref(self.labels[t]), StringComponent::Value("!")]);
                    p.record_instant_event(kind, EventId::from_label(s), th);
                    self.push(t, format!("{}pre{}!", l, t), vec![], What::Instant, false);
                }
                Op::ManyIds(n) => {
                    let first = (1_000_000 * (t + 1) + 100_000 * k) as u64;
                    let s = p.alloc_string(&*uniq);
                    p.bulk_map_virtual_to_single_concrete_string((0..n).map(|i| StringId::new_virtual(first + i as u64)), s);
                    for x in [first, first + n as u64 - 1] {
                        p.record_instant_event(kind, EventId::from_virtual(StringId::new_virtual(x)), th);
                        self.push(t, uniq.clone(), vec![], What::Instant, false);
                    }
                }
                Op::Same => {
                    let s = p.alloc_string("same");
                    p.record_instant_event(kind, EventId::from_label(s), th);
                    self.push(t, "same".into(), vec![], What::Instant, false);
                }
                Op::Give => {
                    let s = p.alloc_string(&*uniq);
                    *self.last.lock().unwrap() = Some((s, uniq.clone()));
                    p.record_instant_event(kind, EventId::from_label(s), th);
                    self.push(t, uniq, vec![], What::Instant, false);
                }
                Op::Marks(n) => {
                    for _ in 0..n {
                        p.record_instant_event(kind, EventId::from_label(self.labels[t]), th);
                        self.push(t, format!("pre{}", t), vec![], What::Instant, false);
                    }
                }
                Op::Use => {
                    let l = self.last.lock().unwrap().clone();
                    let (s, text) = l.unwrap_or((self.labels[t], format!("pre{}", t)));
                    let id = EventIdBuilder::new(p).from_label_and_arg(s, s);
                    p.record_instant_event(kind, id, th);
                    self.push(t, text.clone(), vec![text], What::Instant, false);
                }
                Op::Hand => {
                    // such events are recorded under thread ids of their own
                    let n = self.threads();
                    let s = p.alloc_string(&*uniq);
                    let d = p.start_recording_interval_event_detached(kind, EventId::from_label(s), (n + t) as u32);
                    let old = self.handed.lock().unwrap().replace((d, t, uniq));
                    if let Some((d, from, text)) = old {
                        // the record of what was recorded must be in the order of the records
                        let mut rs = self.recs[n + from].lock().unwrap();
                        p.finish_recording_interval_event(d);
                        rs.push(Rec { kind: kind_name(from), label: text, args: vec![], what: What::Interval, shared: false });
                    }
                }
                Op::Other => {
                    let q = &self.q.as_ref().unwrap().0;
                    let k0 = k;
                    let k = q.alloc_string(&*kind_name(t));
                    let s = q.alloc_string(&*uniq);
                    let v = StringId::new_virtual((t * 10 + k0) as u64);
                    q.map_virtual_to_concrete_string(v, s);
                    q.record_instant_event(k, EventId::from_virtual(v), th);
                    let a = q.alloc_string("same");
                    q.record_integer_event(k, EventIdBuilder::new(q).from_label_and_arg(a, s), th, t as u64);
                    let mut rs = self.recs_q[t].lock().unwrap();
                    let mut add = |label: &str, args, what| rs.push(Rec { kind: kind_name(t), label: label.into(), args, what, shared: false });
                    add(&uniq, vec![], What::Instant);
                    add("same", vec![uniq.clone()], What::Integer(t as u64));
                }
                Op::Mark => {
                    p.record_instant_event(kind, EventId::from_label(self.labels[t]), th);
                    self.push(t, format!("pre{}", t), vec![], What::Instant, false);
                }
            }
        }
    }
    fn finish(self: Box<Self>) -> Result<u64, String> {
        let Live { path, p, q, pre_events, recs, recs_q, .. } = *self;
        drop(p);
        let mut sig = compare(&path, pre_events, &recs)?;
        if let Some((q, path)) = q {
            drop(q);
            sig.extend(compare(&path, 0, &recs_q).map_err(|e| format!("second profiler: {}", e))?);
        }
        Ok(h64(&sig))
    }
}
/// Compares the finished profile with what the threads recorded. Gives the
/// order of the events.
fn compare(path: &std::path::Path, pre_events: usize, recs: &[Mutex<Vec<Rec>>]) -> Result<Vec<u8>, String> {
        let data = std::fs::read(path).map_err(|e| e.to_string())?;
        if data.len() < 8 {
            return Err("the finished file has no header".into());
        }
        let pages = spec::pages(&data[8..]).map_err(|_| "page structure of the finished file is broken".to_string())?;
        if pages.iter().any(|(t, b)| *t > 2 || b.is_empty() || b.len() > MAX_PAGE) {
            return Err("the finished file contains a malformed page".into());
        }
        let s = spec::streams_of(&pages);
        if s[0].len() < 8 || (s[0].len() - 8) % 32 != 0 {
            return Err(format!("event stream is {} bytes long", s[0].len()));
        }
        let strings = spec::Strings::new(&s[1], &s[2]);
        let recs: Vec<Vec<Rec>> = recs.iter().map(|r| r.lock().unwrap().clone()).collect();
        let total: usize = recs.iter().map(|r| r.len()).sum();
        let n = (s[0].len() - 8) / 32;
        if n != pre_events + total {
            return Err(format!("profile has {} events, {} were recorded", n, pre_events + total));
        }
        let pd = ProfilingData::new(path).map_err(|e| format!("profile does not open: {}", e))?;
        if pd.num_events() != n {
            return Err(format!("ProfilingData counts {} events, {} were recorded", pd.num_events(), n));
        }
        let shared_val = strings.get(SHARED_VIRT);
        let mut next = vec![0usize; recs.len()];
        let mut last_t = vec![0u64; recs.len()];
        let mut sig = vec![];
        let mut lib: Vec<_> = pd.iter_full().rev().take(total).collect();
        lib.reverse();
        for (j, ev) in lib.iter().enumerate() {
            let i = pre_events + j;
            let (rk, rid, th, pay) = spec::decode_event(&s[0][8 + 32 * i..40 + 32 * i]);
            let t = th as usize;
            if t >= recs.len() || next[t] >= recs[t].len() {
                return Err(format!("event {} belongs to thread {} which did not record it", i, th));
            }
            let want = &recs[t][next[t]];
            next[t] += 1;
            let label = if want.shared { shared_val.clone().unwrap_or_default() } else { want.label.clone() };
            if want.shared && !recs.iter().flatten().any(|r| r.shared && r.label == label) {
                return Err(format!("the shared virtual id resolves to {:?}", shared_val));
            }
            // reference decoding
            let mut text = label.clone();
            for a in &want.args {
                text.push('\x1e');
                text.push_str(a);
            }
            if strings.get(rk).as_ref() != Some(&want.kind) || strings.get(rid).as_ref() != Some(&text) {
                return Err(format!(
                    "thread {} recorded {:?}, the file says kind {:?} id {:?}",
                    t, want, strings.get(rk), strings.get(rid)
                ));
            }
            let time = match (pay, &want.what) {
                (Pay::Interval(a, b), What::Interval) => {
                    if a > b {
                        return Err(format!("interval of thread {} ends before it starts", t));
                    }
                    b
                }
                (Pay::Instant(a), What::Instant) => a,
                (Pay::Integer(v), What::Integer(w)) if v == *w => last_t[t],
                _ => return Err(format!("thread {} recorded {:?}, the file has {:?}", t, want, pay)),
            };
            if time < last_t[t] {
                return Err(format!("times of thread {} run backwards", t));
            }
            last_t[t] = time;
            // the library's decoding
            let lib_pay = match &ev.payload {
                EventPayload::Integer(v) => Pay::Integer(*v),
                EventPayload::Timestamp(ts) => {
                    let ns = |x: &std::time::SystemTime| x.duration_since(pd.metadata().start_time).unwrap().as_nanos() as u64;
                    match ts {
                        Timestamp::Interval { start, end } => Pay::Interval(ns(start), ns(end)),
                        Timestamp::Instant(x) => Pay::Instant(ns(x)),
                    }
                }
            };
            if ev.event_kind != want.kind || ev.label != label || ev.additional_data != want.args || ev.thread_id != th || lib_pay != pay {
                return Err(format!("thread {} recorded {:?}, the library decodes {:?}", t, want, ev));
            }
            sig.push(t as u8);
        }
        if next.iter().zip(&recs).any(|(n, r)| *n != r.len()) {
            return Err("an event is missing".into());
        }
        sig.extend_from_slice(shared_val.unwrap_or_default().as_bytes());
        Ok(sig)
}
fn setup(spec: &Spec) -> Box<dyn Exec> {
    let d = common::scratch_root();
    let _ = std::fs::create_dir_all(&d);
    let stem = d.join(format!("c03-{}", std::process::id()));
    let p = Profiler::new(&stem).unwrap();
    let n = spec.ops.len();
    let kinds: Vec<_> = (0..n).map(|t| p.alloc_string(&*kind_name(t))).collect();
    let labels: Vec<_> = (0..n).map(|t| p.alloc_string(&*format!("pre{}", t))).collect();
    let mut pre_events = 0;
    if let Some((events, sbytes)) = spec.room {
        // fill the pages up so that `events` more events and `sbytes` more
        // bytes of string data fit
        let cap = (MAX_PAGE - 8) / 32;
        pre_events = cap - events;
        for _ in 0..pre_events {
            p.record_instant_event(kinds[0], EventId::from_label(labels[0]), 0);
        }
        let at = p.alloc_string("?").to_addr().0 as usize + 2;
        p.alloc_string(&*"z".repeat(MAX_PAGE - sbytes - at - 1));
    }
    let recs = |n| (0..n).map(|_| Mutex::new(Vec::with_capacity(64))).collect();
    let q = spec.ops.iter().flatten().any(|o| *o == Op::Other).then(|| {
        let stem = d.join(format!("c03-{}-second", std::process::id()));
        (Profiler::new(&stem).unwrap(), stem.with_extension("mm_profdata"))
    });
    Box::new(Live {
        spec: spec.clone(),
        path: stem.with_extension("mm_profdata"),
        p,
        kinds,
        labels,
        pre_events,
        recs: recs(2 * n),
        last: Mutex::new(None),
        handed: Mutex::new(None),
        q,
        recs_q: recs(n),
    })
}
fn programs(nt: usize, len: usize, alphabet: &[Op], room: Option<(usize, usize)>, bound: u32) -> Vec<Program> {
    let m = alphabet.len();
    let lists: Vec<Vec<Op>> = (0..m.pow(len as u32))
        .map(|mut x| {
            (0..len)
                .map(|_| {
                    let o = alphabet[x % m];
                    x /= m;
                    o
                })
                .collect()
        })
        .collect();
    let mut out = vec![];
    let mut idx = vec![0usize; nt];
    loop {
        if idx.windows(2).all(|w| w[0] <= w[1]) {
            let spec = Spec { ops: idx.iter().map(|&i| lists[i].clone()).collect(), room };
            let name = format!("room {:?}: {}", room, spec.ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(" || "));
            out.push(Program { name, setup: Box::new(move || setup(&spec)), bound });
        }
        let mut i = 0;
        loop {
            if i == nt {
                return out;
            }
            idx[i] += 1;
            if idx[i] < lists.len() {
                break;
            }
            idx[i] = 0;
            i += 1;
        }
    }
}
pub fn families() -> (Vec<Family>, String, Vec<String>) {
    use Op::*;
    let all = [Str, Same, Args, Comp, Virt, Late, Bulk, Shared, Nest, Long, Mark];
    let mut f: Vec<Family> = vec![];
    f.push(("two threads, one recording step each, every pair".into(), programs(2, 1, &all, None, tier(4, 7)), Fair::Never, false));
    f.push((
        "two threads, two recording steps each".into(),
        programs(2, 2, &[Str, Virt, Late, Nest, Shared, Mark], None, tier(3, 5)),
        Fair::Never,
        false,
    ));
    f.push(("two threads, two steps of any kind each".into(), programs(2, 2, &all, None, tier(1, 3)), Fair::Never, false));
    f.push((
        "event and string pages about to overflow".into(),
        programs(2, 1, &[Str, Args, Nest, Long, Shared], Some((1, 20)), tier(3, 5)),
        Fair::Never,
        false,
    ));
    f.push((
        "long strings, long composite strings, many ids at once".into(),
        programs(2, 1, &[Str, Big(300), Big(5000), Big(70_000), BigComp(2000), BigComp(40_000), ManyIds(300)], None, tier(3, 4)),
        Fair::Never,
        false,
    ));
    f.push((
        "strings and bulk mappings larger than a page".into(),
        programs(2, 1, &[Str, Big(300_000), BigComp(300_000), ManyIds(17_000)], None, tier(1, 3)),
        Fair::Never,
        false,
    ));
    f.push((
        "strings of other threads, intervals ended by other threads, a second profiler".into(),
        programs(2, 2, &[Give, Use, Hand, Other], None, tier(2, 4)),
        Fair::Never,
        false,
    ));
    f.push((
        "many events per thread".into(),
        programs(2, 1, &[Str, Marks(9), Marks(40)], None, tier(2, 3)),
        Fair::Never,
        false,
    ));
    f.push((
        "many events on pages about to overflow".into(),
        programs(2, 1, &[Str, Marks(9), Marks(40)], Some((30, 60)), tier(1, 2)),
        Fair::Never,
        false,
    ));
    f.push(("three threads".into(), programs(3, 1, &[Str, Shared, Same, Virt, Mark], None, tier(3, 5)), Fair::Never, false));
    f.push((
        "two threads, deep preemption bound".into(),
        programs(2, 1, &[Str, Shared], None, tier(7, 10)),
        Fair::Never,
        true,
    ));
    f.push(("fair lock hand-off".into(), programs(2, 1, &[Str, Args, Shared, Nest], None, tier(3, 5)), Fair::Always, false));
    if common::thorough() {
        f.push(("event page overflow, deeper".into(), programs(2, 2, &[Mark, Str, Late], Some((1, 20)), 3), Fair::Never, false));
        f.push(("three threads, page overflow".into(), programs(3, 1, &[Mark, Long, Args], Some((2, 60)), 2), Fair::Never, false));
    }
    (
        f,
        "All schedules up to the preemption bound of every program (threads allocating plain, composite and event-id \
         strings, mapping own, late, bulk and shared virtual ids, recording instant, integer, guard, detached and \
         overridden intervals) in each family. Oracle: the finished file decodes, by an independent decoder and by \
         ProfilingData, to exactly the recorded events, in order per thread, with all texts, times monotone per thread, \
         intervals not ending before they start; no deadlock, no panic."
            .into(),
        vec![
            "sequentially consistent memory (orderings weaker than SC are not modelled; plain-access races become scheduling points)".into(),
            "std code that is not generic is not instrumented; it blocks only in interposed futex calls".into(),
            "parking_lot's fairness timer is explored at its two extremes (never fair, always fair)".into(),
            "the clock is virtual and strictly increasing".into(),
        ],
    )
}
