//! Expected events and comparison with what the library decodes.
use analyzeme::{Event, EventPayload, ProfilingData, Timestamp};
use common::explore::catches;
use common::spec::{self, Build, Comp, Pay};
use common::{ensure, fail, Res};
use std::path::Path;
use std::time::SystemTime;

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub kind: String,
    pub label: String,
    pub args: Vec<String>,
    pub thread: u32,
    pub pay: Pay,
}
impl Ev {
    pub fn new(kind: &str, label: &str, args: &[&str], thread: u32, pay: Pay) -> Ev {
        Ev { kind: kind.into(), label: label.into(), args: args.iter().map(|s| s.to_string()).collect(), thread, pay }
    }
}
pub fn open_stem(p: &Path) -> Result<ProfilingData, String> {
    match catches(|| ProfilingData::new(p)) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(format!("the profile does not open: {}", e)),
        Err(m) => Err(format!("opening the profile panics: {}", m)),
    }
}
pub fn open_bytes(b: Vec<u8>) -> Result<ProfilingData, String> {
    match catches(|| ProfilingData::from_paged_buffer(b, None)) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(format!("the profile does not open: {}", e)),
        Err(m) => Err(format!("opening the profile panics: {}", m)),
    }
}
pub fn pay_of(p: &EventPayload, t0: SystemTime) -> Result<Pay, String> {
    let ns = |t: &SystemTime| t.duration_since(t0).map(|d| d.as_nanos() as u64).map_err(|_| "a time before the profile's start".to_string());
    Ok(match p {
        EventPayload::Integer(v) => Pay::Integer(*v),
        EventPayload::Timestamp(Timestamp::Instant(t)) => Pay::Instant(ns(t)?),
        EventPayload::Timestamp(Timestamp::Interval { start, end }) => Pay::Interval(ns(start)?, ns(end)?),
    })
}
pub fn ev_of(e: &Event, t0: SystemTime) -> Result<Ev, String> {
    Ok(Ev {
        kind: e.event_kind.to_string(),
        label: e.label.to_string(),
        args: e.additional_data.iter().map(|a| a.to_string()).collect(),
        thread: e.thread_id,
        pay: pay_of(&e.payload, t0)?,
    })
}
/// The decoded events must be exactly `want`, in order. `t0` overrides the
/// start time used to turn times back into offsets.
pub fn same_events(pd: &ProfilingData, want: &[Ev], t0: Option<SystemTime>) -> Res {
    let t0 = t0.unwrap_or(pd.metadata().start_time);
    let got: Vec<Ev> = match catches(|| pd.iter_full().map(|e| ev_of(&e, t0)).collect::<Result<Vec<_>, String>>()) {
        Ok(r) => r?,
        Err(m) => fail!("decoding the events panics: {}", m),
    };
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g == w, "event {} decodes to {:?}, recorded was {:?}", i, g, w);
    }
    // the lightweight view says the same
    let light: Vec<(u32, Result<Pay, String>)> = match catches(|| pd.iter().map(|e| (e.thread_id, pay_of(&e.payload, t0))).collect::<Vec<_>>()) {
        Ok(r) => r,
        Err(m) => fail!("reading the events without their texts panics: {}", m),
    };
    for (i, (g, w)) in light.into_iter().zip(want).enumerate() {
        let g = (g.0, g.1?);
        ensure!(g == (w.thread, w.pay), "event {} reads, without its texts, as {:?}, recorded was {:?}", i, g, w);
    }
    ensure!(got.len() == want.len(), "{} events decode, {} were recorded", got.len(), want.len());
    ensure!(pd.num_events() == want.len(), "num_events is {}, {} were recorded", pd.num_events(), want.len());
    Ok(())
}
/// A buffer that texts are put into one after the other: they all have the
/// same address.
pub struct Reused(String);
impl Reused {
    pub fn new() -> Reused {
        Reused(String::with_capacity(1 << 16))
    }
    pub fn set(&mut self, s: &str) -> &str {
        assert!(s.len() <= self.0.capacity());
        self.0.clear();
        self.0.push_str(s);
        &self.0
    }
}
/// Texts that formatting, quoting or line handling could get wrong.
pub const ODD: [&str; 19] = [
    "a", "a b", "two\nlines", "\n", "end\n", "\r\n", "tab\there", "\x0b", "a\x0cb", "\"quoted\"", "back\\slash", "x,y", "[x]", "{}", "%s {0}", " padded ", "ärger", "\u{2028}", "\u{85}😀",
];
/// Ways of storing event ids in hand-built files.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Store {
    Flat,
    Composite,
    Virtual,
}
pub struct Writer {
    pub b: Build,
    pub store: Store,
    next_virtual: u64,
    known: std::collections::HashMap<String, u64>,
}
impl Writer {
    pub fn new(store: Store) -> Writer {
        Writer::on(Build::new(), store)
    }
    pub fn on(b: Build, store: Store) -> Writer {
        Writer { b, store, next_virtual: 10, known: Default::default() }
    }
    pub fn text(&mut self, s: &str) -> u64 {
        if let Some(&i) = self.known.get(s) {
            return i;
        }
        let i = self.b.string(s);
        self.known.insert(s.to_string(), i);
        i
    }
    pub fn event_id(&mut self, e: &Ev) -> u64 {
        let key = format!("{}\u{1}{:?}", e.label, e.args);
        if let Some(&i) = self.known.get(&key) {
            return i;
        }
        let args: Vec<&str> = e.args.iter().map(|s| s.as_str()).collect();
        let i = match self.store {
            Store::Flat => self.b.event_id(&e.label, &args),
            Store::Composite => {
                let l = self.text(&e.label);
                let mut c = vec![Comp::Ref(l)];
                for a in &args {
                    let r = self.text(a);
                    c.push(Comp::Val("\x1e".into()));
                    c.push(Comp::Ref(r));
                }
                self.b.composite(&c)
            }
            Store::Virtual => {
                let s = self.b.event_id(&e.label, &args);
                let v = self.next_virtual;
                self.next_virtual += 1;
                self.b.map(v, s);
                v
            }
        };
        self.known.insert(key, i);
        i
    }
    pub fn event(&mut self, e: &Ev) {
        let k = self.text(&e.kind);
        let i = self.event_id(e);
        self.b.event(k, i, e.thread, e.pay);
    }
}
pub fn file_of(evs: &[Ev], store: Store) -> Vec<u8> {
    let mut w = Writer::new(store);
    for e in evs {
        w.event(e);
    }
    w.b.file()
}
/// The label and arguments an event-id text stands for.
pub fn parse_event_id(text: &str) -> (String, Vec<String>) {
    let ok = |s: &str| !s.is_empty() && !s.bytes().any(|b| (b < 0x20 && !(9..=13).contains(&b)) || b == 0x7f);
    let mut it = text.split('\x1e');
    let label = it.next().unwrap();
    if !ok(label) {
        return ("<parse error>".into(), vec![]);
    }
    (label.to_string(), it.take_while(|a| ok(a)).map(|a| a.to_string()).collect())
}
pub fn streams(file: &[u8]) -> Result<[Vec<u8>; 3], String> {
    if file.len() < 8 {
        return Err("the file has no header".into());
    }
    let p = spec::pages(&file[8..]).map_err(|_| "the file does not consist of whole pages".to_string())?;
    if p.iter().any(|(t, b)| *t > 2 || b.is_empty()) {
        return Err("malformed page".into());
    }
    Ok(spec::streams_of(&p))
}
