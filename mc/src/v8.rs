//! Profiles in the previous file format, written with the previous release of
//! the library itself.
use crate::util::{Ev, Store};
use common::spec::{self, Pay};
use measureme_10 as old;
use std::sync::Arc;

pub struct Old {
    ev: old::SerializationSink,
    data: Arc<old::SerializationSink>,
    index: Arc<old::SerializationSink>,
    pub tab: old::StringTableBuilder,
    known: std::collections::HashMap<String, old::StringId>,
    ids: std::collections::HashMap<String, old::StringId>,
    next: u32,
}
impl Old {
    pub fn new(start: u64, pid: u32, cmd: &str) -> Old {
        let sb = old::SerializationSinkBuilder::new_in_memory();
        let ev = sb.new_sink(old::PageTag::Events);
        old::file_header::write_file_header(&mut ev.as_std_write(), old::file_header::FILE_MAGIC_EVENT_STREAM).unwrap();
        let data = Arc::new(sb.new_sink(old::PageTag::StringData));
        let index = Arc::new(sb.new_sink(old::PageTag::StringIndex));
        let tab = old::StringTableBuilder::new(data.clone(), index.clone()).unwrap();
        tab.alloc_metadata(&*serde_json::json!({"start_time": start, "process_id": pid, "cmd": cmd}).to_string());
        Old { ev, data, index, tab, known: Default::default(), ids: Default::default(), next: 50 }
    }
    pub fn text(&mut self, s: &str) -> old::StringId {
        if let Some(i) = self.known.get(s) {
            return *i;
        }
        let i = self.tab.alloc(s);
        self.known.insert(s.into(), i);
        i
    }
    pub fn raw(&self, kind: old::StringId, id: old::EventId, thread: u32, p: Pay) {
        let r = match p {
            Pay::Interval(s, e) => old::RawEvent::new_interval(kind, id, thread, s, e),
            Pay::Instant(t) => old::RawEvent::new_instant(kind, id, thread, t),
            Pay::Integer(v) => old::RawEvent::new_integer(kind, id, thread, v),
        };
        self.ev.write_atomic(std::mem::size_of::<old::RawEvent>(), |b| r.serialize(b));
    }
    pub fn event(&mut self, e: &Ev) {
        self.event_as(e, Store::Flat)
    }
    pub fn event_as(&mut self, e: &Ev, store: Store) {
        let k = self.text(&e.kind);
        let mut s = e.label.clone();
        for a in &e.args {
            s.push('\x1e');
            s.push_str(a);
        }
        let key = format!("{:?}{}", store, s);
        let i = match self.ids.get(&key) {
            Some(i) => *i,
            None => {
                let i = match store {
                    Store::Flat => self.tab.alloc(&*s),
                    Store::Composite => {
                        let l = self.text(&e.label);
                        let r: Vec<old::StringId> = e.args.iter().map(|a| self.text(a)).collect();
                        let mut c = vec![old::StringComponent::Ref(l)];
                        for x in r {
                            c.push(old::StringComponent::Value("\x1e"));
                            c.push(old::StringComponent::Ref(x));
                        }
                        self.tab.alloc(&c[..])
                    }
                    Store::Virtual => {
                        let to = self.tab.alloc(&*s);
                        let v = old::StringId::new_virtual(self.next);
                        self.next += 1;
                        if self.next % 2 == 0 {
                            self.tab.map_virtual_to_concrete_string(v, to);
                        } else {
                            self.tab.bulk_map_virtual_to_single_concrete_string([v].iter().cloned(), to);
                        }
                        v
                    }
                };
                self.ids.insert(key, i);
                i
            }
        };
        self.raw(k, old::EventId::from_virtual(i), e.thread, e.pay);
    }
    pub fn file(self) -> Vec<u8> {
        drop(self.tab);
        let mut v = spec::header(b"MMPD", 8);
        let e = self.ev.into_bytes();
        let d = Arc::try_unwrap(self.data).ok().unwrap().into_bytes();
        let i = Arc::try_unwrap(self.index).ok().unwrap().into_bytes();
        for (t, s) in [(1u8, d), (2, i), (0, e)] {
            for c in s.chunks(spec::MAX_PAGE) {
                spec::push_page(&mut v, t, c);
            }
        }
        v
    }
}
pub fn file_of(evs: &[Ev]) -> Vec<u8> {
    let mut o = Old::new(0, 0, "test cmd");
    for e in evs {
        o.event(e);
    }
    o.file()
}
/// Can the previous format hold the event, and its reader return it?
pub fn representable(e: &Ev) -> bool {
    let v = match e.pay {
        Pay::Interval(_, b) => b,
        Pay::Instant(v) | Pay::Integer(v) => v,
    };
    v <= spec::MAX_INTERVAL && e.args.iter().chain([&e.label, &e.kind]).all(|s| !s.contains('\x0b'))
}
