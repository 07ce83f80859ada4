//! C02: concurrent writes to serialization sinks.
use crate::engine::*;
use crate::Family;
use common::spec::{self, MAX_PAGE, MIN_PAGE};
use common::{h64, tier};
use measureme::{PageTag, SerializationSink, SerializationSinkBuilder};
use std::io::Write;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// write_atomic(n)
    A(usize),
    /// write_bytes_atomic(n)
    B(usize),
    /// a write through the std::io::Write adapter
    W(usize),
    /// flush through the adapter
    F,
}
const TAGS: [PageTag; 3] = [PageTag::Events, PageTag::StringData, PageTag::StringIndex];

#[derive(Clone)]
struct Spec {
    /// per thread: (sink, op)
    ops: Vec<Vec<(usize, Op)>>,
    prefill: [usize; 2],
    nsinks: usize,
    file: bool,
}
struct Live {
    spec: Spec,
    sinks: Vec<SerializationSink>,
    path: Option<std::path::PathBuf>,
    /// [thread] -> addresses, in order
    addrs: Vec<Mutex<Vec<Option<u64>>>>,
}
type Pattern = std::sync::OnceLock<Vec<u8>>;
static FILL: Pattern = Pattern::new();
fn fill() -> &'static [u8] {
    FILL.get_or_init(|| (0..MAX_PAGE).map(|i| (i % 251) as u8 ^ 0x5a).collect())
}
static BYTES: [[Pattern; 4]; 4] = [const { [const { Pattern::new() }; 4] }; 4];
/// Every byte of every write identifies its thread, operation and offset.
fn bytes(t: usize, k: usize, n: usize) -> &'static [u8] {
    &BYTES[t][k].get().unwrap()[..n]
}
/// Fills the tables above; called before any execution starts.
fn tables() {
    fill();
    for (t, r) in BYTES.iter().enumerate() {
        for (k, p) in r.iter().enumerate() {
            p.get_or_init(|| {
                (0..3 * MAX_PAGE).map(|i| ((i * 7 + (i >> 8)) as u8) ^ ((t as u8 + 1) << 6) ^ ((k as u8 + 1) << 4)).collect()
            });
        }
    }
}
impl Exec for Live {
    fn threads(&self) -> usize {
        self.spec.ops.len()
    }
    fn body(&self, t: usize) {
        for (k, &(s, op)) in self.spec.ops[t].iter().enumerate() {
            let sink = &self.sinks[s];
            let a = match op {
                Op::A(n) => {
                    let b = bytes(t, k, n);
                    Some(sink.write_atomic(n, |d| d.copy_from_slice(b)).0)
                }
                Op::B(n) => Some(sink.write_bytes_atomic(bytes(t, k, n)).0),
                Op::W(n) => {
                    sink.as_std_write().write_all(bytes(t, k, n)).unwrap();
                    None
                }
                Op::F => {
                    sink.as_std_write().flush().unwrap();
                    None
                }
            };
            self.addrs[t].lock().unwrap().push(a);
        }
    }
    fn finish(self: Box<Self>) -> Result<u64, String> {
        let Live { spec, sinks, path, addrs } = *self;
        let n = sinks.len();
        let mut streams: Vec<Vec<u8>> = vec![];
        match path {
            None => {
                for s in sinks {
                    streams.push(s.into_bytes());
                }
            }
            Some(p) => {
                drop(sinks);
                let data = std::fs::read(&p).map_err(|e| e.to_string())?;
                let pages = spec::pages(&data).map_err(|_| "page structure of the file is broken".to_string())?;
                for (t, b) in &pages {
                    if *t as usize >= n || b.is_empty() || b.len() > MAX_PAGE {
                        return Err(format!("file contains a malformed page (tag {}, {} bytes)", t, b.len()));
                    }
                }
                let s = spec::streams_of(&pages);
                let via = measureme::split_streams(&data);
                for i in 0..n {
                    let got = via.get(&TAGS[i]).cloned().unwrap_or_default();
                    if got != s[i] {
                        return Err("library reassembles the streams differently".into());
                    }
                    streams.push(got);
                }
            }
        }
        let mut out = vec![];
        for s in 0..n {
            let st = &streams[s];
            // (addr, len, thread, op index), all writes to this sink
            let mut w: Vec<(Option<u64>, usize, usize, usize)> = vec![];
            for t in 0..spec.ops.len() {
                let ad = addrs[t].lock().unwrap();
                let mut prev: Option<u64> = None;
                for (k, &(si, op)) in spec.ops[t].iter().enumerate() {
                    if si != s {
                        continue;
                    }
                    let len = match op {
                        Op::A(n) | Op::B(n) | Op::W(n) => n,
                        Op::F => continue,
                    };
                    if len == 0 {
                        continue;
                    }
                    if let Some(a) = ad[k] {
                        if let Some(p) = prev {
                            if a <= p {
                                return Err(format!("thread {} got address {} after {}", t, a, p));
                            }
                        }
                        prev = Some(a);
                    }
                    w.push((ad[k], len, t, k));
                }
            }
            let total: usize = spec.prefill[s] + w.iter().map(|x| x.1).sum::<usize>();
            if st.len() != total {
                return Err(format!("stream {} has {} bytes, {} were written", s, st.len(), total));
            }
            let pf = spec.prefill[s];
            if st[..pf] != fill()[..pf] {
                return Err(format!("stream {}: data written earlier is damaged", s));
            }
            // writes without an address (adapter): found by content below
            let mut spans = vec![];
            let mut anon = vec![];
            for (a, len, t, k) in w {
                match a {
                    Some(a) => spans.push((a as usize, len, t, k)),
                    None => anon.push((len, t, k)),
                }
            }
            spans.sort();
            let mut pos = spec.prefill[s];
            let mut i = 0;
            let mut order = vec![];
            while pos < total {
                if i < spans.len() && spans[i].0 == pos {
                    let (a, len, t, k) = spans[i];
                    if st[a..a + len] != *bytes(t, k, len) {
                        return Err(format!(
                            "stream {}: write {} of thread {} returned address {} but its bytes are not there",
                            s, k, t, a
                        ));
                    }
                    order.push((t, k));
                    pos += len;
                    i += 1;
                } else if let Some(j) =
                    anon.iter().position(|&(len, t, k)| st.len() >= pos + len && st[pos..pos + len] == *bytes(t, k, len))
                {
                    let (len, t, k) = anon.remove(j);
                    order.push((t, k));
                    pos += len;
                } else {
                    return Err(format!("stream {}: no write starts at address {} (gap, overlap or torn write)", s, pos));
                }
            }
            if i != spans.len() || !anon.is_empty() {
                return Err(format!("stream {}: a write was lost", s));
            }
            for t in 0..spec.ops.len() {
                let mine: Vec<usize> = order.iter().filter(|o| o.0 == t).map(|o| o.1).collect();
                if mine.windows(2).any(|p| p[0] >= p[1]) {
                    return Err(format!("stream {}: writes of thread {} are out of order", s, t));
                }
            }
            for o in order {
                out.push(o.0 as u8 * 16 + o.1 as u8);
            }
            out.push(255);
        }
        Ok(h64(&out))
    }
}
fn setup(spec: &Spec) -> Box<dyn Exec> {
    let path = if spec.file {
        let d = common::scratch_root();
        let _ = std::fs::create_dir_all(&d);
        Some(d.join(format!("c02-{}", std::process::id())))
    } else {
        None
    };
    let b = match &path {
        Some(p) => SerializationSinkBuilder::new_from_file(std::fs::File::create(p).unwrap()).unwrap(),
        None => SerializationSinkBuilder::new_in_memory(),
    };
    let sinks: Vec<_> = (0..spec.nsinks).map(|i| b.new_sink(TAGS[i])).collect();
    for (i, s) in sinks.iter().enumerate() {
        let n = spec.prefill[i];
        if n > 0 {
            assert!(n <= MAX_PAGE);
            s.write_atomic(n, |d| d.copy_from_slice(&fill()[..n]));
        }
    }
    let addrs = (0..spec.ops.len()).map(|_| Mutex::new(Vec::with_capacity(8))).collect();
    Box::new(Live { spec: spec.clone(), sinks, path, addrs })
}
fn program(spec: Spec, bound: u32) -> Program {
    let name = format!(
        "{} sinks{} prefill {:?}: {}",
        spec.nsinks,
        if spec.file { " (file)" } else { "" },
        &spec.prefill[..spec.nsinks],
        spec.ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(" || ")
    );
    Program { name, setup: Box::new(move || setup(&spec)), bound }
}

/// All programs of `nt` threads with `len` operations each from `alphabet`
/// (up to thread symmetry), all on sinks chosen by `sinks`.
fn all_programs(nt: usize, len: usize, alphabet: &[(usize, Op)], prefill: [usize; 2], nsinks: usize, file: bool, bound: u32) -> Vec<Program> {
    let m = alphabet.len();
    let lists: Vec<Vec<(usize, Op)>> = (0..m.pow(len as u32))
        .map(|mut x| {
            (0..len)
                .map(|_| {
                    let o = alphabet[x % m];
                    x /= m;
                    o
                })
                .collect()
        })
        .collect();
    let mut out = vec![];
    let mut idx = vec![0usize; nt];
    loop {
        if idx.windows(2).all(|w| w[0] <= w[1]) {
            let spec = Spec { ops: idx.iter().map(|&i| lists[i].clone()).collect(), prefill, nsinks, file };
            out.push(program(spec, bound));
        }
        let mut i = 0;
        loop {
            if i == nt {
                return out;
            }
            idx[i] += 1;
            if idx[i] < lists.len() {
                break;
            }
            idx[i] = 0;
            i += 1;
        }
    }
}

pub fn families() -> (Vec<Family>, String, Vec<String>) {
    use Op::*;
    tables();
    let mut f: Vec<Family> = vec![];
    let near_max = MAX_PAGE - 8;
    let near_min = MIN_PAGE - 100;
    let b = tier(4, 6);
    // one sink, small writes, next write forces a page out (write_atomic path)
    f.push((
        "one sink, page about to overflow".into(),
        all_programs(2, 2, &[(0, A(5)), (0, B(3)), (0, A(12)), (0, F)], [near_max, 0], 1, false, b),
        Fair::Never,
        false,
    ));
    // write_bytes_atomic splitting over fill/flush/chunk
    f.push((
        "one sink, slice writes that split over pages".into(),
        all_programs(2, 2, &[(0, A(6)), (0, B(150)), (0, W(200)), (0, F)], [near_min, 0], 1, false, b),
        Fair::Never,
        false,
    ));
    // huge writes
    f.push((
        "one sink, writes larger than a page".into(),
        all_programs(2, 1, &[(0, A(7)), (0, B(MAX_PAGE + 40)), (0, A(MAX_PAGE + 1)), (0, B(2 * MAX_PAGE + MIN_PAGE + 3)), (0, W(MAX_PAGE + 9))], [10, 0], 1, false, b),
        Fair::Never,
        false,
    ));
    // two sinks sharing one file: page headers and payloads must stay together
    f.push((
        "two sinks on one file, both paging out".into(),
        all_programs(2, 2, &[(0, A(9)), (1, A(9)), (1, B(140)), (0, F)], [near_max, near_max], 2, true, tier(3, 5)),
        Fair::Never,
        false,
    ));
    f.push((
        "two sinks on one file, one write each, deep".into(),
        vec![
            program(Spec { ops: vec![vec![(0, A(9))], vec![(1, A(9))]], prefill: [near_max, near_max], nsinks: 2, file: true }, tier(6, 9)),
            program(Spec { ops: vec![vec![(0, B(200))], vec![(1, B(200))]], prefill: [MIN_PAGE - 10, MIN_PAGE - 10], nsinks: 2, file: true }, tier(6, 9)),
            program(Spec { ops: vec![vec![(0, F)], vec![(1, B(MAX_PAGE))]], prefill: [17, 5], nsinks: 2, file: false }, tier(7, 10)),
        ],
        Fair::Never,
        true,
    ));
    // three threads
    f.push((
        "three threads on one sink".into(),
        all_programs(3, 1, &[(0, A(5)), (0, A(12)), (0, B(150)), (0, F)], [near_max, 0], 1, false, tier(3, 5)),
        Fair::Never,
        false,
    ));
    f.push((
        "three threads on two sinks".into(),
        all_programs(3, 1, &[(0, A(9)), (1, A(9)), (1, B(140))], [near_max, near_max], 2, false, tier(3, 5)),
        Fair::Never,
        false,
    ));
    // small writes only, deeper preemption bound
    f.push((
        "two threads, deep preemption bound".into(),
        vec![
            program(Spec { ops: vec![vec![(0, A(3)), (0, B(4))], vec![(0, A(5)), (0, A(2))]], prefill: [0, 0], nsinks: 1, file: false }, tier(7, 10)),
            program(Spec { ops: vec![vec![(0, A(9)), (0, A(4))], vec![(0, B(3)), (0, F)]], prefill: [near_max, 0], nsinks: 1, file: false }, tier(6, 8)),
            program(Spec { ops: vec![vec![(0, W(9)), (0, B(4)), (0, A(1))], vec![(0, B(130)), (0, A(2)), (0, W(3))]], prefill: [near_min, 0], nsinks: 1, file: false }, tier(6, 9)),
        ],
        Fair::Never,
        true,
    ));
    // the other lock hand-off policy of parking_lot
    f.push((
        "fair lock hand-off".into(),
        all_programs(2, 2, &[(0, A(5)), (0, A(12)), (0, B(150))], [near_max, 0], 1, false, tier(3, 5)),
        Fair::Always,
        false,
    ));
    if common::thorough() {
        f.push((
            "three threads, two operations each".into(),
            all_programs(3, 2, &[(0, A(5)), (0, B(150))], [near_max, 0], 1, false, 3),
            Fair::Never,
            false,
        ));
        f.push((
            "two threads, three operations each".into(),
            all_programs(2, 3, &[(0, A(5)), (0, A(12)), (0, B(150)), (0, F)], [near_max, 0], 1, false, 3),
            Fair::Never,
            false,
        ));
    }
    (
        f,
        "All schedules up to the preemption bound of every program in each family; scheduling points are all atomic \
         operations, futex waits/wakes, yields, write system calls and plain accesses found racing. Oracle: each write's \
         bytes at its returned address, addresses partition the stream, per-thread order, page structure intact, no \
         deadlock, no panic. states = distinct scheduling decisions, transitions = scheduling steps executed."
            .into(),
        vec![
            "sequentially consistent memory (orderings weaker than SC are not modelled; plain-access races become scheduling points)".into(),
            "std code that is not generic is not instrumented; it blocks only in interposed futex calls".into(),
            "parking_lot's fairness timer is explored at its two extremes (never fair, always fair)".into(),
        ],
    )
}
