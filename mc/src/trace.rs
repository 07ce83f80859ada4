//! Recording histories with well-nested intervals, together with the truth
//! about them (who encloses whom), and the reference analyses computed from
//! that truth. No code is shared with the crates under check.
use crate::util::*;
use common::explore::Ctx;
use common::spec::Pay;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: String,
    pub label: String,
    pub thread: u32,
    pub start: u64,
    pub end: u64,
    pub parent: Option<usize>,
    pub ev: usize,
    children: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub evs: Vec<Ev>,
    pub nodes: Vec<Node>,
    open: BTreeMap<u32, Vec<(usize, Vec<String>)>>,
    pub now: BTreeMap<u32, u64>,
}
impl Trace {
    pub fn start(&mut self, th: u32, kind: &str, label: &str, args: &[&str], t: u64) {
        let st = self.open.entry(th).or_default();
        self.nodes.push(Node {
            kind: kind.into(),
            label: label.into(),
            thread: th,
            start: t,
            end: 0,
            parent: st.last().map(|x| x.0),
            ev: usize::MAX,
            children: 0,
        });
        st.push((self.nodes.len() - 1, args.iter().map(|s| s.to_string()).collect()));
        self.now.insert(th, t);
    }
    pub fn end(&mut self, th: u32, t: u64) {
        let (n, args) = self.open.get_mut(&th).unwrap().pop().unwrap();
        let ev = self.evs.len();
        let node = &mut self.nodes[n];
        node.end = t;
        node.ev = ev;
        let (p, d) = (node.parent, t - node.start);
        self.evs.push(Ev { kind: node.kind.clone(), label: node.label.clone(), args, thread: th, pay: Pay::Interval(node.start, t) });
        if let Some(p) = p {
            self.nodes[p].children += d;
        }
        self.now.insert(th, t);
    }
    pub fn whole(&mut self, th: u32, kind: &str, label: &str, a: u64, b: u64) {
        self.start(th, kind, label, &[], a);
        self.end(th, b);
    }
    pub fn instant(&mut self, th: u32, kind: &str, label: &str, args: &[&str], t: u64) {
        self.evs.push(Ev::new(kind, label, args, th, Pay::Instant(t)));
        self.now.insert(th, t);
    }
    pub fn integer(&mut self, th: u32, kind: &str, label: &str, v: u64) {
        self.evs.push(Ev::new(kind, label, &[], th, Pay::Integer(v)));
    }
    pub fn depth(&self, th: u32) -> usize {
        self.open.get(&th).map(|o| o.len()).unwrap_or(0)
    }
    pub fn close_all(&mut self, dt: u64) {
        let ths: Vec<u32> = self.open.keys().copied().collect();
        for th in ths {
            while self.depth(th) > 0 {
                let t = self.now[&th] + dt;
                self.end(th, t);
            }
        }
    }
    pub fn chain(&self, n: usize) -> Vec<&str> {
        let mut v = vec![self.nodes[n].label.as_str()];
        let mut p = self.nodes[n].parent;
        while let Some(q) = p {
            v.push(&self.nodes[q].label);
            p = self.nodes[q].parent;
        }
        v.reverse();
        v
    }
    pub fn self_time(&self, n: usize) -> u64 {
        let x = &self.nodes[n];
        x.end - x.start - x.children
    }
    /// per thread: (first start, last end) of its intervals
    pub fn spans(&self) -> BTreeMap<u32, (u64, u64)> {
        let mut m: BTreeMap<u32, (u64, u64)> = BTreeMap::new();
        for n in &self.nodes {
            let e = m.entry(n.thread).or_insert((n.start, n.end));
            e.0 = e.0.min(n.start);
            e.1 = e.1.max(n.end);
        }
        m
    }
    pub fn total(&self) -> u64 {
        self.spans().values().map(|(a, b)| b - a).sum()
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Row {
    pub time: u64,
    pub self_time: u64,
    pub misses: u64,
    pub hits: u64,
    pub invocations: u64,
    pub blocked: u64,
    pub load: u64,
    pub hashing: u64,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Analysis {
    pub rows: BTreeMap<String, Row>,
    pub artifacts: BTreeMap<String, u64>,
    pub total: u64,
}
pub const QUERY: &str = "Query";
pub const ACTIVITY: &str = "GenericActivity";
pub const BLOCKED: &str = "QueryBlocked";
pub const LOAD: &str = "IncrementalLoadResult";
pub const HASHING: &str = "IncrementalResultHashing";
pub const HIT: &str = "QueryCacheHit";
pub const ARTIFACT: &str = "ArtifactSize";
/// Texts that are nearly the same, and thread ids that agree in some bits.
pub const NEAR: [&str; 12] = ["a", "a ", " a", "A", "a\t", "aa", "a\n", "a0", "\u{e4}", "a\u{308}", "a\u{a0}", "\u{c4}"];
pub const NEAR_KINDS: [&str; 10] =
    ["query", "Query ", "QueryX", "Quer", "genericactivity", "incrementalloadresult", "IncrementalLoad", "Incremental result hashing", "queryblocked", ""];
pub const NEAR_THREADS: [u32; 12] =
    [0, 1, 1 << 8, 1 << 16, 1 | 1 << 8, 1 | 1 << 16, 1 | 1 << 24, 1 << 31, 1 | 1 << 31, u32::MAX, 0xffff, 0x7fff_ffff];
pub const KINDS: [&str; 8] = [QUERY, ACTIVITY, BLOCKED, LOAD, HASHING, "Custom", HIT, ARTIFACT];

/// The reference analysis: every interval's own time (its length without its
/// direct children) and the documented counters of its kind.
pub fn analysis(t: &Trace) -> Analysis {
    let mut a = Analysis { total: t.total(), ..Default::default() };
    for (i, n) in t.nodes.iter().enumerate() {
        let own = t.self_time(i);
        let r = a.rows.entry(n.label.clone()).or_default();
        r.self_time += own;
        if n.kind != HASHING {
            r.time += n.end - n.start;
        }
        match n.kind.as_str() {
            QUERY | ACTIVITY => {
                r.misses += 1;
                r.invocations += 1;
            }
            BLOCKED => {
                r.blocked += n.end - n.start;
                r.invocations += 1;
            }
            LOAD => r.load += own,
            HASHING => r.hashing += own,
            _ => r.invocations += 1,
        }
    }
    for e in &t.evs {
        match e.pay {
            Pay::Instant(_) if e.kind == HIT => {
                let r = a.rows.entry(e.label.clone()).or_default();
                r.hits += 1;
                r.invocations += 1;
            }
            Pay::Integer(v) if e.kind == ARTIFACT => *a.artifacts.entry(e.label.clone()).or_default() += v,
            _ => {}
        }
    }
    a
}
/// The reference stacks, without those that carry no time.
pub fn stacks(t: &Trace) -> BTreeMap<String, u64> {
    let mut m: BTreeMap<String, u64> = BTreeMap::new();
    let mut top = 0;
    for (i, n) in t.nodes.iter().enumerate() {
        *m.entry(format!("rustc;{}", t.chain(i).join(";"))).or_default() += t.self_time(i);
        if n.parent.is_none() {
            top += n.end - n.start;
        }
    }
    *m.entry("rustc".into()).or_default() += t.total() - top;
    m.retain(|_, v| *v > 0);
    m
}

/// The same trace with the trees of intervals recorded in any order (as when
/// detached intervals are written later): every order of the children of each
/// interval, and of the outermost ones.
pub fn reordered(c: &mut Ctx, t: &Trace) -> Trace {
    fn emit(c: &mut Ctx, t: &Trace, out: &mut Trace, parent: Option<usize>) {
        let mut rest: Vec<usize> = (0..t.nodes.len()).filter(|&i| t.nodes[i].parent == parent).collect();
        while !rest.is_empty() {
            let n = rest.remove(c.choose(rest.len()));
            emit(c, t, out, Some(n));
            out.nodes[n].ev = out.evs.len();
            out.evs.push(t.evs[t.nodes[n].ev].clone());
        }
    }
    let mut out = Trace { nodes: t.nodes.clone(), ..Default::default() };
    out.evs = t.evs.iter().filter(|e| !matches!(e.pay, Pay::Interval(..))).cloned().collect();
    emit(c, t, &mut out, None);
    out
}

/// What a history may consist of.
#[derive(Clone)]
pub struct Cfg<'a> {
    pub threads: &'a [u32],
    pub ops: usize,
    pub starts: &'a [(&'a str, &'a str)],
    pub instants: &'a [(&'a str, &'a str)],
    pub integers: &'a [(&'a str, &'a str, u64)],
    pub dts: &'a [u64],
    pub nest: usize,
    pub base: u64,
}
impl Default for Cfg<'_> {
    fn default() -> Self {
        Cfg { threads: &[0], ops: 4, starts: &[(QUERY, "a")], instants: &[], integers: &[], dts: &[1], nest: 9, base: 100 }
    }
}
/// Two different elements of a list, in the order of the list.
pub fn pair<T: Copy>(c: &mut Ctx, v: &[T]) -> (T, T) {
    let i = c.choose(v.len() - 1);
    let j = i + 1 + c.choose(v.len() - 1 - i);
    (v[i], v[j])
}
/// Every history of at most `ops` recording steps; what is still open at the
/// end is ended innermost first. Each thread has its own clock, so that the
/// order of events of different threads in the stream is arbitrary.
pub fn history(c: &mut Ctx, g: &Cfg) -> Trace {
    let mut t = Trace::default();
    for _ in 0..g.ops {
        let (ns, ni) = (g.starts.len(), g.instants.len());
        let mut ops: Vec<(u32, usize)> = vec![];
        for &th in g.threads {
            if t.depth(th) < g.nest {
                ops.extend((0..ns).map(|k| (th, k)));
            }
            if t.depth(th) > 0 {
                ops.push((th, ns));
            }
            ops.extend((ns + 1..ns + 1 + ni + g.integers.len()).map(|k| (th, k)));
        }
        let op = c.choose(1 + ops.len());
        if op == 0 {
            break;
        }
        let (th, k) = ops[op - 1];
        let untimed = k > g.starts.len() + g.instants.len();
        let now = t.now.get(&th).copied().unwrap_or(g.base) + if untimed { 0 } else { *c.pick(g.dts) };
        if k < g.starts.len() {
            t.start(th, g.starts[k].0, g.starts[k].1, &[], now);
        } else if k == g.starts.len() {
            t.end(th, now);
        } else if !untimed {
            let i = g.instants[k - g.starts.len() - 1];
            t.instant(th, i.0, i.1, &[], now);
        } else {
            let i = g.integers[k - g.starts.len() - 1 - g.instants.len()];
            t.integer(th, i.0, i.1, i.2);
        }
        c.step();
    }
    t.close_all(*g.dts.last().unwrap());
    t
}
/// Canonical bytes of a trace, for counting states.
pub fn key(t: &Trace) -> Vec<u8> {
    let mut s = String::new();
    for e in &t.evs {
        s.push_str(&format!("{}/{}/{:?}/{}/{:?};", e.kind, e.label, e.args, e.thread, e.pay));
    }
    s.into_bytes()
}
pub fn brief(t: &Trace) -> String {
    t.evs.iter().map(|e| format!("{} {} t{} {:?}", e.kind, e.label, e.thread, e.pay)).collect::<Vec<_>>().join(", ")
}
