//! C07: strings resolve to exactly their content; C08: virtual ids.
use common::explore::*;
use common::spec::{FIRST_ID, MAX_PAGE, MAX_VIRTUAL, METADATA_ID, MIN_PAGE};
use common::sup::Check;
use common::{ensure, fail, tier, Res};
use decodeme::stringtable::StringTable;
use measureme::{PageTag, SerializableString, SerializationSink, SerializationSinkBuilder, StringComponent, StringId, StringTableBuilder};
use std::collections::BTreeMap;
use std::sync::Arc;

struct Tab {
    data: Arc<SerializationSink>,
    index: Arc<SerializationSink>,
    b: StringTableBuilder,
}
impl Tab {
    fn new() -> Tab {
        let sb = SerializationSinkBuilder::new_in_memory();
        let data = Arc::new(sb.new_sink(PageTag::StringData));
        let index = Arc::new(sb.new_sink(PageTag::StringIndex));
        let b = StringTableBuilder::new(data.clone(), index.clone()).unwrap();
        Tab { data, index, b }
    }
    fn read(self) -> Result<StringTable, String> {
        drop(self.b);
        let d = Arc::try_unwrap(self.data).ok().unwrap().into_bytes();
        let i = Arc::try_unwrap(self.index).ok().unwrap().into_bytes();
        match catches(|| StringTable::new(d, i, None)) {
            Ok(Ok(t)) => Ok(t),
            Ok(Err(e)) => Err(format!("the string table does not open: {}", e)),
            Err(m) => Err(format!("opening the string table panics: {}", m)),
        }
    }
}
fn resolve(t: &StringTable, id: StringId, want: &str) -> Res {
    let got = match catches(|| t.get(id).to_string().into_owned()) {
        Ok(s) => s,
        Err(m) => fail!("resolving string id {} panics: {}", id.as_u64(), m),
    };
    ensure!(got == want, "string id {} resolves to {:?} instead of {:?}", id.as_u64(), clip(&got), clip(want));
    let mut out = String::from("pre|");
    match catches(std::panic::AssertUnwindSafe(|| t.get(id).write_to_string(&mut out))) {
        Ok(()) => {}
        Err(m) => fail!("appending string id {} panics: {}", id.as_u64(), m),
    }
    ensure!(out.strip_prefix("pre|") == Some(want), "string id {} is appended as {:?} instead of {:?}", id.as_u64(), clip(&out), clip(want));
    Ok(())
}
fn clip(s: &str) -> String {
    if s.len() <= 80 {
        return s.to_string();
    }
    let mut n = 60;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}... ({} bytes)", &s[..n], s.len())
}
/// An alphabet piece: text or reference.
#[derive(Clone, Debug)]
enum P {
    V(&'static str),
    /// k-th string back from the newest
    R(usize),
    Virt(u64),
}
const LONG: &str = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789_end";

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("histories of composite strings", |c| {
        let pieces = [P::V(""), P::V("a"), P::V("\u{e9}\u{10FFFF}"), P::V(LONG), P::R(0), P::R(1), P::Virt(0), P::Virt(255)];
        let t = Tab::new();
        let base = t.b.alloc("base");
        t.b.map_virtual_to_concrete_string(StringId::new_virtual(0u64), base);
        let mut all: Vec<(StringId, String)> = vec![(base, "base".into())];
        let mut late: Option<StringId> = None;
        let n = tier(2, 3);
        for step in 0..n {
            let m = c.choose(if step == 0 { 4 } else { 3 });
            let mut comps = vec![];
            let mut text = String::new();
            for _ in 0..m {
                match c.pick(&pieces).clone() {
                    P::V(s) => {
                        comps.push(StringComponent::Value(s));
                        text.push_str(s);
                    }
                    P::R(k) => {
                        let (id, s) = all[all.len() - 1 - k.min(all.len() - 1)].clone();
                        comps.push(StringComponent::Ref(id));
                        text.push_str(&s);
                    }
                    P::Virt(v) => {
                        comps.push(StringComponent::Ref(StringId::new_virtual(v)));
                        text.push_str(if v == 0 { "base" } else { "late" });
                        late = Some(StringId::new_virtual(255u64));
                    }
                }
            }
            let id = t.b.alloc(&comps[..]);
            all.push((id, text));
            c.step();
        }
        if late.is_some() {
            let s = t.b.alloc("late");
            t.b.map_virtual_to_concrete_string(late.unwrap(), s);
        }
        let tab = t.read()?;
        for (id, text) in &all {
            resolve(&tab, *id, text)?;
            c.state(text.as_bytes());
        }
        c.validated();
        c.sample(|| format!("{:?}", all.iter().map(|x| clip(&x.1)).collect::<Vec<_>>()));
        Ok(())
    }));
    sc.push(scenario("composite strings of every length at every early position", |c| {
        // position x length x which piece comes first
        let pad = c.choose(tier(160, 500));
        let form = c.choose(5);
        let hi = tier(420, 1300);
        for n in 0..hi {
            let t = Tab::new();
            // at the very start of the table a reference can only be virtual
            let v = StringId::new_virtual(3u64);
            if pad > 0 {
                t.b.alloc(&*"p".repeat(pad - 1));
            }
            let val = "x".repeat(n);
            let (id, text) = match form {
                0 => (t.b.alloc(&[StringComponent::Ref(v), StringComponent::Value(&val)]), format!("late{}", val)),
                1 => (t.b.alloc(&[StringComponent::Value(&val), StringComponent::Ref(v)]), format!("{}late", val)),
                2 => (t.b.alloc(&[StringComponent::Ref(v), StringComponent::Value(&val), StringComponent::Ref(v)]), format!("late{}late", val)),
                3 => (t.b.alloc(&[StringComponent::Value(&val)]), val.clone()),
                _ => (t.b.alloc(&*val), val.clone()),
            };
            let s = t.b.alloc("late");
            t.b.map_virtual_to_concrete_string(v, s);
            let only = t.b.alloc(&[StringComponent::Ref(id)]);
            let tab = t.read()?;
            resolve(&tab, id, &text).map_err(|e| format!("composite form {} with {} bytes of text at address {}: {}", form, n, id.as_u64() - FIRST_ID, e))?;
            resolve(&tab, only, &text)?;
            c.steps(4);
            c.validated();
        }
        c.state(&[pad as u8, (pad >> 8) as u8, form as u8]);
        Ok(())
    }));
    sc.push(scenario("strings and references to them at every position in a large table", |c| {
        // strings of `len` bytes in a row, so that ids take every low value;
        // `shift` moves the whole row
        let len = *c.pick(&[1usize, 2, 5, 9, 16]);
        let shift = c.choose(tier(8, 24));
        let start = *c.pick(&[0usize, 0x91E00, 0xFA1E00]);
        if start > 0x100000 && shift > 1 {
            return Ok(());
        }
        let t = Tab::new();
        t.b.alloc(&*"s".repeat(shift));
        if start > 0 {
            t.b.alloc(&*"q".repeat(start));
        }
        let n = tier(6_000, 12_000);
        let mut want = vec![];
        for i in 0..n {
            let s = format!("{:01$}", i, len);
            let id = t.b.alloc(&*s);
            let one = t.b.alloc(&[StringComponent::Ref(id)]);
            let two = t.b.alloc(&[StringComponent::Ref(one), StringComponent::Value("|"), StringComponent::Ref(id)]);
            want.push((id, s.clone()));
            want.push((one, s.clone()));
            want.push((two, format!("{}|{}", s, s)));
        }
        let tab = t.read()?;
        for (id, s) in &want {
            resolve(&tab, *id, s)?;
        }
        c.steps(want.len() as u64);
        c.state(&[len as u8, shift as u8, (start >> 16) as u8]);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("every Unicode character, in values and around references", |c| {
        let base = c.choose(0x110000 / 0x1000) as u32 * 0x1000;
        let t = Tab::new();
        let r = t.b.alloc("r");
        let mut want = vec![];
        for u in base..base + 0x1000 {
            let Some(ch) = char::from_u32(u) else { continue };
            let s = format!("{}{}", ch, ch);
            want.push((t.b.alloc(&*s), s.clone()));
            want.push((t.b.alloc(&[StringComponent::Value(&s), StringComponent::Ref(r), StringComponent::Value(&s)]), format!("{}r{}", s, s)));
            c.steps(2);
        }
        let tab = t.read()?;
        for (id, s) in &want {
            resolve(&tab, *id, s)?;
        }
        c.state(&base.to_le_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("every string length", |c| {
        let chunk = 500;
        let top = tier(40_000, 300_000) / chunk;
        let base = c.choose(top) * chunk;
        for n in base..base + chunk {
            one_length(n)?;
            c.steps(3);
        }
        c.validated();
        Ok(())
    }));
    sc.push(scenario("string lengths around the page sizes", |c| {
        let at = *c.pick(&[128usize, MIN_PAGE, MAX_PAGE, MAX_PAGE + MIN_PAGE, 2 * MAX_PAGE]);
        let d = c.choose(tier(60, 400));
        one_length(at + d - tier(30, 100))?;
        c.steps(3);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("nesting depth", |c| {
        let deep = c.choose(tier(400, 3000)) + 1;
        let form = c.choose(3);
        let t = Tab::new();
        let mut id = t.b.alloc("core");
        let mut text = "core".to_string();
        for i in 0..deep {
            id = match form {
                0 => t.b.alloc(&[StringComponent::Ref(id)]),
                1 => {
                    text.push('.');
                    t.b.alloc(&[StringComponent::Ref(id), StringComponent::Value(".")])
                }
                _ => {
                    text.insert(0, 'o');
                    let v = StringId::new_virtual(i as u64);
                    t.b.map_virtual_to_concrete_string(v, id);
                    t.b.alloc(&[StringComponent::Value("o"), StringComponent::Ref(v), StringComponent::Value("")])
                }
            };
            c.step();
        }
        let tab = t.read()?;
        resolve(&tab, id, &text)?;
        c.validated();
        Ok(())
    }));
    sc.push(scenario("number of components, arrays and slices", |c| {
        let n = c.choose(41);
        let form = c.choose(3);
        let t = Tab::new();
        let a = t.b.alloc("A");
        let mk = |i: usize| match (form, i % 2) {
            (0, _) | (2, 0) => StringComponent::Ref(a),
            _ => StringComponent::Value("v"),
        };
        let text: String = (0..n)
            .map(|i| match (form, i % 2) {
                (0, _) | (2, 0) => "A",
                _ => "v",
            })
            .collect();
        let v: Vec<_> = (0..n).map(mk).collect();
        let id = t.b.alloc(&v[..]);
        let mut ids = vec![id];
        macro_rules! arr {
            ($($k:literal)*) => { match n { $($k => {
                let a: [StringComponent; $k] = std::array::from_fn(mk);
                ensure!(a.serialized_size() == v[..].serialized_size(), "array of {} components has another size than the slice", $k);
                ids.push(t.b.alloc(&a));
            })* _ => {} } };
        }
        arr!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
        let after = t.b.alloc("after");
        let tab = t.read()?;
        for id in ids {
            resolve(&tab, id, &text)?;
        }
        resolve(&tab, after, "after")?;
        c.steps(3);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("texts passed in the same memory one after the other", |c| {
        use crate::util::Reused;
        let texts = ["abcd", "abce", "\u{e9}\u{e9}", "ab", ""];
        let t = Tab::new();
        let mut buf = Reused::new();
        let mut refs: Vec<StringId> = vec![];
        let mut want = vec![];
        for _ in 0..tier(5, 6) {
            let s = *c.pick(&texts);
            let (id, w) = match c.choose(3) {
                0 => (t.b.alloc(buf.set(s)), s.to_string()),
                1 => (t.b.alloc(&[StringComponent::Value(buf.set(s)), StringComponent::Value("-")]), format!("{}-", s)),
                _ => {
                    let (r, w) = want.last().map(|(r, w): &(StringId, String)| (*r, w.clone())).unwrap_or_else(|| {
                        let a = t.b.alloc("first");
                        (a, "first".to_string())
                    });
                    (t.b.alloc(&[StringComponent::Ref(r), StringComponent::Value(buf.set(s))]), format!("{}{}", w, s))
                }
            };
            refs.push(id);
            want.push((id, w));
            c.step();
        }
        let tab = t.read()?;
        for (id, w) in &want {
            resolve(&tab, *id, w)?;
        }
        c.state(format!("{:?}", want.iter().map(|w| &w.1).collect::<Vec<_>>()).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("a string whose contents panic half-way", |c| {
        // the caller's own type; whoever catches the panic goes on recording
        struct Bad(usize, usize);
        impl SerializableString for Bad {
            fn serialized_size(&self) -> usize {
                self.0
            }
            fn serialize(&self, bytes: &mut [u8]) {
                for (i, b) in bytes.iter_mut().enumerate() {
                    assert!(i < self.1, "half-way");
                    *b = b'x';
                }
            }
        }
        let t = Tab::new();
        let mut want = vec![];
        for i in 0..4 {
            let n = *c.pick(&[1usize, 2, 5, 100_000, MAX_PAGE - 8, MAX_PAGE, MAX_PAGE + 1]);
            let at = *c.pick(&[0, 1]);
            if i % 2 == 0 || n <= 5 {
                let s = format!("string {}", i);
                want.push((t.b.alloc(&*s), s));
            }
            ensure!(catches(std::panic::AssertUnwindSafe(|| t.b.alloc(&Bad(n, at.min(n - 1))))).is_err(), "HARNESS: it did not panic");
            let s = format!("after {}", i);
            let id = t.b.alloc(&*s);
            want.push((id, s.clone()));
            want.push((t.b.alloc(&[StringComponent::Value("<"), StringComponent::Ref(id)]), format!("<{}", s)));
            t.b.map_virtual_to_concrete_string(StringId::new_virtual(i as u64), id);
            want.push((StringId::new_virtual(i as u64), s));
            c.step();
        }
        let tab = t.read()?;
        for (id, w) in &want {
            resolve(&tab, *id, w)?;
        }
        let key = format!("{:?}", c.choices());
        c.state(key.as_bytes());
        c.validated();
        Ok(())
    }));
    Check {
        id: "C07",
        scenarios: sc,
        rule: "All histories of composite allocations from an alphabet of text pieces and references (empty, ASCII, multi-byte, long, plain, \
               nested, virtual mapped before or after), composites of every length at every early table position, dense tables whose ids \
               sweep all low byte values, every Unicode character, every length, every nesting depth and component count; each id resolved \
               through to_string and write_to_string and compared with the concatenation of its pieces. states = distinct contents or layouts."
            .into(),
        assumptions: vec!["reference depth stays below the stack limit (tested to the stated depth)".into()],
    }
}
fn one_length(n: usize) -> Res {
    let t = Tab::new();
    let s: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
    let id = t.b.alloc(&*s);
    let one = t.b.alloc(&[StringComponent::Ref(id), StringComponent::Value("!")]);
    let big = t.b.alloc(&[StringComponent::Value("<"), StringComponent::Value(&s), StringComponent::Ref(one)]);
    let tab = t.read()?;
    resolve(&tab, id, &s)?;
    resolve(&tab, one, &format!("{}!", s))?;
    resolve(&tab, big, &format!("<{}{}!", s, s))
}

// ---------------------------------------------------------------- C08
pub fn check_virtual() -> Check {
    let mut sc = vec![];
    let ids = [0u64, 1, 255, MAX_VIRTUAL];
    sc.push(scenario("histories of mappings and uses", move |c| {
        let t = Tab::new();
        let strs: Vec<(StringId, &str)> = ["one", "two", "", "v\u{e9}\u{304}"].iter().map(|s| (t.b.alloc(*s), *s)).collect();
        let mut map: BTreeMap<u64, &str> = BTreeMap::new();
        let mut uses: Vec<(StringId, u64, bool)> = vec![];
        let mut log = vec![];
        for step in 0..tier(4, 5) {
            match c.choose(4) {
                0 => {
                    let v = *c.pick(&ids[..3]);
                    let (id, s) = strs[c.choose(3)];
                    t.b.map_virtual_to_concrete_string(StringId::new_virtual(v), id);
                    map.insert(v, s);
                    log.push(format!("map {} -> {:?}", v, s));
                }
                1 => {
                    let set: &[u64] = [&[][..], &[0, MAX_VIRTUAL], &[1, 1, 255], &[255, 0, 1, MAX_VIRTUAL]][c.choose(4)];
                    let (id, s) = strs[(step + 1) % 4];
                    t.b.bulk_map_virtual_to_single_concrete_string(set.iter().map(|&v| StringId::new_virtual(v)).collect::<Vec<_>>().into_iter(), id);
                    for &v in set {
                        map.insert(v, s);
                    }
                    log.push(format!("bulk {:?} -> {:?}", set, s));
                }
                2 => {
                    let v = *c.pick(&ids[..2]);
                    uses.push((t.b.alloc(&[StringComponent::Ref(StringId::new_virtual(v))]), v, true));
                    log.push(format!("alone {}", v));
                }
                _ => {
                    let v = *c.pick(&ids[1..3]);
                    uses.push((
                        t.b.alloc(&[StringComponent::Value("<"), StringComponent::Ref(StringId::new_virtual(v)), StringComponent::Value(">")]),
                        v,
                        false,
                    ));
                    log.push(format!("use {}", v));
                }
            }
            c.step();
            c.state(format!("{:?}{}", map, uses.len()).as_bytes());
        }
        let tab = t.read()?;
        let at = |v: u64| map.get(&v).copied().unwrap_or("<unknown>");
        (|| {
            for v in ids.iter().copied().chain([2, 254, 256, MAX_VIRTUAL - 1]) {
                resolve(&tab, StringId::new_virtual(v), at(v))?;
            }
            for (id, v, alone) in &uses {
                let want = if *alone { at(*v).to_string() } else { format!("<{}>", at(*v)) };
                resolve(&tab, *id, &want)?;
            }
            resolve(&tab, StringId::INVALID, "<unknown>")?;
            resolve(&tab, StringId::new(METADATA_ID), "<unknown>")
        })()
        .map_err(|e| format!("{:?}: {}", log, e))?;
        c.validated();
        c.sample(|| format!("{:?}", log));
        Ok(())
    }));
    sc.push(scenario("mappings to every place in the table", |c| {
        // the target is the first or the last string of the table or in the
        // middle, of any length from none, plain or composite
        let texts = ["", "x", "\u{e9}", "some text"];
        let t = Tab::new();
        let fill = |n: usize| {
            for i in 0..n {
                t.b.alloc(["pad", ""][i % 2]);
            }
        };
        fill(c.choose(3));
        let s = *c.pick(&texts);
        let form = c.choose(3);
        let when = c.choose(2);
        let mut user = None;
        let v = StringId::new_virtual(*c.pick(&[0u64, 77, MAX_VIRTUAL]));
        if when == 0 {
            user = Some(t.b.alloc(&[StringComponent::Ref(v), StringComponent::Value("!")]));
        }
        let id = match form {
            0 => t.b.alloc(s),
            1 => t.b.alloc(&[StringComponent::Value(s)]),
            _ => {
                let r = t.b.alloc(s);
                t.b.alloc(&[StringComponent::Ref(r)])
            }
        };
        match c.choose(3) {
            0 => t.b.map_virtual_to_concrete_string(v, id),
            1 => t.b.bulk_map_virtual_to_single_concrete_string([v].into_iter(), id),
            _ => t.b.bulk_map_virtual_to_single_concrete_string((1000..1100u64).map(StringId::new_virtual).chain([v]).collect::<Vec<_>>().into_iter(), id),
        }
        fill(c.choose(3));
        let tab = t.read()?;
        resolve(&tab, v, s)?;
        if let Some(u) = user {
            resolve(&tab, u, &format!("{}!", s))?;
        }
        c.step();
        let key = format!("{:?}", c.choices());
        c.state(key.as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("virtual ids that stand for other virtual ids", |c| {
        // each may be mapped, singly or in bulk, to a text or to a string
        // that is or contains a reference to a later one, in any order
        let n = 3usize;
        let ids = *c.pick(&[[0u64, 1, 2], [MAX_VIRTUAL, 5, 0], [70_000, 1, 70_001]]);
        let t = Tab::new();
        let a = t.b.alloc("A");
        // target of each: 0 unmapped, 1 text, then the forms over a later one
        let mut map: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
        let mut log = vec![];
        let mut uses = vec![];
        for _ in 0..tier(4, 5) {
            let i = c.choose(n + 1);
            if i == n {
                break;
            }
            let j = i + 1 + c.choose(n - i);
            let v = |k: usize| StringId::new_virtual(ids[k]);
            let (form, to) = if j == n {
                (0, a)
            } else {
                let form = 1 + c.choose(3);
                let to = match form {
                    1 => t.b.alloc(&[StringComponent::Ref(v(j))]),
                    2 => t.b.alloc(&[StringComponent::Ref(v(j)), StringComponent::Ref(v(j))][..]),
                    _ => t.b.alloc(&[StringComponent::Value("("), StringComponent::Ref(v(j)), StringComponent::Value(")")]),
                };
                (form, to)
            };
            if c.flag() {
                t.b.bulk_map_virtual_to_single_concrete_string([v(i), StringId::new_virtual(9u64)].into_iter(), to);
            } else {
                t.b.map_virtual_to_concrete_string(v(i), to);
            }
            map.insert(i, (form, j));
            log.push((i, form, j));
            uses.push((to, form, j));
            c.step();
        }
        fn text(map: &BTreeMap<usize, (usize, usize)>, i: usize) -> String {
            match map.get(&i) {
                None => "<unknown>".into(),
                Some(&(form, j)) => shown(map, form, j),
            }
        }
        fn shown(map: &BTreeMap<usize, (usize, usize)>, form: usize, j: usize) -> String {
            match form {
                0 => "A".into(),
                1 => text(map, j),
                2 => text(map, j).repeat(2),
                _ => format!("({})", text(map, j)),
            }
        }
        let tab = t.read()?;
        (|| {
            for i in 0..n {
                resolve(&tab, StringId::new_virtual(ids[i]), &text(&map, i))?;
            }
            for (id, form, j) in &uses {
                resolve(&tab, *id, &shown(&map, *form, *j))?;
            }
            Ok(())
        })()
        .map_err(|e: String| format!("{:?} {:?}: {}", ids, log, e))?;
        c.state(format!("{:?}{:?}", ids, log).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("bulk mappings of every size", |c| {
        let mut sizes: Vec<usize> = (0..tier(600, 3000)).collect();
        for at in [MIN_PAGE / 16, MAX_PAGE / 16, 2 * MAX_PAGE / 16] {
            sizes.extend(at - 12..at + 12);
        }
        let n = *c.pick(&sizes);
        let pre = *c.pick(&[0usize, 1, 7]);
        let t = Tab::new();
        let a = t.b.alloc("old");
        let b = t.b.alloc("bulk");
        let z = t.b.alloc("new");
        for i in 0..pre {
            t.b.map_virtual_to_concrete_string(StringId::new_virtual((1000 + i) as u64), a);
        }
        t.b.bulk_map_virtual_to_single_concrete_string((0..n).map(|i| StringId::new_virtual((1003 + i) as u64)), b);
        t.b.map_virtual_to_concrete_string(StringId::new_virtual(1004u64), z);
        let tab = t.read()?;
        for i in 0..n.max(10) + 8 {
            let v = 1000 + i;
            let want = if v == 1004 {
                "new"
            } else if (1003..1003 + n).contains(&v) {
                "bulk"
            } else if v < 1000 + pre {
                "old"
            } else {
                "<unknown>"
            };
            resolve(&tab, StringId::new_virtual(v as u64), want).map_err(|e| format!("bulk of {} after {} single mappings: {}", n, pre, e))?;
        }
        c.steps(n as u64);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("every kind of id value maps and resolves", |c| {
        // all values whose bits differ little, plus dense ranges
        let mut v: Vec<u64> = vec![];
        for i in 0..27 {
            for j in 0..27 {
                v.push((1u64 << i) | (1 << j));
                v.push((1u64 << i).wrapping_sub(1) | (1 << j));
            }
        }
        v.extend(0..70_000u64);
        v.extend(MAX_VIRTUAL - 70_000..=MAX_VIRTUAL);
        v.retain(|x| *x <= MAX_VIRTUAL);
        v.sort();
        v.dedup();
        let part = c.choose(16);
        let t = Tab::new();
        let mut want = vec![];
        for (k, &x) in v.iter().enumerate() {
            if k % 16 != part {
                continue;
            }
            let s = format!("s{}", x);
            let id = t.b.alloc(&*s);
            t.b.map_virtual_to_concrete_string(StringId::new_virtual(x), id);
            let u = t.b.alloc(&[StringComponent::Ref(StringId::new_virtual(x)), StringComponent::Value("+")]);
            want.push((x, u, s));
        }
        let tab = t.read()?;
        for (x, u, s) in &want {
            resolve(&tab, StringId::new_virtual(*x), s)?;
            resolve(&tab, *u, &format!("{}+", s))?;
        }
        for (k, &x) in v.iter().enumerate() {
            if k % 16 != part {
                resolve(&tab, StringId::new_virtual(x), "<unknown>")?;
            }
        }
        c.steps(want.len() as u64);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("ids that must not be mapped", |c| {
        let bad = [METADATA_ID, METADATA_ID + 1, FIRST_ID, FIRST_ID + 8, 1 << 32, u64::MAX, (1 << 32) | 5];
        let x = *c.pick(&bad);
        let how = c.choose(5);
        let t = Tab::new();
        let a = t.b.alloc("good");
        t.b.alloc_metadata("{meta}");
        t.b.map_virtual_to_concrete_string(StringId::new_virtual(4u64), a);
        let evil = t.b.alloc("evil");
        let r = catches(std::panic::AssertUnwindSafe(|| match how {
            0 => t.b.map_virtual_to_concrete_string(StringId::new(x), evil),
            1 => t.b.bulk_map_virtual_to_single_concrete_string(vec![StringId::new(x)].into_iter(), evil),
            2 => t.b.bulk_map_virtual_to_single_concrete_string(vec![StringId::new(7u64), StringId::new(x), StringId::new(4u64)].into_iter(), evil),
            3 => {
                // many ids: takes the unbuffered way into the index
                let mut v: Vec<_> = (100..200u64).map(StringId::new).collect();
                v.push(StringId::new(x));
                t.b.bulk_map_virtual_to_single_concrete_string(v.into_iter(), evil)
            }
            _ => {
                StringId::new_virtual(x);
            }
        }));
        ensure!(r.is_err(), "mapping id {} (way {}) is accepted", x, how);
        t.b.map_virtual_to_concrete_string(StringId::new_virtual(5u64), a);
        let tab = t.read()?;
        resolve(&tab, StringId::new(METADATA_ID), "{meta}")?;
        ensure!(tab.get_metadata().to_string() == "{meta}", "the metadata entry changed");
        for v in [4u64, 5] {
            resolve(&tab, StringId::new_virtual(v), "good").map_err(|e| format!("after a refused mapping of {}: {}", x, e))?;
        }
        for v in [7u64, 100, 150] {
            resolve(&tab, StringId::new_virtual(v), "<unknown>").map_err(|e| format!("after a refused bulk mapping containing {}: {}", x, e))?;
        }
        c.steps(3);
        c.validated();
        c.state(&[how as u8, x as u8]);
        Ok(())
    }));
    sc.push(scenario("virtual ids through the profiler, mapped before, after and during use", |c| {
        use crate::util::*;
        use common::spec::Pay;
        let stem = c.scratch().join("c08");
        let p = measureme::Profiler::new(&stem).map_err(|e| e.to_string())?;
        let kind = p.alloc_string("k");
        let strs: Vec<_> = ["A", "B"].iter().map(|s| p.alloc_string(*s)).collect();
        let mut map: BTreeMap<u64, usize> = BTreeMap::new();
        let mut evs: Vec<(u64, u64)> = vec![];
        for _ in 0..tier(4, 5) {
            let v = *c.pick(&[0u64, MAX_VIRTUAL]);
            match c.choose(4) {
                k @ (0 | 1) => {
                    p.map_virtual_to_concrete_string(StringId::new_virtual(v), strs[k]);
                    map.insert(v, k);
                }
                2 => {
                    p.bulk_map_virtual_to_single_concrete_string([StringId::new_virtual(v), StringId::new_virtual(3u64)].iter().copied(), strs[1]);
                    map.insert(v, 1);
                    map.insert(3, 1);
                }
                _ => {
                    p.record_integer_event(kind, measureme::EventId::from_virtual(StringId::new_virtual(v)), 0, evs.len() as u64);
                    evs.push((v, evs.len() as u64));
                }
            }
            c.step();
            c.state(format!("{:?}{:?}", map, evs).as_bytes());
        }
        p.record_integer_event(StringId::new_virtual(3u64), measureme::EventId::INVALID, 1, 99);
        drop(p);
        let name = |v: u64| map.get(&v).map(|k| ["A", "B"][*k]).unwrap_or("<unknown>");
        let mut want: Vec<Ev> = evs.iter().map(|(v, n)| Ev::new("k", name(*v), &[], 0, Pay::Integer(*n))).collect();
        want.push(Ev::new(name(3), "<unknown>", &[], 1, Pay::Integer(99)));
        same_events(&open_stem(&stem)?, &want, None)?;
        c.validated();
        Ok(())
    }));
    Check {
        id: "C08",
        scenarios: sc,
        rule: "All histories of single mappings, bulk mappings and uses of virtual ids up to the depth bound, bulk mappings of every size in \
               range and around the page sizes, dense and bit-pattern id values, and every way of mapping a reserved or non-virtual id; \
               every id resolved afterwards against a reference map (latest mapping wins, unmapped shows the placeholder). states = distinct maps."
            .into(),
        assumptions: vec!["mappings target strings that exist in the table".into()],
    }
}
