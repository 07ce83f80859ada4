//! C01: every stream reads back as exactly the bytes written.
use common::explore::*;
use common::spec::{self, MAX_PAGE, MIN_PAGE};
use common::sup::Check;
use common::{ensure, fail, tier, Res};
use measureme::{split_streams, PageTag, SerializationSink, SerializationSinkBuilder};
use std::io::Write;
use std::sync::OnceLock;

pub const TAGS: [PageTag; 3] = [PageTag::Events, PageTag::StringData, PageTag::StringIndex];
const TABLE: usize = 12 << 20;
static PATTERN: [OnceLock<Vec<u8>>; 3] = [const { OnceLock::new() }; 3];
/// The bytes of stream `s`; a write at position p carries pattern[p..].
pub fn pattern(s: usize) -> &'static [u8] {
    PATTERN[s].get_or_init(|| {
        let mut x = 0x9E3779B97F4A7C15u64.wrapping_mul(s as u64 + 1);
        (0..TABLE)
            .map(|_| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 24) as u8
            })
            .collect()
    })
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Atomic(usize),
    Bytes(usize),
    Adapter(usize),
    /// write_all through the adapter in two pieces
    Pieces(usize),
    /// vectored writes through the adapter, of pieces of these sizes in turn
    Vectored([usize; 3], usize),
    Flush,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Drop,
    FlushDrop,
    IntoBytes,
}
struct World {
    sinks: Vec<Option<SerializationSink>>,
    pos: Vec<usize>,
    file: Option<std::path::PathBuf>,
}
impl World {
    fn new(n: usize, file: Option<std::path::PathBuf>) -> World {
        let b = match &file {
            Some(p) => SerializationSinkBuilder::new_from_file(std::fs::File::create(p).unwrap()).unwrap(),
            None => SerializationSinkBuilder::new_in_memory(),
        };
        World { sinks: (0..n).map(|i| Some(b.new_sink(TAGS[i]))).collect(), pos: vec![0; n], file }
    }
    /// Brings the sink's buffer to `n` bytes.
    fn prefill(&mut self, s: usize, n: usize) -> Res {
        if n > 0 {
            self.apply(s, Op::Atomic(n))?;
        }
        Ok(())
    }
    fn apply(&mut self, s: usize, op: Op) -> Res {
        let pat = pattern(s);
        let pos = self.pos[s];
        let sink = self.sinks[s].as_ref().unwrap();
        let n = match op {
            Op::Atomic(n) => {
                let mut got = None;
                let a = sink.write_atomic(n, |d| {
                    got = Some(d.len());
                    if d.len() == n {
                        d.copy_from_slice(&pat[pos..pos + n])
                    }
                });
                ensure!(got == Some(n), "write_atomic({}) offered a buffer of {:?} bytes", n, got);
                ensure!(a.0 == pos as u64, "write_atomic({}) at position {} returned address {}", n, pos, a.0);
                n
            }
            Op::Bytes(n) => {
                let a = sink.write_bytes_atomic(&pat[pos..pos + n]);
                ensure!(a.0 == pos as u64, "write_bytes_atomic({}) at position {} returned address {}", n, pos, a.0);
                n
            }
            Op::Adapter(n) => {
                sink.as_std_write().write_all(&pat[pos..pos + n]).map_err(|e| e.to_string())?;
                n
            }
            Op::Pieces(n) => {
                let mut w = sink.as_std_write();
                w.write_all(&pat[pos..pos + n / 3]).map_err(|e| e.to_string())?;
                w.write_all(&pat[pos + n / 3..pos + n]).map_err(|e| e.to_string())?;
                n
            }
            Op::Vectored(sizes, times) => {
                let mut w = sink.as_std_write();
                let mut bufs = vec![];
                let mut at = pos;
                for n in std::iter::repeat(sizes).take(times).flatten() {
                    bufs.push(std::io::IoSlice::new(&pat[at..at + n]));
                    at += n;
                }
                // part of it may be taken at a time
                let mut rest = &mut bufs[..];
                std::io::IoSlice::advance_slices(&mut rest, 0);
                while !rest.is_empty() {
                    let n = w.write_vectored(rest).map_err(|e| e.to_string())?;
                    let left: usize = rest.iter().map(|b| b.len()).sum();
                    ensure!(n > 0 && n <= left, "a vectored write of {} bytes takes {}", left, n);
                    std::io::IoSlice::advance_slices(&mut rest, n);
                }
                at - pos
            }
            Op::Flush => {
                sink.as_std_write().flush().map_err(|e| e.to_string())?;
                0
            }
        };
        self.pos[s] += n;
        Ok(())
    }
    fn compare(&self, s: usize, got: &[u8], exact: bool) -> Res {
        let want = &pattern(s)[..self.pos[s]];
        if exact {
            ensure!(got.len() == want.len(), "stream {} has {} bytes, {} were written", s, got.len(), want.len());
        }
        if got != &want[..got.len().min(want.len())] {
            let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(want.len());
            fail!("stream {} differs from what was written, first at offset {}", s, i);
        }
        Ok(())
    }
    /// What a reader of the file sees right now.
    fn read_file(&self, exact: &[bool]) -> Res {
        let data = std::fs::read(self.file.as_ref().unwrap()).unwrap();
        let n = self.sinks.len();
        let pages = match spec::pages(&data) {
            Ok(p) => p,
            Err(_) => fail!("the file does not consist of whole pages"),
        };
        for (t, b) in &pages {
            ensure!((*t as usize) < n && !b.is_empty(), "malformed page: tag {} size {}", t, b.len());
        }
        let streams = spec::streams_of(&pages);
        let lib = split_streams(&data);
        for s in 0..n {
            self.compare(s, &streams[s], exact[s])?;
            let l = lib.get(&TAGS[s]).map(|v| v.as_slice()).unwrap_or(&[]);
            ensure!(l == &streams[s][..], "split_streams reassembles stream {} wrongly", s);
        }
        ensure!(lib.len() == streams.iter().filter(|s| !s.is_empty()).count(), "split_streams returns extra streams");
        Ok(())
    }
    /// Ends all sinks in the given order and compares everything.
    fn finish(mut self, order: &[usize], ends: &[End]) -> Res {
        for &s in order {
            match ends[s] {
                End::Drop => drop(self.sinks[s].take()),
                End::FlushDrop => {
                    self.apply(s, Op::Flush)?;
                    if self.file.is_some() {
                        let ex: Vec<bool> = (0..self.sinks.len()).map(|i| i == s || self.sinks[i].is_none()).collect();
                        self.read_file(&ex)?;
                    }
                    drop(self.sinks[s].take());
                }
                End::IntoBytes => {
                    let b = self.sinks[s].take().unwrap().into_bytes();
                    self.compare(s, &b, true)?;
                }
            }
        }
        if let Some(p) = &self.file {
            self.read_file(&vec![true; self.sinks.len()])?;
            let _ = std::fs::remove_file(p);
        }
        Ok(())
    }
}
fn sizes_edge() -> Vec<usize> {
    vec![
        0, 1, 32, 127, 128, 129, 1000, MIN_PAGE - 1, MIN_PAGE, MIN_PAGE + 1, MAX_PAGE - 1, MAX_PAGE, MAX_PAGE + 1,
        MAX_PAGE + MIN_PAGE - 1, MAX_PAGE + MIN_PAGE, MAX_PAGE + MIN_PAGE + 1, 2 * MAX_PAGE - 1, 2 * MAX_PAGE, 2 * MAX_PAGE + 1,
        3 * MAX_PAGE + 7,
    ]
}
fn levels() -> Vec<usize> {
    vec![
        0, 1, 5, MIN_PAGE - 129, MIN_PAGE - 128, MIN_PAGE - 1, MIN_PAGE, MIN_PAGE + 1, MAX_PAGE - 129, MAX_PAGE - 128,
        MAX_PAGE - 1, MAX_PAGE,
    ]
}
fn ops_of(sizes: &[usize]) -> Vec<Op> {
    let mut v = vec![Op::Flush];
    for &n in sizes {
        v.push(Op::Atomic(n));
        v.push(Op::Bytes(n));
    }
    for &n in sizes {
        v.push(Op::Adapter(n));
    }
    v
}
fn state(c: &mut Ctx, w: &World) {
    let mut b = vec![];
    for p in &w.pos {
        b.extend_from_slice(&(*p as u64).to_le_bytes());
    }
    c.state(&b);
}

pub fn check() -> Check {
    let mut sc = vec![];
    // one in-memory sink, all pairs/triples of operations from boundary sizes
    let depth2 = ops_of(&sizes_edge());
    sc.push(scenario("one sink, two operations of boundary sizes from every boundary fill level", move |c| {
        let lv = levels();
        let lvl = *c.pick(&lv);
        let mut w = World::new(1, None);
        w.prefill(0, lvl)?;
        let mut log = vec![];
        for _ in 0..2 {
            let op = *c.pick(&depth2);
            w.apply(0, op)?;
            c.step();
            state(c, &w);
            log.push(op);
        }
        w.finish(&[0], &[End::IntoBytes]).map_err(|e| format!("fill {}, {:?}: {}", lvl, log, e))?;
        c.validated();
        c.sample(|| format!("buffer filled to {}, then {:?}, into_bytes", lvl, log));
        Ok(())
    }));
    let small = ops_of(tier(&[1, 127, 129, 1000, MIN_PAGE - 1, MIN_PAGE, MAX_PAGE, MAX_PAGE + 1, MAX_PAGE + MIN_PAGE][..], &sizes_edge()[..]));
    sc.push(scenario("one sink, three operations", move |c| {
        let lvl = *c.pick(&[0, MIN_PAGE - 128, MIN_PAGE, MAX_PAGE - 128, MAX_PAGE]);
        let mut w = World::new(1, None);
        w.prefill(0, lvl)?;
        let mut log = vec![];
        for _ in 0..3 {
            let op = *c.pick(&small);
            w.apply(0, op)?;
            c.step();
            state(c, &w);
            log.push(op);
        }
        w.finish(&[0], &[End::IntoBytes]).map_err(|e| format!("fill {}, {:?}: {}", lvl, log, e))?;
        c.validated();
        Ok(())
    }));
    sc.push(scenario("one sink, long histories of a few sizes", move |c| {
        let al = [Op::Atomic(100_000), Op::Bytes(100_000), Op::Bytes(200), Op::Atomic(1), Op::Pieces(60_000), Op::Flush];
        let mut w = World::new(1, None);
        let mut log = vec![];
        for _ in 0..tier(6, 8) {
            let op = *c.pick(&al);
            w.apply(0, op)?;
            c.step();
            state(c, &w);
            log.push(op);
        }
        w.finish(&[0], &[End::IntoBytes]).map_err(|e| format!("{:?}: {}", log, e))?;
        c.validated();
        Ok(())
    }));
    sc.push(scenario("writes abandoned by a panic in between", move |c| {
        let file = if c.flag() { Some(c.scratch().join("c01p")) } else { None };
        let lvl = *c.pick(&[0, 40, MIN_PAGE, MAX_PAGE - 10]);
        let w = World::new(2, file);
        let mut want: Vec<(usize, u64, Vec<u8>)> = vec![];
        let mut log = vec![];
        let put = |want: &mut Vec<(usize, u64, Vec<u8>)>, s: usize, n: usize, how: usize| {
            let sink = w.sinks[s].as_ref().unwrap();
            let id = want.len() as u8;
            let data: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7) ^ id.wrapping_mul(31)).collect();
            let a = match how {
                0 => sink.write_atomic(n, |m| m.copy_from_slice(&data)),
                _ => sink.write_bytes_atomic(&data),
            };
            want.push((s, a.0, data));
        };
        if lvl > 0 {
            put(&mut want, 0, lvl, 0);
        }
        for _ in 0..tier(3, 4) {
            let s = c.choose(2);
            let op = c.choose(6);
            log.push((s, op));
            c.step();
            match op {
                0 => put(&mut want, s, 5, 0),
                1 => put(&mut want, s, 300, 1),
                2 => put(&mut want, s, MAX_PAGE + 1, 0),
                n => {
                    let n = [7, 100, MAX_PAGE + 1][n - 3];
                    let r = catches(|| {
                        w.sinks[s].as_ref().unwrap().write_atomic(n, |m| {
                            m[..n / 2].fill(0xEE);
                            panic!("abandoned");
                        })
                    });
                    ensure!(r.is_err(), "the panic of a callback disappears");
                }
            }
        }
        put(&mut want, 0, 9, 0);
        put(&mut want, 1, 9, 0);
        let streams: [Vec<u8>; 2] = match &w.file {
            Some(p) => {
                let p = p.clone();
                drop(w);
                let b = std::fs::read(p).map_err(|e| e.to_string())?;
                let s = spec::streams_of(&spec::pages(&b).map_err(|_| "torn pages")?);
                [s[0].clone(), s[1].clone()]
            }
            None => {
                let mut w = w;
                [w.sinks[0].take().unwrap().into_bytes(), w.sinks[1].take().unwrap().into_bytes()]
            }
        };
        let mut end = [0u64; 2];
        for (i, (s, a, data)) in want.iter().enumerate() {
            ensure!(*a >= end[*s], "{:?}: write {} is at {}, the one before ends at {}", log, i, a, end[*s]);
            end[*s] = a + data.len() as u64;
            ensure!(streams[*s].get(*a as usize..end[*s] as usize) == Some(&data[..]), "{:?}: write {} of {} bytes is not found at its address {}", log, i, data.len(), a);
        }
        c.state(format!("{}{:?}", lvl, log).as_bytes());
        c.validated();
        Ok(())
    }));
    // single-axis sweeps: every size, every fill level
    sc.push(scenario("every write size, written as a slice", |c| {
        let lvl = *c.pick(&[0, MIN_PAGE, MAX_PAGE]);
        let hi = 2 * MAX_PAGE + MIN_PAGE + 300;
        let chunk = 256;
        let base = c.choose(hi / chunk) * chunk;
        for n in base..base + chunk {
            // all sizes near thresholds and (quick) every 8th elsewhere
            if !common::thorough() && lvl != 0 && n > 9000 && n % 4 != 0 && [MIN_PAGE, MAX_PAGE, MAX_PAGE + MIN_PAGE, 2 * MAX_PAGE].iter().all(|t| n.abs_diff(*t) > 300) {
                continue;
            }
            let mut w = World::new(1, None);
            w.prefill(0, lvl)?;
            w.apply(0, Op::Bytes(n))?;
            w.apply(0, Op::Atomic(3))?;
            c.steps(2);
            state(c, &w);
            w.finish(&[0], &[End::IntoBytes]).map_err(|e| format!("fill {}, slice write of {}: {}", lvl, n, e))?;
            c.validated();
        }
        Ok(())
    }));
    sc.push(scenario("every small write size through the callback interface", |c| {
        let lvl = *c.pick(&[0, MAX_PAGE - 1000]);
        let chunk = 64;
        let base = c.choose(tier(65536, MAX_PAGE + 1024) / chunk) * chunk;
        for n in base..base + chunk {
            let mut w = World::new(1, None);
            w.prefill(0, lvl)?;
            w.apply(0, Op::Atomic(n))?;
            w.apply(0, Op::Bytes(n % 200))?;
            c.steps(2);
            w.finish(&[0], &[End::IntoBytes]).map_err(|e| format!("fill {}, callback write of {}: {}", lvl, n, e))?;
            c.validated();
        }
        Ok(())
    }));
    sc.push(scenario("every fill level of the page buffer", |c| {
        let chunk = 256;
        let base = c.choose(MAX_PAGE / chunk + 1) * chunk;
        for lvl in base..(base + chunk).min(MAX_PAGE + 1) {
            let near = lvl < 2000 || lvl.abs_diff(MIN_PAGE) < 2000 || lvl + 2000 > MAX_PAGE;
            if !near && !common::thorough() && lvl % 8 != 0 {
                continue;
            }
            for op in [Op::Atomic(32), Op::Bytes(100), Op::Bytes(129), Op::Bytes(1500), Op::Atomic(1500)] {
                let mut w = World::new(1, None);
                w.prefill(0, lvl)?;
                w.apply(0, op)?;
                w.apply(0, Op::Atomic(1))?;
                c.steps(2);
                state(c, &w);
                w.finish(&[0], &[End::IntoBytes]).map_err(|e| format!("fill {}, {:?}: {}", lvl, op, e))?;
                c.validated();
            }
        }
        Ok(())
    }));
    // many small writes: total volume crosses several pages
    sc.push(scenario("many writes of one size until several pages are full", |c| {
        let n = c.choose(tier(300, 1200)) + 1;
        let mix = c.choose(3);
        let mut w = World::new(1, None);
        let mut i = 0;
        while w.pos[0] < 2 * MAX_PAGE + 5000 {
            let op = match (mix, i % 3) {
                (0, _) | (2, 0) => Op::Atomic(n),
                (1, _) | (2, 1) => Op::Bytes(n),
                _ => Op::Bytes(n + 128),
            };
            w.apply(0, op)?;
            i += 1;
        }
        c.steps(i);
        w.finish(&[0], &[End::IntoBytes]).map_err(|e| format!("writes of {} ({}): {}", n, mix, e))?;
        c.validated();
        Ok(())
    }));
    sc.push(scenario("vectored writes of slices of every size", |c| {
        let sizes = [0, 1, 100, 128, 129, 255, 256, 257, 1000, MIN_PAGE - 1, MIN_PAGE, MIN_PAGE + 1, MAX_PAGE, MAX_PAGE + 1];
        let lvl = *c.pick(&[0, 1, MIN_PAGE - 128, MIN_PAGE, MAX_PAGE - 1, MAX_PAGE]);
        let three = [*c.pick(&sizes), *c.pick(&sizes), *c.pick(&sizes)];
        let mut w = World::new(1, None);
        w.prefill(0, lvl)?;
        let long = three.iter().sum::<usize>() > 2000;
        let ops = [Op::Vectored(three, 1), Op::Atomic(9), Op::Vectored(three, if long { 2 } else { 700 }), Op::Bytes(9)];
        for op in ops {
            w.apply(0, op).map_err(|e| format!("fill {}, slices {:?}: {}", lvl, three, e))?;
            c.step();
            state(c, &w);
        }
        w.finish(&[0], &[End::IntoBytes]).map_err(|e| format!("fill {}, slices {:?}: {}", lvl, three, e))?;
        c.validated();
        Ok(())
    }));
    // several sinks on one store
    let multi =
        vec![Op::Flush, Op::Atomic(7), Op::Bytes(200), Op::Adapter(MIN_PAGE), Op::Bytes(MIN_PAGE + 9), Op::Atomic(MAX_PAGE), Op::Bytes(2 * MAX_PAGE + 1)];
    for file in [false, true] {
        let multi = multi.clone();
        sc.push(scenario(if file { "three sinks on one file" } else { "three sinks in memory" }, move |c| {
            let path = file.then(|| c.scratch().join("c01.bin"));
            let mut w = World::new(3, path);
            let depth = tier(3, 4);
            let mut log = vec![];
            let mut used = 0; // sinks are interchangeable except for their tag: use them in order
            for _ in 0..depth {
                let s = c.choose((used + 1).min(3));
                used = used.max(s + 1);
                let op = *c.pick(&multi);
                w.apply(s, op)?;
                c.step();
                state(c, &w);
                log.push((s, op));
            }
            let ends: Vec<End> = match c.choose(3) {
                0 => vec![End::Drop; 3],
                1 => vec![End::FlushDrop; 3],
                _ if file => vec![End::FlushDrop, End::Drop, End::FlushDrop],
                _ => vec![End::IntoBytes; 3],
            };
            let order = [[0usize, 1, 2], [2, 1, 0], [1, 2, 0]][c.choose(3)];
            // dropped in-memory sinks leave nothing to look at: read them out instead
            let ends = if file { ends } else { vec![End::IntoBytes; 3] };
            w.finish(&order, &ends).map_err(|e| format!("{:?} then {:?} in order {:?}: {}", log, ends, order, e))?;
            c.validated();
            c.sample(|| format!("{:?}, ended {:?} in order {:?}", log, ends, order));
            Ok(())
        }));
    }
    // split_streams itself, on hand-made page sequences
    sc.push(scenario("reading: every interleaving of pages", |c| {
        let n = c.choose(tier(7, 8));
        let mut data = vec![];
        let mut want: [Vec<u8>; 3] = Default::default();
        for i in 0..n {
            let t = c.choose(3);
            let len = *c.pick(&[1usize, 2, 300]);
            let b: Vec<u8> = (0..len).map(|k| (i * 50 + k) as u8).collect();
            spec::push_page(&mut data, t as u8, &b);
            want[t].extend_from_slice(&b);
            c.step();
        }
        let got = split_streams(&data);
        for t in 0..3 {
            let g = got.get(&TAGS[t]).map(|v| v.as_slice()).unwrap_or(&[]);
            ensure!(g == &want[t][..], "stream {} of a file of {} pages is read wrongly", t, n);
        }
        c.validated();
        Ok(())
    }));
    sc.push(scenario("reading: every page size", |c| {
        let chunk = 512;
        let base = c.choose(MAX_PAGE / chunk) * chunk;
        for k in 0..chunk {
            let n = base + k + 1;
            let mut data = vec![];
            spec::push_page(&mut data, 1, &pattern(0)[..n]);
            spec::push_page(&mut data, 0, b"tail");
            let got = split_streams(&data);
            ensure!(got.get(&TAGS[1]).map(|v| &v[..] == &pattern(0)[..n]) == Some(true), "page of {} bytes is read wrongly", n);
            ensure!(got.get(&TAGS[0]).map(|v| &v[..] == b"tail") == Some(true), "page after a page of {} bytes is read wrongly", n);
            c.validated();
        }
        Ok(())
    }));
    Check {
        id: "C01",
        scenarios: sc,
        rule: "All operation sequences (interface x boundary size x boundary buffer fill level, single sizes swept over their whole \
               range) on the real sinks, against a reference model in which stream s is a fixed byte pattern and a write is the next \
               stretch of it; addresses, read-back (independent page reader and split_streams), flush, drop and into_bytes compared. \
               states = distinct model positions, transitions = operations."
            .into(),
        assumptions: vec![
            "the page constants of the implementation (256 KiB, 128 KiB, 128) place the boundary values; a sweep covers the rest of the range".into(),
            "quick sweeps thin out sizes far from every threshold; thorough covers each size".into(),
        ],
    }
}
