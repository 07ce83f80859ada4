//! C12: files that are not readable profiles are refused with an error.
use crate::util::*;
use analyzeme::ProfilingData;
use common::explore::*;
use common::spec::{self, Build, Pay};
use common::sup::Check;
use common::{ensure, fail, tier, Res};

/// Whether `data` opens; panics are failures.
fn opens(data: &[u8]) -> Result<bool, String> {
    match catches(|| ProfilingData::from_paged_buffer(data.to_vec(), None)) {
        Ok(r) => Ok(r.is_ok()),
        Err(m) => Err(format!("opening it panics: {}", m)),
    }
}
fn decodes(data: &[u8]) -> Result<bool, String> {
    match catches(|| decodeme::EventDecoder::new(data.to_vec(), None)) {
        Ok(r) => Ok(r.is_ok()),
        Err(m) => Err(format!("decoding it panics: {}", m)),
    }
}
fn want_open(data: &[u8], want: bool, what: &dyn Fn() -> String) -> Res {
    match opens(data) {
        Ok(o) if o == want => Ok(()),
        Ok(o) => fail!("{} {}", what(), if o { "is opened" } else { "is refused" }),
        Err(e) => fail!("{}: {}", what(), e),
    }
}
fn sample() -> Vec<Ev> {
    vec![Ev::new("k", "l", &["a"], 1, Pay::Interval(1, 2)), Ev::new("k", "l", &[], 1, Pay::Integer(3))]
}
fn v9() -> [Vec<u8>; 3] {
    streams(&file_of(&sample(), Store::Flat)).unwrap()
}
fn v8() -> [Vec<u8>; 3] {
    streams(&crate::v8::file_of(&sample())).unwrap()
}
fn parts(v: u32) -> [Vec<u8>; 3] {
    if v == 8 {
        v8()
    } else {
        v9()
    }
}
fn join(head: &[u8], s: &[Vec<u8>; 3], order: &[usize]) -> Vec<u8> {
    let mut v = head.to_vec();
    for &i in order {
        if !s[i].is_empty() {
            spec::push_page(&mut v, i as u8, &s[i]);
        }
    }
    v
}
const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
const MAGICS: [&[u8; 4]; 4] = [b"MMPD", b"MMES", b"MMSD", b"MMSI"];
fn magic_of(stream: usize) -> &'static [u8; 4] {
    [b"MMES", b"MMSD", b"MMSI"][stream]
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("every change of up to two bytes of the file header", |c| {
        let v = *c.pick(&[9u32, 8]);
        let s = parts(v);
        let good = spec::header(b"MMPD", v);
        let i = c.choose(8);
        let j = i + c.choose(8 - i);
        let x = c.choose(256) as u8;
        for y in 0..=255u8 {
            let mut h = good.clone();
            h[i] = x;
            h[j] = y;
            let f = join(&h, &s, &ORDERS[3]);
            // the other supported version in front of this one's streams is refused too
            want_open(&f, h == good, &|| format!("a version {} profile with the file header {:x?}", v, h))?;
            if v == 9 && decodes(&f)? != (h == good) {
                fail!("the decoder: file header {:x?} accepted or refused wrongly", h);
            }
        }
        c.steps(256);
        c.state(&[v as u8, i as u8, j as u8, x]);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("every change of up to two bytes of a stream header", |c| {
        let v = *c.pick(&[9u32, 8]);
        let which = c.choose(3);
        let i = c.choose(8);
        let j = i + c.choose(8 - i);
        let x = c.choose(256) as u8;
        let mut s = parts(v);
        let good = s[which][..8].to_vec();
        for y in 0..=255u8 {
            s[which][..8].copy_from_slice(&good);
            s[which][i] = x;
            s[which][j] = y;
            let f = join(&spec::header(b"MMPD", v), &s, &ORDERS[0]);
            let want = s[which][..8] == good[..];
            want_open(&f, want, &|| format!("a version {} profile whose {:?} stream has the header {:x?}", v, magic_of(which), &s[which][..8]))?;
            if v == 9 {
                let r = catches(|| decodeme::EventDecoder::from_separate_buffers(s[1].clone(), s[2].clone(), s[0].clone(), None).is_ok());
                ensure!(r == Ok(want), "decoding separate streams with header {:x?} of {:?}: {:?}", &s[which][..8], magic_of(which), r);
            }
        }
        c.steps(256);
        c.state(&[v as u8, which as u8, i as u8, j as u8, x]);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("signatures in the wrong place", |c| {
        let v = *c.pick(&[9u32, 8]);
        let m: Vec<usize> = (0..4).map(|_| c.choose(4)).collect();
        let ver: Vec<u32> = (0..4).map(|_| *c.pick(&[8u32, 9])).collect();
        let mut s = parts(v);
        for k in 0..3 {
            s[k][..8].copy_from_slice(&spec::header(MAGICS[m[k + 1]], ver[k + 1]));
        }
        let want = m == [0, 1, 2, 3] && ver.iter().all(|x| *x == v);
        for o in &ORDERS {
            // decoding v9 streams as v8 when everything says v8 is not a header matter
            if m == [0, 1, 2, 3] && ver.iter().all(|x| *x == ver[0]) && ver[0] != v {
                continue;
            }
            let f = join(&spec::header(MAGICS[m[0]], ver[0]), &s, o);
            want_open(&f, want, &|| format!("a version {} profile with signatures {:?} and versions {:?}, pages ordered {:?}", v, m, ver, o))?;
        }
        c.steps(6);
        c.state(format!("{:?}{:?}{}", m, ver, v).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("every format version", |c| {
        // quick: the low 16 bits; thorough: all 2^32
        let per = tier(256u64, 1 << 24);
        let chunk = c.choose(256) as u64;
        let s = v9();
        let o = v8();
        for n in chunk * per..(chunk + 1) * per {
            let n = n as u32;
            if n == 8 || n == 9 {
                want_open(&join(&spec::header(b"MMPD", n), if n == 8 { &o } else { &s }, &ORDERS[1]), true, &|| format!("a profile of version {}", n))?;
                continue;
            }
            let h = spec::header(b"MMPD", n);
            want_open(&h, false, &|| format!("a file of version {}", n))?;
            if n % 256 < 16 {
                want_open(&join(&h, &s, &ORDERS[0]), false, &|| format!("a profile of version {}", n))?;
                want_open(&join(&h, &o, &ORDERS[0]), false, &|| format!("a profile of version {}", n))?;
            }
        }
        c.steps(per);
        c.state(&chunk.to_le_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("every version of the headers themselves", |c| {
        let per = tier(1u64 << 16, 1 << 24);
        let chunk = c.choose(256) as u64;
        let stride = (1u64 << 24) / per;
        for n in 0..per {
            let n = (chunk * (1 << 24) + n * stride + (n & 15).min(stride - 1)) as u32;
            let h = spec::header(b"MMSI", n);
            let ok = measureme::file_header::verify_file_header(&h, b"MMSI", None, "x").is_ok();
            ensure!(ok == (n == 9), "verify_file_header on version {} says {}", n, ok);
        }
        for n in [0u32, 7, 8, 9, 10, 255, 256, 265, 0x0900_0000, 0x0009_0000, u32::MAX] {
            let h = spec::header(b"MMPD", n);
            match decodeme::read_file_header(&h, b"MMPD", None, "x") {
                Ok(m) if m == n => {}
                r => fail!("read_file_header on version {} says {:?}", n, r.map_err(|e| e.to_string())),
            }
        }
        c.steps(per);
        c.state(&chunk.to_le_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("files and streams that are too short or missing", |c| {
        let v = *c.pick(&[9u32, 8]);
        let order = c.choose(6);
        // per stream: missing, 1..=7 bytes, whole
        let cut: Vec<usize> = (0..3).map(|_| c.choose(9)).collect();
        let all = parts(v);
        let mut s = all.clone();
        for k in 0..3 {
            if cut[k] < 8 {
                s[k].truncate(cut[k]);
            }
        }
        let head = spec::header(b"MMPD", v);
        let f = join(&head, &s, &ORDERS[order]);
        want_open(&f, cut.iter().all(|x| *x == 8), &|| format!("a version {} profile with streams cut to {:?} bytes (0 = missing, 8 = whole)", v, cut))?;
        if cut.iter().all(|x| *x == 8) {
            same_events(&open_bytes(f)?, &sample(), None)?;
        }
        for n in 0..=8 {
            want_open(&head[..n], false, &|| format!("a file of the first {} header bytes", n))?;
            let e = decodes(&head[..n]);
            ensure!(e == Ok(false), "the decoder on a file of {} header bytes: {:?}", n, e);
        }
        c.step();
        c.state(format!("{:?}{}{}", cut, order, v).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("files on disk", |c| {
        let p = c.scratch().join("c12.mm_profdata");
        let kind = c.choose(9);
        let good = file_of(&sample(), Store::Flat);
        let data: Option<Vec<u8>> = match kind {
            0 => None,
            1 => Some(vec![]),
            2 => Some(good[..c.choose(8)].to_vec()),
            3 => Some(b"this is not a profile, just text".to_vec()),
            4 => Some(vec![0; 100_000]),
            5 => Some([b"MMPD\x07\0\0\0", &good[8..]].concat()),
            6 => Some([b"MMPD\x0a\0\0\0", &good[8..]].concat()),
            7 => Some([b"MMES\x09\0\0\0", &good[8..]].concat()),
            _ => Some(good),
        };
        let _ = std::fs::remove_file(&p);
        if let Some(d) = &data {
            std::fs::write(&p, d).unwrap();
        }
        let r = catches(|| ProfilingData::new(&p).map(|_| ()).map_err(|e| e.to_string()));
        match (kind, r) {
            (8, Ok(Ok(()))) => {}
            (8, r) => fail!("a good profile on disk: {:?}", r),
            (_, Ok(Err(m))) => ensure!(!m.is_empty(), "refused without a message"),
            (_, r) => fail!("file of kind {} on disk: {:?}", kind, r),
        }
        c.step();
        c.state(&[kind as u8]);
        c.validated();
        Ok(())
    }));
    sc.push(scenario("files the library writes", |c| {
        let n = *c.pick(&[0usize, 1, 100, 8191, 20_000]);
        let strings = *c.pick(&[0usize, 1, 40_000]);
        let stem = c.scratch().join("c12w");
        let p = measureme::Profiler::new(&stem).map_err(|e| e.to_string())?;
        let k = p.alloc_string("k");
        for i in 0..strings {
            let s = p.alloc_string(&*format!("some string {}", i));
            p.map_virtual_to_concrete_string(measureme::StringId::new_virtual(i as u64), s);
        }
        for i in 0..n {
            p.record_integer_event(k, measureme::EventId::from_label(k), 0, i as u64);
        }
        drop(p);
        let f = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| e.to_string())?;
        ensure!(f[..8] == spec::header(b"MMPD", 9)[..], "the file starts with {:x?}", &f[..8]);
        let s = streams(&f)?;
        for k in 0..3 {
            ensure!(s[k].len() >= 8 && s[k][..8] == spec::header(magic_of(k), 9)[..], "stream {} starts with {:x?}", k, &s[k][..8.min(s[k].len())]);
        }
        for m in MAGICS {
            let mut out = vec![];
            measureme::file_header::write_file_header(&mut out, m).map_err(|e| e.to_string())?;
            ensure!(out == spec::header(m, 9), "write_file_header({:?}) writes {:x?}", m, out);
            ensure!(measureme::file_header::strip_file_header(&[&out[..], b"rest"].concat()) == b"rest", "strip_file_header");
        }
        let mut b = Build::new();
        let id = b.string("x");
        b.event(id, id, 0, Pay::Integer(0));
        ensure!(open_bytes(b.file())?.num_events() == 1, "a hand-built profile does not open");
        c.steps((n + strings) as u64);
        c.state(&[n as u8, strings as u8]);
        c.validated();
        Ok(())
    }));
    Check {
        id: "C12",
        scenarios: sc,
        rule: "Every change of one or two bytes of the file header and of each stream header, every placement of the four signatures and both \
               supported versions, every version number in range (all 2^32 in the thorough tier), every combination of missing, 1..7-byte and \
               whole streams in every page order, for both supported formats; opening must succeed exactly for the unmodified file and \
               otherwise return an error (a panic is a violation). states = distinct header configurations."
            .into(),
        assumptions: vec!["page headers themselves are intact (torn pages are C13)".into()],
    }
}
