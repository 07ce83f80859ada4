//! An independent, deliberately boring description of the on-disk format
//! (version 9 of `mm_profdata`): an encoder and a decoder that share no code
//! with the crates under check.

pub const MAX_PAGE: usize = 256 * 1024;
pub const MIN_PAGE: usize = MAX_PAGE / 2;
pub const METADATA_ID: u64 = 100_000_001;
pub const INVALID_ID: u64 = 100_000_002;
pub const FIRST_ID: u64 = 100_000_003;
pub const MAX_VIRTUAL: u64 = 100_000_000;
pub const INSTANT: u64 = 0xFFFF_FFFF_FFFF;
pub const INTEGER: u64 = 0xFFFF_FFFF_FFFE;
pub const MAX_INTERVAL: u64 = 0xFFFF_FFFF_FFFD;

pub const EVENTS: u8 = 0;
pub const STRING_DATA: u8 = 1;
pub const STRING_INDEX: u8 = 2;

pub fn header(magic: &[u8; 4], version: u32) -> Vec<u8> {
    let mut v = magic.to_vec();
    v.extend_from_slice(&version.to_le_bytes());
    v
}

/// Splits `paged` (without the top-level header) into pages. Ok(pages) if it
/// is a whole number of pages, Err((pages, leftover)) if the last is torn.
pub fn pages(paged: &[u8]) -> Result<Vec<(u8, &[u8])>, (Vec<(u8, &[u8])>, usize)> {
    let mut out = vec![];
    let mut pos = 0;
    while pos < paged.len() {
        let rest = &paged[pos..];
        if rest.len() < 5 {
            return Err((out, rest.len()));
        }
        let n = u32::from_le_bytes([rest[1], rest[2], rest[3], rest[4]]) as usize;
        if rest.len() < 5 + n {
            return Err((out, rest.len()));
        }
        out.push((rest[0], &rest[5..5 + n]));
        pos += 5 + n;
    }
    Ok(out)
}

pub fn streams_of(pages: &[(u8, &[u8])]) -> [Vec<u8>; 3] {
    let mut s: [Vec<u8>; 3] = Default::default();
    for (t, b) in pages {
        s[*t as usize].extend_from_slice(b);
    }
    s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pay {
    Interval(u64, u64),
    Instant(u64),
    Integer(u64),
}

pub fn encode_event(kind: u64, id: u64, thread: u32, pay: Pay) -> [u8; 32] {
    let (a, b) = match pay {
        Pay::Interval(s, e) => (s, e),
        Pay::Instant(t) => (t, INSTANT),
        Pay::Integer(v) => (v, INTEGER),
    };
    let mut out = [0u8; 32];
    out[0..8].copy_from_slice(&kind.to_le_bytes());
    out[8..16].copy_from_slice(&id.to_le_bytes());
    out[16..20].copy_from_slice(&thread.to_le_bytes());
    out[20..24].copy_from_slice(&((a & 0xFFFF_FFFF) as u32).to_le_bytes());
    out[24..28].copy_from_slice(&((b & 0xFFFF_FFFF) as u32).to_le_bytes());
    let up = (((a >> 32) & 0xFFFF) << 16) | ((b >> 32) & 0xFFFF);
    out[28..32].copy_from_slice(&(up as u32).to_le_bytes());
    out
}

pub fn decode_event(b: &[u8]) -> (u64, u64, u32, Pay) {
    let u64at = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let u32at = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let up = u32at(28) as u64;
    let a = u32at(20) as u64 | ((up >> 16) << 32);
    let e = u32at(24) as u64 | ((up & 0xFFFF) << 32);
    let pay = if e == INSTANT {
        Pay::Instant(a)
    } else if e == INTEGER {
        Pay::Integer(a)
    } else {
        Pay::Interval(a, e)
    };
    (u64at(0), u64at(8), u32at(16), pay)
}

/// Component of a string as stored.
#[derive(Clone, Debug)]
pub enum Comp {
    Val(String),
    Ref(u64),
}
pub fn encode_string(comps: &[Comp]) -> Vec<u8> {
    let mut v = vec![];
    for c in comps {
        match c {
            Comp::Val(s) => v.extend_from_slice(s.as_bytes()),
            Comp::Ref(id) => {
                v.push(0xFE);
                v.extend_from_slice(&id.to_le_bytes());
            }
        }
    }
    v.push(0xFF);
    v
}

/// Reference resolver over raw stream bytes (with their 8-byte headers).
/// `None` = some needed byte or mapping is missing.
pub struct Strings<'a> {
    pub data: &'a [u8],
    pub index: Vec<(u64, u64)>,
}
impl<'a> Strings<'a> {
    pub fn new(data: &'a [u8], index: &[u8]) -> Self {
        let mut ix = vec![];
        for e in index.get(8..).unwrap_or(&[]).chunks(16) {
            if e.len() == 16 {
                ix.push((
                    u64::from_le_bytes(e[..8].try_into().unwrap()),
                    u64::from_le_bytes(e[8..].try_into().unwrap()),
                ));
            }
        }
        Strings { data, index: ix }
    }
    pub fn get(&self, id: u64) -> Option<String> {
        self.get_depth(id, 0)
    }
    fn get_depth(&self, id: u64, depth: usize) -> Option<String> {
        if depth > 64 {
            return None;
        }
        let addr = if id <= METADATA_ID {
            self.index.iter().rev().find(|(v, _)| *v == id)?.1
        } else if id == INVALID_ID {
            return None;
        } else {
            id - FIRST_ID
        };
        let mut pos = addr as usize;
        let mut out = Vec::new();
        loop {
            match *self.data.get(pos)? {
                0xFF => break,
                0xFE => {
                    let b = self.data.get(pos + 1..pos + 9)?;
                    let r = u64::from_le_bytes(b.try_into().unwrap());
                    out.extend_from_slice(self.get_depth(r, depth + 1)?.as_bytes());
                    pos += 9;
                }
                b => {
                    out.push(b);
                    pos += 1;
                }
            }
        }
        String::from_utf8(out).ok()
    }
}

/// Builds profile files byte by byte.
pub struct Build {
    pub version: u32,
    pub strings: Vec<u8>,
    pub index: Vec<u8>,
    pub events: Vec<u8>,
}
impl Default for Build {
    fn default() -> Self {
        Self::new()
    }
}
impl Build {
    pub fn new() -> Build {
        let mut b = Build {
            version: 9,
            strings: header(b"MMSD", 9),
            index: header(b"MMSI", 9),
            events: header(b"MMES", 9),
        };
        b.meta(0, 0, "test cmd");
        b
    }
    pub fn bare() -> Build {
        Build {
            version: 9,
            strings: header(b"MMSD", 9),
            index: header(b"MMSI", 9),
            events: header(b"MMES", 9),
        }
    }
    pub fn with_meta(start: u64, pid: u32, cmd: &str) -> Build {
        let mut b = Build::bare();
        b.meta(start, pid, cmd);
        b
    }
    pub fn meta(&mut self, start: u64, pid: u32, cmd: &str) {
        let js = serde_json::json!({"start_time": start, "process_id": pid, "cmd": cmd});
        let id = self.string(&js.to_string());
        self.map(METADATA_ID, id);
    }
    pub fn string(&mut self, s: &str) -> u64 {
        let id = self.strings.len() as u64 + FIRST_ID;
        self.strings.extend_from_slice(s.as_bytes());
        self.strings.push(0xFF);
        id
    }
    pub fn composite(&mut self, c: &[Comp]) -> u64 {
        let id = self.strings.len() as u64 + FIRST_ID;
        self.strings.extend_from_slice(&encode_string(c));
        id
    }
    /// An event id made of a label and arguments, stored as one flat string.
    pub fn event_id(&mut self, label: &str, args: &[&str]) -> u64 {
        let mut s = label.to_string();
        for a in args {
            s.push('\x1e');
            s.push_str(a);
        }
        self.string(&s)
    }
    pub fn map(&mut self, virt: u64, id: u64) {
        self.index.extend_from_slice(&virt.to_le_bytes());
        self.index.extend_from_slice(&(id - FIRST_ID).to_le_bytes());
    }
    pub fn event(&mut self, kind: u64, id: u64, thread: u32, pay: Pay) {
        self.events.extend_from_slice(&encode_event(kind, id, thread, pay));
    }
    /// One page per stream.
    pub fn file(&self) -> Vec<u8> {
        let mut v = header(b"MMPD", self.version);
        for (t, s) in [(STRING_DATA, &self.strings), (STRING_INDEX, &self.index), (EVENTS, &self.events)] {
            for c in s.chunks(MAX_PAGE) {
                push_page(&mut v, t, c);
            }
        }
        v
    }
}
pub fn push_page(v: &mut Vec<u8>, tag: u8, bytes: &[u8]) {
    v.push(tag);
    v.extend_from_slice(&(bytes.len() as u32).to_le_bytes());
    v.extend_from_slice(bytes);
}
