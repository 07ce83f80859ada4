//! C31: what the tools print depends only on what was recorded.
use crate::cli::{tool_in, Out};
use crate::trace::*;
use crate::util::*;
use crate::v8;
use common::explore::*;
use common::spec::{self, MAX_PAGE};
use common::sup::Check;
use common::{ensure, tier};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

/// The tools' commands and the file the result goes to.
const RUNS: [(&str, &[&str], Option<&str>); 14] = [
    ("mmview", &["p"], None),
    ("summarize", &["summarize", "p"], None),
    ("summarize", &["summarize", "p", "-p", "5"], None),
    ("summarize", &["summarize", "p", "--json"], Some("p.json")),
    ("summarize", &["diff", "p", "q"], None),
    ("summarize", &["diff", "q", "p"], None),
    ("summarize", &["diff", "p", "q", "--json"], Some("q.json")),
    ("summarize", &["aggregate", "p", "r"], None),
    ("stack_collapse", &["p"], Some("out.stacks_folded")),
    ("flamegraph", &["p"], Some("rustc.svg")),
    ("crox", &["p", "q"], Some("chrome_profiler.json")),
    ("crox", &["p", "q", "--collapse-threads"], Some("chrome_profiler.json")),
    ("crox", &["p", "--minimum-duration", "1"], Some("chrome_profiler.json")),
    // last: its result depends on the pages of the profile
    ("mmedit", &["truncate", "p.mm_profdata"], Some("p.truncated.mm_profdata")),
];

/// Stands in for the system's source of randomness.
const SHIM: &str = "
#include <stddef.h>
#include <stdlib.h>
#include <sys/types.h>
static void fill(unsigned char *b, size_t n) {
    const char *s = getenv(\"C31_SEED\");
    unsigned long x = (s ? strtoul(s, 0, 10) : 0) * 0x9E3779B97F4A7C15ul + 1;
    for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x >> 32; }
}
ssize_t getrandom(void *b, size_t n, unsigned int f) { (void)f; fill(b, n); return n; }
int getentropy(void *b, size_t n) { fill(b, n); return 0; }
";
fn shim() -> Option<&'static Path> {
    static S: OnceLock<Option<PathBuf>> = OnceLock::new();
    S.get_or_init(|| {
        let d = common::scratch_root();
        std::fs::create_dir_all(&d).ok()?;
        let c = d.join(format!("shim{}.c", std::process::id()));
        let so = c.with_extension("so");
        std::fs::write(&c, SHIM).ok()?;
        let r = std::process::Command::new("cc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&so).arg(&c).output().ok()?;
        r.status.success().then_some(so)
    })
    .as_deref()
}
fn seeded(seed: usize) -> Vec<(String, String)> {
    let so = shim().expect("HARNESS: the stand-in for getrandom cannot be built");
    vec![("LD_PRELOAD".into(), so.display().to_string()), ("C31_SEED".into(), seed.to_string())]
}
/// Run as a process of its own: shows the order of a randomly seeded set.
pub fn probe() -> ! {
    let s: std::collections::HashSet<u32> = (0..20).collect();
    println!("{:?}", s.iter().collect::<Vec<_>>());
    std::process::exit(0);
}
fn probed(seed: usize) -> Vec<u8> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.env("MC_PROBE", "1").envs(seeded(seed));
    c.output().expect("HARNESS: the probe does not run").stdout
}

/// Colours of a flame graph are chosen at random and mean nothing.
fn colourless(b: Vec<u8>) -> Vec<u8> {
    let s = String::from_utf8_lossy(&b).into_owned();
    let mut out = String::new();
    let mut it = s.split("fill=\"rgb(");
    out.push_str(it.next().unwrap());
    for x in it {
        out.push_str("fill=\"");
        out.push_str(x.split_once(')').map(|y| y.1).unwrap_or(""));
    }
    out.into_bytes()
}
fn result(d: &Path, run: &(&str, &[&str], Option<&str>), env: &[(String, String)]) -> Result<Vec<u8>, String> {
    if let Some(f) = run.2 {
        let _ = std::fs::remove_file(d.join(f));
    }
    let o: Out = tool_in(run.0, run.1, d, env);
    ensure!(o.code == Some(0), "{} {:?} ends with {:?}: {}", run.0, run.1, o.code, o.err);
    Ok(match run.2 {
        Some(f) => {
            let b = std::fs::read(d.join(f)).map_err(|e| format!("{}: {}", f, e))?;
            if run.0 == "flamegraph" {
                colourless(b)
            } else {
                b
            }
        }
        None => o.out.into_bytes(),
    })
}
fn differ(a: &[u8], b: &[u8]) -> String {
    let (a, b) = (String::from_utf8_lossy(a).into_owned(), String::from_utf8_lossy(b).into_owned());
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            let i = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count().saturating_sub(60);
            let cut = |s: &str| s.bytes().skip(i).take(200).map(|b| b as char).collect::<String>();
            return format!("`{}` or `{}`", cut(x), cut(y));
        }
    }
    format!("{} or {} bytes", a.len(), b.len())
}
/// A profile in which many things are equally large.
fn tied(labels: usize, artifacts: usize, threads: u32, ties: usize, shift: u64) -> Trace {
    let mut t = Trace::default();
    for th in 0..threads {
        let mut at = 100;
        for i in 0..labels {
            let len = match ties {
                0 => 1_000,
                1 => 1_000 + 50 * (i as u64 / 2),
                _ => 1_000 + 50 * i as u64,
            } + shift;
            let l = format!("label {}", i);
            let args: &[&str] = [&[][..], &["a"], &["a", "b", "c"], &["f", "e", "d", "c", "b", "a", "h", "g"]][(i + 3) % 4];
            t.start(th, if i % 3 == 2 { ACTIVITY } else { QUERY }, &l, args, at);
            t.whole(th, QUERY, &format!("inner {}", i % 4), at + 10, at + 20);
            t.whole(th, LOAD, &l, at + 30, at + 40);
            t.instant(th, HIT, &format!("hit {}", i), args, at + 50);
            t.end(th, at + len);
            at += len + 5;
        }
        for i in 0..artifacts {
            let v = match ties {
                0 => 7,
                1 => 7 + i as u64 / 2,
                _ => i as u64,
            } + shift;
            t.integer(th, ARTIFACT, &format!("artifact {}", i), v);
        }
    }
    t
}
/// The profiles p, q and r (like p, at other times) of one case.
fn case(c: &mut Ctx, d: &Path) -> (Trace, Trace, String) {
    let labels = *c.pick(tier(&[1usize, 2, 3, 12], &[1, 2, 3, 4, 5, 12, 40]));
    let artifacts = *c.pick(tier(&[0usize, 2, 3, 12], &[0, 1, 2, 3, 4, 12, 40]));
    let threads = *c.pick(&[1u32, 3]);
    let ties = c.choose(3);
    let p = tied(labels, artifacts, threads, ties, 0);
    let q = match c.choose(3) {
        0 => tied(labels, artifacts, threads, ties, 3),
        1 => tied(labels / 2 + 1, artifacts / 2, threads, 0, 0),
        _ => tied(labels + 2, artifacts + 2, 1, 0, 0),
    };
    let w = |n: &str, t: &Trace| std::fs::write(d.join(n), file_of(&t.evs, Store::Flat)).unwrap();
    w("p.mm_profdata", &p);
    w("q.mm_profdata", &q);
    w("r.mm_profdata", &tied(labels, artifacts, threads, ties, 40));
    let s = format!("{} labels, {} artifacts, {} threads, ties {}", labels, artifacts, threads, ties);
    (p, q, s)
}
fn dir(c: &Ctx) -> PathBuf {
    let d = c.scratch().join("c31");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn possible(run: &(&str, &[&str], Option<&str>), what: &str) -> bool {
    // several threads cannot be aggregated
    !(run.1[0] == "aggregate" && what.contains("3 threads"))
}
/// The same profile in other forms.
const FORMS: usize = 8;
fn form(t: &Trace, n: usize) -> Vec<u8> {
    let store = [Store::Flat, Store::Composite, Store::Virtual][n % 3];
    match n {
        0..=2 => file_of(&t.evs, store),
        3 | 4 => {
            // pages in another order, cut to pieces
            let mut w = Writer::new(store);
            for e in &t.evs {
                w.event(e);
            }
            let mut v = spec::header(b"MMPD", 9);
            let mut rest = [(0u8, &w.b.events[..]), (2, &w.b.index[..]), (1, &w.b.strings[..])];
            let size = if n == 3 { 40 } else { 1000 };
            while rest.iter().any(|r| !r.1.is_empty()) {
                for r in &mut rest {
                    let k = r.1.len().min(size).min(MAX_PAGE);
                    if k > 0 {
                        spec::push_page(&mut v, r.0, &r.1[..k]);
                    }
                    r.1 = &r.1[k..];
                }
            }
            v
        }
        5 => {
            // other ids: many strings nobody uses in front
            let mut w = Writer::new(store);
            for i in 0..300 {
                w.text(&format!("unused {}", i));
            }
            for e in &t.evs {
                w.event(e);
            }
            w.b.file()
        }
        6 => v8::file_of(&t.evs),
        _ => {
            let mut o = v8::Old::new(0, 0, "test cmd");
            for e in &t.evs {
                o.event_as(e, store);
            }
            o.file()
        }
    }
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("the stand-in for the source of randomness", |c| {
        let a = c.choose(8);
        ensure!(probed(a) == probed(a), "HARNESS: hash seeds are not under control");
        ensure!((0..8).any(|b| probed(a) != probed(b)), "HARNESS: hash seeds make no difference");
        c.step();
        Ok(())
    }));
    sc.push(scenario("runs with every hash seed of a set", |c| {
        let d = dir(c);
        let (_, _, what) = case(c, &d);
        let run = c.pick(&RUNS).clone();
        if !possible(&run, &what) {
            return Ok(());
        }
        let first = result(&d, &run, &seeded(0))?;
        for seed in 1..tier(4, 10) {
            let b = result(&d, &run, &seeded(seed))?;
            ensure!(first == b, "{}: {} {:?} depends on the hash seed: {}", what, run.0, run.1, differ(&first, &b));
            c.step();
        }
        let b = result(&d, &run, &[])?;
        ensure!(first == b, "{}: {} {:?} differs when run again: {}", what, run.0, run.1, differ(&first, &b));
        c.state(format!("{}{:?}", what, run).as_bytes());
        c.sample(|| format!("{}: {:?}", what, run));
        c.validated();
        Ok(())
    }));
    sc.push(scenario("other forms of the same profiles", |c| {
        let d = dir(c);
        let (p, q, what) = case(c, &d);
        let run = c.pick(&RUNS[..RUNS.len() - 1]).clone();
        if !possible(&run, &what) {
            return Ok(());
        }
        let first = result(&d, &run, &seeded(0))?;
        for f in 1..FORMS {
            std::fs::write(d.join("p.mm_profdata"), form(&p, f)).unwrap();
            std::fs::write(d.join("q.mm_profdata"), form(&q, (f + c.choose(tier(1, 2))) % FORMS)).unwrap();
            let b = result(&d, &run, &seeded(0))?;
            ensure!(first == b, "{}: {} {:?} depends on the form {} of the profile: {}", what, run.0, run.1, f, differ(&first, &b));
            c.step();
        }
        c.state(format!("{}{:?}", what, run).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("histories, hash seeds and forms", |c| {
        let d = dir(c);
        let g = Cfg {
            threads: &[0, 1],
            ops: tier(3, 5),
            starts: &[(QUERY, "a"), (ACTIVITY, "b")],
            instants: &[(HIT, "c")],
            integers: &[(ARTIFACT, "x", 5), (ARTIFACT, "y", 5)],
            dts: &[1_000],
            ..Default::default()
        };
        let p = history(c, &g);
        if p.evs.is_empty() {
            return Ok(());
        }
        let forms: &[usize] = tier(&[4, 5, 7], &[1, 2, 3, 4, 5, 6, 7]);
        for run in &RUNS[..RUNS.len() - 1] {
            if run.1[0] == "aggregate" || run.0 == "flamegraph" {
                continue;
            }
            for n in ["p", "q"] {
                std::fs::write(d.join(n).with_extension("mm_profdata"), file_of(&p.evs[..if n == "q" { 1 } else { p.evs.len() }], Store::Flat)).unwrap();
            }
            let a = result(&d, run, &seeded(0))?;
            for &f in forms {
                std::fs::write(d.join("p.mm_profdata"), form(&p, f)).unwrap();
                let b = result(&d, run, &seeded(f))?;
                ensure!(a == b, "{}: {} {:?} depends on the form {} of the profile or the hash seed: {}", brief(&p), run.0, run.1, f, differ(&a, &b));
                c.step();
            }
        }
        c.state(&key(&p));
        c.validated();
        Ok(())
    }));
    sc.push(scenario("environments", |c| {
        let d = dir(c);
        let p = tied(6, 4, 2, 1, 0);
        for n in ["p", "q", "r"] {
            let one = tied(6, 4, 1, 1, if n == "r" { 9 } else { 0 });
            std::fs::write(d.join(n).with_extension("mm_profdata"), file_of(&one.evs, Store::Flat)).unwrap();
        }
        let run = c.pick(&RUNS).clone();
        if run.1[0] != "aggregate" && c.flag() {
            std::fs::write(d.join("p.mm_profdata"), file_of(&p.evs, Store::Flat)).unwrap();
        }
        let first = result(&d, &run, &[])?;
        let all = [("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Pacific/Auckland"), ("COLUMNS", "20"), ("TERM", "xterm-256color"), ("HOME", "/nonexistent"), ("CLICOLOR_FORCE", "1"), ("RAYON_NUM_THREADS", "1"), ("TMPDIR", "/nonexistent")];
        let m = c.choose(1 << all.len());
        let env: Vec<(String, String)> = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, (k, v))| (k.to_string(), v.to_string())).collect();
        let b = result(&d, &run, &env)?;
        ensure!(first == b, "{} {:?} depends on the environment {:?}: {}", run.0, run.1, env, differ(&first, &b));
        c.step();
        c.state(format!("{:?}{}", run, m).as_bytes());
        c.validated();
        Ok(())
    }));
    Check {
        id: "C31",
        scenarios: sc,
        rule: "Every command of every tool on profiles with all combinations of numbers of labels, artifacts and threads and of equal figures, \
               run with every one of a set of hash seeds (prescribed through a stand-in for the system's source of randomness, validated by a \
               probe), in every one of eight forms of the same content (string storage, ids, page sizes and orders, previous format) and with \
               every combination of environment variables: the output must be the same byte for byte. states = profile and command."
            .into(),
        assumptions: vec!["the colours in flame graphs are chosen at random by the renderer and left out".into(), "hash seeds are the only randomness of the tools".into()],
    }
}
