//! C11: session metadata and command line survive for every command line.
use crate::sys::{self, Plan};
use crate::util::*;
use common::explore::*;
use common::sup::Check;
use common::{ensure, fail, tier};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::Path;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// The re-executed process: makes a profile and exits. Never returns.
pub fn child(stem: &OsStr) -> ! {
    std::panic::set_hook(Box::new(|i| {
        eprintln!("panic: {}", i);
    }));
    let p = match measureme::Profiler::new(Path::new(stem)) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("error: {}", e);
            std::process::exit(3);
        }
    };
    let k = p.alloc_string("k");
    p.record_integer_event(k, measureme::EventId::from_label(k), 1, 42);
    drop(p);
    std::process::exit(0)
}
fn run(c: &mut Ctx, arg0: &OsStr, args: &[OsString], relative: bool) -> common::Res {
    use std::os::unix::process::CommandExt;
    let dir = c.scratch();
    let stem = dir.join("c11");
    let _ = std::fs::remove_file(stem.with_extension("mm_profdata"));
    let before = SystemTime::now();
    let mut ch = std::process::Command::new("/proc/self/exe")
        .arg0(arg0)
        .args(args)
        .env_clear()
        .env("MC_CHILD", if relative { OsStr::new("c11") } else { stem.as_os_str() })
        .current_dir(&dir)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| format!("HARNESS: spawn: {}", e))?;
    let pid = ch.id();
    let mut err = String::new();
    use std::io::Read;
    let _ = ch.stderr.take().unwrap().read_to_string(&mut err);
    let st = ch.wait().map_err(|e| e.to_string())?;
    let after = SystemTime::now();
    let show = || {
        let mut s = format!("{:?} {:?}", arg0, args.iter().take(4).collect::<Vec<_>>());
        s.truncate(s.char_indices().map(|x| x.0).take_while(|&i| i <= 200).last().unwrap_or(0));
        s
    };
    ensure!(st.success(), "with the command line {} creating the profile fails: {}", show(), err.trim());
    let pd = open_stem(&stem).map_err(|e| format!("with the command line {}: {}", show(), e))?;
    let m = pd.metadata();
    ensure!(m.process_id == pid, "process id {} is read back as {}", pid, m.process_id);
    ensure!(before <= m.start_time && m.start_time <= after, "the start time {:?} is not within the creation ({:?} to {:?})", m.start_time, before, after);
    let mut want = arg0.to_string_lossy().into_owned();
    for a in args {
        want.push(' ');
        want.push_str(&a.to_string_lossy());
    }
    // trailing separator or not
    let got = &m.cmd;
    if *got != want && *got != want.clone() + " " {
        let i = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let win = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(20).min(s.len())..(i + 20).min(s.len())]).into_owned();
        fail!("the command line {} reads back differently at byte {}: ...{:?}..., the process had ...{:?}...", show(), i, win(got), win(&want));
    }
    same_events(&pd, &[Ev::new("k", "k", &[], 1, common::spec::Pay::Integer(42))], None)?;
    c.step();
    c.validated();
    Ok(())
}
fn os(b: &[u8]) -> OsString {
    OsString::from_vec(b.to_vec())
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("every single byte as an argument", |c| {
        let b = c.choose(256) as u8;
        let args = if b == 0 { vec![os(b"")] } else { vec![os(&[b])] };
        let place = c.choose(3);
        c.state(&[b]);
        match place {
            0 => run(c, OsStr::new("prog"), &args, false),
            1 => run(c, OsStr::new("prog"), &[os(b"-a"), args[0].clone(), os(b"z")], true),
            _ => {
                let a0 = os(if b == 0 { b"" } else { std::slice::from_ref(&b) }.as_ref());
                run(c, &a0, &[], false)
            }
        }
    }));
    sc.push(scenario("every pair of bytes", |c| {
        let a = c.choose(255) as u8 + 1;
        let args: Vec<OsString> = (1..=255u8).map(|b| os(&[a, b])).collect();
        c.state(&[a]);
        run(c, OsStr::new("prog"), &args, false)
    }));
    sc.push(scenario("every Unicode character", |c| {
        let base = c.choose(0x110) as u32 * 0x1000;
        let mut s = String::new();
        let mut args = vec![];
        for u in base.max(1)..base + 0x1000 {
            if let Some(ch) = char::from_u32(u) {
                s.push(ch);
            }
            if u % 256 == 255 {
                args.push(OsString::from(std::mem::take(&mut s)));
            }
        }
        c.state(&base.to_le_bytes());
        run(c, OsStr::new("prog"), &args, false)
    }));
    sc.push(scenario("sequences of difficult pieces", |c| {
        const P: [&[u8]; 14] = [
            b"a", b" ", b"'", b"\"", b"\\", b"\\u0041", b"\n", b"\x7f", b"\xc3\xa9", b"\xff", b"\x1f", b"{\"cmd\":", b"\\\"", b"\xf0\x9f\x98\x80",
        ];
        let n = tier(3, 4);
        let first = c.choose(P.len());
        let second = c.choose(P.len());
        let mut args = vec![];
        for i in 0..P.len().pow(n - 2) {
            let mut b = [P[first], P[second]].concat();
            let mut k = i;
            for _ in 2..n {
                b.extend_from_slice(P[k % P.len()]);
                k /= P.len();
            }
            args.push(os(&b));
        }
        c.state(&[first as u8, second as u8]);
        run(c, OsStr::from_bytes(P[first]), &args, false)
    }));
    sc.push(scenario("long command lines", |c| {
        let n = *c.pick(&[0usize, 1, 1000, 4095, 65_535, 100_000, 131_000]);
        let k = *c.pick(&[1usize, 2, 10]);
        let ch = *c.pick(&["a", "\"", "\u{1}", "\u{e9}"]);
        let s = ch.repeat(n / ch.len());
        c.state(format!("{}{}{}", n, k, ch).as_bytes());
        run(c, OsStr::new("prog"), &vec![OsString::from(s); k], false)
    }));
    sc.push(scenario("number of arguments", |c| {
        let n = *c.pick(&[0usize, 1, 2, 3, 10, 100, 1000, 10_000]);
        let kind = c.choose(2);
        c.state(&n.to_le_bytes());
        let args: Vec<OsString> = (0..n).map(|i| OsString::from(if kind == 0 { String::new() } else { format!("arg{}", i) })).collect();
        run(c, OsStr::new("prog"), &args, false)
    }));
    sc.push(scenario("every start time", |c| {
        let mut secs: Vec<i64> = vec![0, 1, 1_600_000_000, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64 + 1, 9_223_372_036, 9_223_372_037, 18_446_744_073];
        for i in 0..34 {
            secs.push(1 << i);
        }
        let s = *c.pick(&secs);
        let n = *c.pick(&[0i64, 1, 999, 1000, 500_000_000, 709_551_615]);
        let stem = c.scratch().join("c11t");
        let mut p = Plan { realtime: Some((s, n)), ..Default::default() };
        let pr = sys::with_plan(&mut p, || measureme::Profiler::new(&stem)).map_err(|e| e.to_string())?;
        drop(pr);
        let pd = open_stem(&stem)?;
        let want = UNIX_EPOCH + Duration::new(s as u64, n as u32);
        ensure!(pd.metadata().start_time == want, "start time {}.{:09} reads back as {:?}", s, n, pd.metadata().start_time.duration_since(UNIX_EPOCH));
        ensure!(pd.metadata().process_id == std::process::id(), "wrong process id");
        c.step();
        c.state(&[s.to_le_bytes(), n.to_le_bytes()].concat());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("every process id", |c| {
        let mut pids = vec![0i32, i32::MAX];
        for i in 0..31 {
            let b = 1i32 << i;
            pids.extend([b - 1, b, b + 1]);
        }
        let mut d = 1;
        while d < 2_000_000_000 {
            pids.extend([d - 1, d, d * 2 + 1]);
            d = if d < 500_000_000 { d * 10 } else { 2_000_000_000 };
        }
        let pid = *c.pick(&pids);
        let stem = c.scratch().join("c11p");
        let mut p = Plan { pid: Some(pid), ..Default::default() };
        let pr = sys::with_plan(&mut p, || measureme::Profiler::new(&stem)).map_err(|e| e.to_string())?;
        drop(pr);
        let pd = open_stem(&stem)?;
        ensure!(pd.metadata().process_id == pid as u32, "process id {} is read back as {}", pid, pd.metadata().process_id);
        c.step();
        c.state(&pid.to_le_bytes());
        c.validated();
        Ok(())
    }));
    Check {
        id: "C11",
        scenarios: sc,
        rule: "Real processes with fully controlled argument vectors: every byte alone, every pair of bytes, every Unicode character, all \
               sequences of difficult pieces (quotes, backslashes, escapes, control and multi-byte characters, invalid UTF-8) up to the length \
               bound, long and many arguments; each creates a profile that is read back and compared with the arguments it was given, its \
               process id and its start. Start times and process ids over their whole range with a scripted clock and process. states = distinct command line families."
            .into(),
        assumptions: vec![
            "arguments that are not valid UTF-8 are compared after lossy conversion".into(),
            "the command line may end in a separator".into(),
        ],
    }
}
