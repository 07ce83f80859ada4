//! The supervisor: runs a check in a child process so that a crash, an abort
//! or a hang of the code under check is a reported (and re-confirmed) result
//! and not the end of the checker; writes evidence and replay files.
use crate::explore::{self, Ctx, Scenario, ScenarioReport, Violation};
use serde_json::{json, Value};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const MAX_WORKERS: usize = 16;
pub const SLOT_CHOICES: usize = 4000;

#[repr(C)]
pub struct Slot {
    seq: AtomicU64,
    active: AtomicU32,
    scenario: AtomicU32,
    len: AtomicU32,
    _pad: u32,
    choices: [AtomicU32; SLOT_CHOICES],
}
impl Slot {
    pub fn begin(&self, sc: usize) {
        self.len.store(0, SeqCst);
        self.scenario.store(sc as u32, SeqCst);
        self.seq.fetch_add(1, SeqCst);
        self.active.store(1, SeqCst);
    }
    pub fn end(&self) {
        self.active.store(0, SeqCst);
    }
    #[inline]
    pub fn push_choice(&self, i: usize, c: u32) {
        use std::sync::atomic::Ordering::Relaxed;
        if i < SLOT_CHOICES {
            self.choices[i].store(c, Relaxed);
            self.len.store(i as u32 + 1, Relaxed);
        }
    }
}
pub struct Shared {
    base: *mut Slot,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    fn new() -> Shared {
        let n = std::mem::size_of::<Slot>() * MAX_WORKERS;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shared { base: p as *mut Slot }
    }
    pub fn slot(&self, i: usize) -> &Slot {
        assert!(i < MAX_WORKERS);
        unsafe { &*self.base.add(i) }
    }
}

pub struct Check {
    pub id: &'static str,
    pub scenarios: Vec<Scenario>,
    /// What is enumerated and what the oracle is.
    pub rule: String,
    pub assumptions: Vec<String>,
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8)
}

/// Known findings: lines `finding: property=<id> scenario=<name> match=<text>`.
/// A violation is known only if scenario and text both match.
pub struct Finding {
    pub property: String,
    pub scenario: String,
    pub text: String,
}
pub fn known_findings() -> Vec<Finding> {
    let p = crate::verif_dir().join("known_findings.txt");
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let get = |k: &str| -> Option<String> {
                let i = r.find(&format!("{}=", k))? + k.len() + 1;
                Some(match k {
                    "match" => r[i..].to_string(),
                    "scenario" => r[i..].split(" match=").next()?.to_string(),
                    _ => r[i..].split(' ').next()?.to_string(),
                })
            };
            if let (Some(property), Some(scenario), Some(text)) = (get("property"), get("scenario"), get("match")) {
                out.push(Finding { property, scenario, text });
            }
        }
    }
    out
}

pub fn write_evidence(id: &str, coverage: Value, assumptions: &[String], wall: f64, violations: usize) {
    let dir = crate::verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let v = json!({
        "property": id,
        "tier": if crate::thorough() {"thorough"} else {"quick"},
        "seed": crate::seed(),
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let p = dir.join(format!("{}.json", id));
    let tmp = dir.join(format!(".{}.tmp", id));
    std::fs::write(&tmp, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    std::fs::rename(tmp, p).unwrap();
}

pub fn report_violation(id: &str, engine: &str, scenario: &str, choices: &[u32], msg: &str) {
    let dir = crate::verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p: PathBuf = dir.join(format!("{}.json", id));
    let v = json!({
        "property": id, "engine": engine, "scenario": scenario, "choices": choices, "message": msg,
        "how": format!("/verif/check replay {}", p.display()),
        "tier": if crate::thorough() {"thorough"} else {"quick"},
    });
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    println!("{} [{}]: {}", id, scenario, msg);
    println!("VIOLATION property={} replay={}", id, p.display());
    let _ = std::io::stdout().flush();
}

fn coverage(check: &Check, reports: &[ScenarioReport], cut: bool) -> Value {
    let mut states = 0u64;
    let mut transitions = 0;
    let mut traces = 0;
    let mut samples = vec![];
    let mut per = vec![];
    for r in reports {
        states += r.acc.states.len() as u64;
        transitions += r.acc.transitions;
        traces += r.acc.traces;
        for s in &r.acc.samples {
            samples.push(format!("{}: {}", r.name, s));
        }
        per.push(json!({
            "scenario": r.name, "executions": r.acc.execs, "distinct_outcomes": r.acc.outcomes.len(),
            "distinct_states": r.acc.states.len(), "max_choices": r.acc.max_depth,
            "wall_s": (r.wall_s*1000.0).round()/1000.0, "complete": r.complete,
        }));
    }
    samples.truncate(12);
    json!({
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "samples": samples,
        "rule": check.rule,
        "scenarios": per,
        "exhaustive": !cut && reports.iter().all(|r| r.complete),
    })
}

/// Runs in the child. Returns the exit code.
fn child(check: &Check, shared: &Shared, only: Option<&str>) -> i32 {
    explore::install_quiet_panic_hook();
    let t0 = Instant::now();
    let cap: u64 = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(crate::tier(600, 6 * 3600));
    let deadline = t0 + Duration::from_secs(cap);
    let known = known_findings();
    let mut reports = vec![];
    let mut bad: Option<Violation> = None;
    for (i, s) in check.scenarios.iter().enumerate() {
        if let Some(o) = only {
            if !s.name.contains(o) {
                continue;
            }
        }
        let (rep, v) = explore::explore(i, s, shared, workers(), deadline);
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!(
                "{} {}: execs={} states={} transitions={} traces={} outcomes={} depth={} {:.2}s{}",
                check.id, rep.name, rep.acc.execs, rep.acc.states.len(), rep.acc.transitions,
                rep.acc.traces, rep.acc.outcomes.len(), rep.acc.max_depth, rep.wall_s,
                if rep.complete { "" } else { " TIME CAP" }
            );
        }
        for n in &rep.acc.notes {
            println!("{}", n);
        }
        reports.push(rep);
        if let Some(v) = v {
            if let Some(k) = known
                .iter()
                .find(|k| k.property == check.id && k.scenario == v.scenario && v.msg.contains(&k.text))
            {
                println!("KNOWN-FINDING: property={} {} {}", check.id, v.scenario, k.text);
                continue;
            }
            bad = Some(v);
            break;
        }
    }
    let cov = coverage(check, &reports, bad.is_some() || only.is_some());
    write_evidence(check.id, cov, &check.assumptions, t0.elapsed().as_secs_f64(), bad.is_some() as usize);
    match bad {
        None => 0,
        Some(v) => {
            report_violation(check.id, "mc", &v.scenario, &v.choices, &v.msg);
            1
        }
    }
}

fn flush_all() {
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
}

enum Ended {
    Exit(i32),
    Signal(i32),
    Hang,
}
fn wait_child(pid: libc::pid_t, mut hung: impl FnMut() -> bool) -> Ended {
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            return if libc::WIFSIGNALED(st) {
                Ended::Signal(libc::WTERMSIG(st))
            } else {
                Ended::Exit(libc::WEXITSTATUS(st))
            };
        }
        if hung() {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            return Ended::Hang;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
const HANG_S: u64 = 60;

pub fn run(check: Check, only: Option<&str>) -> i32 {
    crate::set_root_pid();
    let shared = Shared::new();
    flush_all();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &nocore);
        }
        let c = child(&check, &shared, only);
        flush_all();
        unsafe { libc::_exit(c) };
    }
    let mut last: Vec<(u64, Instant)> = (0..MAX_WORKERS).map(|_| (0, Instant::now())).collect();
    let ended = wait_child(pid, || {
        let mut hang = false;
        for i in 0..MAX_WORKERS {
            let s = shared.slot(i);
            let q = s.seq.load(SeqCst);
            if q != last[i].0 || s.active.load(SeqCst) == 0 {
                last[i] = (q, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(HANG_S) {
                hang = true;
            }
        }
        hang
    });
    let code = match ended {
        Ended::Exit(c @ (0 | 1)) => c,
        Ended::Exit(c) => {
            eprintln!("{}: checker exited with {}", check.id, c);
            2
        }
        Ended::Signal(_) | Ended::Hang => {
            let what = match ended {
                Ended::Signal(s) => format!("died with signal {}", s),
                _ => format!("made no progress for {} s", HANG_S),
            };
            eprintln!("{}: worker {}; re-running the cases that were in flight", check.id, what);
            let mut code = 2;
            let mut alone = vec![];
            for i in 0..MAX_WORKERS {
                let s = shared.slot(i);
                if s.active.load(SeqCst) == 0 {
                    continue;
                }
                let n = (s.len.load(SeqCst) as usize).min(SLOT_CHOICES);
                let choices: Vec<u32> = (0..n).map(|j| s.choices[j].load(SeqCst)).collect();
                let sc = &check.scenarios[s.scenario.load(SeqCst) as usize];
                alone.push((sc, choices.clone()));
                flush_all();
                let p = unsafe { libc::fork() };
                if p == 0 {
                    explore::install_quiet_panic_hook();
                    let h = std::thread::Builder::new().stack_size(64 << 20);
                    let r = std::thread::scope(|scope| {
                        h.spawn_scoped(scope, || {
                            let mut ctx = Ctx::new_replay(&choices);
                            explore::run_body(sc, &mut ctx)
                        })
                        .unwrap()
                        .join()
                    });
                    let c = match r {
                        Ok(Ok(())) => 0,
                        _ => 3,
                    };
                    unsafe { libc::_exit(c) };
                }
                let t = Instant::now();
                let why = match wait_child(p, || t.elapsed() > Duration::from_secs(HANG_S)) {
                    Ended::Exit(0) => continue,
                    Ended::Exit(_) => "fails".to_string(),
                    Ended::Signal(s) => format!("kills the process (signal {})", s),
                    Ended::Hang => format!("does not finish within {} s", HANG_S),
                };
                write_evidence(
                    check.id,
                    json!({"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":[],
                           "note":"run ended by a crash or hang of the code under check"}),
                    &check.assumptions,
                    0.0,
                    1,
                );
                report_violation(check.id, "mc", &sc.name, &choices, &format!("the code under check {} on this case", why));
                code = 1;
                break;
            }
            // None fails alone: the failure may need what other executions left
            // behind. If the whole scenario dies again, it is the code's doing.
            if let (2, Some((sc, choices)), Ended::Signal(s)) = (code, alone.first(), &ended) {
                flush_all();
                let p = unsafe { libc::fork() };
                if p == 0 {
                    explore::install_quiet_panic_hook();
                    let deadline = Instant::now() + Duration::from_secs(crate::tier(200, 3600));
                    let (_, v) = explore::explore(0, sc, &Shared::new(), 1, deadline);
                    unsafe { libc::_exit(if v.is_some() { 3 } else { 0 }) };
                }
                let again = wait_child(p, || false);
                let same = matches!(again, Ended::Signal(t) if t == *s && t != libc::SIGKILL);
                if same || matches!(again, Ended::Exit(3)) {
                    write_evidence(
                        check.id,
                        json!({"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":[],
                               "note":"run ended by a crash of the code under check"}),
                        &check.assumptions,
                        0.0,
                        1,
                    );
                    let m = "the code under check kills the process, each time this scenario is explored from its start";
                    report_violation(check.id, "mc", &sc.name, choices, m);
                    code = 1;
                }
            }
            code
        }
    };
    let _ = std::fs::remove_dir_all(crate::scratch_root());
    code
}

pub fn replay(check: Check, scenario: &str, choices: &[u32]) -> i32 {
    crate::set_root_pid();
    explore::install_quiet_panic_hook();
    let Some(s) = check.scenarios.iter().find(|s| s.name == scenario) else {
        eprintln!("no scenario {}", scenario);
        return 2;
    };
    let r = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(scope, || {
                let mut ctx = Ctx::new_replay(choices);
                explore::run_body(s, &mut ctx)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    let _ = std::fs::remove_dir_all(crate::scratch_root());
    match r {
        Ok(()) => {
            println!("replay: the case passes");
            0
        }
        Err(m) => {
            report_violation(check.id, "mc", scenario, choices, &m);
            1
        }
    }
}
