//! Preemption-bounded exhaustive exploration of the real code's interleavings,
//! on top of the scheduler in rt.c.
use std::alloc::{GlobalAlloc, Layout};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Pt {
    pub n: u8,
    pub choice: u8,
    pub kind: u8,
    pub cost: u8,
}
#[repr(C)]
pub struct Pcs {
    n: AtomicU32,
    pad: u32,
    pc: [AtomicU64; MAXPC],
}
const MAXPC: usize = 1024;
const MAXPTS: usize = 60000;
pub const MAXT: usize = 8;
extern "C" {
    static mut rt_trace: [Pt; MAXPTS];
    static mut rt_npts: i32;
    static mut rt_status: i32;
    static mut rt_steps: u64;
    static mut rt_pcs: *mut Pcs;
    static mut rt_active_pcs: u32;
    static mut rt_spin: i32;
    fn rt_begin(n: i32, p: *const u8, np: i32, clock0: u64, step: u64, races: i32);
    fn rt_enter(i: i32);
    fn rt_exit();
    fn rt_run();
    fn rt_set_clock(ns: u64, step: u64, on: i32);
    fn rt_arena(on: i32);
    fn rt_alloc(n: usize, al: usize) -> *mut u8;
    fn rt_free(p: *mut u8);
    fn rt_realloc(p: *mut u8, old: usize, al: usize, n: usize) -> *mut u8;
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        rt_free(p)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        rt_realloc(p, l.size(), l.align(), n)
    }
}

/// One concurrent program over the code under check.
pub trait Exec: Sync {
    fn threads(&self) -> usize;
    fn body(&self, i: usize);
    /// Called after all threads finished; Ok(hash of the observed outcome).
    fn finish(self: Box<Self>) -> Result<u64, String>;
}
pub struct Program {
    pub name: String,
    pub setup: Box<dyn Fn() -> Box<dyn Exec>>,
    pub bound: u32,
}

static JOB: AtomicPtr<Box<dyn Exec>> = AtomicPtr::new(std::ptr::null_mut());
static PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

fn spawn_pool(n: usize) {
    // Make parking_lot create its hash table and thread data now, with its
    // fairness timeouts far in the (virtual) future.
    unsafe { rt_set_clock(1_000_000_000_000_000_000, 1, 1) };
    static WARM: AtomicUsize = AtomicUsize::new(0);
    WARM.store(0, SeqCst);
    for i in 0..n {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                unsafe {
                    let key = &WARM as *const _ as usize + i + 1;
                    parking_lot_core::park(
                        key,
                        || true,
                        || {},
                        |_, _| {},
                        parking_lot_core::DEFAULT_PARK_TOKEN,
                        Some(std::time::Instant::now()),
                    );
                }
                WARM.fetch_add(1, SeqCst);
                loop {
                    unsafe { rt_enter(i as i32) };
                    let job = JOB.load(SeqCst);
                    let r = catch_unwind(AssertUnwindSafe(|| unsafe { (*job).body(i) }));
                    if r.is_err() {
                        let m = crate::last_panic();
                        PANICS.lock().unwrap().push(format!("thread {} panicked: {}", i, m));
                    }
                    drop(r);
                    unsafe { rt_exit() };
                }
            })
            .unwrap();
    }
    while WARM.load(SeqCst) < n {
        std::thread::sleep(Duration::from_millis(1));
    }
    unsafe { rt_set_clock(0, 0, 0) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fair {
    /// Unfair unlock; a thread that yields while spinning lets another one run.
    Never,
    /// Unfair unlock; a spinning thread goes on until it parks.
    Park,
    /// Fair unlock (hand-over to a parked thread); threads park as above.
    Always,
}

pub struct Run {
    pub trace: Vec<Pt>,
    pub status: i32,
    pub steps: u64,
    pub result: Result<u64, String>,
}
static FAIR_CLOCK: AtomicU64 = AtomicU64::new(2_000_000_000_000_000_000);

/// One execution in this process, whose pool must exist. After a deadlock the
/// process must not be used further.
fn exec_once(p: &Program, prefix: &[u8], fair: Fair) -> Run {
    unsafe {
        let (c0, step) = match fair {
            Fair::Never | Fair::Park => (1_000_000_000, 1),
            Fair::Always => (FAIR_CLOCK.fetch_add(100_000_000_000, SeqCst), 10_000_000),
        };
        rt_spin = (fair != Fair::Never) as i32;
        rt_set_clock(c0, step, 1);
        PANICS.lock().unwrap().clear();
        rt_arena(1);
        let ex = Box::into_raw(Box::new((p.setup)()));
        JOB.store(ex, SeqCst);
        let n = (*ex).threads();
        rt_begin(n as i32, prefix.as_ptr(), prefix.len() as i32, c0 + 1_000_000, step, 1);
        rt_run();
        let status = rt_status;
        let trace: Vec<Pt>;
        let steps = rt_steps;
        rt_arena(0);
        {
            let np = rt_npts as usize;
            let base = std::ptr::addr_of!(rt_trace) as *const Pt;
            trace = (0..np).map(|i| *base.add(i)).collect();
        }
        if status != 0 {
            rt_set_clock(0, 0, 0);
            return Run { trace, status, steps, result: Ok(0) };
        }
        rt_arena(1);
        let ex = Box::from_raw(ex);
        let panics: Vec<String> = PANICS.lock().unwrap().clone();
        let r = if panics.is_empty() {
            match catch_unwind(AssertUnwindSafe(|| ex.finish())) {
                Ok(r) => r,
                Err(_) => Err(format!("panic while reading back: {}", crate::last_panic())),
            }
        } else {
            // dropping may panic again; the process is finished with anyway
            std::mem::forget(ex);
            Err(panics.join("; "))
        };
        rt_arena(0);
        let result = match &r {
            Ok(h) => Ok(*h),
            Err(s) => Err(String::from(s.as_str())),
        };
        rt_arena(1);
        drop(r);
        drop(panics);
        rt_arena(0);
        rt_set_clock(0, 0, 0);
        Run { trace, status, steps, result }
    }
}

// ---- shared memory between parent and workers ----
const NW: usize = 8;
const OUTC: usize = 20000;
#[repr(C)]
struct W {
    seq: AtomicU64,
    active: AtomicU32,
    plen: AtomicU32,
    prefix: [u8; 4096],
    execs: AtomicU64,
    nodes: AtomicU64,
    steps: AtomicU64,
    maxpts: AtomicU64,
    nout: AtomicU64,
    out: [u64; OUTC],
    // result of one forked execution
    f_status: AtomicU32,
    f_npts: AtomicU32,
    f_steps: AtomicU64,
    f_ok: AtomicU32,
    f_hash: AtomicU64,
    f_msg: [u8; 2048],
    f_trace: [Pt; 8192],
}
#[repr(C)]
struct Sh {
    pcs: Pcs,
    claim: AtomicU64,
    stop: AtomicBool,
    diverged: AtomicBool,
    capped: AtomicBool,
    viol: AtomicU32,
    vlen: AtomicU32,
    vprefix: [u8; 60000],
    vmsg: [u8; 4096],
    w: [W; NW],
}
fn shared() -> &'static mut Sh {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Sh>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &mut *(p as *mut Sh)
    }
}
fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|&b| b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

struct Worker<'a> {
    id: usize,
    sh: &'a mut Sh,
    fork_each: bool,
    early: bool,
    fair: Fair,
    limit: u32,
    outcomes: HashSet<u64>,
    deadline: Instant,
}
impl Worker<'_> {
    fn exec(&mut self, p: &Program, prefix: &[u8]) -> Run {
        let w = &mut self.sh.w[self.id];
        let n = prefix.len().min(4096);
        w.prefix[..n].copy_from_slice(&prefix[..n]);
        w.plen.store(n as u32, SeqCst);
        w.seq.fetch_add(1, SeqCst);
        w.active.store(1, SeqCst);
        let r = if self.fork_each { self.exec_forked(p, prefix) } else { exec_once(p, prefix, self.fair) };
        self.sh.w[self.id].active.store(0, SeqCst);
        r
    }
    fn exec_forked(&mut self, p: &Program, prefix: &[u8]) -> Run {
        let fair = self.fair;
        let w = &mut self.sh.w[self.id];
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                spawn_pool(MAXT);
                let r = exec_once(p, prefix, fair);
                w.f_status.store(r.status as u32, SeqCst);
                w.f_steps.store(r.steps, SeqCst);
                let n = r.trace.len().min(8192);
                w.f_npts.store(n as u32, SeqCst);
                w.f_trace[..n].copy_from_slice(&r.trace[..n]);
                match r.result {
                    Ok(h) => {
                        w.f_hash.store(h, SeqCst);
                        w.f_ok.store(1, SeqCst);
                    }
                    Err(m) => {
                        put(&mut w.f_msg, &m);
                        w.f_ok.store(0, SeqCst);
                    }
                }
                libc::_exit(0);
            }
            let mut st = 0;
            let t = Instant::now();
            loop {
                if libc::waitpid(pid, &mut st, libc::WNOHANG) == pid {
                    break;
                }
                if t.elapsed() > Duration::from_secs(30) {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                    return Run { trace: vec![], status: 0, steps: 0, result: Err("execution does not finish within 30 s".into()) };
                }
                std::thread::sleep(Duration::from_micros(100));
            }
            if libc::WIFSIGNALED(st) {
                return Run {
                    trace: vec![],
                    status: 0,
                    steps: 0,
                    result: Err(format!("the code under check kills the process (signal {})", libc::WTERMSIG(st))),
                };
            }
            let n = w.f_npts.load(SeqCst) as usize;
            Run {
                trace: w.f_trace[..n].to_vec(),
                status: w.f_status.load(SeqCst) as i32,
                steps: w.f_steps.load(SeqCst),
                result: if w.f_ok.load(SeqCst) == 1 { Ok(w.f_hash.load(SeqCst)) } else { Err(get(&w.f_msg)) },
            }
        }
    }
    fn violation(&mut self, choices: &[u8], msg: &str) {
        if self.sh.viol.compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
            let n = choices.len().min(60000);
            self.sh.vprefix[..n].copy_from_slice(&choices[..n]);
            self.sh.vlen.store(n as u32, SeqCst);
            put(&mut self.sh.vmsg, msg);
            self.sh.viol.store(2, SeqCst);
        }
        self.sh.stop.store(true, SeqCst);
    }
    /// Runs one prefix; returns the children within the bound.
    fn node(&mut self, p: &Program, prefix: &[u8], cost: u32, count: bool) -> Vec<(Vec<u8>, u32)> {
        let r = self.exec(p, prefix);
        let choices: Vec<u8> = r.trace.iter().map(|t| t.choice).collect();
        let dead = match r.status {
            0 => None,
            1 => Some("deadlock: every unfinished thread is blocked".to_string()),
            2 => Some("no termination: step limit exceeded (livelock)".to_string()),
            _ => {
                self.sh.diverged.store(true, SeqCst);
                self.sh.stop.store(true, SeqCst);
                return vec![];
            }
        };
        if choices.len() < prefix.len() && r.result.is_ok() && r.status == 0 {
            self.sh.diverged.store(true, SeqCst);
            self.sh.stop.store(true, SeqCst);
            return vec![];
        }
        if let Some(m) = dead {
            self.violation(&choices, &m);
            if !self.fork_each {
                unsafe { libc::_exit(0) };
            }
            return vec![];
        }
        match r.result {
            Err(m) => {
                self.violation(&choices, &m);
                if !self.fork_each {
                    unsafe { libc::_exit(0) };
                }
                return vec![];
            }
            Ok(h) => {
                if count && self.outcomes.len() < OUTC {
                    self.outcomes.insert(h);
                }
            }
        }
        if count {
            let w = &self.sh.w[self.id];
            w.execs.fetch_add(1, SeqCst);
            w.steps.fetch_add(r.steps, SeqCst);
            w.nodes.fetch_add((r.trace.len() - prefix.len()) as u64 + 1, SeqCst);
            w.maxpts.fetch_max(r.trace.len() as u64, SeqCst);
        }
        let mut kids = vec![];
        for i in prefix.len()..r.trace.len() {
            let t = r.trace[i];
            let c = cost + t.cost as u32;
            if c > p.bound.min(self.limit) {
                continue;
            }
            for alt in 1..t.n {
                let mut k = choices[..i].to_vec();
                k.push(alt);
                kids.push((k, c));
            }
        }
        kids
    }
    fn stopping(&mut self) -> bool {
        if self.sh.stop.load(SeqCst) {
            return true;
        }
        if self.early && self.sh.pcs.n.load(SeqCst) != unsafe { rt_active_pcs } {
            // more scheduling points: start again with them
            self.sh.stop.store(true, SeqCst);
            return true;
        }
        if Instant::now() > self.deadline {
            self.sh.capped.store(true, SeqCst);
            self.sh.stop.store(true, SeqCst);
            return true;
        }
        false
    }
    fn sub(&mut self, p: &Program, prefix: Vec<u8>, cost: u32) {
        let mut stack = vec![(prefix, cost)];
        while let Some((pre, c)) = stack.pop() {
            if self.stopping() {
                return;
            }
            let mut k = self.node(p, &pre, c, true);
            k.reverse();
            stack.extend(k);
        }
    }
    /// The whole tree of `p`, shared with the other workers when `split`.
    fn tree(&mut self, p: &Program, split: bool) {
        if !split {
            self.sub(p, vec![], 0);
            return;
        }
        let lead = self.id == 0;
        let l1 = self.node(p, &[], 0, lead);
        let mut work = vec![];
        for (k, c) in l1 {
            if self.stopping() {
                return;
            }
            work.extend(self.node(p, &k, c, lead));
        }
        loop {
            if self.stopping() {
                return;
            }
            let i = self.sh.claim.fetch_add(1, SeqCst) as usize;
            if i >= work.len() {
                return;
            }
            let (k, c) = work[i].clone();
            self.sub(p, k, c);
        }
    }
}

#[derive(Default, Debug)]
pub struct Totals {
    pub execs: u64,
    pub nodes: u64,
    pub steps: u64,
    pub maxpts: u64,
    pub outcomes: u64,
    pub racing_sites: u64,
    pub programs: u64,
    pub capped: bool,
    pub forked: bool,
}
pub struct Bad {
    pub program: usize,
    pub choices: Vec<u8>,
    pub msg: String,
    pub fair: Fair,
    /// Racing call sites in force, relative to `rt_begin`.
    pub pcs: Vec<i64>,
}

/// Explores every program. `split`: all workers share each program's tree;
/// otherwise programs are dealt out whole.
pub fn explore(programs: &[Program], fair: Fair, limit: u32, split: bool, deadline: Instant) -> (Totals, Result<Option<Bad>, String>) {
    let mut tot = Totals { programs: programs.len() as u64, ..Default::default() };
    let sh = shared();
    let mut forked = false;
    let mut gens = 0;
    unsafe { rt_pcs = &mut sh.pcs };
    loop {
        gens += 1;
        let pcs0 = sh.pcs.n.load(SeqCst);
        unsafe { rt_active_pcs = pcs0.min(MAXPC as u32) };
        // one claim counter per program when split: run program after program
        let rounds: Vec<Vec<usize>> =
            if split { (0..programs.len()).map(|i| vec![i]).collect() } else { vec![(0..programs.len()).collect()] };
        let mut t = Totals { programs: programs.len() as u64, ..Default::default() };
        let mut outs: HashSet<(usize, u64)> = HashSet::new();
        let mut diverged = false;
        for (ri, round) in rounds.iter().enumerate() {
            sh.claim.store(0, SeqCst);
            sh.stop.store(false, SeqCst);
            sh.diverged.store(false, SeqCst);
            sh.capped.store(false, SeqCst);
            for w in sh.w.iter_mut() {
                w.execs.store(0, SeqCst);
                w.nodes.store(0, SeqCst);
                w.steps.store(0, SeqCst);
                w.maxpts.store(0, SeqCst);
                w.nout.store(0, SeqCst);
                w.active.store(0, SeqCst);
            }
            static CUR: AtomicUsize = AtomicUsize::new(0);
            let mut pids = vec![];
            for id in 0..NW {
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    unsafe {
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        let mut set: libc::cpu_set_t = std::mem::zeroed();
                        let mut have: libc::cpu_set_t = std::mem::zeroed();
                        libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have);
                        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &have)).collect();
                        libc::CPU_SET(cpus[id % cpus.len()], &mut set);
                        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                    }
                    let mut w = Worker { id, sh, fork_each: forked, early: gens < 40, fair, limit, outcomes: HashSet::new(), deadline };
                    if !forked {
                        spawn_pool(MAXT);
                    }
                    if split {
                        w.tree(&programs[round[0]], true);
                    } else {
                        loop {
                            let i = w.sh.claim.fetch_add(1, SeqCst) as usize;
                            if i >= round.len() || w.stopping() {
                                break;
                            }
                            w.sh.w[id].f_hash.store(i as u64, SeqCst);
                            CUR.store(i, SeqCst);
                            w.tree(&programs[round[i]], false);
                        }
                    }
                    let outs: Vec<u64> = w.outcomes.iter().copied().collect();
                    let n = outs.len().min(OUTC);
                    w.sh.w[id].out[..n].copy_from_slice(&outs[..n]);
                    w.sh.w[id].nout.store(n as u64, SeqCst);
                    unsafe { libc::_exit(0) };
                }
                pids.push(pid);
            }
            // wait, watching for crashes and hangs
            let mut alive: Vec<bool> = vec![true; NW];
            let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); NW];
            let mut crashed: Option<(usize, String)> = None;
            while alive.iter().any(|a| *a) {
                for id in 0..NW {
                    if !alive[id] {
                        continue;
                    }
                    let mut st = 0;
                    if unsafe { libc::waitpid(pids[id], &mut st, libc::WNOHANG) } == pids[id] {
                        alive[id] = false;
                        if libc::WIFSIGNALED(st) && crashed.is_none() && !sh.stop.load(SeqCst) {
                            crashed = Some((id, format!("died with signal {}", libc::WTERMSIG(st))));
                            sh.stop.store(true, SeqCst);
                        } else if !libc::WIFSIGNALED(st) && libc::WEXITSTATUS(st) != 0 {
                            return (t, Err(format!("worker exited with {}", libc::WEXITSTATUS(st))));
                        }
                    }
                    let s = sh.w[id].seq.load(SeqCst);
                    if s != last[id].0 || sh.w[id].active.load(SeqCst) == 0 {
                        last[id] = (s, Instant::now());
                    } else if last[id].1.elapsed() > Duration::from_secs(40) {
                        unsafe { libc::kill(pids[id], libc::SIGKILL) };
                        if crashed.is_none() {
                            crashed = Some((id, "made no progress for 40 s".into()));
                            sh.stop.store(true, SeqCst);
                        }
                        last[id].1 = Instant::now();
                    }
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            for w in sh.w.iter() {
                t.execs += w.execs.load(SeqCst);
                t.nodes += w.nodes.load(SeqCst);
                t.steps += w.steps.load(SeqCst);
                t.maxpts = t.maxpts.max(w.maxpts.load(SeqCst));
                for k in 0..w.nout.load(SeqCst) as usize {
                    outs.insert((ri, w.out[k]));
                }
            }
            t.capped |= sh.capped.load(SeqCst);
            let pcs = sh.pcs.n.load(SeqCst);
            if let Some((id, what)) = crashed {
                let n = sh.w[id].plen.load(SeqCst) as usize;
                let prefix = sh.w[id].prefix[..n].to_vec();
                let pi = if split { round[0] } else { round[sh.w[id].f_hash.load(SeqCst) as usize % round.len()] };
                let r = run_one(&programs[pi], &prefix, fair);
                if let Err(m) = r {
                    return (t, Ok(Some(Bad { program: pi, choices: prefix, msg: m, fair, pcs: pc_list() })));
                }
                return (t, Err(format!("worker {} but the schedule passes alone", what)));
            }
            if sh.viol.load(SeqCst) == 2 {
                let n = sh.vlen.load(SeqCst) as usize;
                let choices = sh.vprefix[..n].to_vec();
                let msg = get(&sh.vmsg);
                // find the program: re-run on candidates
                let cands: Vec<usize> = round.clone();
                let mut which = None;
                if split {
                    which = Some(round[0]);
                } else {
                    for id in 0..NW {
                        let pi = round[sh.w[id].f_hash.load(SeqCst) as usize % round.len()];
                        if run_one(&programs[pi], &choices, fair).is_err() {
                            which = Some(pi);
                            break;
                        }
                    }
                }
                let pi = which.unwrap_or(cands[0]);
                // the same schedule must fail again, in a fresh process
                return match run_one(&programs[pi], &choices, fair) {
                    Err(m2) => (t, Ok(Some(Bad { program: pi, choices, msg: m2, fair, pcs: pc_list() }))),
                    Ok(_) if forked => (t, Err(format!("violation `{}` did not repeat", msg))),
                    Ok(_) => {
                        // state left behind by earlier executions: start over
                        // with a fresh process per execution
                        sh.viol.store(0, SeqCst);
                        diverged = true;
                        break;
                    }
                };
            }
            if sh.diverged.load(SeqCst) {
                diverged = true;
                break;
            }
            if t.capped || (gens < 40 && pcs != pcs0) {
                break;
            }
        }
        t.outcomes = outs.len() as u64;
        t.racing_sites = sh.pcs.n.load(SeqCst) as u64;
        t.forked = forked;
        tot.execs = t.execs;
        tot.nodes = t.nodes;
        tot.steps = t.steps;
        tot.maxpts = t.maxpts;
        tot.outcomes = t.outcomes;
        tot.racing_sites = t.racing_sites;
        tot.forked = forked;
        tot.capped = t.capped;
        if diverged {
            if forked {
                return (tot, Err("executions are nondeterministic even in fresh processes".into()));
            }
            forked = true;
            continue;
        }
        if sh.pcs.n.load(SeqCst) != pcs0 && !t.capped {
            if gens < 50 {
                continue; // new racing sites: they are scheduling points from now on
            }
            tot.capped = true;
        }
        return (tot, Ok(None));
    }
}

fn pc_list() -> Vec<i64> {
    unsafe {
        let base = rt_begin as usize as i64;
        (0..rt_active_pcs as usize).map(|i| (*rt_pcs).pc[i].load(SeqCst) as i64 - base).collect()
    }
}
pub fn set_pcs(rel: &[i64]) {
    let sh = shared();
    unsafe {
        let base = rt_begin as usize as i64;
        for (i, r) in rel.iter().enumerate().take(MAXPC) {
            sh.pcs.pc[i].store((r + base) as u64, SeqCst);
        }
        sh.pcs.n.store(rel.len() as u32, SeqCst);
        rt_pcs = &mut sh.pcs;
        rt_active_pcs = rel.len() as u32;
    }
}

/// Runs one schedule in a fresh process.
pub fn run_one(p: &Program, choices: &[u8], fair: Fair) -> Result<u64, String> {
    let sh = shared();
    let mut w = Worker {
        id: 0,
        sh,
        fork_each: true,
        early: false,
        fair,
        limit: 0,
        outcomes: HashSet::new(),
        deadline: Instant::now() + Duration::from_secs(3600),
    };
    let r = w.exec_forked(p, choices);
    match r.status {
        1 => Err("deadlock: every unfinished thread is blocked".into()),
        2 => Err("no termination: step limit exceeded (livelock)".into()),
        3 => Ok(0),
        _ => r.result,
    }
}
