//! Exhaustive exploration: a scenario is a function of the answers to its
//! `choose(n)` calls, and every sequence of answers is executed. The search is
//! a depth-first odometer over choice sequences; idle workers split the
//! remaining range of a busy one, so the set of executions does not depend on
//! the number of workers.
use crate::sup::{Shared, Slot};
use crate::{h64, Res};
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

pub struct Ctx<'s> {
    stack: Vec<(u32, u32)>,
    pos: usize,
    slot: Option<&'s Slot>,
    pub worker: usize,
    pub acc: Acc,
    /// Remaining deviation budget for `deviate`.
    pub budget: u32,
    replaying: bool,
}

#[derive(Default)]
pub struct Acc {
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub execs: u64,
    pub max_depth: usize,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
}
const SET_CAP: usize = 2_000_000;

impl Acc {
    fn merge(&mut self, o: Acc) {
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.execs += o.execs;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.samples.extend(o.samples);
        self.notes.extend(o.notes);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} ({})", msg, loc);
            }
        });
    }));
}
/// Runs code under check that may panic; Err(panic message).
pub fn catches<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl<'s> Ctx<'s> {
    pub fn new_replay(choices: &[u32]) -> Ctx<'static> {
        Ctx {
            stack: choices.iter().map(|&c| (c, c + 1)).collect(),
            pos: 0,
            slot: None,
            worker: 0,
            acc: Acc::default(),
            budget: 0,
            replaying: true,
        }
    }
    /// A nondeterministic choice among 0..n.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        let i = self.pos;
        self.pos += 1;
        if i < self.stack.len() {
            let c = self.stack[i].0;
            assert!(
                (c as usize) < n,
                "HARNESS: choice {} out of range {} at depth {} (nondeterministic scenario)",
                c,
                n,
                i
            );
            if self.replaying {
                self.stack[i].1 = n as u32;
            }
        } else {
            self.stack.push((0, n as u32));
        }
        if let Some(s) = self.slot {
            s.push_choice(i, self.stack[i].0);
        }
        self.stack[i].0 as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// A choice whose non-default answers each use up one unit of `budget`.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.budget -= 1;
        }
        c
    }
    pub fn choices(&self) -> Vec<u32> {
        self.stack[..self.pos.min(self.stack.len())].iter().map(|x| x.0).collect()
    }
    /// Counts a reference-model state (by its canonical bytes).
    pub fn state(&mut self, bytes: &[u8]) {
        if self.acc.samples.is_empty() && self.pos > 1 {
            let n = bytes.len().min(400);
            let text: String = String::from_utf8_lossy(&bytes[..n]).chars().map(|c| if c.is_control() { '.' } else { c }).collect();
            let ch: Vec<u32> = self.stack[..self.pos].iter().map(|x| x.0).collect();
            self.acc.samples.push(format!("choices {:?}: {}", ch, text));
        }
        if self.acc.states.len() < SET_CAP {
            self.acc.states.insert(h64(bytes));
        }
    }
    pub fn outcome(&mut self, bytes: &[u8]) {
        if self.acc.outcomes.len() < SET_CAP {
            self.acc.outcomes.insert(h64(bytes));
        }
    }
    pub fn step(&mut self) {
        self.acc.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.acc.transitions += n;
    }
    /// One complete behaviour of the real code was compared with the model.
    pub fn validated(&mut self) {
        self.acc.traces += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.acc.samples.len() < 2 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            self.acc.samples.push(s);
        }
    }
    pub fn scratch(&self) -> std::path::PathBuf {
        let p = crate::scratch_root().join(format!("w{}", self.worker));
        let _ = std::fs::create_dir_all(&p);
        p
    }
}

pub type Body = Box<dyn Fn(&mut Ctx) -> Res + Sync + Send>;
pub struct Scenario {
    pub name: String,
    pub body: Body,
}
pub fn scenario(name: &str, body: impl Fn(&mut Ctx) -> Res + Sync + Send + 'static) -> Scenario {
    Scenario { name: name.to_string(), body: Box::new(body) }
}

pub struct Violation {
    pub scenario: String,
    pub choices: Vec<u32>,
    pub msg: String,
}
pub struct ScenarioReport {
    pub name: String,
    pub acc: Acc,
    pub wall_s: f64,
    pub complete: bool,
}

struct Queue {
    items: Vec<Vec<(u32, u32)>>,
    busy: usize,
}

/// Runs one execution in a thread of its own, so that what earlier ones left in
/// a thread does not matter.
pub fn in_fresh_thread(f: impl FnOnce() -> Res + Send) -> Res {
    std::thread::scope(|s| {
        let b = std::thread::Builder::new().stack_size(16 << 20);
        b.spawn_scoped(s, || caught(f)).unwrap().join().unwrap()
    })
}
pub fn run_body(s: &Scenario, ctx: &mut Ctx) -> Res {
    caught(|| (s.body)(ctx))
}
fn caught(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.starts_with("HARNESS") {
                eprintln!("{}", m);
                std::process::exit(2);
            }
            Err(format!("unexpected panic: {}", m))
        }
    }
}

pub fn explore(
    sc_index: usize,
    s: &Scenario,
    shared: &Shared,
    workers: usize,
    deadline: Instant,
) -> (ScenarioReport, Option<Violation>) {
    let t0 = Instant::now();
    let q = Mutex::new(Queue { items: vec![vec![]], busy: 0 });
    let cv = Condvar::new();
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let viol: Mutex<Option<Violation>> = Mutex::new(None);
    let total: Mutex<Acc> = Mutex::new(Acc::default());
    std::thread::scope(|scope| {
        for w in 0..workers {
            let (q, cv, idle, stop, timed_out, viol, total) =
                (&q, &cv, &idle, &stop, &timed_out, &viol, &total);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, move || {
                let slot = shared.slot(w);
                let mut acc = Acc::default();
                loop {
                    // get an item
                    let item = {
                        let mut g = q.lock().unwrap();
                        loop {
                            if stop.load(SeqCst) {
                                break None;
                            }
                            if let Some(i) = g.items.pop() {
                                g.busy += 1;
                                break Some(i);
                            }
                            if g.busy == 0 {
                                cv.notify_all();
                                break None;
                            }
                            idle.fetch_add(1, SeqCst);
                            g = cv.wait(g).unwrap();
                            idle.fetch_sub(1, SeqCst);
                        }
                    };
                    let Some(mut stack) = item else { break };
                    let fixed = stack.len();
                    let _ = fixed;
                    let mut first = true;
                    loop {
                        if stop.load(SeqCst) {
                            break;
                        }
                        if Instant::now() > deadline {
                            timed_out.store(true, SeqCst);
                            stop.store(true, SeqCst);
                            break;
                        }
                        if !first {
                            // next in odometer order
                            let mut done = true;
                            while let Some((c, hi)) = stack.pop() {
                                if c + 1 < hi {
                                    stack.push((c + 1, hi));
                                    done = false;
                                    break;
                                }
                            }
                            if done {
                                break;
                            }
                        }
                        first = false;
                        slot.begin(sc_index);
                        let mut ctx = Ctx {
                            stack: std::mem::take(&mut stack),
                            pos: 0,
                            slot: Some(slot),
                            worker: w,
                            acc: std::mem::take(&mut acc),
                            budget: 0,
                            replaying: false,
                        };
                        let r = run_body(s, &mut ctx);
                        slot.end();
                        ctx.acc.execs += 1;
                        ctx.acc.max_depth = ctx.acc.max_depth.max(ctx.pos);
                        let used = ctx.pos;
                        if let Err(msg) = r {
                            let choices = ctx.choices();
                            let mut v = viol.lock().unwrap();
                            let better = match &*v {
                                None => true,
                                Some(o) => (choices.len(), &choices) < (o.choices.len(), &o.choices),
                            };
                            if better {
                                *v = Some(Violation { scenario: s.name.clone(), choices, msg });
                            }
                            stop.store(true, SeqCst);
                        } else {
                            assert!(used >= ctx.stack.len(), "HARNESS: scenario consumed fewer choices on replay");
                        }
                        stack = ctx.stack;
                        acc = ctx.acc;
                        // split if someone is idle
                        if idle.load(SeqCst) > 0 && !stop.load(SeqCst) {
                            if let Some(l) = stack.iter().position(|&(c, hi)| c + 1 < hi) {
                                let (c, hi) = stack[l];
                                let mid = c + 1 + (hi - c - 1) / 2;
                                let mut it: Vec<(u32, u32)> =
                                    stack[..l].iter().map(|&(c, _)| (c, c + 1)).collect();
                                it.push((mid, hi));
                                stack[l].1 = mid.max(c + 1);
                                let mut g = q.lock().unwrap();
                                g.items.push(it);
                                cv.notify_one();
                            }
                        }
                    }
                    let mut g = q.lock().unwrap();
                    g.busy -= 1;
                    if g.busy == 0 || stop.load(SeqCst) {
                        cv.notify_all();
                    }
                }
                cv.notify_all();
                total.lock().unwrap().merge(acc);
            }).unwrap();
        }
    });
    let mut acc = total.into_inner().unwrap();
    acc.samples.sort();
    acc.samples.truncate(3);
    let complete = !timed_out.load(SeqCst);
    (
        ScenarioReport { name: s.name.clone(), acc, wall_s: t0.elapsed().as_secs_f64(), complete },
        viol.into_inner().unwrap(),
    )
}
