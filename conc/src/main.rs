//! Concurrency checks (C02, C03): the real measureme code under a controlled
//! scheduler. See rt.c and engine.rs.
mod engine;
mod profilers;
mod sinks;
use engine::*;
use serde_json::json;
use std::cell::RefCell;
use std::time::{Duration, Instant};

#[global_allocator]
static A: Alloc = Alloc;

thread_local! {
    static LAST: RefCell<[u8; 512]> = const { RefCell::new([0; 512]) };
}
pub fn last_panic() -> String {
    LAST.with(|l| {
        let l = l.borrow();
        let n = l.iter().position(|&b| b == 0).unwrap_or(512);
        String::from_utf8_lossy(&l[..n]).into_owned()
    })
}
fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        let _ = LAST.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                let n = m.len().min(511);
                l[..n].copy_from_slice(&m.as_bytes()[..n]);
                l[n] = 0;
            }
        });
    }));
}

/// (name, programs, fairness mode, split trees over workers?)
type Family = (String, Vec<Program>, Fair, bool);

fn families(id: &str) -> Option<(Vec<Family>, String, Vec<String>)> {
    let (f, rule, assumptions) = match id {
        "C02" => sinks::families(),
        "C03" => profilers::families(),
        _ => return None,
    };
    Some((f, rule, assumptions))
}

fn run(id: &str) -> i32 {
    let Some((fams, rule, assumptions)) = families(id) else {
        eprintln!("unknown check {}", id);
        return 2;
    };
    let t0 = Instant::now();
    let cap: u64 = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(common::tier(600, 6 * 3600));
    let deadline = t0 + Duration::from_secs(cap);
    let mut per = vec![];
    let (mut nodes, mut steps, mut execs) = (0, 0, 0);
    let mut samples = vec![];
    let mut complete = true;
    let mut code = 0;
    let modes: Vec<_> = fams
        .iter()
        .flat_map(|f| match f.2 {
            Fair::Never => vec![(f, Fair::Never), (f, Fair::Park)],
            other => vec![(f, other)],
        })
        .collect();
    // Everything with one preemption first: if the code under check makes for
    // many more schedules than expected, no family is left out altogether.
    let shallow = modes.iter().map(|m| (m, true));
    for (((name, progs, _, split), fair), shallow) in shallow.chain(modes.iter().map(|m| (m, false))) {
        let t1 = Instant::now();
        let fair = *fair;
        // Parking makes for longer schedules, the quick tier explores them less deep.
        let limit = match fair {
            _ if shallow => 1,
            Fair::Park => common::tier((progs[0].bound - 1).clamp(1, 3), u32::MAX),
            _ => u32::MAX,
        };
        let left = deadline.saturating_duration_since(t1);
        let (t, r) = explore(progs, fair, limit, *split, t1 + if shallow { left / 6 } else { left / 3 });
        if shallow && matches!(r, Ok(None)) {
            continue;
        }
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("{} {} {:?}: {:?} {:.2}s", id, name, fair, t, t1.elapsed().as_secs_f64());
        }
        nodes += t.nodes;
        steps += t.steps;
        execs += t.execs;
        complete &= !t.capped;
        let mut bounds: Vec<u32> = progs.iter().map(|p| p.bound.min(limit)).collect();
        bounds.sort();
        bounds.dedup();
        per.push(json!({"family": name, "programs": t.programs, "schedules": t.execs, "preemption_bounds": bounds,
            "max_decision_points": t.maxpts, "distinct_outcomes": t.outcomes, "racing_access_sites": t.racing_sites,
            "fresh_process_per_schedule": t.forked, "lock_handoff": format!("{:?}", fair),
            "wall_s": t1.elapsed().as_secs_f64(), "complete": !t.capped}));
        if let Some(p) = progs.get(progs.len() / 2) {
            samples.push(format!("{}: program `{}`", name, p.name));
        }
        match r {
            Err(m) => {
                eprintln!("{} {}: engine error: {}", id, name, m);
                code = 2;
                break;
            }
            Ok(Some(b)) => {
                let p = &progs[b.program];
                let dir = common::verif_dir().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}.json", id));
                let v = json!({"property": id, "engine": "conc", "family": name, "program": p.name,
                    "program_index": b.program, "choices": b.choices, "fair": format!("{:?}", b.fair), "racing_sites": b.pcs,
                    "message": b.msg, "tier": if common::thorough() {"thorough"} else {"quick"},
                    "how": format!("/verif/check replay {}", path.display())});
                std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                println!("{} [{}] program `{}`: {}", id, name, p.name, b.msg);
                println!("VIOLATION property={} replay={}", id, path.display());
                code = 1;
                break;
            }
            Ok(None) => {}
        }
    }
    samples.truncate(12);
    common::sup::write_evidence(
        id,
        json!({"states": nodes, "transitions": steps, "traces_validated_against_impl": execs, "samples": samples,
               "rule": rule, "families": per, "exhaustive": complete && code == 0}),
        &assumptions,
        t0.elapsed().as_secs_f64(),
        (code == 1) as usize,
    );
    let _ = std::fs::remove_dir_all(common::scratch_root());
    code
}

fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    if v["tier"] == "thorough" {
        std::env::set_var("VERIF_TIER", "thorough");
    }
    let id = v["property"].as_str().unwrap();
    let (fams, _, _) = families(id).unwrap();
    let fam = fams.iter().find(|f| f.0 == v["family"].as_str().unwrap()).unwrap();
    let p = &fam.1[v["program_index"].as_u64().unwrap() as usize];
    let choices: Vec<u8> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let pcs: Vec<i64> = v["racing_sites"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    set_pcs(&pcs);
    let fair = match v["fair"].as_str() {
        Some("Park") => Fair::Park,
        Some("Always") => Fair::Always,
        _ => Fair::Never,
    };
    let r = run_one(p, &choices, fair);
    let _ = std::fs::remove_dir_all(common::scratch_root());
    match r {
        Ok(_) => {
            println!("replay: the schedule passes");
            0
        }
        Err(m) => {
            println!("{} program `{}`: {}", id, p.name, m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}

fn main() {
    common::set_root_pid();
    hook();
    let a: Vec<String> = std::env::args().collect();
    let c = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2]),
        Some("replay") => replay(&a[2]),
        _ => 2,
    };
    std::process::exit(c);
}
