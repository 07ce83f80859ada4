mod c01;
mod c04;
mod c05;
mod c06;
mod session;
mod c07;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c17;
mod c18;
mod c19;
mod c21;
mod c23;
mod c25;
mod c26;
mod c30;
mod c31;
mod cli;
mod trace;
mod v8;
mod util;
mod sys;
use common::sup::Check;

fn get(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => c01::check(),
        "C04" => c04::check(),
        "C05" => c05::check(),
        "C06" => c06::check(),
        "C07" => c07::check(),
        "C08" => c07::check_virtual(),
        "C09" => c09::check(),
        "C10" => c10::check(),
        "C11" => c11::check(),
        "C12" => c12::check(),
        "C13" => c13::check(),
        "C14" => c14::check(),
        "C15" => c15::check(),
        "C16" => c15::check_stacks(),
        "C17" => c17::check(),
        "C18" => c18::check(),
        "C19" => c19::check(),
        "C20" => c19::check_collapse(),
        "C21" => c21::check(),
        "C22" => c21::check_truncate(),
        "C23" => c23::check(),
        "C24" => c17::check_table(),
        "C25" => c25::check(),
        "C26" => c26::check_queries(),
        "C27" => c26::check_builder(),
        "C28" => c26::check_inputs(),
        "C30" => c30::check(),
        "C31" => c31::check(),
        "C29" => c26::check_counters(),
        _ => return None,
    })
}
fn main() {
    if std::env::var_os("MC_PROBE").is_some() {
        c31::probe();
    }
    if let Some(stem) = std::env::var_os("MC_CHILD") {
        c11::child(&stem);
    }
    let a: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().into_owned()).collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => match get(&a[2]) {
            Some(c) => common::sup::run(c, a.get(3).map(|s| s.as_str())),
            None => {
                eprintln!("unknown check {}", a[2]);
                2
            }
        },
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            if v["tier"] == "thorough" {
                std::env::set_var("VERIF_TIER", "thorough");
            }
            let choices: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            match get(v["property"].as_str().unwrap()) {
                Some(c) => common::sup::replay(c, v["scenario"].as_str().unwrap(), &choices),
                None => 2,
            }
        }
        _ => 2,
    };
    std::process::exit(code);
}
