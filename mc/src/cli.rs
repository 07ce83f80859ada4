//! Running the command line tools.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Out {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
pub fn bin(name: &str) -> PathBuf {
    std::env::var_os("VERIF_BIN").map(PathBuf::from).unwrap_or_else(|| common::verif_dir().join("target/repo/release")).join(name)
}
/// Leaves a longer file of an earlier run where a tool will write, in about
/// half of the cases.
pub fn stale(p: &Path, key: &[u8]) {
    if key.iter().fold(0u32, |a, b| a.wrapping_mul(31).wrapping_add(*b as u32 + 1)) >> 3 & 1 == 1 {
        std::fs::write(p, "{\"old\": [1, 2, 3]} text of an earlier run\n".repeat(2000)).unwrap();
    }
}
pub fn tool(name: &str, args: &[&str], dir: &Path) -> Out {
    run(name, args, dir, None, Stdio::piped(), &[])
}
/// Runs a tool with environment variables.
pub fn tool_in(name: &str, args: &[&str], dir: &Path, env: &[(String, String)]) -> Out {
    run(name, args, dir, None, Stdio::piped(), env)
}
/// Runs a tool that can write at most `room` bytes to any file, its output
/// going to `to`.
pub fn tool_with_room(name: &str, args: &[&str], dir: &Path, room: u64, to: &Path) -> Out {
    let f = std::fs::File::create(to).unwrap();
    run(name, args, dir, Some(room), Stdio::from(f), &[])
}
fn run(name: &str, args: &[&str], dir: &Path, room: Option<u64>, to: Stdio, env: &[(String, String)]) -> Out {
    let mut cmd = Command::new(bin(name));
    cmd.args(args).current_dir(dir).stdin(Stdio::null()).stdout(to).stderr(Stdio::piped()).env_clear().env("TERM", "dumb");
    cmd.envs(env.iter().map(|(k, v)| (k, v)));
    if let Some(n) = room {
        use std::os::unix::process::CommandExt;
        unsafe {
            cmd.pre_exec(move || {
                // writes beyond the limit fail instead of ending the process
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let lim = libc::rlimit { rlim_cur: n, rlim_max: n };
                match libc::setrlimit(libc::RLIMIT_FSIZE, &lim) {
                    0 => Ok(()),
                    _ => Err(std::io::Error::last_os_error()),
                }
            });
        }
    }
    let r = cmd
        .spawn()
        .and_then(|p| {
            // a tool that runs away is ended by the system
            let lim = |s| libc::rlimit { rlim_cur: s, rlim_max: s };
            unsafe {
                libc::prlimit(p.id() as i32, libc::RLIMIT_CPU, &lim(30), std::ptr::null_mut());
                libc::prlimit(p.id() as i32, libc::RLIMIT_AS, &lim(4 << 30), std::ptr::null_mut());
            }
            p.wait_with_output()
        });
    match r {
        Ok(o) => Out {
            code: o.status.code(),
            out: String::from_utf8_lossy(&o.stdout).into_owned(),
            err: String::from_utf8_lossy(&o.stderr).into_owned(),
        },
        Err(e) => {
            eprintln!("HARNESS: running {}: {}", bin(name).display(), e);
            std::process::exit(2)
        }
    }
}
