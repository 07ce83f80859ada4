//! Shared pieces of the model-checking harnesses.
pub mod explore;
pub mod spec;
pub mod sup;

/// A check failure: what went wrong, in one human readable string.
pub type Fail = String;
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
/// Picks a bound by tier.
pub fn tier<T>(quick: T, thorough_: T) -> T {
    if thorough() { thorough_ } else { quick }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// A FNV-style hash, used only to count distinct states.
pub fn h64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in bytes.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h ^ (bytes.len() as u64).wrapping_mul(0x9E3779B97F4A7C15)
}

/// Scratch directory for one process, in memory when possible.
pub fn scratch_root() -> std::path::PathBuf {
    let base = if std::fs::metadata("/dev/shm").is_ok() && probe("/dev/shm") {
        "/dev/shm".to_string()
    } else {
        std::env::temp_dir().display().to_string()
    };
    std::path::PathBuf::from(base).join(format!("mmverif-{}", root_pid()))
}
fn probe(d: &str) -> bool {
    let p = format!("{}/.mmverif-probe-{}", d, std::process::id());
    let ok = std::fs::write(&p, b"x").is_ok();
    let _ = std::fs::remove_file(&p);
    ok
}
static ROOT_PID: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub fn set_root_pid() {
    ROOT_PID.store(std::process::id(), std::sync::atomic::Ordering::SeqCst);
}
fn root_pid() -> u32 {
    let p = ROOT_PID.load(std::sync::atomic::Ordering::SeqCst);
    if p == 0 { std::process::id() } else { p }
}
