//! dsim: deterministic simulation of the delegation program.
//!
//!   dsim check <property>       seeded search; exit 0 / 1 (VIOLATION line) / 2 (harness error)
//!   dsim replay <file>          re-execute a replay file; exit 1 if it reproduces its violation
//!   dsim trace <file>           the same, printing every instruction
//!   dsim selftest               determinism of the simulator itself
macro_rules! say {
    ($($t:tt)*) => { crate::say(format!($($t)*)) };
}

mod builders;
mod directory;
mod exec;
mod model;
mod owners;
mod plan;
mod prng;
mod readers;
mod report;
mod rt;
mod search;
mod shrink;

use exec::Schedule;

fn load(path: &str) -> Schedule {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    serde_json::from_str(&s).unwrap_or_else(|e| die(&format!("{path}: {e}")))
}

pub fn die(msg: &str) -> ! {
    eprintln!("ERROR: {msg}");
    std::process::exit(2)
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const u8, flags: i32) -> i32;
}

static OUT: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);

/// The program under test prints its logs to stdout when it runs natively; our own output goes
/// to a private copy of stdout and the rest is discarded (kept when tracing).
fn quiet_stdout() {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = dup(1);
        let null = open(c"/dev/null".as_ptr() as *const u8, 1);
        if fd >= 0 && null >= 0 {
            dup2(null, 1);
            *OUT.lock().unwrap() = Some(std::fs::File::from_raw_fd(fd));
        }
    }
}

pub fn say(s: String) {
    use std::io::Write;
    match OUT.lock().unwrap().as_mut() {
        Some(f) => {
            let _ = writeln!(f, "{s}");
        }
        None => println!("{s}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    if a.get(1) != Some(&"trace") {
        quiet_stdout();
    }
    let code = match a.as_slice() {
        [_, "check", p] => search::check(p),
        [_, "replay", f] => shrink::replay_cmd(&load(f), false),
        [_, "trace", f] => shrink::replay_cmd(&load(f), true),
        [_, "selftest"] => search::selftest(),
        _ => die("usage: dsim check <property> | replay <file> | trace <file> | selftest"),
    };
    std::process::exit(code);
}
