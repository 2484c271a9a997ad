// Nesting far beyond what the enumerated spaces reach.  Such a case may overflow
// the stack, so it runs in a process of its own, on a stack of fixed size.
// Case: "deep" (or "deep0": with the library unoptimised), action, n, pre, mid, post, closer, expression: pre mid^n post closer^n.
use crate::sup::*;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const LIMIT: Duration = Duration::from_secs(15);

pub fn case(f: &[&str]) -> Out {
    let mut exe = std::env::current_exe().unwrap();
    if f[0] == "deep0" {
        exe = exe.parent().unwrap().join("../deep0/release/deep0");
        if !exe.exists() { panic!("deep0 is not built: {:?}", exe); }
    }
    let mut c = match Command::new(exe).arg("deep").args(&f[1..]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return Out::Bad(format!("cannot start: {}", e)),
    };
    let t = Instant::now();
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() { break st; }
        if t.elapsed() > LIMIT { let _ = c.kill(); let _ = c.wait(); return Out::Bad(format!("{} on {} repetitions of {:?} does not end within {} s", f[1], f[2], f[4], LIMIT.as_secs())); }
        std::thread::sleep(Duration::from_millis(3));
    };
    if st.success() { Out::Ok { obs: hs(&f.join("\t")), trivial: false } } else { Out::Bad(format!("{} on {} repetitions of {:?} kills the process ({})", f[1], f[2], f[4], st)) }
}
