//! Shared plumbing: JSONL job server with panic capture.
use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Installs a panic hook which records the message instead of printing it.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".to_owned());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}

/// Runs `f`, converting panics of the code under test into an error value.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Reads one JSON job per stdin line and writes one JSON result per stdout line.  Before each
/// job, its id goes to stderr so that the driver can tell which job killed the process.
pub fn serve(f: impl Fn(&Value) -> Value) {
    install_hook();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let job: Value = serde_json::from_str(&line).expect("bad job");
        let id = job["id"].clone();
        let mut res = match guarded(|| f(&job)) {
            Ok(v) => v,
            Err(p) => json!({ "panic": p }),
        };
        res["id"] = id;
        let mut o = stdout.lock();
        writeln!(o, "{}", res).expect("stdout");
        o.flush().expect("stdout");
    }
}
