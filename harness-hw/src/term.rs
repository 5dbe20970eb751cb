//! Runs operations on the real terminal console, on whatever stdin and stdout are.
//!
//! After every operation, a mark is written straight to the terminal, behind whatever the console wrote.
use crate::lcd::key_name;
use endbasic_std::console::{CharsXY, ClearType, Console};
use endbasic_terminal::TerminalConsole;
use serde_json::{Value, json};
use std::fs::File;
use std::io::Write;
use std::mem::ManuallyDrop;
use std::os::fd::FromRawFd;
use std::time::Duration;

fn mark(n: usize) {
    let mut out = ManuallyDrop::new(unsafe { File::from_raw_fd(1) });
    out.write_all(format!("\x1b]{n}\x07").as_bytes()).expect("mark");
}

pub fn main(path: &str) {
    let job: Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("job")).expect("job");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    let results = rt.block_on(async {
        let (signals_tx, signals_rx) = async_channel::unbounded();
        let mut c = TerminalConsole::from_stdio(signals_tx).expect("console");
        let mut results = vec![json!({ "tty": c.is_interactive() })];
        mark(0);
        for (i, op) in job["ops"].as_array().expect("ops").iter().enumerate() {
            let a = op["a"].as_array().map(|a| a.as_slice()).unwrap_or(&[]);
            let n = |i: usize| a[i].as_i64().expect("n");
            let color = |i: usize| u8::try_from(n(i)).ok();
            let text = op["t"].as_str().unwrap_or("");
            let mut r = json!({ "err": "", "keys": [], "color": [], "size": [] });
            let res = match op["o"].as_str().expect("op") {
                "cls" => c.clear(ClearType::All),
                "clrline" => c.clear(ClearType::CurrentLine),
                "clrprev" => c.clear(ClearType::PreviousChar),
                "clreol" => c.clear(ClearType::UntilNewLine),
                "color" => c.set_color(color(0), color(1)),
                "enter" => c.enter_alt(),
                "leave" => c.leave_alt(),
                "hide" => c.hide_cursor(),
                "show" => c.show_cursor(),
                "locate" => c.locate(CharsXY::new(n(0) as u16, n(1) as u16)),
                "move" => c.move_within_line(n(0) as i16),
                "print" => c.print(text),
                "write" => c.write(text),
                "sync" => c.set_sync(n(0) == 1).map(|p| r["prev"] = json!(p)),
                "syncnow" => c.sync_now(),
                "beep" => c.beep().await,
                "size" => c.size_chars().map(|s| r["size"] = json!([s.x, s.y])),
                "keys" => {
                    let mut keys = vec![];
                    for k in 0..n(0) {
                        let poll = n(1) == 1 && k % 2 == 1;
                        let f = async {
                            if !poll {
                                return c.read_key().await;
                            }
                            loop {
                                if let Some(k) = c.poll_key().await? {
                                    return Ok(k);
                                }
                                tokio::time::sleep(Duration::from_millis(2)).await;
                            }
                        };
                        match tokio::time::timeout(Duration::from_secs(8), f).await {
                            Ok(Ok(k)) => keys.push(key_name(k)),
                            Ok(Err(e)) => keys.push(format!("error {e}")),
                            Err(_) => {
                                keys.push("none".to_owned());
                                break;
                            }
                        }
                    }
                    if n(2) == 1 {
                        // Nothing else may come.
                        tokio::time::sleep(Duration::from_millis(30)).await;
                        if let Ok(Some(k)) = c.poll_key().await {
                            keys.push(format!("extra {}", key_name(k)));
                        }
                    }
                    let mut breaks = 0;
                    while signals_rx.try_recv().is_ok() {
                        breaks += 1;
                    }
                    r["keys"] = json!(keys);
                    r["breaks"] = json!(breaks);
                    Ok(())
                }
                o => panic!("bad op {o}"),
            };
            if let Err(e) = res {
                r["err"] = json!(format!("{e}"));
            }
            let (fg, bg) = c.color();
            r["color"] = json!([fg.map(i32::from).unwrap_or(-1), bg.map(i32::from).unwrap_or(-1)]);
            results.push(r);
            mark(i + 1);
        }
        drop(c);
        results
    });
    std::fs::write(format!("{path}.out"), json!(results).to_string()).expect("results");
    // The thread that waits for keys may be stuck.
    rt.shutdown_timeout(Duration::from_millis(100));
    std::process::exit(0);
}
