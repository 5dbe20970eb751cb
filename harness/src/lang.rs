//! Runs BASIC programs (as REPL-like sequences of chunks) in a real `Machine`.
use crate::util::guarded;
use async_trait::async_trait;
use endbasic_std::testutils::{CapturedOut, MockConsole};
use endbasic_std::{Error, MachineBuilder, Signal, Yielder};
use futures_lite::future::block_on;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::rc::Rc;

/// Yielder that sends a break after a number of yields.
struct TestYielder {
    count: u64,
    break_at: Option<u64>,
    limit: u64,
    tx: async_channel::Sender<Signal>,
}

#[async_trait(?Send)]
impl Yielder for TestYielder {
    async fn yield_now(&mut self) {
        self.count += 1;
        if Some(self.count) == self.break_at || self.count == self.limit {
            self.tx.send(Signal::Break).await.expect("send");
        }
    }
}

fn flatten(outs: Vec<CapturedOut>) -> String {
    let mut s = String::new();
    for o in outs {
        match o {
            CapturedOut::Print(t) => {
                s.push_str(&t);
                s.push('\n');
            }
            CapturedOut::Write(t) => s.push_str(&t),
            _ => (),
        }
    }
    s
}

/// Executes a language job.
///
/// `chunks` is an array of `{src, break_at?}`; each chunk is compiled and executed in sequence on
/// the same machine, as the REPL does.
pub fn run_job(job: &Value) -> Value {
    let console = Rc::from(RefCell::from(MockConsole::default()));
    if let Some(s) = job["input"].as_str() {
        console.borrow_mut().add_input_chars(s);
    }
    let (tx, rx) = async_channel::unbounded();
    let yielder = Rc::from(RefCell::from(TestYielder { count: 0, break_at: None, limit: u64::MAX, tx: tx.clone() }));
    let mut machine = MachineBuilder::default()
        .with_console(console.clone())
        .with_yielder(yielder.clone())
        .with_signals_chan((tx.clone(), rx.clone()))
        .make_interactive()
        .build();
    let mut results = vec![];
    for chunk in job["chunks"].as_array().expect("chunks") {
        let src = chunk["src"].as_str().expect("src");
        {
            let mut y = yielder.borrow_mut();
            y.count = 0;
            y.break_at = chunk["break_at"].as_u64();
            y.limit = chunk["limit"].as_u64().unwrap_or(20000);
        }
        let r = guarded(|| match machine.compile(&mut src.as_bytes()) {
            Err(e) => json!({"k": "cerr", "m": format!("{e}")}),
            Ok(()) => match block_on(machine.exec()) {
                Ok(None) => json!({"k": "eof"}),
                Ok(Some(c)) => json!({"k": "end", "c": c}),
                Err(Error::Break) => json!({"k": "break"}),
                Err(e) => json!({"k": "err", "m": format!("{e}")}),
            },
        });
        machine.drain_signals();
        let (mut r, stop) = match r {
            Ok(v) => (v, false),
            Err(p) => (json!({"k": "panic", "m": p}), true),
        };
        r["out"] = json!(flatten(console.borrow_mut().take_captured_out()));
        r["yields"] = json!(yielder.borrow().count);
        results.push(r);
        if stop {
            std::mem::forget(machine);
            std::mem::forget(console);
            return json!({ "results": results });
        }
    }
    json!({ "results": results })
}
