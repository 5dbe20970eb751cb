//! Replays sessions against the cloud service into the real client, with a server that follows a script.
mod util;
use async_trait::async_trait;
use endbasic_client::{CloudService, Service};
use endbasic_repl::editor::Editor;
use endbasic_repl::run_from_cloud;
use endbasic_std::MachineBuilder;
use endbasic_std::console::{CharsXY, ClearType, Console, Key};
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Default)]
struct Screen {
    keys: VecDeque<Key>,
    out: String,
    prompts: String,
    cols: u16,
    reads: u32,
}

#[async_trait(?Send)]
impl Console for Screen {
    fn clear(&mut self, _how: ClearType) -> io::Result<()> {
        Ok(())
    }
    fn color(&self) -> (Option<u8>, Option<u8>) {
        (None, None)
    }
    fn set_color(&mut self, _fg: Option<u8>, _bg: Option<u8>) -> io::Result<()> {
        Ok(())
    }
    fn enter_alt(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn is_interactive(&self) -> bool {
        true
    }
    fn leave_alt(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn locate(&mut self, _pos: CharsXY) -> io::Result<()> {
        Ok(())
    }
    fn move_within_line(&mut self, _off: i16) -> io::Result<()> {
        Ok(())
    }
    fn print(&mut self, text: &str) -> io::Result<()> {
        self.out.push_str(text);
        self.out.push('\n');
        Ok(())
    }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.keys.pop_front())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        match self.keys.pop_front() {
            Some(k) => Ok(k),
            None => {
                self.reads += 1;
                if self.reads > 10 {
                    return Err(io::Error::other("Too many reads"));
                }
                Ok(Key::EofOrDelete)
            }
        }
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn size_chars(&self) -> io::Result<CharsXY> {
        Ok(CharsXY::new(self.cols, 10000))
    }
    fn write(&mut self, text: &str) -> io::Result<()> {
        self.prompts.push_str(text);
        Ok(())
    }
    fn sync_now(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn set_sync(&mut self, _enabled: bool) -> io::Result<bool> {
        Ok(true)
    }
}

#[derive(Default)]
struct Wire {
    replies: VecDeque<Value>,
    reqs: Vec<Value>,
    stop: bool,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn serve_one(mut c: TcpStream, wire: &Mutex<Wire>) -> io::Result<()> {
    c.set_read_timeout(Some(Duration::from_secs(10)))?;
    let mut data = vec![];
    let mut buf = [0u8; 65536];
    let head = loop {
        if let Some(i) = data.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        let n = c.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        data.extend_from_slice(&buf[..n]);
    };
    let mut lines = data[..head].split(|b| *b == b'\n').map(|l| {
        let l = l.strip_suffix(b"\r").unwrap_or(l);
        String::from_utf8_lossy(l).to_string()
    });
    let first = lines.next().unwrap_or_default();
    let mut headers = vec![];
    let mut len = 0;
    for l in lines {
        let (k, v) = l.split_once(':').unwrap_or((&l, ""));
        let (k, v) = (k.to_ascii_lowercase(), v.trim().to_owned());
        if k == "content-length" {
            len = v.parse().unwrap_or(0);
        }
        headers.push(json!([k, v]));
    }
    while data.len() < head + 4 + len {
        let n = c.read(&mut buf)?;
        if n == 0 {
            break;
        }
        data.extend_from_slice(&buf[..n]);
    }
    let reply = {
        let mut w = wire.lock().unwrap();
        w.reqs.push(json!({ "line": first, "headers": headers, "body": hex(&data[head + 4..]) }));
        w.replies.pop_front().unwrap_or(json!({ "status": 599, "headers": [], "body": "" }))
    };
    if reply["drop"].as_bool() == Some(true) {
        return Ok(());
    }
    let body = unhex(reply["body"].as_str().unwrap());
    let cut = reply["cut"].as_bool() == Some(true);
    let mut out = format!(
        "HTTP/1.1 {} {}\r\nConnection: close\r\nContent-Length: {}\r\n",
        reply["status"],
        reply["reason"].as_str().unwrap_or("x"),
        body.len() + if cut { 5 } else { 0 }
    )
    .into_bytes();
    for h in reply["headers"].as_array().unwrap() {
        out.extend(format!("{}: {}\r\n", h[0].as_str().unwrap(), h[1].as_str().unwrap()).bytes());
    }
    out.extend(b"\r\n");
    out.extend(body);
    c.write_all(&out)
}

fn run_job(job: &Value) -> Value {
    let listener = TcpListener::bind("127.0.0.1:0").expect("bind");
    let addr = listener.local_addr().unwrap();
    let wire = Arc::new(Mutex::new(Wire::default()));
    let wire2 = wire.clone();
    let server = std::thread::spawn(move || {
        for c in listener.incoming() {
            if wire2.lock().unwrap().stop {
                break;
            }
            if let Ok(c) = c {
                let _ = serve_one(c, &wire2);
            }
        }
    });
    let r = util::guarded(|| session(job, &format!("http://{addr}/"), &wire));
    wire.lock().unwrap().stop = true;
    let _ = TcpStream::connect(addr);
    let _ = server.join();
    match r {
        Ok(v) => v,
        Err(p) => json!({ "panic": p }),
    }
}

fn session(job: &Value, url: &str, wire: &Mutex<Wire>) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    let console = Rc::from(RefCell::from(Screen::default()));
    console.borrow_mut().cols = job["cols"].as_u64().unwrap() as u16;
    let storage = Rc::from(RefCell::from(Storage::default()));
    let program: Rc<RefCell<dyn Program>> = Rc::from(RefCell::from(Editor::default()));
    let service: Rc<RefCell<dyn Service>> =
        Rc::from(RefCell::from(CloudService::new(url).expect("service")));
    let mut builder = MachineBuilder::default().with_console(console.clone());
    endbasic_client::add_all(
        &mut builder,
        service.clone(),
        console.clone(),
        storage.clone(),
        "https://repl.example/",
    );
    let mut machine = builder
        .make_interactive()
        .with_program(program.clone())
        .with_storage(storage.clone())
        .build();
    let mut results = vec![];
    for op in job["ops"].as_array().expect("ops") {
        {
            let mut c = console.borrow_mut();
            c.out.clear();
            c.prompts.clear();
            c.reads = 0;
            c.keys = op["keys"]
                .as_str()
                .unwrap_or("")
                .chars()
                .map(|ch| match ch {
                    '\n' => Key::NewLine,
                    '\u{3}' => Key::Interrupt,
                    ch => Key::Char(ch),
                })
                .collect();
            let mut w = wire.lock().unwrap();
            w.reqs.clear();
            w.replies = op["replies"].as_array().expect("replies").iter().cloned().collect();
        }
        let t = op["t"].as_str().unwrap();
        let r = util::guarded(|| {
            rt.block_on(async {
                match op["o"].as_str().unwrap() {
                    "basic" => {
                        if let Err(e) = machine.compile(&mut t.as_bytes()) {
                            return json!({ "err": e.to_string() });
                        }
                        match machine.exec().await {
                            Ok(_) => json!({ "err": "" }),
                            Err(e) => json!({ "err": e.to_string() }),
                        }
                    }
                    "put" => {
                        let d = unhex(op["d"].as_str().unwrap());
                        let r = storage.borrow_mut().put(t, &d).await;
                        json!({ "err": r.err().map(|e| e.to_string()).unwrap_or_default() })
                    }
                    "get" => {
                        let r = storage.borrow().get(t).await;
                        match r {
                            Ok(d) => json!({ "err": "", "data": hex(&d) }),
                            Err(e) => json!({ "err": e.to_string() }),
                        }
                    }
                    "autorun" => {
                        let r = run_from_cloud(
                            &mut machine,
                            console.clone(),
                            storage.clone(),
                            program.clone(),
                            t,
                            op["repl"].as_bool().unwrap(),
                        )
                        .await;
                        match r {
                            Ok(n) => json!({ "err": "", "data": n.to_string() }),
                            Err(e) => json!({ "err": e.to_string() }),
                        }
                    }
                    o => panic!("bad op {o}"),
                }
            })
        });
        let mut r = match r {
            Ok(v) => v,
            Err(p) => {
                results.push(json!({ "panic": p }));
                std::mem::forget(machine);
                return json!({ "results": results });
            }
        };
        let c = console.borrow();
        let s = storage.borrow();
        let w = wire.lock().unwrap();
        r["out"] = json!(c.out);
        r["prompts"] = json!(c.prompts);
        r["left"] = json!(c.keys.len());
        r["reqs"] = json!(w.reqs);
        r["unused"] = json!(w.replies.len());
        r["user"] = json!(service.borrow().logged_in_username().unwrap_or_default());
        r["logged"] = json!(service.borrow().is_logged_in());
        r["mounts"] =
            Value::Object(s.mounted().iter().map(|(k, v)| (k.to_string(), json!(v))).collect());
        r["cwd"] = json!(s.cwd());
        r["name"] = json!(program.borrow().name());
        r["text"] = json!(program.borrow().text());
        results.push(r);
    }
    json!({ "results": results })
}

fn main() {
    util::serve(run_job);
}
