//! Runs interactive sessions (REPL, stored program and storage) in a scratch directory.
use crate::util::guarded;
use async_trait::async_trait;
use endbasic_repl::demos::DemoDriveFactory;
use endbasic_repl::editor::Editor;
use endbasic_repl::{run_repl_loop, try_load_autoexec};
use endbasic_std::{MachineBuilder, Signal};
use endbasic_std::console::{CharsXY, ClearType, Console, Key};
use endbasic_std::program::Program;
use endbasic_std::storage::{DirectoryDriveFactory, Storage};
use futures_lite::future::block_on;
use serde_json::{Map, Value, json};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fs;
use std::io;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// Console fed by a script that captures the text it gets; text in the alternate screen is lost.
#[derive(Default)]
pub struct ScriptConsole {
    pub keys: VecDeque<Key>,
    pub out: String,
    pub alt: bool,
    pub reads: u64,
    /// An interactive console only captures what is printed: not the echo of what is typed.
    pub interactive: bool,
    /// Where to report that the user pressed Ctrl+C.
    pub signals: Option<async_channel::Sender<Signal>>,
    /// Number of lines of output after which the user presses Ctrl+C while a command runs.
    pub brk: usize,
}

impl ScriptConsole {
    fn signal(&mut self) {
        if let Some(tx) = &self.signals {
            let _ = tx.try_send(Signal::Break);
        }
    }

    fn wrote(&mut self) {
        if self.brk > 0 && self.out.matches('\n').count() >= self.brk {
            self.brk = 0;
            self.signal();
        }
    }
}

#[async_trait(?Send)]
impl Console for ScriptConsole {
    fn clear(&mut self, _how: ClearType) -> io::Result<()> {
        Ok(())
    }
    fn color(&self) -> (Option<u8>, Option<u8>) {
        (None, None)
    }
    fn set_color(&mut self, _fg: Option<u8>, _bg: Option<u8>) -> io::Result<()> {
        Ok(())
    }
    fn enter_alt(&mut self) -> io::Result<()> {
        self.alt = true;
        Ok(())
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn is_interactive(&self) -> bool {
        self.interactive
    }
    fn leave_alt(&mut self) -> io::Result<()> {
        self.alt = false;
        Ok(())
    }
    fn locate(&mut self, _pos: CharsXY) -> io::Result<()> {
        Ok(())
    }
    fn move_within_line(&mut self, _off: i16) -> io::Result<()> {
        Ok(())
    }
    fn print(&mut self, text: &str) -> io::Result<()> {
        if !self.alt {
            self.out.push_str(text);
            self.out.push('\n');
            self.wrote();
        }
        Ok(())
    }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.keys.pop_front())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        match self.keys.pop_front() {
            Some(k) => {
                if k == Key::Interrupt {
                    self.signal();
                }
                Ok(k)
            }
            None => {
                self.reads += 1;
                if self.reads > 10 {
                    return Err(io::Error::other("Too many reads past the end of the script"));
                }
                if self.alt {
                    return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "EOF"));
                }
                Ok(Key::EofOrDelete)
            }
        }
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn size_chars(&self) -> io::Result<CharsXY> {
        Ok(CharsXY::new(200, 10000))
    }
    fn write(&mut self, text: &str) -> io::Result<()> {
        if !self.alt && !self.interactive {
            self.out.push_str(text);
            self.wrote();
        }
        Ok(())
    }
    fn sync_now(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn set_sync(&mut self, _enabled: bool) -> io::Result<bool> {
        Ok(true)
    }
}

fn rep(keys: &mut VecDeque<Key>, k: Key, n: usize) {
    for _ in 0..n {
        keys.push_back(k.clone());
    }
}

/// Pushes the keys of one editing operation.
fn edit_op(keys: &mut VecDeque<Key>, op: &Value, program: &str) {
    let text = op[1].as_str().unwrap_or("");
    let chars = |keys: &mut VecDeque<Key>| text.chars().for_each(|c| keys.push_back(Key::Char(c)));
    match op[0].as_str().expect("op") {
        "append" => {
            rep(keys, Key::ArrowDown, 300);
            keys.push_back(Key::End);
            keys.push_back(Key::NewLine);
            chars(keys);
        }
        "top" => {
            rep(keys, Key::ArrowUp, 300);
            keys.push_back(Key::Home);
            keys.push_back(Key::Home);
            rep(keys, Key::ArrowLeft, 300);
            chars(keys);
            keys.push_back(Key::NewLine);
        }
        "delfirst" => {
            rep(keys, Key::ArrowUp, 300);
            keys.push_back(Key::End);
            rep(keys, Key::Backspace, 200);
            keys.push_back(Key::Delete);
        }
        "joinblank" => {
            // Joins the first empty line to the previous one.
            if let Some(i) = program.lines().skip(1).position(|l| l.is_empty()) {
                rep(keys, Key::ArrowUp, 300);
                keys.push_back(Key::Home);
                keys.push_back(Key::Home);
                if text == "up" {
                    rep(keys, Key::ArrowDown, i + 1);
                    rep(keys, Key::ArrowLeft, 100);
                    keys.push_back(Key::Backspace);
                } else {
                    rep(keys, Key::ArrowDown, i);
                    keys.push_back(Key::End);
                    keys.push_back(Key::Delete);
                }
            }
        }
        "chop" => {
            // Deletes the last character of the first line.
            if program.lines().next().is_some_and(|l| !l.is_empty()) {
                rep(keys, Key::ArrowUp, 300);
                keys.push_back(Key::End);
                if text == "back" {
                    keys.push_back(Key::Backspace);
                } else {
                    keys.push_back(Key::ArrowLeft);
                    keys.push_back(Key::Delete);
                }
            }
        }
        "wander" => {
            rep(keys, Key::ArrowDown, 3);
            rep(keys, Key::ArrowRight, 5);
            rep(keys, Key::PageUp, 1);
            rep(keys, Key::PageDown, 1);
            keys.push_back(Key::Home);
            keys.push_back(Key::End);
        }
        o => panic!("bad edit op {o}"),
    }
}

fn tree(root: &Path, dir: &Path, out: &mut Map<String, Value>) {
    let mut names: Vec<PathBuf> =
        fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    names.sort();
    for p in names {
        let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
        if p.is_dir() {
            out.insert(rel + "/", json!(""));
            tree(root, &p, out);
        } else {
            out.insert(rel, json!(String::from_utf8_lossy(&fs::read(&p).unwrap_or_default())));
        }
    }
}

/// Executes a session: `tree` describes the initial contents of the scratch directory and
/// `groups` the input; the result has the output and state after each group.
pub fn run_job(job: &Value) -> Value {
    let base = std::env::current_dir().expect("cwd");
    let root = base.join(format!("s{}", std::process::id()));
    let _ = fs::remove_dir_all(&root);
    fs::create_dir_all(&root).expect("scratch");
    for (p, content) in job["tree"].as_object().expect("tree") {
        let path = root.join(p);
        if p.ends_with('/') {
            fs::create_dir_all(&path).expect("mkdir");
        } else {
            fs::create_dir_all(path.parent().unwrap()).expect("mkdir");
            match content {
                Value::String(s) => fs::write(&path, s).expect("write"),
                _ => fs::write(&path, [0xffu8, 0x41]).expect("write"),
            }
        }
    }
    std::env::set_current_dir(&root).expect("cd");
    let r = guarded(|| session(job, &root));
    std::env::set_current_dir(&base).expect("cd");
    let _ = fs::remove_dir_all(&root);
    match r {
        Ok(v) => v,
        Err(p) => json!({ "panic": p }),
    }
}

fn session(job: &Value, root: &Path) -> Value {
    let console = Rc::from(RefCell::from(ScriptConsole::default()));
    console.borrow_mut().interactive = job["inter"].as_bool() == Some(true);
    let storage = Rc::from(RefCell::from(Storage::default()));
    storage.borrow_mut().register_scheme("demos", Box::from(DemoDriveFactory::default()));
    storage.borrow_mut().register_scheme("file", Box::from(DirectoryDriveFactory::default()));
    let program: Rc<RefCell<dyn Program>> = Rc::from(RefCell::from(Editor::default()));
    let chan = async_channel::unbounded();
    console.borrow_mut().signals = Some(chan.0.clone());
    let mut machine = MachineBuilder::default()
        .with_console(console.clone())
        .with_signals_chan(chan)
        .make_interactive()
        .with_program(program.clone())
        .with_storage(storage.clone())
        .build();
    let rootname = root.to_string_lossy().to_string();
    let mut results = vec![];
    for group in job["groups"].as_array().expect("groups") {
        let mut autoexec = false;
        // Every group is a session of its own as far as interruptions are concerned.
        machine.drain_signals();
        {
            let mut c = console.borrow_mut();
            c.keys.clear();
            c.reads = 0;
            c.out.clear();
            c.brk = group["brk"].as_u64().unwrap_or(0) as usize;
            let text = program.borrow().text();
            for item in group["items"].as_array().expect("group") {
                if let Some(t) = item["t"].as_str() {
                    t.chars().for_each(|ch| c.keys.push_back(Key::Char(ch)));
                    c.keys.push_back(Key::NewLine);
                } else if let Some(k) = item["key"].as_str() {
                    c.keys.push_back(if k == "int" { Key::Interrupt } else { Key::EofOrDelete });
                } else if item["auto"].as_bool() == Some(true) {
                    autoexec = true;
                } else {
                    for op in item["e"].as_array().expect("e") {
                        edit_op(&mut c.keys, op, &text);
                    }
                    let int = item["int"].as_bool() == Some(true);
                    c.keys.push_back(if int { Key::Interrupt } else { Key::Escape });
                }
            }
        }
        let rc = guarded(|| {
            if autoexec {
                if let Err(e) =
                    block_on(try_load_autoexec(&mut machine, console.clone(), storage.clone()))
                {
                    return json!(format!("autoexec: {e}"));
                }
            }
            match block_on(run_repl_loop(&mut machine, console.clone(), program.clone())) {
                Ok(c) => json!(c),
                Err(e) => json!(format!("{e}")),
            }
        });
        let rc = match rc {
            Ok(v) => v,
            Err(p) => {
                results.push(json!({ "panic": p }));
                std::mem::forget(machine);
                std::mem::forget(console);
                return json!({ "results": results });
            }
        };
        let mut files = Map::new();
        let mut mounted = Map::new();
        {
            let s = storage.borrow();
            for (name, uri) in s.mounted() {
                mounted.insert(name.to_owned(), json!(uri));
                let mut one = Map::new();
                match block_on(s.enumerate(&format!("{name}:"))) {
                    Ok(fs) => {
                        for (n, md) in fs.dirents() {
                            let v = match block_on(s.get(&format!("{name}:{n}"))) {
                                Ok(c) => {
                                    if md.length != c.len() as u64 {
                                        json!({ "bad length": md.length })
                                    } else {
                                        json!(String::from_utf8_lossy(&c))
                                    }
                                }
                                Err(e) => json!({ "err": e.to_string() }),
                            };
                            one.insert(n.clone(), v);
                        }
                    }
                    Err(e) => {
                        one.insert("*".to_owned(), json!({ "err": e.to_string() }));
                    }
                }
                files.insert(name.to_owned(), Value::Object(one));
            }
        }
        let mut disk = Map::new();
        tree(root, root, &mut disk);
        let (cwd, out) = (storage.borrow().cwd(), console.borrow().out.replace(&rootname, "/S"));
        let p = program.borrow();
        results.push(json!({
            "rc": rc, "out": out, "mounted": mounted, "files": files, "disk": disk, "cwd": cwd,
            "left": console.borrow().keys.len(), "alt": console.borrow().alt,
            "name": p.name(), "text": p.text(), "dirty": p.is_dirty(),
        }));
    }
    json!({ "results": results })
}
