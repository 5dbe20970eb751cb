//! Records what the driver of the ST7735S does to its bus and pins.
use crate::util::guarded;
use async_channel::{Receiver, Sender};
use async_trait::async_trait;
use endbasic_st7735s::St7735sConsoleFactory;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::{
    CharsXY, ClearType, Console, ConsoleFactory, ConsoleSpec, Key, PixelsXY, Resolution,
};
use endbasic_std::gfx::lcd::fonts::Fonts;
use endbasic_std::gpio::{Pin, PinMode, Pins};
use endbasic_std::spi::{SpiBus, SpiMode};
use serde_json::{Value, json};
use std::any::Any;
use std::collections::HashMap;
use std::io;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Dev {
    start: Instant,
    events: Vec<Value>,
    levels: HashMap<u8, bool>,
    /// Bytes of the transfer in progress, which is over when something else happens.
    cur: Vec<u8>,
    cur_t: u64,
    longest: usize,
    max: usize,
    partial: Vec<usize>,
    npartial: usize,
    fail_after: Option<usize>,
    buttons: HashMap<u8, Vec<String>>,
}

impl Dev {
    fn t(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }

    fn flush(&mut self) {
        if self.cur.is_empty() {
            return;
        }
        let d = std::mem::take(&mut self.cur);
        let dc = self.levels.get(&25).copied().unwrap_or(false);
        let mut e = json!({ "k": "w", "pin": 0, "v": dc, "n": d.len(), "t": self.cur_t, "longest": self.longest, "d": [], "rle": [] });
        if d.len() <= 16 {
            e["d"] = json!(d);
        } else {
            let mut rle: Vec<(u16, usize)> = vec![];
            for p in d.chunks(2) {
                let c = if p.len() == 2 { u16::from(p[0]) * 256 + u16::from(p[1]) } else { 0 };
                match rle.last_mut() {
                    Some((l, n)) if *l == c => *n += 1,
                    _ => rle.push((c, 1)),
                }
            }
            e["rle"] = json!(rle);
        }
        self.longest = 0;
        self.events.push(e);
    }

    fn pin(&mut self, k: &str, pin: u8, v: bool) {
        self.flush();
        let t = self.t();
        self.events.push(json!({ "k": k, "pin": pin, "v": v, "n": 0, "t": t, "longest": 0, "d": [], "rle": [] }));
    }
}

#[derive(Clone)]
struct FakePins(Arc<Mutex<Dev>>);

impl Pins for FakePins {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn setup(&mut self, pin: Pin, mode: PinMode) -> io::Result<()> {
        let k = match mode {
            PinMode::In => "in",
            PinMode::InPullDown => "indown",
            PinMode::InPullUp => "inup",
            PinMode::Out => "out",
        };
        self.0.lock().unwrap().pin(k, pin.0, false);
        Ok(())
    }
    fn clear(&mut self, pin: Pin) -> io::Result<()> {
        self.0.lock().unwrap().pin("clear", pin.0, false);
        Ok(())
    }
    fn clear_all(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().pin("clear", 0, false);
        Ok(())
    }
    fn read(&mut self, pin: Pin) -> io::Result<bool> {
        let mut d = self.0.lock().unwrap();
        let Some(q) = d.buttons.get_mut(&pin.0) else { return Ok(true) };
        match if q.is_empty() { "1".to_owned() } else { q.remove(0) }.as_str() {
            "0" => Ok(false),
            "e" => Err(io::Error::other("bad pin")),
            _ => Ok(true),
        }
    }
    fn write(&mut self, pin: Pin, v: bool) -> io::Result<()> {
        let mut d = self.0.lock().unwrap();
        d.pin("pin", pin.0, v);
        d.levels.insert(pin.0, v);
        Ok(())
    }
}

struct FakeBus(Arc<Mutex<Dev>>);

impl io::Write for FakeBus {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut d = self.0.lock().unwrap();
        d.longest = d.longest.max(buf.len());
        if let Some(n) = d.fail_after {
            if n == 0 {
                d.fail_after = None;
                return Err(io::Error::other("bus failed"));
            }
            d.fail_after = Some(n - 1);
        }
        let mut n = buf.len();
        if !d.partial.is_empty() {
            let p = d.partial[d.npartial % d.partial.len()];
            d.npartial += 1;
            if p > 0 && p < n {
                n = p;
            }
        }
        if d.cur.is_empty() {
            d.cur_t = d.t();
        }
        d.cur.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl SpiBus for FakeBus {
    fn max_size(&self) -> usize {
        self.0.lock().unwrap().max
    }
}

struct FakeKeyboard(Receiver<Key>);

#[async_trait(?Send)]
impl InputOps for FakeKeyboard {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.0.try_recv().ok())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        self.0.recv().await.map_err(|_| io::Error::other("closed"))
    }
}

pub fn key_name(k: Key) -> String {
    match k {
        Key::ArrowDown => "down".to_owned(),
        Key::ArrowLeft => "left".to_owned(),
        Key::ArrowRight => "right".to_owned(),
        Key::ArrowUp => "up".to_owned(),
        Key::Backspace => "bs".to_owned(),
        Key::CarriageReturn => "cr".to_owned(),
        Key::Char(c) => format!("={c}"),
        Key::Delete => "del".to_owned(),
        Key::End => "end".to_owned(),
        Key::EofOrDelete => "eof".to_owned(),
        Key::Escape => "esc".to_owned(),
        Key::Interrupt => "int".to_owned(),
        Key::Home => "home".to_owned(),
        Key::NewLine => "nl".to_owned(),
        Key::PageDown => "pgdn".to_owned(),
        Key::PageUp => "pgup".to_owned(),
        Key::Tab => "tab".to_owned(),
        Key::Unknown => "unk".to_owned(),
    }
}

fn color_arg(v: &Value) -> Option<u8> {
    v.as_i64().and_then(|c| u8::try_from(c).ok())
}

fn xy(a: &[Value], i: usize) -> PixelsXY {
    PixelsXY::new(a[i].as_i64().expect("x") as i16, a[i + 1].as_i64().expect("y") as i16)
}

async fn run_op(c: &mut dyn Console, op: &Value, kb: &Sender<Key>, dev: &Arc<Mutex<Dev>>) -> Value {
    let a = op["a"].as_array().map(|a| a.as_slice()).unwrap_or(&[]);
    let text = op["t"].as_str().unwrap_or("");
    let mut r = json!({ "err": "", "peek": -2, "keys": [] });
    let res = match op["o"].as_str().expect("op") {
        "cls" => c.clear(ClearType::All),
        "color" => c.set_color(color_arg(&a[0]), color_arg(&a[1])),
        "enter" => c.enter_alt(),
        "leave" => c.leave_alt(),
        "hide" => c.hide_cursor(),
        "show" => c.show_cursor(),
        "locate" => c.locate(CharsXY::new(
            a[0].as_u64().expect("x") as u16,
            a[1].as_u64().expect("y") as u16,
        )),
        "print" => c.print(text),
        "write" => c.write(text),
        "sync" => c.set_sync(a[0].as_i64() == Some(1)).map(|_| ()),
        "syncnow" => c.sync_now(),
        "pixel" => c.draw_pixel(xy(a, 0)),
        "line" => c.draw_line(xy(a, 0), xy(a, 2)),
        "rectf" => c.draw_rect_filled(xy(a, 0), xy(a, 2)),
        "peek" => c
            .peek_pixel(xy(a, 0))
            .map(|p| r["peek"] = json!(p.map(i32::from).unwrap_or(-1))),
        "fault" => {
            dev.lock().unwrap().fail_after = Some(a[0].as_u64().expect("n") as usize);
            Ok(())
        }
        "keys" => {
            // Presses of the buttons, keys of the keyboard, and how many of them to read.
            {
                let mut d = dev.lock().unwrap();
                for (p, l) in op["buttons"].as_object().expect("buttons") {
                    let l = l.as_array().expect("levels");
                    d.buttons.insert(
                        p.parse().expect("pin"),
                        l.iter().map(|s| s.as_str().expect("level").to_owned()).collect(),
                    );
                }
            }
            for ch in text.chars() {
                kb.send(Key::Char(ch)).await.expect("keyboard");
            }
            let mut keys = vec![];
            // Keys are read, read and polled in turns, or polled once all of them are pressed.
            let how = a[1].as_u64().expect("poll");
            if how == 2 {
                tokio::time::sleep(Duration::from_secs(2)).await;
            }
            for i in 0..a[0].as_u64().expect("n") {
                let poll = how == 2 || (how == 1 && i % 2 == 1);
                let f = async {
                    if !poll {
                        return c.read_key().await;
                    }
                    loop {
                        if let Some(k) = c.poll_key().await? {
                            return Ok(k);
                        }
                        tokio::time::sleep(Duration::from_millis(7)).await;
                    }
                };
                match tokio::time::timeout(Duration::from_secs(20), f).await {
                    Ok(Ok(k)) => keys.push(key_name(k)),
                    Ok(Err(e)) => keys.push(format!("error {e}")),
                    Err(_) => {
                        keys.push("none".to_owned());
                        break;
                    }
                }
            }
            tokio::time::sleep(Duration::from_secs(1)).await;
            if let Ok(Some(k)) = c.poll_key().await {
                keys.push(format!("extra {}", key_name(k)));
            }
            r["keys"] = json!(keys);
            Ok(())
        }
        o => panic!("bad op {o}"),
    };
    if let Err(e) = res {
        r["err"] = json!(format!("{e}"));
    }
    r
}

fn resolution(text: &str) -> Value {
    match text.parse::<Resolution>() {
        Ok(Resolution::FullScreenDesktop) => json!(["fs", 0, 0, ""]),
        Ok(Resolution::FullScreen((w, h))) => json!(["full", w.get(), h.get(), ""]),
        Ok(Resolution::Windowed((w, h))) => json!(["win", w.get(), h.get(), ""]),
        Err(e) => json!(["error", 0, 0, e.0]),
    }
}

pub fn run_job(job: &Value) -> Value {
    let dev = Arc::from(Mutex::from(Dev {
        start: Instant::now(),
        events: vec![],
        levels: HashMap::default(),
        cur: vec![],
        cur_t: 0,
        longest: 0,
        max: job["max"].as_u64().expect("max") as usize,
        partial: job["partial"]
            .as_array()
            .map(|a| a.iter().map(|v| v.as_u64().expect("n") as usize).collect())
            .unwrap_or_default(),
        npartial: 0,
        fail_after: None,
        buttons: HashMap::default(),
    }));
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    rt.block_on(async {
        let mut out = json!({});
        out["resolution"] = resolution(job["res"]["t"].as_str().expect("resolution"));
        let (kb_tx, kb_rx) = async_channel::unbounded();
        let (signals_tx, _signals_rx) = async_channel::unbounded();
        let mut bus_args = json!([]);
        let bus_args2 = Arc::from(Mutex::from(json!([])));
        let console = {
            let mut spec = ConsoleSpec::init(job["spec"].as_str().expect("spec"));
            out["driver"] = json!(spec.driver);
            let d2 = dev.clone();
            let b2 = bus_args2.clone();
            let factory = St7735sConsoleFactory::new(
                FakePins(dev.clone()),
                move |bus, slave, hz, mode: SpiMode| {
                    *b2.lock().unwrap() = json!([bus, slave, hz, mode as u8]);
                    Ok(FakeBus(d2.clone()))
                },
                move |_| Ok(FakeKeyboard(kb_rx)),
                &mut spec,
                &Fonts::all(),
                signals_tx,
            );
            let factory = match factory {
                Ok(f) => f,
                Err(e) => {
                    out["err"] = json!(format!("{e}"));
                    return out;
                }
            };
            if let Err(e) = spec.finish() {
                out["err"] = json!(e.0);
                return out;
            }
            match Box::from(factory).build() {
                Ok(c) => c,
                Err(e) => {
                    out["err"] = json!(format!("{e}"));
                    return out;
                }
            }
        };
        std::mem::swap(&mut bus_args, &mut bus_args2.lock().unwrap());
        let take = || {
            let mut d = dev.lock().unwrap();
            d.flush();
            std::mem::take(&mut d.events)
        };
        out["bus"] = bus_args;
        out["err"] = json!("");
        {
            let c = console.borrow();
            let (s, p, g) = (c.size_chars(), c.size_pixels(), c.glyph_size());
            let (s, p, g) = (s.expect("chars"), p.expect("pixels"), g.expect("glyph"));
            out["size"] = json!([s.x, s.y, p.width, p.height, g.width, g.height]);
        }
        let mut results = vec![json!({ "err": "", "peek": -2, "keys": [], "events": take() })];
        for op in job["ops"].as_array().expect("ops") {
            let mut c = console.borrow_mut();
            let mut r = run_op(&mut *c, op, &kb_tx, &dev).await;
            r["events"] = json!(take());
            results.push(r);
        }
        let dropped = guarded(|| drop(console));
        results.push(json!({ "err": dropped.err().unwrap_or_default(), "peek": -2, "keys": [], "events": take() }));
        out["results"] = json!(results);
        out
    })
}

/// Prints the bitmaps of the fonts, from which spec/hw/fonts.json was made.
pub fn fonts() {
    let fonts = Fonts::all();
    for n in ["5x8", "16x16", "vga8x16"] {
        let f = fonts.get(n).expect("font");
        println!(
            "{}",
            json!({ "name": n, "w": f.glyph_size.width, "h": f.glyph_size.height, "stride": f.stride, "data": f.data })
        );
    }
}
