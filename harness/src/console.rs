//! Drives the graphical console, line reader, editor and drawing commands on a simulated LCD.
use crate::util::guarded;
use async_trait::async_trait;
use endbasic_repl::editor::Editor;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::{
    CharsXY, ClearType, Console, GraphicsConsole, Key, PixelsXY, RGB, ansi_color_to_rgb, read_line,
    read_line_secure,
};
use endbasic_std::gfx::lcd::fonts::Font;
use endbasic_std::gfx::lcd::{AsByteSlice, BufferedLcd, Lcd, LcdSize, LcdXY};
use endbasic_std::program::Program;
use endbasic_std::sound::{AudioOps, Tone};
use endbasic_std::{Machine, MachineBuilder};
use futures_lite::future::block_on;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

/// Size of the glyphs of the font that tells its characters apart.
const GW: usize = 4;
const GH: usize = 2;

/// Every glyph has the bits of its number; the top left pixel is never set.
const fn glyphs() -> [u8; 190] {
    let mut d = [0u8; 190];
    let mut k = 0;
    while k < 95 {
        d[2 * k] = ((k >> 4) << 4) as u8;
        d[2 * k + 1] = ((k & 15) << 4) as u8;
        k += 1;
    }
    d
}
static GLYPHS: [u8; 190] = glyphs();
static FONT: Font =
    Font { name: "bits", glyph_size: LcdSize { width: GW, height: GH }, stride: 1, data: &GLYPHS };

#[derive(Clone, Copy)]
pub struct Px([u8; 3]);
impl AsByteSlice for Px {
    fn as_slice(&self) -> &[u8] {
        &self.0
    }
}

/// What the user of the simulated LCD sees and does.
pub struct World {
    w: usize,
    h: usize,
    px: Vec<[u8; 3]>,
    bad: Option<String>,
    keys: VecDeque<Key>,
    frames: Vec<Value>,
    pixels: bool,
    reads: usize,
    tones: Vec<Value>,
}

fn color(rgb: [u8; 3]) -> char {
    for c in 0..16u8 {
        let (r, g, b) = ansi_color_to_rgb(c);
        if [r, g, b] == rgb {
            return char::from_digit(c.into(), 16).unwrap();
        }
    }
    '?'
}

impl World {
    fn at(&self, x: usize, y: usize) -> [u8; 3] {
        self.px[y * self.w + x]
    }

    /// Decodes one cell into its character, foreground and background.
    fn cell(&self, cx: usize, cy: usize) -> (char, char, char) {
        let bg = self.at(cx * GW, cy * GH);
        let mut fg = None;
        let mut k = 0usize;
        for y in 0..GH {
            let mut bits = 0;
            for x in 0..GW {
                let p = self.at(cx * GW + x, cy * GH + y);
                bits <<= 1;
                if p != bg {
                    if fg.is_some() && fg != Some(p) {
                        return ('?', '?', '?');
                    }
                    fg = Some(p);
                    bits |= 1;
                }
            }
            k = (k << 4) | bits;
        }
        match fg {
            None => (' ', '-', color(bg)),
            Some(_) if k >= 95 => ('?', '?', '?'),
            Some(fg) => (char::from(b' ' + k as u8), color(fg), color(bg)),
        }
    }

    fn uniform(&self, x1: usize, y1: usize, x2: usize, y2: usize) -> char {
        let c = self.at(x1, y1);
        for y in y1..y2 {
            for x in x1..x2 {
                if self.at(x, y) != c {
                    return '?';
                }
            }
        }
        color(c)
    }

    fn snapshot(&self) -> Value {
        if let Some(b) = &self.bad {
            return json!({ "bad": b });
        }
        if self.pixels {
            let rows: Vec<String> = (0..self.h)
                .map(|y| {
                    (0..self.w)
                        .map(|x| {
                            let [r, g, b] = self.at(x, y);
                            format!("{r:02x}{g:02x}{b:02x}")
                        })
                        .collect()
                })
                .collect();
            return json!(rows.join("\n"));
        }
        let (cw, ch) = (self.w / GW, self.h / GH);
        let (mut t, mut a) = (String::new(), String::new());
        for cy in 0..ch {
            for cx in 0..cw {
                let (c, f, b) = self.cell(cx, cy);
                t.push(c);
                a.push(f);
                a.push(b);
            }
            if cw * GW < self.w {
                t.push(' ');
                a.push('-');
                a.push(self.uniform(cw * GW, cy * GH, self.w, cy * GH + GH));
            }
            t.push('\n');
            a.push('\n');
        }
        if ch * GH < self.h {
            // The strip at the bottom is reported as one more row of cells.
            for cx in 0..cw {
                t.push(' ');
                a.push('-');
                a.push(self.uniform(cx * GW, ch * GH, cx * GW + GW, self.h));
            }
            if cw * GW < self.w {
                t.push(' ');
                a.push('-');
                a.push(self.uniform(cw * GW, ch * GH, self.w, self.h));
            }
            t.push('\n');
            a.push('\n');
        }
        json!(t + &a)
    }
}

pub struct FakeLcd(Rc<RefCell<World>>);

impl Lcd for FakeLcd {
    type Pixel = Px;
    fn info(&self) -> (LcdSize, usize) {
        let w = self.0.borrow();
        (LcdSize { width: w.w, height: w.h }, 3)
    }
    fn decode(&self, pixel: &[u8]) -> RGB {
        (pixel[0], pixel[1], pixel[2])
    }
    fn encode(&self, (r, g, b): RGB) -> Px {
        Px([r, g, b])
    }
    fn set_data(&mut self, x1y1: LcdXY, x2y2: LcdXY, data: &[u8]) -> io::Result<()> {
        let mut w = self.0.borrow_mut();
        if x2y2.x >= w.w || x2y2.y >= w.h || x1y1.x > x2y2.x || x1y1.y > x2y2.y {
            w.bad = Some(format!("window {},{}-{},{}", x1y1.x, x1y1.y, x2y2.x, x2y2.y));
            return Ok(());
        }
        let (dx, dy) = (x2y2.x - x1y1.x + 1, x2y2.y - x1y1.y + 1);
        if data.len() != dx * dy * 3 {
            w.bad = Some(format!("{} bytes for {}x{} pixels", data.len(), dx, dy));
            return Ok(());
        }
        let width = w.w;
        for y in 0..dy {
            for x in 0..dx {
                let o = (y * dx + x) * 3;
                w.px[(x1y1.y + y) * width + x1y1.x + x] = [data[o], data[o + 1], data[o + 2]];
            }
        }
        Ok(())
    }
}

pub struct FakeInput(Rc<RefCell<World>>);

#[async_trait(?Send)]
impl InputOps for FakeInput {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.0.borrow_mut().keys.pop_front())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        let mut w = self.0.borrow_mut();
        let f = w.snapshot();
        w.frames.push(f);
        match w.keys.pop_front() {
            Some(k) => Ok(k),
            None => {
                w.reads += 1;
                if w.reads > 20 {
                    return Err(io::Error::other("too many reads"));
                }
                Ok(if w.reads % 2 == 1 { Key::EofOrDelete } else { Key::Escape })
            }
        }
    }
}

pub struct FakeAudio(Rc<RefCell<World>>);

#[async_trait(?Send)]
impl AudioOps for FakeAudio {
    async fn play_tone(&mut self, tone: Tone) -> io::Result<()> {
        let t = json!([tone.frequency_hz, tone.duration.as_millis() as u64]);
        self.0.borrow_mut().tones.push(t);
        Ok(())
    }
}

pub fn key(k: &str) -> Key {
    match k {
        "down" => Key::ArrowDown,
        "left" => Key::ArrowLeft,
        "right" => Key::ArrowRight,
        "up" => Key::ArrowUp,
        "bs" => Key::Backspace,
        "cr" => Key::CarriageReturn,
        "del" => Key::Delete,
        "end" => Key::End,
        "eof" => Key::EofOrDelete,
        "esc" => Key::Escape,
        "int" => Key::Interrupt,
        "home" => Key::Home,
        "nl" => Key::NewLine,
        "pgdn" => Key::PageDown,
        "pgup" => Key::PageUp,
        "tab" => Key::Tab,
        "unk" => Key::Unknown,
        _ => Key::Char(k.strip_prefix('=').expect("key").chars().next().expect("char")),
    }
}

fn keys(w: &Rc<RefCell<World>>, v: &Value) {
    let mut w = w.borrow_mut();
    w.keys.clear();
    w.reads = 0;
    for k in v.as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        w.keys.push_back(key(k.as_str().expect("key")));
    }
}

fn color_arg(v: &Value) -> Option<u8> {
    v.as_i64().and_then(|c| u8::try_from(c).ok())
}

fn i16_at(a: &[Value], i: usize) -> i16 {
    a[i].as_i64().expect("int") as i16
}

fn xy(a: &[Value], i: usize) -> PixelsXY {
    PixelsXY::new(i16_at(a, i), i16_at(a, i + 1))
}

fn points(a: &[Value]) -> Vec<PixelsXY> {
    a.chunks(2).map(|p| xy(p, 0)).collect()
}

fn error(e: io::Error) -> Value {
    match e.kind() {
        io::ErrorKind::UnexpectedEof => json!("eof"),
        io::ErrorKind::Interrupted => json!("int"),
        _ => json!(format!("{e}")),
    }
}

struct Ctx {
    w: Rc<RefCell<World>>,
    console: Rc<RefCell<dyn Console>>,
    machine: Machine,
    history: Vec<String>,
    editor: Editor,
}

impl Ctx {
    fn op(&mut self, op: &Value) -> Value {
        let a = op["a"].as_array().map(|a| a.as_slice()).unwrap_or(&[]);
        let text = op["t"].as_str().unwrap_or("");
        keys(&self.w, &op["keys"]);
        let name = op["o"].as_str().expect("op");
        let mut r = json!({});
        let res: io::Result<()> = match name {
            "basic" => {
                match self.machine.compile(&mut text.as_bytes()) {
                    Err(e) => r["err"] = json!(format!("{e}")),
                    Ok(()) => match block_on(self.machine.exec()) {
                        Ok(_) => (),
                        Err(e) => r["err"] = json!(format!("{e}")),
                    },
                }
                self.machine.drain_signals();
                Ok(())
            }
            "load" => {
                self.editor.load(op["name"].as_str(), text);
                Ok(())
            }
            "setname" => {
                self.editor.set_name(text);
                Ok(())
            }
            "edit" => {
                let res = block_on(self.editor.edit(&mut *self.console.borrow_mut()));
                r["text"] = json!(self.editor.text());
                r["dirty"] = json!(self.editor.is_dirty());
                res
            }
            "readline" => {
                let mut c = self.console.borrow_mut();
                let line = if op["echo"].as_bool() == Some(false) {
                    block_on(read_line_secure(&mut *c, op["prompt"].as_str().expect("prompt")))
                } else {
                    let h =
                        if op["hist"].as_bool() == Some(true) { Some(&mut self.history) } else { None };
                    block_on(read_line(&mut *c, op["prompt"].as_str().expect("prompt"), text, h))
                };
                line.map(|l| r["line"] = json!(l))
            }
            _ => {
                let mut c = self.console.borrow_mut();
                match name {
                    "cls" => c.clear(ClearType::All),
                    "clrline" => c.clear(ClearType::CurrentLine),
                    "clrprev" => c.clear(ClearType::PreviousChar),
                    "clreol" => c.clear(ClearType::UntilNewLine),
                    "color" => c.set_color(color_arg(&a[0]), color_arg(&a[1])),
                    "enter" => c.enter_alt(),
                    "leave" => c.leave_alt(),
                    "hide" => c.hide_cursor(),
                    "show" => c.show_cursor(),
                    "locate" => c.locate(CharsXY::new(i16_at(a, 0) as u16, i16_at(a, 1) as u16)),
                    "move" => c.move_within_line(i16_at(a, 0)),
                    "print" => c.print(text),
                    "write" => c.write(text),
                    "sync" => c.set_sync(a[0].as_bool().expect("bool")).map(|p| r["prev"] = json!(p)),
                    "syncnow" => c.sync_now(),
                    "fill" => c.bucket_fill(xy(a, 0)),
                    "circle" => c.draw_circle(xy(a, 0), a[2].as_u64().expect("r") as u16),
                    "circlef" => c.draw_circle_filled(xy(a, 0), a[2].as_u64().expect("r") as u16),
                    "line" => c.draw_line(xy(a, 0), xy(a, 2)),
                    "pixel" => c.draw_pixel(xy(a, 0)),
                    "poly" => c.draw_poly(&points(a)),
                    "polyf" => c.draw_poly_filled(&points(a)),
                    "rect" => c.draw_rect(xy(a, 0), xy(a, 2)),
                    "rectf" => c.draw_rect_filled(xy(a, 0), xy(a, 2)),
                    "tri" => c.draw_tri(xy(a, 0), xy(a, 2), xy(a, 4)),
                    "trif" => c.draw_tri_filled(xy(a, 0), xy(a, 2), xy(a, 4)),
                    "peek" => c.peek_pixel(xy(a, 0)).map(|p| r["peek"] = json!(p)),
                    o => panic!("bad op {o}"),
                }
            }
        };
        if let Err(e) = res {
            r["err"] = error(e);
        }
        let mut w = self.w.borrow_mut();
        let f = w.snapshot();
        w.frames.push(f);
        r["frames"] = json!(std::mem::take(&mut w.frames));
        r["tones"] = json!(std::mem::take(&mut w.tones));
        r["left"] = json!(w.keys.len());
        r
    }
}

pub fn run_job(job: &Value) -> Value {
    let (w, h) = (job["w"].as_u64().expect("w") as usize, job["h"].as_u64().expect("h") as usize);
    let world = Rc::from(RefCell::from(World {
        w,
        h,
        px: vec![[9, 9, 9]; w * h],
        bad: None,
        keys: VecDeque::default(),
        frames: vec![],
        pixels: job["pixels"].as_bool() == Some(true),
        reads: 0,
        tones: vec![],
    }));
    let font = match job["font"].as_str() {
        Some(name) => endbasic_std::gfx::lcd::fonts::Fonts::all().get(name).expect("font"),
        None => &FONT,
    };
    let lcd = BufferedLcd::new(FakeLcd(world.clone()), font);
    let console: Rc<RefCell<dyn Console>> = Rc::from(RefCell::from(
        GraphicsConsole::new(FakeInput(world.clone()), lcd, FakeAudio(world.clone()), None, None)
            .expect("console"),
    ));
    let machine = MachineBuilder::default().with_console(console.clone()).make_interactive().build();
    let mut ctx =
        Ctx { w: world, console, machine, history: vec![], editor: Editor::default() };
    let mut results = vec![];
    for op in job["ops"].as_array().expect("ops") {
        match guarded(|| ctx.op(op)) {
            Ok(v) => results.push(v),
            Err(p) => {
                results.push(json!({ "panic": p }));
                std::mem::forget(ctx);
                return json!({ "results": results });
            }
        }
    }
    json!({ "results": results })
}
