//! Runs programs that use functions and devices: the clock, the speaker and the GPIO pins, all of which reply as told.
use crate::util::guarded;
use async_trait::async_trait;
use endbasic_std::console::{CharsXY, ClearType, Console, Key, remove_control_chars};
use endbasic_std::datetime::DateTime;
use endbasic_std::gpio::{MockPins, NoopPins, Pin, PinMode, Pins};
use endbasic_std::sound::Tone;
use endbasic_std::{Error, MachineBuilder, Signal};
use futures_lite::future::block_on;
use serde_json::{Value, json};
use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;
use std::time::Duration;

/// Everything outside of the machine: what it asked from the devices and what they are to reply.
struct World {
    out: String,
    events: Vec<Value>,
    replies: VecDeque<Value>,
    clock: Duration,
    brk: bool,
    audio: bool,
    tx: async_channel::Sender<Signal>,
}

impl World {
    /// Records `event` and returns the reply to it, if it is not an error.
    fn ask(&mut self, event: Value) -> Result<Value, String> {
        self.events.push(event);
        match self.replies.pop_front() {
            None => Ok(Value::Null),
            Some(r) => match r["err"].as_str() {
                Some(e) if !e.is_empty() => Err(e.to_owned()),
                _ => Ok(r),
            },
        }
    }

    fn interrupt(&mut self) {
        if self.brk {
            self.tx.try_send(Signal::Break).expect("send");
        }
    }
}

type Shared = Rc<RefCell<World>>;

fn nanos(d: Duration) -> Value {
    json!(d.as_nanos().to_string())
}

struct DevConsole(Shared);

#[async_trait(?Send)]
impl Console for DevConsole {
    fn clear(&mut self, _how: ClearType) -> io::Result<()> {
        Ok(())
    }

    fn color(&self) -> (Option<u8>, Option<u8>) {
        (None, None)
    }

    fn set_color(&mut self, _fg: Option<u8>, _bg: Option<u8>) -> io::Result<()> {
        Ok(())
    }

    fn enter_alt(&mut self) -> io::Result<()> {
        Ok(())
    }

    fn hide_cursor(&mut self) -> io::Result<()> {
        Ok(())
    }

    fn is_interactive(&self) -> bool {
        false
    }

    fn leave_alt(&mut self) -> io::Result<()> {
        Ok(())
    }

    fn locate(&mut self, _pos: CharsXY) -> io::Result<()> {
        Ok(())
    }

    fn move_within_line(&mut self, _off: i16) -> io::Result<()> {
        Ok(())
    }

    fn print(&mut self, text: &str) -> io::Result<()> {
        let mut w = self.0.borrow_mut();
        w.out.push_str(&remove_control_chars(text));
        w.out.push('\n');
        Ok(())
    }

    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(None)
    }

    async fn read_key(&mut self) -> io::Result<Key> {
        Ok(Key::EofOrDelete)
    }

    fn show_cursor(&mut self) -> io::Result<()> {
        Ok(())
    }

    fn size_chars(&self) -> io::Result<CharsXY> {
        Ok(CharsXY::new(80, 25))
    }

    fn write(&mut self, text: &str) -> io::Result<()> {
        self.0.borrow_mut().out.push_str(&remove_control_chars(text));
        Ok(())
    }

    fn sync_now(&mut self) -> io::Result<()> {
        Ok(())
    }

    fn set_sync(&mut self, _enabled: bool) -> io::Result<bool> {
        Ok(true)
    }

    async fn play_tone(&mut self, tone: Tone) -> io::Result<()> {
        let mut w = self.0.borrow_mut();
        if !w.audio {
            return Err(io::Error::other("No audio support in this console"));
        }
        w.interrupt();
        w.ask(json!(["tone", tone.frequency_hz, nanos(tone.duration)])).map_err(io::Error::other)?;
        Ok(())
    }
}

struct DevTime(Shared);

#[async_trait(?Send)]
impl DateTime for DevTime {
    fn monotonic(&self) -> Duration {
        self.0.borrow().clock
    }

    async fn sleep(&self, d: Duration) -> Result<(), String> {
        let mut w = self.0.borrow_mut();
        w.interrupt();
        w.ask(json!(["sleep", nanos(d)]))?;
        w.clock = w.clock.saturating_add(d);
        Ok(())
    }
}

struct DevPins(Shared);

impl DevPins {
    fn ask(&mut self, event: Value) -> io::Result<Value> {
        self.0.borrow_mut().ask(event).map_err(io::Error::other)
    }
}

impl Pins for DevPins {
    fn as_any(&self) -> &dyn Any {
        self
    }

    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }

    fn setup(&mut self, pin: Pin, mode: PinMode) -> io::Result<()> {
        let mode = match mode {
            PinMode::In => "IN",
            PinMode::InPullDown => "IN-PULL-DOWN",
            PinMode::InPullUp => "IN-PULL-UP",
            PinMode::Out => "OUT",
        };
        self.ask(json!(["setup", pin.0, mode])).map(|_| ())
    }

    fn clear(&mut self, pin: Pin) -> io::Result<()> {
        self.ask(json!(["clear", pin.0])).map(|_| ())
    }

    fn clear_all(&mut self) -> io::Result<()> {
        self.ask(json!(["clearall"])).map(|_| ())
    }

    fn read(&mut self, pin: Pin) -> io::Result<bool> {
        self.ask(json!(["read", pin.0])).map(|r| r["v"].as_bool().unwrap_or(false))
    }

    fn write(&mut self, pin: Pin, v: bool) -> io::Result<()> {
        self.ask(json!(["write", pin.0, v])).map(|_| ())
    }
}

/// Executes the chunks of a session, one after the other, in one machine.
pub fn run_job(job: &Value) -> Value {
    let (tx, rx) = async_channel::unbounded();
    let world = Rc::from(RefCell::from(World {
        out: String::new(),
        events: vec![],
        replies: VecDeque::new(),
        clock: Duration::ZERO,
        brk: false,
        audio: job["audio"].as_bool().unwrap_or(true),
        tx: tx.clone(),
    }));
    let pins: Rc<RefCell<dyn Pins>> = match job["pins"].as_str() {
        Some("mock") => Rc::from(RefCell::from(MockPins::default())),
        Some("chip") => Rc::from(RefCell::from(DevPins(world.clone()))),
        _ => Rc::from(RefCell::from(NoopPins::default())),
    };
    let mut machine = MachineBuilder::default()
        .with_console(Rc::from(RefCell::from(DevConsole(world.clone()))))
        .with_datetime(Rc::from(DevTime(world.clone())))
        .with_gpio_pins(pins)
        .with_signals_chan((tx, rx))
        .make_interactive()
        .build();
    let mut results = vec![];
    for chunk in job["chunks"].as_array().expect("chunks") {
        {
            let mut w = world.borrow_mut();
            w.out.clear();
            w.events.clear();
            w.replies = chunk["reps"].as_array().cloned().unwrap_or_default().into();
            w.brk = chunk["brk"].as_bool().unwrap_or(false);
            w.clock = w.clock.saturating_add(Duration::from_nanos(chunk["tick"].as_u64().unwrap_or(0)));
        }
        let src = chunk["src"].as_str().expect("src");
        let r = guarded(|| match machine.compile(&mut src.as_bytes()) {
            Err(e) => json!({"k": "cerr", "m": format!("{e}")}),
            Ok(()) => match block_on(machine.exec()) {
                Ok(None) => json!({"k": "eof"}),
                Ok(Some(c)) => json!({"k": "end", "c": c}),
                Err(Error::Break) => json!({"k": "break"}),
                Err(e) => json!({"k": "err", "m": format!("{e}")}),
            },
        });
        machine.drain_signals();
        let (mut r, stop) = match r {
            Ok(v) => (v, false),
            Err(p) => (json!({"k": "panic", "m": p}), true),
        };
        if !stop {
            let w = world.borrow();
            r["out"] = json!(w.out);
            r["ev"] = json!(w.events);
        }
        results.push(r);
        if stop {
            std::mem::forget(machine);
            break;
        }
    }
    json!({ "results": results })
}
