//! Runs many renderings at once, following a schedule: at every point where a template runs user
//! code the schedule says which thread goes on, and with what. Only one thread runs at a time.
use crate::{log, out, probe::Boom};
use laby::internal::Buffer;
use std::cell::Cell;
use std::fmt::Write;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub type Late = Box<dyn FnOnce() -> String + Send>;

/// What a template's function gives.
pub enum Made {
    Text(String),
    /// renders into the buffer it is given
    Into(Box<dyn FnOnce(&mut Buffer) + Send>),
    /// renders by itself
    Late(Late),
}

pub type Fun = fn() -> Made;

struct Frame {
    inst: usize,
    last: usize,
}

#[derive(Default)]
struct State {
    pool: Vec<Fun>,
    acts: Vec<(usize, u8, usize)>,
    pos: usize,
    obs: Vec<(char, u32, String)>,
    of: Vec<usize>,
    made: Vec<Option<Made>>,
    done: Vec<(usize, String)>,
    frames: [Vec<Frame>; 4],
    early: bool,
    reuse: bool,
    bad: String,
}

/// Ends what is under way when the schedule cannot be followed.
struct Stop;

pub static ON: AtomicBool = AtomicBool::new(false);
static STATE: Mutex<Option<State>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
    // the program's own buffer of the thread; never destroyed
    static OWN: Cell<*mut Buffer> = const { Cell::new(core::ptr::null_mut()) };
}

fn lock() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|p| p.into_inner())
}

fn fail(s: &mut State, why: &str) {
    if s.bad.is_empty() {
        s.bad = format!("{} (after {} actions)", why, s.pos);
    }
    s.pos = usize::MAX;
    TURN.notify_all();
}

fn shown(s: &mut State, kind: char, id: u32, text: String) {
    if s.pos != usize::MAX {
        s.obs.push((kind, id, text));
        s.pos += 1;
        TURN.notify_all();
    }
}

/// A template runs user code: the thread waits here until it is told to go on.
pub fn reach(kind: u8, id: u32, text: Option<&str>) {
    if !matches!(kind, b'E' | b'C' | b'R' | b'N') {
        return;
    }
    let me = ME.with(|m| m.get());
    if me == 0 {
        return;
    }
    {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        let part = match (text, s.frames[me].last_mut()) {
            (Some(t), Some(f)) => {
                let part = match t.as_bytes().get(f.last..) {
                    Some(p) => out::enc(p),
                    None => format!("#only {} bytes", t.len()),
                };
                f.last = t.len();
                part
            }
            _ => String::new(),
        };
        shown(s, kind as char, id, part);
    }
    match serve(true) {
        b'g' => {}
        b'd' => panic_any(Boom),
        _ => panic_any(Stop),
    }
}

/// Takes the thread's actions until one is for the caller.
fn serve(inside: bool) -> u8 {
    let me = ME.with(|m| m.get());
    loop {
        let (op, x) = {
            let mut g = lock();
            loop {
                let s = g.as_mut().unwrap();
                if s.pos >= s.acts.len() {
                    if inside && s.pos != usize::MAX {
                        fail(s, "not finished at the end");
                    }
                    return 0;
                }
                if s.acts[s.pos].0 == me {
                    break;
                }
                let (h, t) = TURN.wait_timeout(g, Duration::from_secs(60)).unwrap_or_else(|p| p.into_inner());
                g = h;
                if t.timed_out() {
                    let s = g.as_mut().unwrap();
                    if s.pos < s.acts.len() && s.acts[s.pos].0 != me {
                        println!("{{\"stuck\":{}}}", s.pos);
                        std::process::exit(3);
                    }
                }
            }
            let s = g.as_mut().unwrap();
            let (_, op, x) = s.acts[s.pos];
            if matches!(op, b'g' | b'd') && !inside {
                fail(s, "ended early");
                return 0;
            }
            (op, x)
        };
        match op {
            b'g' | b'd' | b'z' => return op,
            b'b' => begin(x),
            b'r' => resume(x),
            _ => unreachable!(),
        }
    }
}

fn ended(inst: usize, r: Result<(char, usize, Option<Made>, String), Box<dyn std::any::Any + Send>>) {
    let me = ME.with(|m| m.get());
    let mut g = lock();
    let s = g.as_mut().unwrap();
    let last = s.frames[me].pop().unwrap().last;
    match r {
        Ok((kind, base, made, text)) => {
            let part = match text.as_bytes().get(last.max(base)..) {
                Some(p) => out::enc(p),
                None => format!("#only {} bytes", text.len()),
            };
            s.made[inst] = made;
            if kind == 'F' {
                let whole = out::enc(&text.as_bytes()[base.min(text.len())..]);
                s.done.push((s.of[inst], whole));
            }
            shown(s, kind, 0, part);
        }
        Err(p) if p.is::<Boom>() => shown(s, 'X', 0, String::new()),
        Err(p) if p.is::<Stop>() => {}
        Err(_) => fail(s, "panic"),
    }
}

fn begin(p: usize) {
    let me = ME.with(|m| m.get());
    let (f, inst) = {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        let inst = s.of.len();
        s.of.push(p);
        s.made.push(None);
        s.frames[me].push(Frame { inst, last: 0 });
        (s.pool[p - 1], inst)
    };
    let r = catch_unwind(AssertUnwindSafe(|| match f() {
        Made::Text(t) => ('F', 0, None, t),
        m => ('B', 0, Some(m), String::new()),
    }));
    ended(inst, r);
}

fn resume(i: usize) {
    let me = ME.with(|m| m.get());
    let (made, reuse) = {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        s.frames[me].push(Frame { inst: i - 1, last: 0 });
        match s.made.get_mut(i - 1).and_then(|m| m.take()) {
            Some(m) => (m, s.reuse),
            None => {
                fail(s, "nothing to render");
                s.frames[me].pop();
                return;
            }
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| match made {
        Made::Late(f) => ('F', 0, None, f()),
        Made::Into(f) => {
            // the program's buffer of this thread, unless it is in use
            let own = OWN.with(|o| o.replace(core::ptr::null_mut()));
            let mut b = if own.is_null() || !reuse { Box::new(Buffer::new()) } else { unsafe { Box::from_raw(own) } };
            b.clear();
            let base = if reuse {
                b.push_str("mine:");
                5
            } else {
                0
            };
            {
                let mut g = lock();
                g.as_mut().unwrap().frames[me].last_mut().unwrap().last = base;
            }
            f(&mut b);
            let text = b.as_str().to_string();
            let old = OWN.with(|o| o.replace(Box::into_raw(b)));
            if !old.is_null() {
                drop(unsafe { Box::from_raw(old) });
            }
            ('F', base, None, text)
        }
        Made::Text(_) => unreachable!(),
    }));
    ended(i - 1, r);
}

/// Does what the schedule asks for when its thread ends.
struct AtExit {
    early: bool,
    armed: Cell<bool>,
}

impl Drop for AtExit {
    fn drop(&mut self) {
        if !self.armed.get() {
            return;
        }
        let x = {
            let mut g = lock();
            let s = g.as_mut().unwrap();
            if s.early != self.early || s.pos >= s.acts.len() {
                return;
            }
            s.acts[s.pos].2
        };
        begin(x);
        serve(false);
    }
}

thread_local! {
    static EARLY: AtExit = const { AtExit { early: true, armed: Cell::new(false) } };
    static LATE: AtExit = const { AtExit { early: false, armed: Cell::new(false) } };
}

fn thread(me: usize) {
    ME.with(|m| m.set(me));
    EARLY.with(|e| e.armed.set(false));
    if serve(false) == b'z' {
        LATE.with(|l| l.armed.set(true));
        EARLY.with(|e| e.armed.set(true));
    }
}

/// One line of input is one schedule: `thread op number;..`.
pub fn run(pool: &[Fun]) {
    std::panic::set_hook(Box::new(|_| {}));
    for (n, line) in std::io::stdin().lines().enumerate() {
        let line = line.unwrap();
        let acts: Vec<(usize, u8, usize)> = line
            .split(';')
            .filter(|a| !a.is_empty())
            .map(|a| {
                let mut w = a.split(' ');
                let th = w.next().unwrap().parse().unwrap();
                let op = w.next().unwrap().as_bytes()[0];
                (th, op, w.next().unwrap().parse().unwrap())
            })
            .collect();
        let threads = acts.iter().map(|a| a.0).max().unwrap_or(1);
        *lock() = Some(State {
            pool: pool.to_vec(),
            acts: acts.clone(),
            early: n % 2 == 0,
            reuse: n % 3 == 0,
            ..State::default()
        });
        ON.store(true, SeqCst);
        let hs: Vec<_> = (2..=threads).map(|t| std::thread::spawn(move || thread(t))).collect();
        // thread 1 is the program's first thread, through all schedules
        ME.with(|m| m.set(1));
        serve(false);
        for h in hs {
            let _ = h.join();
        }
        ME.with(|m| m.set(0));
        ON.store(false, SeqCst);
        let s = lock().take().unwrap();
        let mut t = format!("{{\"n\":{},\"bad\":{},\"acts\":[", n, out::jstr(&s.bad));
        for (j, (a, o)) in acts.iter().zip(&s.obs).enumerate() {
            let _ = write!(
                t,
                "{}{{\"th\":{},\"op\":\"{}\",\"x\":{},\"e\":\"{}\",\"i\":{},\"t\":{}}}",
                if j > 0 { "," } else { "" },
                a.0,
                a.1 as char,
                a.2,
                o.0,
                o.1,
                out::jstr(&o.2)
            );
        }
        let _ = write!(t, "],\"done\":[");
        for (j, (p, o)) in s.done.iter().enumerate() {
            let _ = write!(t, "{}{{\"p\":{},\"out\":{}}}", if j > 0 { "," } else { "" }, p, out::jstr(o));
        }
        println!("{}]}}", t);
        log::reset();
    }
}
