//! Values that tell when they are evaluated, rendered, advanced, formatted and dropped.
use crate::log::{put, NOPOS};
use core::fmt;
use laby::internal::Buffer;
use laby::Render;

/// A value that logs its own rendering.
pub struct Probe<T> {
    id: u32,
    v: T,
}

impl<T: Render> Render for Probe<T> {
    #[inline(never)]
    fn render(self, buffer: &mut Buffer) {
        crate::log::at(b'R', self.id, buffer);
        self.v.render(buffer)
    }
}

/// An embedded expression: logs its evaluation.
#[inline(never)]
pub fn ev<T>(id: u32, v: T) -> Probe<T> {
    put(b'E', id, NOPOS);
    Probe { id, v }
}

/// An embedded expression whose value is used as it is.
#[inline(never)]
pub fn ex<T>(id: u32, v: T) -> T {
    put(b'E', id, NOPOS);
    v
}

/// A condition: logs that it was tested.
#[inline(never)]
pub fn cond(id: u32, v: bool) -> bool {
    put(b'C', id, NOPOS);
    v
}

/// Logs a step of a branch body.
#[inline(never)]
pub fn note(id: u32) {
    put(b'E', id, NOPOS);
}

#[inline(never)]
pub fn pass<T>(v: T) -> T {
    v
}

#[inline(never)]
pub fn pass_render<T: Render>(v: T) -> impl Render {
    v
}

/// A value that also logs its drop.
pub struct Held<T> {
    id: u32,
    v: Option<T>,
}

impl<T: Render> Render for Held<T> {
    #[inline(never)]
    fn render(mut self, buffer: &mut Buffer) {
        crate::log::at(b'R', self.id, buffer);
        if let Some(v) = self.v.take() {
            v.render(buffer)
        }
    }
}

impl<T> Drop for Held<T> {
    fn drop(&mut self) {
        put(b'D', self.id, NOPOS);
    }
}

#[inline(never)]
pub fn held<T>(id: u32, v: T) -> Held<T> {
    put(b'E', id, NOPOS);
    Held { id, v: Some(v) }
}

/// A boolean computed by an expression that fails.
#[inline(never)]
pub fn held_fail(id: u32) -> Held<&'static str> {
    put(b'E', id, NOPOS);
    std::panic::panic_any(Boom)
}

/// The payload of every deliberate failure.
pub struct Boom;

/// Renders `before`, then fails.
pub struct Fails {
    pub before: &'static str,
}

impl Render for Fails {
    fn render(self, buffer: &mut Buffer) {
        self.before.render(buffer);
        std::panic::panic_any(Boom)
    }
}

#[derive(Clone, Copy)]
pub enum Piece {
    Str(&'static str),
    Char(char),
    /// text, width, fill: aligned left, right, centred
    Pad(&'static str, usize, char),
    Lpad(&'static str, usize, char),
    Cpad(&'static str, usize, char),
    Prec(&'static str, usize),
    Args(&'static str),
    Fail,
    Panic,
}

/// Formats its pieces one by one.
pub struct Pieces(pub &'static [Piece]);

impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        use fmt::Write;
        for p in self.0 {
            match *p {
                Piece::Str(s) => f.write_str(s)?,
                Piece::Char(c) => f.write_char(c)?,
                Piece::Pad(s, n, '<') => write!(f, "{:<<1$}", s, n)?,
                Piece::Pad(s, n, '&') => write!(f, "{:&<1$}", s, n)?,
                Piece::Pad(s, n, _) => write!(f, "{:<1$}", s, n)?,
                Piece::Lpad(s, n, '<') => write!(f, "{:<>1$}", s, n)?,
                Piece::Lpad(s, n, '&') => write!(f, "{:&>1$}", s, n)?,
                Piece::Lpad(s, n, _) => write!(f, "{:>1$}", s, n)?,
                Piece::Cpad(s, n, '<') => write!(f, "{:<^1$}", s, n)?,
                Piece::Cpad(s, n, '&') => write!(f, "{:&^1$}", s, n)?,
                Piece::Cpad(s, n, _) => write!(f, "{:^1$}", s, n)?,
                Piece::Prec(s, n) => write!(f, "{:.1$}", s, n)?,
                Piece::Args(s) => write!(f, "<{}>", s)?,
                Piece::Fail => return Err(fmt::Error),
                Piece::Panic => std::panic::panic_any(Boom),
            }
        }
        Ok(())
    }
}

/// A scripted iterator: `true` yields the next probe, `false` answers "no more items".
/// Past the end of the script it answers "no more items".
pub struct Script {
    pub base: u32,
    pub script: &'static [(bool, &'static str)],
    pub at: usize,
}

pub fn script(base: u32, script: &'static [(bool, &'static str)]) -> Script {
    Script { base, script, at: 0 }
}

impl Iterator for Script {
    type Item = Probe<&'static str>;
    fn next(&mut self) -> Option<Probe<&'static str>> {
        let i = self.at;
        self.at += 1;
        put(b'N', self.base + i as u32, NOPOS);
        match self.script.get(i) {
            Some((true, s)) => Some(Probe { id: self.base + i as u32, v: s }),
            _ => None,
        }
    }
}

/// A collection that logs when it is turned into an iterator.
pub struct Coll(pub Script);

impl IntoIterator for Coll {
    type Item = Probe<&'static str>;
    type IntoIter = Script;
    fn into_iter(self) -> Script {
        put(b'I', self.0.base, NOPOS);
        self.0
    }
}

/// A separator that is not a plain string slice.
pub struct Sep(pub &'static str);
impl AsRef<str> for Sep {
    fn as_ref(&self) -> &str {
        self.0
    }
}

/// An item of a list that may fail to render.
pub struct MayFail {
    pub t: &'static str,
    pub fail: bool,
}

impl Render for MayFail {
    fn render(self, buffer: &mut Buffer) {
        self.t.render(buffer);
        if self.fail {
            std::panic::panic_any(Boom)
        }
    }
}

pub fn hitem(id: u32, t: &'static str, fail: bool) -> Held<MayFail> {
    held(id, MayFail { t, fail })
}

/// A scripted iterator that fails when asked for item `at`.
pub struct FailScript {
    s: Script,
    fail: usize,
}

pub fn fscript(base: u32, script: &'static [(bool, &'static str)], fail: usize) -> FailScript {
    FailScript { s: Script { base, script, at: 0 }, fail }
}

impl Iterator for FailScript {
    type Item = Probe<&'static str>;
    fn next(&mut self) -> Option<Probe<&'static str>> {
        let i = self.s.at;
        let x = self.s.next();
        if i + 1 == self.fail {
            std::panic::panic_any(Boom)
        }
        x
    }
}

/// A collection that fails to become an iterator.
pub struct FailColl;
impl IntoIterator for FailColl {
    type Item = u8;
    type IntoIter = std::vec::IntoIter<u8>;
    fn into_iter(self) -> Self::IntoIter {
        std::panic::panic_any(Boom)
    }
}

/// Raw text that fails to show itself.
pub struct FailText;
impl AsRef<str> for FailText {
    fn as_ref(&self) -> &str {
        std::panic::panic_any(Boom)
    }
}

/// Renders its content, a failure of which ends there.
pub struct Catch<T>(pub T);
impl<T: Render> Render for Catch<T> {
    fn render(self, buffer: &mut Buffer) {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.0.render(buffer)));
    }
}

/// A value whose default tells when it is made.
pub struct Dflt<const ID: u32> {
    t: &'static str,
}

impl<const ID: u32> Dflt<ID> {
    pub fn of(id: u32, t: &'static str) -> Self {
        put(b'E', id, NOPOS);
        Dflt { t }
    }

    pub fn text(&self) -> &'static str {
        self.t
    }
}

impl<const ID: u32> Default for Dflt<ID> {
    fn default() -> Self {
        put(b'E', ID, NOPOS);
        Dflt { t: "dflt&" }
    }
}

impl<const ID: u32> Render for Dflt<ID> {
    fn render(self, buffer: &mut Buffer) {
        self.t.render(buffer)
    }
}

/// Types that have a name to render.
pub trait Tn {
    const T: &'static str;
}

pub struct NameA;
pub struct NameB;

impl Tn for NameA {
    const T: &'static str = "type<a>";
}

impl Tn for NameB {
    const T: &'static str = "type<b>";
}

pub fn tn<T: Tn>() -> &'static str {
    T::T
}

static WHY: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);

/// Remembers which expression control leaves from.
#[inline(never)]
pub fn why(id: u32) {
    WHY.store(id, core::sync::atomic::Ordering::Relaxed)
}

/// Control arrived where it left for.
#[inline(never)]
pub fn left() {
    put(b'L', WHY.swap(0, core::sync::atomic::Ordering::Relaxed), NOPOS)
}

/// No value, and why.
#[inline(never)]
pub fn gone<T>(id: u32) -> Option<T> {
    why(id);
    None
}

/// A value of any type that is never asked for.
pub fn never<T>() -> T {
    unreachable!()
}

/// A future that is ready the n-th time it is asked.
pub struct Soon<T>(pub u32, pub Option<T>);
impl<T> Unpin for Soon<T> {}
impl<T> core::future::Future for Soon<T> {
    type Output = T;
    fn poll(mut self: core::pin::Pin<&mut Self>, _: &mut core::task::Context) -> core::task::Poll<T> {
        if self.0 == 0 {
            core::task::Poll::Ready(self.1.take().expect("asked again"))
        } else {
            self.0 -= 1;
            core::task::Poll::Pending
        }
    }
}

pub fn soon<T>(n: u32, v: T) -> Soon<T> {
    Soon(n, Some(v))
}

/// A future that is never ready.
pub async fn hang<T>(id: u32) -> T {
    why(id);
    core::future::pending().await
}

/// Runs a future until it is ready or waits for what never comes.
pub fn drive<T>(f: impl core::future::Future<Output = T>) -> Option<T> {
    use core::task::*;
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(core::ptr::null(), &V), |_| (), |_| (), |_| ());
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &V)) };
    let mut f = core::pin::pin!(f);
    for _ in 0..10000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return Some(x);
        }
        if WHY.load(core::sync::atomic::Ordering::Relaxed) != 0 {
            return None;
        }
    }
    panic!("not ready")
}

/// Gives another value every time, so that expressions written alike differ.
pub struct Tick {
    n: core::cell::Cell<u32>,
    t: &'static [&'static str],
}

impl Tick {
    pub fn new(t: &'static [&'static str]) -> Self {
        Self { n: core::cell::Cell::new(0), t }
    }

    #[inline(never)]
    fn next(&self) -> (u32, &'static str) {
        let n = self.n.get();
        self.n.set(n + 1);
        (n + 1, self.t.get(n as usize).copied().unwrap_or("too many"))
    }

    pub fn ev(&self) -> Probe<&'static str> {
        let (i, s) = self.next();
        ev(i, s)
    }

    pub fn ex(&self) -> &'static str {
        let (i, s) = self.next();
        ex(i, s)
    }

    pub fn b(&self) -> bool {
        let (i, s) = self.next();
        ex(i, s == "1")
    }

    pub fn c(&self) -> bool {
        let (i, s) = self.next();
        cond(i, s == "1")
    }
}
