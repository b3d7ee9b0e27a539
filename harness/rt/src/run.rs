//! Runs the cases of a generated program and prints what was observed, one JSON line per case and
//! distinct behaviour.
use crate::{guard, log, out};
use laby::internal::Buffer;
use std::fmt::Write;

pub struct Rt {
    buf: Buffer,
    base: usize,
    taken: Option<String>,
    start: guard::Counts,
    built: guard::Counts,
    done: guard::Counts,
    is_done: bool,
}

impl Rt {
    /// Markup was constructed.
    #[inline(never)]
    pub fn built(&mut self) {
        log::put(b'B', 0, log::NOPOS);
        self.built = guard::counts();
    }

    pub fn buf(&mut self) -> &mut Buffer {
        &mut self.buf
    }

    /// Rendering returned.
    #[inline(never)]
    pub fn done(&mut self) {
        self.done = guard::counts();
        self.is_done = true;
    }

    /// The result of `render!`.
    #[inline(never)]
    pub fn take(&mut self, s: String) {
        self.done = guard::counts();
        self.is_done = true;
        self.base = 0;
        self.taken = Some(s);
    }
}

pub type Case = (&'static str, fn(&mut Rt));

/// The text a buffer holds before a case renders into it, by mode. Mode 2 has room to spare;
/// the buffer of mode 4 has been rendered into before, by the same case, and was cleared.
pub const PRELUDE: [&str; 5] = ["", "p<&\u{e9}", "", "0123456789abcdef\"'", ""];

struct Obs {
    tr: String,
    modes: Vec<String>,
}

pub fn run(cases: &[Case]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut only: Vec<String> = std::env::args().skip(1).collect();
    only.sort();
    let mut text = String::new();
    for (name, f) in cases {
        if !only.is_empty() && only.binary_search(&name.to_string()).is_err() {
            continue;
        }
        let mut seen: Vec<Obs> = Vec::new();
        for mode in 0..PRELUDE.len() {
            let o = one(*f, mode);
            match seen.iter_mut().find(|p| p.tr == o.tr) {
                Some(p) => p.modes.extend(o.modes),
                None => seen.push(o),
            }
        }
        for o in seen {
            text.clear();
            let _ = write!(text, "{{\"c\":{},{},\"m\":[{}]}}", out::jstr(name), o.tr, o.modes.join(","));
            println!("{}", text);
        }
    }
    guard::inspect_released();
    println!(
        "{{\"c\":\"#\",\"broken\":{},\"first\":{}}}",
        guard::broken_rules(),
        out::jstr(guard::first_broken())
    );
}

/// A buffer the case was rendered into, cleared.
fn used(f: fn(&mut Rt)) -> Buffer {
    let z = guard::counts();
    let mut rt = Rt { buf: Buffer::new(), base: 0, taken: None, start: z, built: z, done: z, is_done: false };
    log::reset();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rt)));
    rt.buf.clear();
    rt.buf
}

fn one(f: fn(&mut Rt), mode: usize) -> Obs {
    let mut buf = match mode {
        2 => Buffer::with_capacity(1 << 20),
        4 => used(f),
        _ => Buffer::from(PRELUDE[mode]),
    };
    if mode == 3 {
        buf.clear();
        buf.push_str(PRELUDE[mode]);
    }
    let base = buf.len();
    let cap0 = buf.capacity();
    log::reset();
    let z = guard::counts();
    let mut rt = Rt { buf, base, taken: None, start: z, built: z, done: z, is_done: false };
    rt.start = guard::counts();
    rt.built = rt.start;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rt)));
    let end = guard::counts();
    let panicked = match &res {
        Ok(()) => "",
        Err(p) if p.is::<crate::Boom>() => "boom",
        Err(_) => "panic",
    };
    drop(res);
    // blocks neither released nor held by the output
    let now = guard::counts();
    let held = |c: usize| (c > 0) as i64;
    let leaked = (now.allocs as i64 - now.frees as i64)
        - (rt.start.allocs as i64 - rt.start.frees as i64)
        - held(rt.buf.capacity())
        + held(cap0)
        - rt.taken.as_ref().map_or(0, |s| held(s.capacity()));
    if !rt.is_done {
        rt.done = end;
    }
    if rt.buf.capacity() > 0 {
        guard::inspect(rt.buf.as_mut_ptr());
    }
    let (bytes, cap): (Vec<u8>, usize) = match &rt.taken {
        Some(s) => (s.as_bytes().to_vec(), s.capacity()),
        None => (rt.buf.as_str().as_bytes().to_vec(), rt.buf.capacity()),
    };
    let pre = rt.taken.is_some()
        || (bytes.len() >= rt.base && &bytes[..rt.base] == PRELUDE[mode].as_bytes());
    let utf8 = std::str::from_utf8(&bytes).is_ok();
    // a failed rendering must leave a usable buffer
    let mut usable = true;
    if rt.taken.is_none() {
        use laby::Render;
        rt.buf.push_str("<tail>");
        laby::p!(title = "&", "b<", 12).render(&mut rt.buf);
        const TAIL: &str = "<tail><p title=\"&amp;\">b&lt;12</p>";
        usable = rt.buf.as_str().as_bytes().len() == bytes.len() + TAIL.len()
            && rt.buf.as_str().as_bytes().starts_with(&bytes)
            && rt.buf.as_str().ends_with(TAIL);
    }
    let mut tr = String::new();
    let _ = write!(
        tr,
        "\"pan\":{},\"pre\":{},\"utf8\":{},\"usable\":{},\"ev\":[",
        out::jstr(panicked),
        pre,
        utf8,
        usable
    );
    let mut at = rt.base.min(bytes.len());
    let mut bad = false;
    for (i, e) in log::all().iter().enumerate() {
        if i > 0 {
            tr.push(',');
        }
        let mut t = String::new();
        if e.pos != log::NOPOS {
            if e.pos < at || e.pos > bytes.len() {
                bad = true;
            } else {
                t = out::js(&bytes[at..e.pos]);
                at = e.pos;
            }
        }
        if t.is_empty() {
            t = "\"\"".into();
        }
        let _ = write!(tr, "{{\"e\":\"{}\",\"i\":{},\"t\":{}}}", e.kind as char, e.id, t);
    }
    let _ = write!(tr, "],\"shrunk\":{},\"tail\":{}", bad, out::js(&bytes[at..]));
    let _ = write!(tr, ",\"out\":{}", out::js(&bytes[rt.base.min(bytes.len())..]));
    let m = format!(
        "{{\"mode\":{},\"ca\":{},\"ra\":{},\"rg\":{},\"len\":{},\"cap\":{},\"lk\":{}}}",
        mode,
        (rt.built.allocs - rt.start.allocs) + (rt.built.grows - rt.start.grows),
        rt.done.allocs - rt.built.allocs,
        rt.done.grows - rt.built.grows,
        bytes.len() - rt.base.min(bytes.len()),
        cap,
        leaked
    );
    drop(rt);
    Obs { tr, modes: vec![m] }
}
