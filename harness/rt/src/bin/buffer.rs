//! Replays buffer histories and prints, per operation, the state of every slot, the heap events
//! inside the operation and whether it panicked. Operations are lines "op s d n text"; an empty
//! line ends a history.
use laby::internal::{escape, Buffer};
use laby::Render;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use verifrt::{guard, out};

enum Slot {
    None,
    Buf(Buffer),
    Str(String),
}

const SLOTS: usize = 3;

#[inline(never)]
fn value(i: usize, b: &mut Buffer) {
    match i {
        1 => 0u8.render(b),
        2 => u8::MAX.render(b),
        3 => i8::MIN.render(b),
        4 => u16::MAX.render(b),
        5 => i16::MIN.render(b),
        6 => u32::MAX.render(b),
        7 => i32::MIN.render(b),
        8 => u64::MAX.render(b),
        9 => i64::MIN.render(b),
        10 => u128::MAX.render(b),
        11 => i128::MIN.render(b),
        12 => f64::MIN.render(b),
        13 => (-f64::MIN_POSITIVE).render(b),
        14 => 0.0f64.render(b),
        15 => f32::MIN.render(b),
        16 => (-f32::MIN_POSITIVE).render(b),
        17 => f32::NAN.render(b),
        18 => f64::NEG_INFINITY.render(b),
        19 => true.render(b),
        20 => false.render(b),
        21 => '<'.render(b),
        22 => '\u{1f600}'.render(b),
        23 => ().render(b),
        24 => core::num::NonZeroUsize::new(7).unwrap().render(b),
        25 => (-100000isize).render(b),
        26 => 1e-7f32.render(b),
        27 => format_args!("{}{}", '\u{20ac}', "\"").render(b),
        _ => panic!("no such value"),
    }
}

fn huge(len: usize, cap: usize, i: usize) -> usize {
    let max = isize::MAX as usize;
    match i {
        0 => usize::MAX,
        1 => max + 1,
        2 => if cap > 0 { max } else { usize::MAX - 1 },
        3 => usize::MAX - len,
        4 => if len > 1 { usize::MAX - len + 1 } else { usize::MAX },
        _ => if cap > 1 { usize::MAX - cap + 1 } else { max + 2 },
    }
}

fn show(s: &mut [Slot; SLOTS], line: &mut String) {
    line.push('[');
    for (i, x) in s.iter().enumerate() {
        if i > 0 {
            line.push(',');
        }
        match x {
            Slot::None => line.push_str(
                "{\"k\":\"none\",\"t\":\"\",\"n\":0,\"real\":0,\"c\":0,\"b\":0,\"z\":0,\"e\":true}",
            ),
            Slot::Buf(b) => {
                let t = b.as_str();
                let (id, size) = guard::block(b.as_mut_ptr(), b.capacity());
                if b.capacity() > 0 {
                    guard::inspect(b.as_mut_ptr());
                }
                let _ = write!(
                    line,
                    "{{\"k\":\"buf\",\"t\":{},\"n\":{},\"real\":{},\"c\":{},\"b\":{},\"z\":{},\"e\":{}}}",
                    out::js(t.as_bytes()), b.len(), t.len(), b.capacity(), id, size, b.is_empty()
                );
            }
            Slot::Str(t) => {
                let (id, size) = guard::block(t.as_ptr() as *mut u8, t.capacity());
                if t.capacity() > 0 {
                    guard::inspect(t.as_ptr() as *mut u8);
                }
                let _ = write!(
                    line,
                    "{{\"k\":\"str\",\"t\":{},\"n\":{},\"real\":{},\"c\":{},\"b\":{},\"z\":{},\"e\":{}}}",
                    out::js(t.as_bytes()), t.len(), t.len(), t.capacity(), id, size, t.is_empty()
                );
            }
        }
    }
    line.push(']');
}

fn buf(s: &mut Slot) -> &mut Buffer {
    match s {
        Slot::Buf(b) => b,
        _ => panic!("not a buffer"),
    }
}

/// Returns whether a formatted buffer looked like its text.
fn apply(s: &mut [Slot; SLOTS], op: &str, i: usize, d: usize, n: usize, t: &str, spare: Option<String>) -> bool {
    let c = t.chars().next().unwrap_or('\0');
    match op {
        "new" => s[i] = Slot::Buf(Buffer::new()),
        "default" => s[i] = Slot::Buf(Buffer::default()),
        "cap" => s[i] = Slot::Buf(Buffer::with_capacity(n)),
        "from_str" => s[i] = Slot::Buf(Buffer::from(t)),
        "from_string" => s[i] = Slot::Buf(Buffer::from(spare.unwrap())),
        "push_str" => buf(&mut s[i]).push_str(t),
        "push" => buf(&mut s[i]).push(c),
        "write_str" => core::fmt::Write::write_str(buf(&mut s[i]), t).unwrap(),
        "write_char" => core::fmt::Write::write_char(buf(&mut s[i]), c).unwrap(),
        "write_fmt" => write!(buf(&mut s[i]), "{}{:.0}", t, "xyz").unwrap(),
        "add" => {
            if let Slot::Buf(b) = core::mem::replace(&mut s[i], Slot::None) {
                s[i] = Slot::Buf(b + t);
            }
        }
        "add_assign" => *buf(&mut s[i]) += t,
        "advance" => {
            let b = buf(&mut s[i]);
            b.reserve(t.len());
            unsafe {
                core::ptr::copy_nonoverlapping(t.as_ptr(), b.as_mut_ptr().add(b.len()), t.len());
                b.advance(t.len());
            }
        }
        "escape" => escape(t, buf(&mut s[i])),
        "value" => value(d, buf(&mut s[i])),
        "reserve" => buf(&mut s[i]).reserve(n),
        "reserve_small" => unsafe { buf(&mut s[i]).reserve_small(n) },
        "huge" => {
            let b = buf(&mut s[i]);
            let n = huge(b.len(), b.capacity(), n);
            b.reserve(n)
        }
        "huge_cap" => s[i] = Slot::Buf(Buffer::with_capacity(huge(0, 0, n))),
        "clear" => buf(&mut s[i]).clear(),
        "into_string" => {
            if let Slot::Buf(b) = core::mem::replace(&mut s[i], Slot::None) {
                s[i] = Slot::Str(b.into_string());
            }
        }
        "from_slot" => {
            if let Slot::Str(b) = core::mem::replace(&mut s[i], Slot::None) {
                s[i] = Slot::Buf(Buffer::from(b));
            }
        }
        "drop" => s[i] = Slot::None,
        "take" => drop(core::mem::take(buf(&mut s[i]))),
        "clone" => s[d] = Slot::Buf(buf(&mut s[i]).clone()),
        "clone_from" => {
            let c = core::mem::replace(&mut s[i], Slot::None);
            if let Slot::Buf(ref c) = c {
                buf(&mut s[d]).clone_from(c);
            }
            s[i] = c;
        }
        "clone_over" => {
            let c = buf(&mut s[i]).clone();
            *buf(&mut s[d]) = c;
        }
        "swap" => s.swap(i, d),
        "debug" => {
            struct Same<'a>(&'a str, bool);
            impl core::fmt::Write for Same<'_> {
                fn write_str(&mut self, x: &str) -> core::fmt::Result {
                    match self.0.strip_prefix(x) {
                        Some(r) => self.0 = r,
                        None => self.1 = false,
                    }
                    Ok(())
                }
            }
            guard::record(false);
            let want = format!("{:?}", buf(&mut s[i]).as_str());
            let mut w = Same(&want, true);
            guard::record(true);
            write!(w, "{:?}", buf(&mut s[i])).unwrap();
            guard::record(false);
            return w.1 && w.0.is_empty();
        }
        _ => panic!("unknown operation {}", op),
    }
    true
}

struct Step<'a> {
    op: &'a str,
    i: usize,
    d: usize,
    n: usize,
    t: &'a str,
}

fn step(s: &mut [Slot; SLOTS], line: &mut String, history: i64, at: usize, o: &Step) {
    let raw = out::dec(o.t);
    let t = std::str::from_utf8(&raw).unwrap();
    let i = o.i - 1;
    let d = if o.op == "value" { o.d } else { o.d - 1 };
    let spare = if o.op == "from_string" {
        let mut x = String::with_capacity(t.len() + if at % 2 == 0 { 7 } else { 0 });
        x.push_str(t);
        Some(x)
    } else {
        None
    };
    line.clear();
    let _ = write!(
        line,
        "{{\"x\":{},\"at\":{},\"o\":{{\"op\":\"{}\",\"s\":{},\"d\":{},\"n\":{},\"t\":{}}},\"pre\":",
        history, at, o.op, o.i, o.d, o.n, out::jstr(o.t)
    );
    show(s, line);
    // the string a buffer is made from already has a block
    let given =
        spare.as_ref().map_or((0, 0), |x| guard::block(x.as_ptr() as *mut u8, x.capacity()));
    let g0 = guard::broken_rules();
    guard::record(true);
    let r = catch_unwind(AssertUnwindSafe(|| apply(s, o.op, i, d, o.n, t, spare)));
    guard::record(false);
    let pan = r.is_err();
    line.push_str(",\"post\":");
    show(s, line);
    let g1 = guard::broken_rules();
    let _ = write!(line, ",\"pan\":{},\"same\":{},\"guard\":{},\"h\":[", pan, *r.as_ref().unwrap_or(&true), g1 - g0);
    if !pan {
        let mut sep = "";
        if given.0 != 0 {
            let _ = write!(line, "{{\"k\":\"a\",\"id\":{},\"n\":{},\"old\":0}}", given.0, given.1);
            sep = ",";
        }
        for e in guard::events() {
            let _ = write!(line, "{}{{\"k\":\"{}\",\"id\":{},\"n\":{},\"old\":{}}}", sep, e.kind as char, e.id, e.size, e.old);
            sep = ",";
        }
    }
    line.push_str("]}");
    println!("{}", line);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut s = [Slot::None, Slot::None, Slot::None];
    let mut line = String::with_capacity(1 << 16);
    let mut history = 0;
    let mut at = 0;
    for l in file.lines() {
        if l.is_empty() {
            // the rest is released one by one
            for i in 0..SLOTS {
                if !matches!(s[i], Slot::None) {
                    let o = Step { op: "drop", i: i + 1, d: i + 1, n: 0, t: "" };
                    step(&mut s, &mut line, history, at, &o);
                    at += 1;
                }
            }
            if history % 50 == 0 {
                guard::inspect_released();
            }
            history += 1;
            at = 0;
            continue;
        }
        let mut f = l.splitn(5, ' ');
        let op = f.next().unwrap();
        let i = f.next().unwrap().parse().unwrap();
        let d = f.next().unwrap().parse().unwrap();
        let n = f.next().unwrap().parse().unwrap();
        let o = Step { op, i, d, n, t: f.next().unwrap_or("") };
        step(&mut s, &mut line, history, at, &o);
        at += 1;
    }
    guard::inspect_released();
    println!("{{\"x\":-1,\"broken\":{},\"first\":{}}}", guard::broken_rules(), out::jstr(guard::first_broken()));
}
