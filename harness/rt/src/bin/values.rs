//! Renders scalars. Commands, one per line:
//!   i TYPE NEG HEX     an integer by sign and magnitude
//!   r TYPE LO HI       a run of consecutive integers, one record
//!   f TYPE HEX         a float by its bits
//!   c LO HI            the characters of a range of code points, one record
use laby::internal::Buffer;
use laby::*;
use std::io::Read;
use verifrt::{guard, out};

/// The distinct outputs of a value in different surroundings, those stripped.
struct Seen {
    outs: Vec<String>,
    n: usize,
}

impl Seen {
    fn put(&mut self, full: &[u8], pre: &str, post: &str) {
        let t = if full.len() >= pre.len() + post.len()
            && full.starts_with(pre.as_bytes())
            && full.ends_with(post.as_bytes())
        {
            out::enc(&full[pre.len()..full.len() - post.len()])
        } else {
            format!("?{}", out::enc(full))
        };
        if !self.outs.contains(&t) {
            self.outs.push(t);
        }
    }
}

const FILL: &str = "0123456789abcdef0123456789ABCDEF0123456789abcdef0123456789ABCDEF";

fn tight(s: &mut Seen, f: impl FnOnce(&mut Buffer)) {
    // exactly s.n % 48 bytes of room are left
    let room = s.n % 48;
    let mut b = Buffer::with_capacity(64);
    let used = b.capacity() - room.min(b.capacity());
    while b.len() < used {
        let k = (used - b.len()).min(FILL.len());
        b.push_str(&FILL[..k]);
    }
    let pre = b.as_str().to_string();
    f(&mut b);
    b.push('~');
    s.put(b.as_str().as_bytes(), &pre, "~");
}

fn all<T: Render + Copy>(v: T, n: usize) -> Seen {
    let mut s = Seen { outs: Vec::new(), n };
    let mut b = Buffer::new();
    v.render(&mut b);
    s.put(b.as_str().as_bytes(), "", "");
    tight(&mut s, |b| v.render(b));
    match n % 8 {
        0 => s.put(render!(p!(v)).as_bytes(), "<p>", "</p>"),
        1 => s.put(render!(a!(x = v)).as_bytes(), "<a x=\"", "\"></a>"),
        2 => s.put(render!(Some(v)).as_bytes(), "", ""),
        3 => s.put(render!(1, Some(Some(v)), "t").as_bytes(), "1", "t"),
        4 => s.put(render!(iter!("-", [v])).as_bytes(), "", ""),
        5 => s.put(render!(classes!("a", v)).as_bytes(), "a ", ""),
        6 => tight(&mut s, |b| Some(v).render(b)),
        _ => s.put(render!(br!((v) = 1)).as_bytes(), "<br ", "=\"1\">"),
    }
    s
}

fn show(s: &Seen) -> String {
    format!("[{}]", s.outs.iter().map(|t| out::jstr(t)).collect::<Vec<_>>().join(","))
}

macro_rules! ints {
    ($f:ident, $r:ident, $($t:ident $nz:ident),*) => {
        fn $f(ty: &str, neg: bool, hex: &str, n: usize) -> Seen {
            let m = u128::from_str_radix(hex, 16).unwrap();
            match ty {
                $(stringify!($t) => {
                    let v = if neg { (m as $t).wrapping_neg() } else { m as $t };
                    let mut s = all(v, n);
                    if let Some(z) = core::num::$nz::new(v) {
                        let mut t = all(z, n / 8);
                        for x in t.outs.drain(..) {
                            if !s.outs.contains(&x) {
                                s.outs.push(x);
                            }
                        }
                    }
                    s
                })*
                _ => panic!("no such type"),
            }
        }
        fn $r(ty: &str, lo: i64, hi: i64) -> Vec<Seen> {
            match ty {
                $(stringify!($t) => (lo..=hi).map(|v| {
                    let v = v as $t;
                    let mut s = Seen { outs: Vec::new(), n: v as usize & 0xffff };
                    tight(&mut s, |b| v.render(b));
                    if let Some(z) = core::num::$nz::new(v) {
                        tight(&mut s, |b| z.render(b));
                    }
                    s
                }).collect(),)*
                _ => panic!("no such type"),
            }
        }
    };
}
ints!(int, run, u8 NonZeroU8, i8 NonZeroI8, u16 NonZeroU16, i16 NonZeroI16, u32 NonZeroU32, i32 NonZeroI32,
      u64 NonZeroU64, i64 NonZeroI64, u128 NonZeroU128, i128 NonZeroI128, usize NonZeroUsize, isize NonZeroIsize);

fn main() {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    for (n, line) in text.lines().enumerate() {
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            "i" => {
                let s = int(w[1], w[2] == "1", w[3], n);
                println!("{{\"k\":\"int\",\"ty\":\"{}\",\"neg\":{},\"hex\":\"{}\",\"outs\":{}}}", w[1], w[2] == "1", w[3], show(&s));
            }
            "r" => {
                let lo: i64 = w[2].parse().unwrap();
                let s = run(w[1], lo, w[3].parse().unwrap());
                println!("{{\"k\":\"run\",\"ty\":\"{}\",\"lo\":{},\"all\":[{}]}}", w[1], lo,
                    s.iter().map(show).collect::<Vec<_>>().join(","));
            }
            "f" => {
                let b = u64::from_str_radix(w[2], 16).unwrap();
                let s = if w[1] == "f64" { all(f64::from_bits(b), n) } else { all(f32::from_bits(b as u32), n) };
                println!("{{\"k\":\"float\",\"ty\":\"{}\",\"bits\":\"{}\",\"outs\":{}}}", w[1], w[2], show(&s));
            }
            "c" => {
                let (lo, hi): (u32, u32) = (w[1].parse().unwrap(), w[2].parse().unwrap());
                let s: Vec<String> = (lo..=hi).filter_map(char::from_u32).map(|c| {
                    let mut s = Seen { outs: Vec::new(), n: c as usize };
                    tight(&mut s, |b| c.render(b));
                    show(&s)
                }).collect();
                println!("{{\"k\":\"chars\",\"lo\":{},\"hi\":{},\"all\":[{}]}}", lo, hi, s.join(","));
            }
            _ => panic!("no such command"),
        }
    }
    guard::inspect_released();
    println!("{{\"k\":\"#\",\"broken\":{},\"first\":{}}}", guard::broken_rules(), out::jstr(guard::first_broken()));
}
