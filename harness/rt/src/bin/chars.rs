//! Every character there is, alone and inside longer text, through everything that writes text.
//! Prints maximal runs of consecutive characters treated alike. Arguments: processor mode, group.
use laby::internal::{escape, escape_str, Buffer};
use laby::Render;
use std::borrow::Cow;
use std::fmt::Write as _;

struct One(char);
impl std::fmt::Display for One {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_char(self.0)
    }
}

fn apply(op: &str, c: char, s: &str, b: &mut Buffer) {
    match op {
        "push" => b.push(c),
        "push_str" => b.push_str(s),
        "write_char" => b.write_char(c).unwrap(),
        "write_str" => b.write_str(s).unwrap(),
        "write_fmt" => write!(b, "{}", c).unwrap(),
        "write_one" => write!(b, "{}", One(c)).unwrap(),
        "add_assign" => *b += s,
        "char" => c.render(b),
        "str" => s.render(b),
        "string" => s.to_string().render(b),
        "cow" => Cow::Borrowed(s).render(b),
        "cow_char" => Cow::<char>::Owned(c).render(b),
        "some" => Some(c).render(b),
        "escape" => escape(s, b),
        "escape_str" => b.push_str(&escape_str(s)),
        "args" => format_args!("{}", c).render(b),
        "args_str" => format_args!("{}", s).render(b),
        "args_one" => format_args!("{}", One(c)).render(b),
        "args_pad" => format_args!("{:>2}", c).render(b),
        "disp" => laby::RenderDisplay(c).render(b),
        "raw" => laby::RenderRaw(s).render(b),
        "raw_string" => laby::raw!(s.to_string()).render(b),
        "raw_cow" => laby::raw!(Cow::Borrowed(s)).render(b),
        "from_str" => *b = Buffer::from(s),
        "from_string" => *b = Buffer::from(s.to_string()),
        "clone" => *b = Buffer::from(s).clone(),
        "into_string" => *b = Buffer::from(Buffer::from(s).into_string()),
        "frag" => laby::frag!(c).render(b),
        "iter" => laby::iter!([c]).render(b),
        _ => panic!("unknown operation"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    verifrt::raw_cpuid::native_cpuid::verif_set_mode(a[1].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let mut text = String::with_capacity(128);
    for name in a[2].split(',') {
        // an operation, on the character alone or with text before and after it
        let mut f = name.split('@');
        let op = f.next().unwrap();
        let (pre, post) = match f.next() {
            None => ("", ""),
            Some("pre") => ("", "zwzw"),
            Some("post") => ("xyxyxy", ""),
            Some("mid") => ("xyxyxyxyxyxyx", "zwzwz"),
            Some("long") => ("xyxyxyxyxyxyxyxyx", "zwzwzwzwzwzwzwzwzwzwzwz"),
            Some("far") => ("xyxyxyxyxyxyxyxyxyxyxyxyxyxyxyx", "zwzwzwzwzwzwzwzwzwzwzwzwzwzwzwzwzwz"),
            _ => panic!("unknown frame"),
        };
        let mut esc = [0u8; 4];
        let (front, back) = if op == "args_pad" { (" ", "") } else { (pre, post) };
        // (first, last, what, bytes of the first, bytes of the last)
        let mut run: Option<(u32, u32, u8, Vec<u8>, Vec<u8>)> = None;
        let mut total = 0u32;
        let mut emitted = 0;
        // a correct sweep has a few dozen
        let mut emit = |r: &(u32, u32, u8, Vec<u8>, Vec<u8>)| {
            emitted += 1;
            if emitted > 500 {
                return;
            }
            println!(
                "{{\"op\":\"{}\",\"lo\":{},\"hi\":{},\"what\":\"{}\",\"a\":{:?},\"z\":{:?}}}",
                name, r.0, r.1, ["other", "self", "framed"][r.2 as usize], r.3, r.4
            );
        };
        let mut b = Buffer::new();
        for v in 0..=0x10ffffu32 {
            let c = match char::from_u32(v) {
                Some(c) => c,
                None => continue,
            };
            total += 1;
            let own: &str = c.encode_utf8(&mut esc);
            text.clear();
            text.push_str(pre);
            text.push(c);
            text.push_str(post);
            // starts without room often enough
            if v % 64 == 0 {
                b = Buffer::new();
            } else {
                b.clear();
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply(op, c, &text, &mut b)));
            let got = b.as_str().as_bytes();
            let framed = r.is_ok()
                && got.len() >= front.len() + back.len()
                && got.starts_with(front.as_bytes())
                && got.ends_with(back.as_bytes());
            let (what, mid) = if framed {
                let m = &got[front.len()..got.len() - back.len()];
                (if m == own.as_bytes() { 1u8 } else { 2 }, m)
            } else {
                (0, got)
            };
            match run {
                Some((_, ref mut hi, w, _, ref mut z))
                    if w == 1 && what == 1 && *hi + 1 == v && z.len() == mid.len() =>
                {
                    *hi = v;
                    z.clear();
                    z.extend_from_slice(mid);
                }
                _ => {
                    if let Some(ref r) = run {
                        emit(r);
                    }
                    run = Some((v, v, what, mid.to_vec(), mid.to_vec()));
                }
            }
        }
        if let Some(ref r) = run {
            emit(r);
        }
        println!("{{\"op\":\"{}\",\"lo\":-1,\"total\":{}}}", name, total);
    }
}
