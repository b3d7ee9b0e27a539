//! Escapes every text of the input file in many placements and buffer states and prints, per text,
//! the distinct outcomes. Arguments: processor mode, input file, effort.
use laby::internal::{escape, escape_str, Buffer};
use laby::Render;
use std::borrow::Cow;
use verifrt::{guard, mem::Fenced, out};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    verifrt::raw_cpuid::native_cpuid::verif_set_mode(a[1].parse().unwrap());
    let effort: usize = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::fs::read_to_string(&a[2]).unwrap();
    let mut fence = Fenced::new(1 << 17);
    let mut line = String::new();
    for (i, l) in file.lines().enumerate() {
        let t = out::dec(l);
        let mut outs: Vec<Vec<u8>> = Vec::new();
        let mut n = 0u32;
        let mut bad = String::new();
        let mut see = |o: Vec<u8>, kept: bool| {
            n += 1;
            if !kept && bad.is_empty() {
                bad = "earlier output changed".into();
            }
            if !outs.contains(&o) {
                outs.push(o);
            }
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            one(&t, &mut fence, effort, &mut see)
        }));
        if r.is_err() {
            see(b"<panic>".to_vec(), true);
        }
        line.clear();
        line.push_str(&format!("{{\"i\":{},\"n\":{},\"bad\":{},\"o\":[", i, n, out::jstr(&bad)));
        for (k, o) in outs.iter().enumerate() {
            if k > 0 {
                line.push(',');
            }
            line.push_str(&out::js(o));
        }
        line.push_str("]}");
        println!("{}", line);
    }
    guard::inspect_released();
    println!(
        "{{\"i\":-1,\"broken\":{},\"first\":{},\"queries\":{}}}",
        guard::broken_rules(),
        out::jstr(guard::first_broken()),
        verifrt::raw_cpuid::native_cpuid::verif_queries()
    );
}

fn one(t: &[u8], fence: &mut Fenced, effort: usize, see: &mut dyn FnMut(Vec<u8>, bool)) {
    // placements of the text
    let step = match (effort, t.len()) {
        (0, n) if n > 4096 => 11,
        (0, _) => 3,
        _ => 1,
    };
    for off in (0..33).step_by(step) {
        let s = fence.at(off, t);
        let mut b = Buffer::new();
        escape(s, &mut b);
        check(&b);
        see(b.into_string().into_bytes(), true);
    }
    let s = fence.at_end(t);
    // amounts of output already there, and room left
    let need = t
        .iter()
        .map(|c| match c {
            b'"' => 6,
            b'&' | b'\'' => 5,
            b'<' | b'>' => 4,
            _ => 1,
        })
        .sum::<usize>();
    for (pre, room) in [
        ("", 0),
        ("", need),
        ("", need.saturating_sub(1)),
        ("", need + 4096),
        ("x", 0),
        ("0123456789abcde", need),
        ("&amp;<>\u{fc}", 1),
        ("0123456789abcdef0123456789abcdef", t.len()),
    ] {
        let mut b = Buffer::with_capacity(pre.len() + room);
        b.push_str(pre);
        escape(s, &mut b);
        check(&b);
        let v = b.into_string().into_bytes();
        let kept = v.len() >= pre.len() && &v[..pre.len()] == pre.as_bytes();
        see(v[pre.len().min(v.len())..].to_vec(), kept);
    }
    let long = if t.len() % 16 == 3 { 70000 } else { 5000 };
    for room in [0, need] {
        let pre = "q".repeat(long);
        let mut b = Buffer::from(pre.as_str());
        b.reserve(room);
        escape(s, &mut b);
        check(&b);
        let v = b.into_string().into_bytes();
        let kept = v.len() >= long && v[..long] == *pre.as_bytes();
        see(v[long.min(v.len())..].to_vec(), kept);
    }
    // entry points
    see(escape_str(s).into_bytes(), true);
    let mut b = Buffer::new();
    s.render(&mut b);
    see(b.into_string().into_bytes(), true);
    let mut b = Buffer::new();
    s.to_string().render(&mut b);
    see(b.into_string().into_bytes(), true);
    let mut b = Buffer::new();
    Cow::Borrowed(s).render(&mut b);
    let k = b.len();
    Cow::<str>::Owned(s.into()).render(&mut b);
    let v = b.into_string().into_bytes();
    see(v[..k].to_vec(), true);
    see(v[k..].to_vec(), true);
    let mut b = Buffer::new();
    Some(s).render(&mut b);
    see(b.into_string().into_bytes(), true);
    let mut b = Buffer::new();
    for c in s.chars() {
        c.render(&mut b);
    }
    see(b.into_string().into_bytes(), true);
    // the output of one text directly behind the output of another
    let mut b = Buffer::new();
    escape(s, &mut b);
    let k = b.len();
    escape(s, &mut b);
    check(&b);
    let v = b.into_string().into_bytes();
    see(v[..k].to_vec(), true);
    see(v[k..].to_vec(), true);
}

fn check(b: &Buffer) {
    assert!(b.len() <= b.capacity() || b.is_empty());
    if b.capacity() > 0 {
        guard::inspect(b.as_mut_ptr());
    }
}
