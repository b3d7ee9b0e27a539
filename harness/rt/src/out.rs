//! Text output: an injective ASCII encoding of byte strings, and JSON lines.

/// `\` becomes `\\`; bytes outside 0x20..=0x7e become `\xHH`.
pub fn enc(bytes: &[u8]) -> String {
    let mut s = String::with_capacity(bytes.len() + 16);
    for &b in bytes {
        match b {
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(b as char),
            _ => {
                s.push_str("\\x");
                s.push(char::from_digit((b >> 4) as u32, 16).unwrap());
                s.push(char::from_digit((b & 15) as u32, 16).unwrap());
            }
        }
    }
    s
}

pub fn dec(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap());
                i += 4;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

/// A JSON string literal of the encoded bytes.
pub fn js(bytes: &[u8]) -> String {
    jstr(&enc(bytes))
}

/// A JSON string literal of ASCII text.
pub fn jstr(e: &str) -> String {
    let mut s = String::with_capacity(e.len() + 16);
    s.push('"');
    for c in e.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                s.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}
