//! One process on one processor level.
//!
//! step MODE LONG...        escapes the texts on one thread, single-stepped, and reports which
//!                          vector instruction sets were executed inside this program's own code
//! race MODE N SCHED TEXT.. N threads make their first calls at once; SCHED orders their questions
//!                          to the processor ("-" leaves the order to the system)
use laby::internal::{escape, Buffer};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};
use verifrt::{out, raw_cpuid::native_cpuid as cpu};

extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    static __executable_start: u8;
    static etext: u8;
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

static RAN: AtomicU32 = AtomicU32::new(0);
const AVX: u32 = 1;
const AVX2: u32 = 2;
const AVX512: u32 = 4;
const LATER_SSE: u32 = 8;

extern "C" fn on_step(_sig: i32, _info: usize, ctx: *mut u8) {
    unsafe {
        let rip = *(ctx.add(168) as *const usize);
        let lo = &raw const __executable_start as usize;
        let hi = &raw const etext as usize;
        if rip >= lo && rip + 16 < hi {
            let p = rip as *const u8;
            let what = classify(core::slice::from_raw_parts(p, 16));
            if what != 0 {
                RAN.fetch_or(what, SeqCst);
            }
        }
    }
}

fn classify(b: &[u8]) -> u32 {
    let (map, l, pp, op) = match b[0] {
        0xc5 => (1, b[1] >> 2 & 1, b[1] & 3, b[2]),
        0xc4 => (b[1] & 31, b[2] >> 2 & 1, b[2] & 3, b[3]),
        0x62 => return AVX512,
        _ => {
            let mut i = 0;
            let mut rep = false;
            while i < 4 && matches!(b[i], 0x66 | 0xf2 | 0xf3 | 0x40..=0x4f) {
                rep |= b[i] == 0xf3;
                i += 1;
            }
            if b[i] != 0x0f {
                return 0;
            }
            return match (b[i + 1], b[i + 2]) {
                (0x38, 0x00..=0x41) => LATER_SSE,
                (0x3a, 0x08..=0x63) => LATER_SSE,
                (0xb8, _) if rep => LATER_SSE, // popcnt
                _ => 0,
            };
        }
    };
    match map {
        1 => {
            if l == 1 && pp == 1 && matches!(op, 0x60..=0x76 | 0xd1..=0xd5 | 0xd7..=0xe5 | 0xe8..=0xef | 0xf1..=0xfe) && op != 0x6e && op != 0x6f {
                AVX | AVX2
            } else if l == 1 && op == 0x70 {
                AVX | AVX2
            } else {
                AVX
            }
        }
        2 => match op {
            0xf0..=0xff => 0, // BMI
            0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93 => AVX | AVX2,
            0x16 | 0x36 => AVX | AVX2,
            0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x2b | 0x30..=0x41 if l == 1 => AVX | AVX2,
            _ => AVX,
        },
        3 => match op {
            0xf0 => 0, // BMI2
            0x00 | 0x01 | 0x02 | 0x38 | 0x39 | 0x46 => AVX | AVX2,
            0x0e | 0x0f | 0x42 | 0x4c if l == 1 => AVX | AVX2,
            _ => AVX,
        },
        _ => AVX,
    }
}

fn stepped(text: &str, b: &mut Buffer) {
    unsafe {
        core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        escape(text, b);
        core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}

thread_local!(static WHO: Cell<usize> = const { Cell::new(0) });
static SCHED: Mutex<Vec<usize>> = Mutex::new(Vec::new());
static AT: AtomicUsize = AtomicUsize::new(0);
static DONE: AtomicU32 = AtomicU32::new(0);

fn gate() {
    let me = WHO.with(|w| w.get());
    if me == 0 {
        return;
    }
    let t0 = Instant::now();
    loop {
        {
            let s = SCHED.lock().unwrap();
            let mut i = AT.load(SeqCst);
            // turns of threads that finished are skipped
            while i < s.len() && DONE.load(SeqCst) >> s[i] & 1 == 1 {
                i += 1;
            }
            if i >= s.len() || s[i] == me {
                AT.store(i + 1, SeqCst);
                return;
            }
            AT.store(i, SeqCst);
        }
        if t0.elapsed() > Duration::from_millis(100) {
            // the thread whose turn it is waits for this one
            return;
        }
        std::thread::yield_now();
    }
}

fn call(text: &str) -> String {
    let mut b = Buffer::new();
    escape(text, &mut b);
    format!("{{\"t\":{},\"o\":{}}}", out::js(text.as_bytes()), out::js(b.as_str().as_bytes()))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode: u32 = a[2].parse().unwrap();
    let mut host = vec!["\"sse2\""];
    let q0 = cpu::verif_queries();
    if is_x86_feature_detected!("avx") {
        host.push("\"avx\"");
    }
    if is_x86_feature_detected!("avx2") {
        host.push("\"avx2\"");
    }
    if is_x86_feature_detected!("sse4.2") {
        host.push("\"latersse\"");
    }
    if is_x86_feature_detected!("avx512f") {
        host.push("\"avx512\"");
    }
    cpu::verif_set_mode(mode);
    let calls: Vec<String>;
    if a[1] == "step" {
        let act = SigAction {
            handler: on_step as *const () as usize,
            mask: [0; 16],
            flags: 4, // SA_SIGINFO
            restorer: 0,
        };
        assert_eq!(unsafe { sigaction(5, &act, core::ptr::null_mut()) }, 0);
        calls = a[3..]
            .iter()
            .map(|t| {
                let t = out::dec(t);
                let t = std::str::from_utf8(&t).unwrap();
                let mut b = Buffer::with_capacity(t.len() * 6 + 64);
                stepped(t, &mut b);
                format!("{{\"t\":{},\"o\":{}}}", out::js(t.as_bytes()), out::js(b.as_str().as_bytes()))
            })
            .collect();
    } else {
        let n: usize = a[3].parse().unwrap();
        if a[4] != "-" {
            *SCHED.lock().unwrap() = a[4].split(',').map(|x| x.parse().unwrap()).collect();
            cpu::verif_set_hook(gate);
        }
        let texts: Vec<String> =
            a[5..].iter().map(|t| String::from_utf8(out::dec(t)).unwrap()).collect();
        let start = Barrier::new(n);
        let all = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for i in 1..=n {
                let (start, all, texts) = (&start, &all, &texts);
                s.spawn(move || {
                    WHO.with(|w| w.set(i));
                    let mut mine = Vec::new();
                    start.wait();
                    for k in 0..texts.len() {
                        mine.push(call(&texts[(k + i) % texts.len()]));
                    }
                    DONE.fetch_or(1 << i, SeqCst);
                    all.lock().unwrap().extend(mine);
                });
            }
        });
        calls = all.into_inner().unwrap();
    }
    let ran = RAN.load(SeqCst);
    let mut isa = Vec::new();
    for (bit, name) in [(AVX, "\"avx\""), (AVX2, "\"avx2\""), (AVX512, "\"avx512\""), (LATER_SSE, "\"latersse\"")] {
        if ran & bit != 0 {
            isa.push(name);
        }
    }
    println!(
        "{{\"queries\":{},\"host\":[{}],\"ran\":[{}],\"calls\":[{}]}}",
        cpu::verif_queries() - q0,
        host.join(","),
        isa.join(","),
        calls.join(",")
    );
}
