//! Guarding global allocator.
//!
//! Every block has 64 bytes of canary on both sides, is filled with a pattern when handed out, is
//! checked and poisoned when released and then kept in quarantine, and always moves on growth.
//! A broken rule is counted and its first description kept, never reported by panicking.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

const RED: usize = 64;
const HEAD: usize = 64; // magic, size, align, serial
const LIVE: u64 = 0x1abb_11fe_c0de_0001;
const DEAD: u64 = 0xdead_11fe_c0de_0002;
const CANARY: u8 = 0xc7;
const FRESH: u8 = 0xa5;
const POISON: u8 = 0xd9;

pub struct Guard;

#[global_allocator]
static GUARD: Guard = Guard;

static SERIAL: AtomicU64 = AtomicU64::new(1);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static GROWS: AtomicU64 = AtomicU64::new(0);
static FREES: AtomicU64 = AtomicU64::new(0);
static BROKEN: AtomicU64 = AtomicU64::new(0);
static MAX_REQUEST: AtomicUsize = AtomicUsize::new(1 << 33);
static REFUSED: AtomicU64 = AtomicU64::new(0);

const QLEN: usize = 8192;
static mut QUARANTINE: [*mut u8; QLEN] = [core::ptr::null_mut(); QLEN];
static mut QPOS: usize = 0;
static mut QBYTES: usize = 0;
static LOCK: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy)]
pub struct HeapEvent {
    pub kind: u8, // b'a', b'r', b'f'
    pub id: u64,
    pub size: usize,
    pub old: u64,
}
const ELEN: usize = 4096;
static mut EVENTS: [HeapEvent; ELEN] = [HeapEvent { kind: 0, id: 0, size: 0, old: 0 }; ELEN];
static mut ECOUNT: usize = 0;
static RECORD: AtomicBool = AtomicBool::new(false);
static mut FIRST: [u8; 160] = [0; 160];
static mut FIRST_LEN: usize = 0;

struct Spin;
impl Spin {
    fn new() -> Spin {
        while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
            std::hint::spin_loop();
        }
        Spin
    }
}
impl Drop for Spin {
    fn drop(&mut self) {
        LOCK.store(false, SeqCst);
    }
}

fn broken(what: &str) {
    if BROKEN.fetch_add(1, SeqCst) == 0 {
        unsafe {
            let n = what.len().min(160);
            core::ptr::copy_nonoverlapping(what.as_ptr(), &raw mut FIRST as *mut u8, n);
            FIRST_LEN = n;
        }
    }
}

fn event(e: HeapEvent) {
    if RECORD.load(SeqCst) {
        let _l = Spin::new();
        unsafe {
            if ECOUNT < ELEN {
                EVENTS[ECOUNT] = e;
                ECOUNT += 1;
            }
        }
    }
}

#[inline]
fn front(align: usize) -> usize {
    // distance from the start of the system block to the user pointer
    let n = HEAD + RED;
    (n + align - 1) / align * align
}

unsafe fn header(user: *mut u8) -> *mut u64 {
    user.sub(RED + HEAD) as *mut u64
}

unsafe fn take(layout: Layout) -> *mut u8 {
    let size = layout.size();
    if size > MAX_REQUEST.load(SeqCst) {
        REFUSED.fetch_add(1, SeqCst);
        return core::ptr::null_mut();
    }
    let align = layout.align().max(16);
    let f = front(align);
    let raw = System.alloc(Layout::from_size_align_unchecked(f + size + RED, align));
    if raw.is_null() {
        return raw;
    }
    let user = raw.add(f);
    let h = header(user);
    h.write_unaligned(LIVE);
    h.add(1).write_unaligned(size as u64);
    h.add(2).write_unaligned(layout.align() as u64);
    h.add(3).write_unaligned(SERIAL.fetch_add(1, SeqCst));
    user.sub(RED).write_bytes(CANARY, RED);
    user.write_bytes(FRESH, size);
    user.add(size).write_bytes(CANARY, RED);
    user
}

unsafe fn all(p: *const u8, n: usize, v: u8) -> bool {
    core::slice::from_raw_parts(p, n).iter().all(|b| *b == v)
}

unsafe fn check(user: *mut u8, layout: Layout) -> bool {
    let h = header(user);
    match h.read_unaligned() {
        LIVE => {}
        DEAD => {
            broken("block released twice");
            return false;
        }
        _ => {
            broken("released pointer is not a block, or its header was overwritten");
            return false;
        }
    }
    let size = h.add(1).read_unaligned() as usize;
    if size != layout.size() {
        broken("block released with a size it was not made with");
    }
    if h.add(2).read_unaligned() as usize != layout.align() {
        broken("block released with an alignment it was not made with");
    }
    if !all(user.sub(RED), RED, CANARY) {
        broken("bytes in front of a block were overwritten");
    }
    if !all(user.add(size), RED, CANARY) {
        broken("bytes behind a block were overwritten");
    }
    true
}

unsafe fn retire(user: *mut u8) {
    let h = header(user);
    let size = h.add(1).read_unaligned() as usize;
    h.write_unaligned(DEAD);
    user.write_bytes(POISON, size);
    let _l = Spin::new();
    let old = QUARANTINE[QPOS];
    QUARANTINE[QPOS] = user;
    QPOS = (QPOS + 1) % QLEN;
    QBYTES += size;
    if !old.is_null() {
        evict(old);
    }
    // keep the quarantine below 256 MB
    while QBYTES > 256 << 20 {
        let mut i = QPOS;
        let mut found = false;
        for _ in 0..QLEN {
            if !QUARANTINE[i].is_null() {
                let p = QUARANTINE[i];
                QUARANTINE[i] = core::ptr::null_mut();
                evict(p);
                found = true;
                break;
            }
            i = (i + 1) % QLEN;
        }
        if !found {
            break;
        }
    }
}

unsafe fn evict(user: *mut u8) {
    let h = header(user);
    let size = h.add(1).read_unaligned() as usize;
    if h.read_unaligned() != DEAD || !all(user, size, POISON) {
        broken("a block was written to after its release");
    }
    QBYTES -= size;
    let align = (h.add(2).read_unaligned() as usize).max(16);
    let f = front(align);
    System.dealloc(user.sub(f), Layout::from_size_align_unchecked(f + size + RED, align));
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = take(layout);
        if !p.is_null() {
            ALLOCS.fetch_add(1, SeqCst);
            event(HeapEvent { kind: b'a', id: serial(p), size: layout.size(), old: 0 });
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if !check(p, layout) {
            return;
        }
        FREES.fetch_add(1, SeqCst);
        event(HeapEvent { kind: b'f', id: serial(p), size: layout.size(), old: 0 });
        retire(p);
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let ok = check(p, layout);
        let q = take(Layout::from_size_align_unchecked(new_size, layout.align()));
        if q.is_null() {
            return q;
        }
        GROWS.fetch_add(1, SeqCst);
        if ok {
            let have = header(p).add(1).read_unaligned() as usize;
            core::ptr::copy_nonoverlapping(p, q, have.min(new_size));
            event(HeapEvent { kind: b'r', id: serial(q), size: new_size, old: serial(p) });
            retire(p);
        }
        q
    }
}

/// Serial number of the live block that starts at `p`.
pub fn serial(p: *mut u8) -> u64 {
    unsafe { header(p).add(3).read_unaligned() }
}

/// Serial number and size of the live block at `p`; (0, 0) if there is none.
pub fn block(p: *mut u8, capacity: usize) -> (u64, usize) {
    if capacity == 0 {
        return (0, 0);
    }
    unsafe {
        let h = header(p);
        if h.read_unaligned() != LIVE {
            return (0, 0);
        }
        (h.add(3).read_unaligned(), h.add(1).read_unaligned() as usize)
    }
}

/// Checks the canaries of the live block at `p` now.
pub fn inspect(p: *mut u8) {
    unsafe {
        let h = header(p);
        if h.read_unaligned() != LIVE {
            broken("buffer points at a block that is not live");
            return;
        }
        let size = h.add(1).read_unaligned() as usize;
        if !all(p.sub(RED), RED, CANARY) {
            broken("bytes in front of a block were overwritten");
        }
        if !all(p.add(size), RED, CANARY) {
            broken("bytes behind a block were overwritten");
        }
    }
}

/// Checks that nothing was written to the blocks in quarantine.
pub fn inspect_released() {
    let _l = Spin::new();
    unsafe {
        for i in 0..QLEN {
            let p = QUARANTINE[i];
            if !p.is_null() {
                let h = header(p);
                let size = h.add(1).read_unaligned() as usize;
                if h.read_unaligned() != DEAD || !all(p, size, POISON) {
                    broken("a block was written to after its release");
                    return;
                }
            }
        }
    }
}

#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Counts {
    pub allocs: u64,
    pub grows: u64,
    pub frees: u64,
}

pub fn counts() -> Counts {
    Counts { allocs: ALLOCS.load(SeqCst), grows: GROWS.load(SeqCst), frees: FREES.load(SeqCst) }
}

pub fn broken_rules() -> u64 {
    BROKEN.load(SeqCst)
}

pub fn first_broken() -> &'static str {
    unsafe {
        core::str::from_utf8_unchecked(core::slice::from_raw_parts(
            &raw const FIRST as *const u8,
            FIRST_LEN,
        ))
    }
}

pub fn refused() -> u64 {
    REFUSED.load(SeqCst)
}

pub fn record(on: bool) {
    if on {
        unsafe { ECOUNT = 0 };
    }
    RECORD.store(on, SeqCst);
}

pub fn events() -> &'static [HeapEvent] {
    unsafe { core::slice::from_raw_parts(&raw const EVENTS as *const HeapEvent, ECOUNT) }
}
