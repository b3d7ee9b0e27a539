//! The event log. It never allocates.
#[derive(Clone, Copy)]
pub struct Ev {
    pub kind: u8,
    pub id: u32,
    pub pos: usize,
}

pub const NOPOS: usize = usize::MAX;
const LEN: usize = 1 << 18;
static mut LOG: [Ev; LEN] = [Ev { kind: 0, id: 0, pos: 0 }; LEN];
static mut COUNT: usize = 0;
static mut OVER: bool = false;

pub fn reset() {
    unsafe {
        COUNT = 0;
        OVER = false;
    }
}

/// An event seen with the text written so far.
pub fn at(kind: u8, id: u32, buffer: &laby::internal::Buffer) {
    if crate::weave::ON.load(core::sync::atomic::Ordering::Relaxed) {
        crate::weave::reach(kind, id, Some(buffer.as_str()));
    } else {
        put(kind, id, buffer.len());
    }
}

pub fn put(kind: u8, id: u32, pos: usize) {
    if crate::weave::ON.load(core::sync::atomic::Ordering::Relaxed) {
        return crate::weave::reach(kind, id, None);
    }
    unsafe {
        if COUNT < LEN {
            LOG[COUNT] = Ev { kind, id, pos };
            COUNT += 1;
        } else {
            OVER = true;
        }
    }
}

pub fn all() -> &'static [Ev] {
    unsafe {
        assert!(!OVER, "event log full");
        core::slice::from_raw_parts(&raw const LOG as *const Ev, COUNT)
    }
}
