//! Text placed against inaccessible pages.
use core::ffi::c_void;

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;

/// A run of readable pages between two inaccessible ones.
pub struct Fenced {
    base: *mut u8,
    len: usize,
}

impl Fenced {
    pub fn new(bytes: usize) -> Fenced {
        let pages = (bytes + PAGE - 1) / PAGE;
        let total = (pages + 2) * PAGE;
        unsafe {
            // private, anonymous
            let p = mmap(core::ptr::null_mut(), total, 0, 0x22, -1, 0) as *mut u8;
            assert!(p as isize != -1, "mmap");
            assert_eq!(mprotect(p.add(PAGE) as *mut c_void, pages * PAGE, 3), 0);
            Fenced { base: p.add(PAGE), len: pages * PAGE }
        }
    }

    /// The text, ending where the inaccessible page starts.
    pub fn at_end(&mut self, s: &[u8]) -> &str {
        self.at(self.len - s.len(), s)
    }

    pub fn at(&mut self, off: usize, s: &[u8]) -> &str {
        assert!(off + s.len() <= self.len);
        unsafe {
            let p = self.base.add(off);
            core::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
            core::str::from_utf8(core::slice::from_raw_parts(p, s.len())).expect("valid text")
        }
    }
}
