//! Placement of a byte buffer in memory so that reads outside it are noticed:
//! either next to an inaccessible page, or between canary bytes.

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;

/// A reusable arena of `pages` accessible pages with an inaccessible page on
/// both sides.
pub struct Fence {
    base: *mut u8, // first accessible byte
    len: usize,
}

impl Fence {
    #[cfg(miri)]
    pub fn new(pages: usize) -> Fence {
        // An interpreted host watches every access itself.
        let m = vec![0u8; pages * PAGE].leak();
        Fence {
            base: m.as_mut_ptr(),
            len: m.len(),
        }
    }
    #[cfg(not(miri))]
    pub fn new(pages: usize) -> Fence {
        unsafe {
            let total = (pages + 2) * PAGE;
            let p = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap");
            assert_eq!(mprotect(p, PAGE, 0), 0);
            assert_eq!(mprotect(p.add((pages + 1) * PAGE), PAGE, 0), 0);
            Fence {
                base: p.add(PAGE),
                len: pages * PAGE,
            }
        }
    }
    pub fn capacity(&self) -> usize {
        self.len
    }
    /// Copy `data` so that it ends exactly where the upper fence begins; the
    /// rest of the arena is filled with `fill`.
    pub fn at_end(&mut self, data: &[u8], fill: u8) -> &[u8] {
        assert!(data.len() <= self.len);
        unsafe {
            std::ptr::write_bytes(self.base, fill, self.len - data.len());
            let dst = self.base.add(self.len - data.len());
            std::ptr::copy_nonoverlapping(data.as_ptr(), dst, data.len());
            std::slice::from_raw_parts(dst, data.len())
        }
    }
    /// Copy `data` so that it begins `shift` bytes after the lower fence.
    pub fn at_start(&mut self, data: &[u8], shift: usize, fill: u8) -> &[u8] {
        assert!(data.len() + shift <= self.len);
        unsafe {
            std::ptr::write_bytes(self.base, fill, self.len);
            let dst = self.base.add(shift);
            std::ptr::copy_nonoverlapping(data.as_ptr(), dst, data.len());
            std::slice::from_raw_parts(dst, data.len())
        }
    }
}
