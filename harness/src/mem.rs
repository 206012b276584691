//! Memory with guard pages: reads and writes beyond an object end in a SIGSEGV, which is attributed
//! to the running call. Everything in front of an object is a canary.
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
const PAGE: usize = 4096;
const CANARY: usize = 96;

pub struct Guard {
    map: *mut u8,
    len: usize,
    /// end of the usable memory, start of the guard page
    end: *mut u8,
    /// bytes of the current object
    used: usize,
    canary: u8,
    ro: bool,
}
unsafe impl Send for Guard {}

impl Guard {
    pub fn new(cap: usize) -> Guard {
        let n = (cap + CANARY + PAGE - 1) / PAGE * PAGE;
        let len = n + 2 * PAGE;
        unsafe {
            let map = mmap(std::ptr::null_mut(), len, 0, 0x22, -1, 0);
            assert!(map as isize > 0);
            assert!(mprotect(map.add(PAGE), n, 3) == 0);
            let mut g = Guard { map, len, end: map.add(PAGE + n), used: 0, canary: 0x5a, ro: false };
            g.place(0, 0x5a);
            g
        }
    }
    fn room(&self) -> usize {
        self.len - 2 * PAGE
    }
    fn place(&mut self, n: usize, canary: u8) -> *mut u8 {
        assert!(n + CANARY <= self.room(), "guard too small for {n}");
        assert!(!self.ro);
        self.used = n;
        self.canary = canary;
        unsafe {
            let p = self.end.sub(n);
            std::ptr::write_bytes(p.sub(CANARY), canary, CANARY);
            p
        }
    }
    /// An input: the last element lies directly in front of the guard page.
    pub fn put<T: Copy>(&mut self, data: &[T], canary: u8) -> *const T {
        let n = std::mem::size_of_val(data);
        let p = self.place(n, canary);
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr() as *const u8, p, n) };
        p as *const T
    }
    /// A destination of `n` bytes filled with stale data.
    pub fn dest(&mut self, n: usize, mut fill: impl FnMut(usize) -> u8, canary: u8) -> *mut u8 {
        let p = self.place(n, canary);
        for i in 0..n {
            unsafe { *p.add(i) = fill(i) }
        }
        p
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.end.sub(self.used), self.used) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.end.sub(self.used), self.used) }
    }
    pub fn ptr(&self) -> *mut u8 {
        unsafe { self.end.sub(self.used) }
    }
    pub fn canary_ok(&self) -> bool {
        let c = unsafe { std::slice::from_raw_parts(self.end.sub(self.used + CANARY), CANARY) };
        c.iter().all(|b| *b == self.canary)
    }
    /// Makes the object read-only: a write is a SIGSEGV.
    pub fn protect(&mut self, ro: bool) {
        if self.ro != ro {
            unsafe { assert!(mprotect(self.map.add(PAGE), self.room(), if ro { 1 } else { 3 }) == 0) };
            self.ro = ro;
        }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        unsafe { munmap(self.map, self.len) };
    }
}
