//! Random numbers, hashing, the memory limit.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    /// True once in `n`.
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3); }
    h ^ (h >> 29)
}

pub struct Limit;
pub static USED: AtomicUsize = AtomicUsize::new(0);
pub const MAX: usize = 6 << 30;
pub static OVER: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Limit {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if USED.fetch_add(l.size(), Relaxed) > MAX { crate::out_of_memory(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { USED.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() { if USED.fetch_add(n - l.size(), Relaxed) > MAX { crate::out_of_memory(); } }
        else { USED.fetch_sub(l.size() - n, Relaxed); }
        System.realloc(p, l, n)
    }
}
