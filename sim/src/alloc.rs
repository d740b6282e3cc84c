//! The allocator of the simulated process (implemented in csrc/simrt.c, outside instrumented code): whatever library
//! code allocates comes from an arena at a fixed address that is empty when a run starts, with last-in-first-out
//! reuse. Addresses seen by the library are therefore a function of the run alone, and freed addresses are reused as
//! soon as possible.
use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn sim_arena_init();
    fn sim_alloc(size: usize, align: usize) -> *mut u8;
    fn sim_dealloc(p: *mut u8, size: usize, align: usize);
    fn sim_realloc(p: *mut u8, size: usize, align: usize, n: usize) -> *mut u8;
}
/// reserve the arena (before any run)
pub fn init() {
    unsafe { sim_arena_init() }
}
pub struct Sim;
unsafe impl GlobalAlloc for Sim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sim_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sim_dealloc(p, l.size(), l.align());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sim_realloc(p, l.size(), l.align(), n)
    }
}
