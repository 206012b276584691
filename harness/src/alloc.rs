//! What a call leaves behind on its thread: heap memory (every allocation of the process is counted)
//! and the modes of the floating point units.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LAST: Cell<Left> = const { Cell::new(Left { bytes: 0, taken: 0, peak: 0, stack: 0, modes: None }) };
    static PAINT: Cell<bool> = const { Cell::new(false) };
}
pub struct Counted;
unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
fn grow(n: i64) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
    let _ = TAKEN.try_with(|c| c.set(c.get() + 1));
}
#[derive(Clone, Copy)]
pub struct State {
    live: i64,
    taken: u64,
    modes: (u32, u16),
    painted: usize,
}
/// of the last call of this thread
#[derive(Clone, Copy, Debug)]
pub struct Left {
    /// bytes which were not given back
    pub bytes: i64,
    /// allocations during the call
    pub taken: u64,
    /// most bytes of heap memory in use at the same time during the call
    pub peak: i64,
    /// bytes of the stack below the caller which were written (only if watched)
    pub stack: usize,
    /// changed modes of the floating point units
    pub modes: Option<((u32, u16), (u32, u16))>,
}
impl State {
    pub fn now() -> State {
        let live = LIVE.with(|c| c.get());
        PEAK.with(|p| p.set(live));
        let painted = if PAINT.with(|p| p.get()) { paint() } else { 0 };
        State { live, taken: TAKEN.with(|c| c.get()), modes: modes(), painted }
    }
    /// at the end of the call, without painting again
    pub fn end(b: &State) -> State {
        State { live: LIVE.with(|c| c.get()), taken: TAKEN.with(|c| c.get()), modes: modes(), painted: b.painted }
    }
    #[inline(always)]
    pub fn since(self, b: State) {
        let stack = if b.painted != 0 { touched(b.painted) } else { 0 };
        let peak = PEAK.with(|p| p.get()) - b.live;
        let modes = if self.modes != b.modes { Some((b.modes, self.modes)) } else { None };
        LAST.with(|l| l.set(Left { bytes: self.live - b.live, taken: self.taken - b.taken, peak, stack, modes }));
    }
}
pub fn left() -> Left {
    LAST.with(|l| l.get())
}
/// Control bits of SSE (rounding, masks, flush to zero) and the control word of the x87.
#[cfg(all(target_arch = "x86_64", not(miri)))]
fn modes() -> (u32, u16) {
    let mut mx = 0u32;
    let mut cw = 0u16;
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut mx, options(nostack));
        std::arch::asm!("fnstcw [{}]", in(reg) &mut cw, options(nostack));
    }
    (mx & 0xffc0, cw)
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn modes() -> (u32, u16) {
    (0, 0)
}

/// Watch how deep the stack is used.
pub fn watch_stack(on: bool) {
    PAINT.with(|p| p.set(on));
}
/// what is watched of the stack
pub const WINDOW: usize = 384 << 10;
#[cfg(all(target_arch = "x86_64", not(miri)))]
const COLOUR: u64 = 0xA5C3_96E1_5A3C_691E;
/// Fills the stack below with a pattern; the lowest address of it.
#[cfg(all(target_arch = "x86_64", not(miri)))]
#[inline(never)]
fn paint() -> usize {
    let sp: usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack)) };
    let top = (sp - 256) & !15;
    let low = top - WINDOW;
    unsafe { std::arch::asm!("rep stosq", inout("rdi") low => _, inout("rcx") WINDOW / 8 => _, in("rax") COLOUR, options(nostack)) };
    low
}
/// Distance of the lowest changed word from the upper end of what was filled.
#[cfg(all(target_arch = "x86_64", not(miri)))]
#[inline(never)]
fn touched(low: usize) -> usize {
    let mut a = low;
    while a < low + WINDOW && unsafe { std::ptr::read_volatile(a as *const u64) } == COLOUR {
        a += 8;
    }
    low + WINDOW - a
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn paint() -> usize {
    0
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn touched(_: usize) -> usize {
    0
}
