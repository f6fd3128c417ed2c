//! Stand-in for jemallocator (level_db_rust installs `Jemalloc` as the global allocator).
//! Forwards to the system allocator (AddressSanitizer's in checked builds) and adds
//!  * a header with the layout of every block: freeing with another layout, freeing twice or
//!    freeing an address that was never allocated aborts the process,
//!  * counts of live blocks allocated while `tagged` is on (leak oracle),
//!  * a cap on the live bytes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Jemalloc;

const MAGIC: u64 = 0x4c44_4243_4845_434b;
const DEAD: u64 = 0xdead_dead_dead_dead;

#[repr(C)]
struct Head { magic: u64, size: u64, align: u32, tag: u32, pad: u64 }
const HEAD: usize = 32;

pub static TAG: AtomicUsize = AtomicUsize::new(0);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
pub static TOTAL: AtomicUsize = AtomicUsize::new(0);
pub static ALLOCS: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(3 << 30);
/// Requests of more than that are refused, as by an allocator that has no memory left.
pub static REFUSE: AtomicUsize = AtomicUsize::new(usize::MAX);
/// Zeroed blocks of that size or more come from the system as they are, so that they take no memory until they are written.
const LAZY: usize = 1 << 20;

#[cfg(mc_asan)]
extern "C" {
    fn __asan_poison_memory_region(p: *const u8, n: usize);
    fn __asan_unpoison_memory_region(p: *const u8, n: usize);
    fn __asan_address_is_poisoned(p: *const u8) -> i32;
}
#[cfg(mc_asan)]
unsafe fn poison(p: *const u8) { __asan_poison_memory_region(p, HEAD) }
#[cfg(mc_asan)]
unsafe fn unpoison(p: *const u8) { __asan_unpoison_memory_region(p, HEAD) }
#[cfg(not(mc_asan))]
unsafe fn poison(_: *const u8) {}
#[cfg(not(mc_asan))]
unsafe fn unpoison(_: *const u8) {}

fn die(m: &str) -> ! {
    extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
    unsafe { write(2, m.as_ptr(), m.len()); write(2, b"\n".as_ptr(), 1); _exit(66) }
}

fn pre(l: &Layout) -> usize { l.align().max(HEAD) }

/// Reads the header without touching it with instrumented loads when it could be foreign memory.
unsafe fn head(p: *mut u8, l: &Layout) -> *mut Head {
    let h = p.sub(HEAD) as *mut Head;
    #[cfg(mc_asan)]
    {
        // A live block's header is poisoned by us; anything else here is not one of our blocks.
        if __asan_address_is_poisoned(h as *const u8) == 0 { die("ALLOC: free of an address that is not the start of a live block"); }
    }
    let raw = h as *const u64;
    let m = read_raw(raw);
    if m == DEAD { die("ALLOC: double free"); }
    if m != MAGIC { die("ALLOC: free of an address that is not the start of a live block"); }
    unpoison(h as *const u8);
    if (*h).size != l.size() as u64 || (*h).align != l.align() as u32 {
        die("ALLOC: block freed with a different layout than it was allocated with");
    }
    h
}

/// Uninstrumented load.
unsafe fn read_raw(p: *const u64) -> u64 {
    let v: u64;
    std::arch::asm!("mov {v}, [{p}]", v = out(reg) v, p = in(reg) p, options(nostack, readonly));
    v
}

impl Jemalloc {
    unsafe fn dress(b: *mut u8, pre: usize, l: Layout, fill: bool) -> *mut u8 {
        if b.is_null() { return b; }
        let p = b.add(pre);
        let h = p.sub(HEAD) as *mut Head;
        let tag = TAG.load(Relaxed) as u32;
        h.write(Head { magic: MAGIC, size: l.size() as u64, align: l.align() as u32, tag, pad: 0 });
        if tag != 0 { LIVE.fetch_add(1, Relaxed); LIVE_BYTES.fetch_add(l.size(), Relaxed); }
        TOTAL.fetch_add(l.size(), Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        // fresh memory is never all zeros by luck
        if fill { std::ptr::write_bytes(p, 0xA5, l.size().min(1 << 16)); }
        poison(h as *const u8);
        p
    }
}

unsafe impl GlobalAlloc for Jemalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pre = pre(&l);
        let total = match l.size().checked_add(pre) { Some(t) => t, None => return std::ptr::null_mut() };
        if l.size() > REFUSE.load(Relaxed) { return std::ptr::null_mut() }
        let cap = CAP.load(Relaxed);
        if l.size() > cap || TOTAL.load(Relaxed) + l.size() > cap { die("ALLOC: allocation cap exceeded"); }
        Self::dress(System.alloc(Layout::from_size_align_unchecked(total, pre)), pre, l, true)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() >= LAZY && l.align() <= 16 && l.size() <= CAP.load(Relaxed) && l.size() <= REFUSE.load(Relaxed) {
            let pre = pre(&l);
            return Jemalloc::dress(System.alloc_zeroed(Layout::from_size_align_unchecked(l.size() + pre, 16)), pre, l, false);
        }
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let pre = pre(&l);
        let h = head(p, &l);
        if (*h).tag != 0 { LIVE.fetch_sub(1, Relaxed); LIVE_BYTES.fetch_sub(l.size(), Relaxed); }
        TOTAL.fetch_sub(l.size(), Relaxed);
        (*h).magic = DEAD;
        #[cfg(not(mc_asan))]
        std::ptr::write_bytes(p, 0x5A, l.size().min(1 << 16));
        System.dealloc(p.sub(pre), Layout::from_size_align_unchecked(l.size() + pre, pre));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // always moves, so that a pointer kept across a reallocation is a dangling one
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let _ = head(p, &l);
        poison(p.sub(HEAD));
        let save = TAG.load(Relaxed);
        let h = p.sub(HEAD) as *mut Head;
        unpoison(h as *const u8);
        let t = (*h).tag;
        poison(h as *const u8);
        TAG.store(t as usize, Relaxed);
        let q = self.alloc(nl);
        TAG.store(save, Relaxed);
        if q.is_null() { return q; }
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
