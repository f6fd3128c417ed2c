//! Stand-in for jemallocator in the concurrency checks: memory taken by a controlled execution
//! comes from the monitored heap in rt.c, everything else from the system.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Jemalloc;
pub static TAG: AtomicUsize = AtomicUsize::new(0);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
pub static ALLOCS: AtomicUsize = AtomicUsize::new(0);
// (as in harness/shims; nothing here asks for them)
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static REFUSE: AtomicUsize = AtomicUsize::new(usize::MAX);

extern "C" {
    fn mc_rt_alloc(n: usize, al: usize) -> *mut u8;
    fn mc_rt_owns(p: *const u8) -> i32;
    fn mc_rt_free(p: *mut u8, n: usize);
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
const MAGIC: u64 = 0x4c44_4243_4845_434b;
#[repr(C)]
struct Head { magic: u64, size: u64, align: u64 }

fn die(m: &str) -> ! { unsafe { write(2, m.as_ptr(), m.len()); write(2, b"\n".as_ptr(), 1); _exit(66) } }

unsafe impl GlobalAlloc for Jemalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        if TAG.load(Relaxed) != 0 {
            let p = mc_rt_alloc(l.size(), l.align());
            if !p.is_null() {
                (p.sub(32) as *mut Head).write(Head { magic: MAGIC, size: l.size() as u64, align: l.align() as u64 });
                LIVE.fetch_add(1, Relaxed); LIVE_BYTES.fetch_add(l.size(), Relaxed);
                return p;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if mc_rt_owns(p) == 0 { return System.dealloc(p, l) }
        let h = p.sub(32) as *mut Head;
        if (*h).magic != MAGIC { die("ALLOC: free of an address that is not the start of a block") }
        if (*h).size != l.size() as u64 || (*h).align != l.align() as u64 { die("ALLOC: block freed with a different layout than it was allocated with") }
        mc_rt_free(p, l.size());
        LIVE.fetch_sub(1, Relaxed); LIVE_BYTES.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if mc_rt_owns(p) == 0 { return System.realloc(p, l, n) }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if q.is_null() { return q }
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
