//! Known-bad and known-good thread programs for the scheduler itself; run by tools/rtself.sh, no property's check.
use k::*;
use level_db_rust as _; // its global allocator
use mc::*;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering::*, fence};
use std::sync::{Arc, Condvar, Mutex, RwLock};
type B = Box<dyn FnOnce()>;
struct U<T>(UnsafeCell<T>);
unsafe impl<T> Sync for U<T> {}
unsafe impl<T> Send for U<T> {}
fn two<S: 'static>(s: S, f: fn(Arc<S>), g: fn(Arc<S>)) -> Arc<S> {
    let a = Arc::new(s);
    let (b, c) = (a.clone(), a.clone());
    threads(vec![Box::new(move || f(b)) as B, Box::new(move || g(c)) as B]);
    a
}
fn mp(st: std::sync::atomic::Ordering, ld: std::sync::atomic::Ordering, f: bool) {
    struct S { d: U<u64>, a: AtomicUsize }
    let a = Arc::new(S { d: U(UnsafeCell::new(0)), a: AtomicUsize::new(0) });
    let (b, c) = (a.clone(), a.clone());
    threads(vec![
        Box::new(move || { unsafe { *b.d.0.get() = 7 } if f { fence(Release) } b.a.store(1, st) }) as B,
        Box::new(move || { if c.a.load(ld) == 1 { if f { fence(Acquire) } let v = unsafe { *c.d.0.get() }; ensure!(v == 7, "stale"); } }) as B,
    ]);
}
fn main() {
    let want = std::env::args().nth(3).unwrap_or_default();
    let all: Vec<(&str, fn())> = vec![
        ("bad-race", || exec(|| { two(U(UnsafeCell::new(0u64)), |a| unsafe { *a.0.get() += 1 }, |a| unsafe { *a.0.get() += 1 }); })),
        ("bad-lost-update", || exec(|| { let a = two(AtomicUsize::new(0), |a| { let v = a.load(SeqCst); a.store(v + 1, SeqCst) }, |a| { let v = a.load(SeqCst); a.store(v + 1, SeqCst) }); ensure!(a.load(SeqCst) == 2, "lost update"); })),
        ("good-update", || exec(|| { let a = two(AtomicUsize::new(0), |a| { a.fetch_add(1, SeqCst); }, |a| { a.fetch_add(1, SeqCst); }); ensure!(a.load(SeqCst) == 2, "lost update"); })),
        ("bad-abba", || exec(|| { two((Mutex::new(0), Mutex::new(0)), |a| { let _x = a.0.lock().unwrap(); let _y = a.1.lock().unwrap(); }, |a| { let _y = a.1.lock().unwrap(); let _x = a.0.lock().unwrap(); }); })),
        ("bad-rec-read", || exec(|| { two(RwLock::new(0), |a| { let _x = a.read().unwrap(); let _y = a.read().unwrap(); }, |a| { *a.write().unwrap() += 1; }); })),
        ("good-rw", || exec(|| { let a = two(RwLock::new(0), |a| { *a.write().unwrap() += 1; let _ = *a.read().unwrap(); }, |a| { let _ = *a.read().unwrap(); *a.write().unwrap() += 1; }); ensure!(*a.read().unwrap() == 2, "lost"); })),
        ("good-mp", || exec(|| mp(Release, Acquire, false))),
        ("bad-mp", || exec(|| mp(Relaxed, Acquire, false))),
        ("bad-mp2", || exec(|| mp(Release, Relaxed, false))),
        ("good-mp-fence", || exec(|| mp(Relaxed, Relaxed, true))),
        ("bad-uaf", || exec(|| { let p = Box::into_raw(Box::new(5u64)) as usize; let q = two(AtomicUsize::new(p), |a| { let p = a.swap(0, SeqCst); drop(unsafe { Box::from_raw(p as *mut u64) }) }, |a| { let p = a.load(SeqCst); if p != 0 { let _ = unsafe { std::ptr::read_volatile(p as *const u64) }; } }); drop(q); })),
        ("bad-leak", || exec(|| { two(AtomicUsize::new(0), |a| { if a.fetch_add(1, SeqCst) == 1 { std::mem::forget(std::hint::black_box(Box::new(1u8))) } }, |a| { a.fetch_add(1, SeqCst); }); })),
        ("bad-lost-wakeup", || exec(|| { two((Mutex::new(false), Condvar::new(), AtomicUsize::new(0)), |a| { if a.2.load(SeqCst) == 0 { let g = a.0.lock().unwrap(); let _g = a.1.wait(g).unwrap(); } }, |a| { a.2.store(1, SeqCst); a.1.notify_one(); }); })),
        ("good-condvar", || exec(|| { two((Mutex::new(false), Condvar::new()), |a| { let mut g = a.0.lock().unwrap(); while !*g { g = a.1.wait(g).unwrap() } }, |a| { *a.0.lock().unwrap() = true; a.1.notify_one(); }); })),
        ("good-spin", || exec(|| { two(AtomicUsize::new(0), |a| { while a.load(Acquire) == 0 { std::hint::spin_loop() } }, |a| { a.store(1, Release) }); })),
        ("bad-livelock", || exec(|| { two(AtomicUsize::new(0), |a| { while a.load(Acquire) == 0 { std::thread::yield_now() } }, |_| {}); })),
        ("good-poison", || exec(|| { let a = two(Mutex::new(0), |a| { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = a.lock().unwrap(); std::panic::resume_unwind(Box::new(1u8)) })); }, |a| { if let Ok(mut g) = a.lock() { *g += 1 } }); ensure!(a.lock().is_err(), "not poisoned"); })),
        ("bad-plain-vs-free", || exec(|| { let a = Arc::new(AtomicUsize::new(0)); let b = Box::into_raw(Box::new(5u64)) as usize; let (x, y) = (a.clone(), a.clone());
            threads(vec![Box::new(move || { let _ = unsafe { std::ptr::read_volatile(b as *const u64) }; x.fetch_add(1, Relaxed); }) as B, Box::new(move || { while y.load(Relaxed) == 0 {} drop(unsafe { Box::from_raw(b as *mut u64) }) }) as B]); })),
        ("good-arc-free", || exec(|| { let a = Arc::new(AtomicUsize::new(0)); let b = Box::into_raw(Box::new(5u64)) as usize; let (x, y) = (a.clone(), a.clone());
            threads(vec![Box::new(move || { let _ = unsafe { std::ptr::read_volatile(b as *const u64) }; x.fetch_add(1, Release); }) as B, Box::new(move || { while y.load(Acquire) == 0 {} drop(unsafe { Box::from_raw(b as *mut u64) }) }) as B]); })),
    ];
    let mut c = Check::new("Z99", "model_checking", "runtime self test");
    for (n, f) in all { if n == want { c = c.scenario_dev(n, "", 3, f) } }
    c.run()
}
