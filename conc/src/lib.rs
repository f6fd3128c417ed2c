//! Controlled executions of thread programs (see rt/rt.c).
use mc::*;
use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

extern "C" {
    fn mc_rt_begin();
    fn mc_rt_end();
    fn mc_rt_threads(n: i32, f: extern "C" fn(i32)) -> i32;
    fn mc_rt_verdict() -> *const std::os::raw::c_char;
    fn mc_rt_points() -> u64;
    fn mc_rt_abandon();
    fn mc_rt_point();
}
static mut PAYLOAD: Option<Box<dyn Any + Send>> = None;
static mut BODIES: Vec<Option<Box<dyn FnOnce()>>> = Vec::new();
static mut CLOCK: u64 = 0;

#[no_mangle]
extern "C" fn mc_rt_choose(n: i32, dev: i32) -> i32 {
    let t = alloc::Tag::off();
    let r = catch_unwind(|| if dev != 0 { choose_dev(n as usize) } else { choose(n as usize) });
    drop(t);
    match r { Ok(v) => v as i32, Err(e) => { unsafe { PAYLOAD = Some(e) }; -1 } }
}
#[no_mangle]
extern "C" fn mc_rt_panicking() -> i32 { std::thread::panicking() as i32 }
#[no_mangle]
extern "C" fn mc_rt_tag() -> *mut usize { jemallocator::TAG.as_ptr() }

extern "C" fn entry(i: i32) {
    #[allow(static_mut_refs)]
    let b = unsafe { BODIES[i as usize - 1].take().unwrap() };
    if let Err(e) = catch_unwind(AssertUnwindSafe(b)) {
        let e = if is_ours(&*e) { e } else { let _t = alloc::Tag::off(); Box::new(Violation(format!("thread {i} panicked: {}", panic_text(&*e)))) as Box<dyn Any + Send> };
        unsafe { PAYLOAD = Some(e); mc_rt_abandon() }
    }
}
#[allow(static_mut_refs)]
fn judge() {
    unsafe {
        if let Some(e) = PAYLOAD.take() { resume_unwind(e) }
        let v = std::ffi::CStr::from_ptr(mc_rt_verdict()).to_string_lossy().into_owned();
        if !v.is_empty() { fail(v) }
    }
}
/// One controlled execution: everything `f` allocates is monitored and has to be returned.
pub fn exec<R>(f: impl FnOnce() -> R) -> R {
    unsafe { mc_rt_begin(); CLOCK = 0; PAYLOAD = None; }
    let before = alloc::live();
    let t = alloc::Tag::on();
    let r = catch_unwind(AssertUnwindSafe(|| { let r = f(); judge(); r }));
    drop(t);
    unsafe { mc_rt_end(); }
    match r { Ok(r) => { ensure!(alloc::live() == before, "{} blocks are never freed", alloc::live().0 as i64 - before.0 as i64); r } Err(e) => { jemallocator::LIVE.store(before.0, std::sync::atomic::Ordering::Relaxed); jemallocator::LIVE_BYTES.store(before.1, std::sync::atomic::Ordering::Relaxed); resume_unwind(e) } }
}
/// Runs the bodies as threads, every schedule within the scenario's preemption bound being explored.
pub fn threads(bodies: Vec<Box<dyn FnOnce()>>) {
    let n = bodies.len() as i32;
    #[allow(static_mut_refs)]
    unsafe {
        let t = alloc::Tag::off();
        // closures left from an abandoned execution live in a heap that is gone
        std::mem::forget(std::mem::replace(&mut BODIES, Vec::with_capacity(8)));
        drop(t);
        for b in bodies { BODIES.push(Some(b)) }
        mc_rt_threads(n, entry);
        steps(mc_rt_points());
    }
    judge();
}
/// A place where another thread may be scheduled.
pub fn point() { unsafe { mc_rt_point() } }
/// Logical time, for the order of calls and returns.
pub fn tick() -> u64 { unsafe { CLOCK += 1; CLOCK } }
#[path = "../../harness/src/refs.rs"]
pub mod refs;
#[path = "../../harness/src/cachem.rs"]
pub mod cachem;
/// Whether a type is Send or Sync, as a value: an inherent constant, where its bound holds, hides the trait's.
#[macro_export]
macro_rules! is_auto {
    ($t:ty: $b:path) => {{
        struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
        trait No { const YES: bool = false; }
        impl<T: ?Sized> No for Probe<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $b> Probe<T> { const YES: bool = true; }
        <Probe<$t>>::YES
    }};
}
