//! C26: threads that share a MutexLock.
use k::*;
use level_db_rust::util::mutex_lock::{Lock, MutexLock};
use mc::*;
use std::sync::{Arc, MutexGuard, TryLockError};

static mut ALIVE: i64 = 0;
/// The protected value: plain memory, so that unordered accesses are races.
struct D { count: Box<u64>, inside: Box<u8>, log: Vec<u8> }
impl D { fn new() -> D { unsafe { ALIVE += 1 } D { count: Box::new(0), inside: Box::new(0), log: Vec::new() } } }
impl Drop for D { fn drop(&mut self) { unsafe { ALIVE -= 1 } ensure!(*self.inside == 0, "the value is destroyed while a thread works on it"); } }

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op { Add, Try, Fresh, FreshTry, Both, Panic }
/// A period in which a call was under way or the lock was held.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Is { Held, Refused, Panicked }
#[derive(Clone, Copy, Debug)]
struct Ev { is: Is, poisoned: bool, from: u64, got: u64, to: u64 }
const N: usize = 32;
static mut HIST: [Ev; N] = [Ev { is: Is::Held, poisoned: false, from: 0, got: 0, to: 0 }; N];
static mut LEN: usize = 0;
fn begin() -> usize { unsafe { LEN += 1; HIST[LEN - 1] = Ev { is: Is::Held, poisoned: false, from: tick(), got: u64::MAX, to: u64::MAX }; LEN - 1 } }

fn work(d: &mut D, t: usize) {
    ensure!(*d.inside == 0, "threads {} and {t} hold the lock at once", *d.inside);
    *d.inside = t as u8;
    let v = *d.count;
    point();
    d.log.push(t as u8);
    *d.count = v + 1;
    ensure!(*d.inside == t as u8, "threads {} and {t} hold the lock at once", *d.inside);
    *d.inside = 0;
}
fn held(e: usize, g: Result<MutexGuard<'_, D>, std::sync::PoisonError<MutexGuard<'_, D>>>, t: usize) {
    let mut g = match g { Ok(g) => g, Err(p) => { unsafe { HIST[e].poisoned = true } p.into_inner() } };
    unsafe { HIST[e].got = tick() }
    work(&mut g, t);
    drop(g);
    unsafe { HIST[e].to = tick() }
}
fn tried(e: usize, l: &Lock<D>, t: usize) {
    match l.try_lock() {
        Ok(g) => held(e, Ok(g), t),
        Err(TryLockError::Poisoned(p)) => held(e, Err(p), t),
        Err(TryLockError::WouldBlock) => unsafe { HIST[e].is = Is::Refused; HIST[e].got = tick(); HIST[e].to = HIST[e].got },
    }
}
fn perform(op: Op, own: &Lock<D>, m: &MutexLock<D>, t: usize) {
    point();
    let e = begin();
    match op {
        Op::Add => held(e, own.lock(), t),
        Op::Try => tried(e, own, t),
        Op::Fresh => { let l = m.get_lock(); held(e, l.lock(), t) }
        Op::FreshTry => { let l = m.get_lock(); tried(e, &l, t) }
        Op::Both => {
            let l = m.get_lock();
            let g = own.lock();
            unsafe { HIST[e].poisoned = g.is_err(); HIST[e].got = tick() }
            ensure!(matches!(l.try_lock(), Err(TryLockError::WouldBlock)), "a lock that is held is given out again");
            point();
            ensure!(matches!(own.try_lock(), Err(TryLockError::WouldBlock)), "a lock that is held is given out again by the same handle");
            drop(g);
            unsafe { HIST[e].to = tick() }
        }
        Op::Panic => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let g = own.lock();
                unsafe { HIST[e].poisoned = g.is_err(); HIST[e].got = tick(); HIST[e].is = Is::Panicked }
                point();
                std::panic::resume_unwind(Box::new(7u8));
            }));
            match r { Ok(()) => {} Err(p) => if is_ours(&*p) { std::panic::resume_unwind(p) } }
            unsafe { HIST[e].to = tick() }
        }
    }
}
fn judge(d: &D, count_poison: bool) {
    #[allow(static_mut_refs)]
    let h: Vec<Ev> = unsafe { HIST[..LEN].to_vec() };
    for (i, e) in h.iter().enumerate() {
        if e.is == Is::Refused {
            let why = h.iter().enumerate().any(|(j, o)| j != i && o.is != Is::Refused && o.from < e.to && o.to > e.from);
            ensure!(why, "try_lock is refused although no thread holds or asks for the lock: {h:?}");
        }
        if e.is != Is::Refused {
            for (j, o) in h.iter().enumerate() { if j != i && o.is != Is::Refused { ensure!(o.to <= e.got || e.to <= o.got || o.got >= e.to || e.got >= o.to || (o.got == u64::MAX), "two holders at once: {h:?}") } }
            let before = h.iter().any(|o| o.is == Is::Panicked && o.got < e.got);
            ensure!(e.poisoned == before || !count_poison, "the lock says {} after {} panic: {h:?}", if e.poisoned { "poisoned" } else { "not poisoned" }, if before { "a holder's" } else { "no holder's" });
        }
    }
    let n = d.log.len() as u64;
    ensure!(*d.count == n, "the count is {} after {n} increments", *d.count);
}
fn play(progs: Vec<Vec<Op>>) {
    note!("threads {progs:?}");
    unsafe { LEN = 0; ALIVE = 0; }
    exec(|| {
        let m = Arc::new(MutexLock::new(D::new()));
        let bodies = progs.iter().enumerate().map(|(i, p)| {
            let (own, m) = (m.get_lock(), m.clone());
            let p: &'static Vec<Op> = unsafe { &*(p as *const _) };
            Box::new(move || for op in p { perform(*op, &own, &m, i + 1) }) as Box<dyn FnOnce()>
        }).collect();
        threads(bodies);
        let l = m.get_lock();
        let poisoned = l.lock().is_err();
        #[allow(static_mut_refs)]
        let want = unsafe { HIST[..LEN].iter().any(|e| e.is == Is::Panicked) };
        ensure!(poisoned == want, "in the end the lock is {}poisoned", if poisoned { "" } else { "not " });
        let g = match l.lock() { Ok(g) => g, Err(p) => p.into_inner() };
        { let _t = alloc::Tag::off(); judge(&g, true); state(&(format!("{progs:?}"), g.log.clone(), unsafe { HIST[..LEN].iter().map(|e| (e.is == Is::Refused, e.poisoned)).collect::<Vec<_>>() })); }
        drop(g);
        ensure!(unsafe { ALIVE } == 1, "the value was destroyed before its owner");
        drop(m);
        ensure!(unsafe { ALIVE } == 1 && l.lock().map(|g| g.log.len()).unwrap_or_else(|p| p.into_inner().log.len()) < 99, "the value goes with its owner although a handle is left");
        drop(l);
        ensure!(unsafe { ALIVE } == 0, "{} values survive their lock", unsafe { ALIVE });
    });
}
fn main() {
    use Op::*;
    fn prog(menu: &[Op], max: usize) -> Vec<Op> { let mut p = vec![*pick(menu)]; while p.len() < max { let c = choose(menu.len() + 1); if c == 0 { break } p.push(menu[c - 1]) } p }
    Check::new("C26", "model_checking", "every schedule within a preemption bound of every program of a set, on the real lock; two holders at once, wrong refusals, lost updates, unordered memory accesses, dead locks, wrong poisoning, early or missing destruction reported; a state is a program with the order and kind of its answers")
        .assume("sequentially consistent interleavings at the granularity of atomic operations; weak memory only as data races")
        .scenario("bounds", "which locks may be shared between or sent to threads", || {
            use std::cell::Cell; use std::rc::Rc;
            ensure!(is_auto!(Lock<Cell<u8>>: Send) && is_auto!(MutexLock<Cell<u8>>: Sync) && is_auto!(Lock<u64>: Sync) && is_auto!(MutexLock<u64>: Send), "a lock of a value that threads may pass on cannot be used by several threads");
            ensure!(!is_auto!(Lock<Rc<u8>>: Send) && !is_auto!(Lock<Rc<u8>>: Sync) && !is_auto!(MutexLock<Rc<u8>>: Send) && !is_auto!(MutexLock<Rc<u8>>: Sync), "a lock of a value bound to a thread can be sent or shared");
            step(); state(&0u8);
        })
        .scenario_dev("two", format!("two threads of up to {} operations: lock, try, new handle, lock and try to lock again; {} preemptions", by_tier(2, 3), by_tier(3, 4)), by_tier(3, 4), || {
            let menu = [Add, Try, Fresh, FreshTry, Both];
            let a = prog(&menu, 2); let b = prog(&menu, by_tier(2, 3));
            play(vec![a, b]);
        }).split(5)
        .scenario_dev("three", format!("three threads of one operation, or one of two; {} preemptions", by_tier(3, 5)), by_tier(3, 5), || {
            let menu = [Add, Try, FreshTry];
            let a = prog(&menu, 2); let b = prog(&menu, 1); let c = prog(&menu, 1);
            play(vec![a, b, c]);
        }).split(5)
        .scenario_dev("poison", format!("two or three threads, one of which panics while it holds the lock; {} preemptions", by_tier(2, 4)), by_tier(2, 4), || {
            let menu = [Add, Try, Fresh, Panic];
            let a = prog(&[Panic, Add], 2); let b = prog(&menu, 2);
            let mut p = vec![a, b];
            if flag() { p.push(vec![*pick(&[Add, Try])]) }
            play(p);
        }).split(5)
        .scenario_dev("last owner", format!("owner and handles are let go by three threads in any order; {} preemptions", by_tier(3, 5)), by_tier(3, 5), || {
            unsafe { LEN = 0; ALIVE = 0; }
            let use_it = choose(8);
            exec(|| {
                let m = MutexLock::new(D::new());
                let (a, b) = (m.get_lock(), m.get_lock());
                let bodies: Vec<Box<dyn FnOnce()>> = vec![
                    Box::new(move || { if use_it & 1 != 0 { let l = m.get_lock(); drop(m); let e = begin(); held(e, l.lock(), 1) } else { drop(m) } }),
                    Box::new(move || { if use_it & 2 != 0 { let e = begin(); held(e, a.lock(), 2) } drop(a) }),
                    Box::new(move || { if use_it & 4 != 0 { let e = begin(); tried(e, &b, 3) } drop(b) }),
                ];
                threads(bodies);
                ensure!(unsafe { ALIVE } == 0, "{} values survive their lock", unsafe { ALIVE });
            });
            #[allow(static_mut_refs)]
            state(&(use_it, unsafe { HIST[..LEN].iter().map(|e| (e.is == Is::Refused, e.got)).collect::<Vec<_>>() }));
        }).split(5)
        .run()
}
