//! C34: the array macro.
use custom_proc_macro::{arr, non_null_new_uncheck};
use mc::*;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::SeqCst};

static ALIVE: AtomicI64 = AtomicI64::new(0);
static NEXT: AtomicU32 = AtomicU32::new(0);
static FAIL_AT: AtomicU32 = AtomicU32::new(u32::MAX);
/// Neither Copy nor Clone, and owner of memory.
struct V(u32, Box<u32>);
impl V {
    fn new(i: u32) -> V { ALIVE.fetch_add(1, SeqCst); V(i, Box::new(i)) }
    fn next() -> V { let i = NEXT.fetch_add(1, SeqCst); if i == FAIL_AT.load(SeqCst) { std::panic::resume_unwind(Box::new("element")) } V::new(i) }
}
impl Drop for V { fn drop(&mut self) { ALIVE.fetch_sub(1, SeqCst); } }
struct Row { id: V, twice: [u32; 2] }

/// Called by the macro with the index and the two variables in scope.
macro_rules! element { ($i:expr, $c:expr, $d:expr) => { { let v = V::next(); ensure!($i as u32 == v.0 && $c == 7usize && $d == 9usize, "element {} is called with {} {} {}", v.0, $i, $c, $d); v } } }
macro_rules! number { ($i:expr, $c:expr, $d:expr) => { V::new((|x: u32| { ensure!(NEXT.fetch_add(1, SeqCst) == x, "element {x} is made out of turn"); x })($i as u32 + 2 + $c - $d)) } }

type Make = fn() -> Vec<V>;
const KINDS: [&str; 9] = ["call", "path of an element macro", "other element macro", "block", "struct literal", "closure call", "inner array", "macro call", "sized array"];
macro_rules! rows { ($($n:tt)*) => { vec![$(($n as usize, stringify!($n), [
    (|| Vec::from(arr!([V::next(); $n]))) as Make,
    || { let capacity = 7usize; let default_length = 9usize; Vec::from(arr!([element; $n])) },
    || { let capacity = 7u32; let default_length = 9u32; Vec::from(arr!([number; $n])) },
    || Vec::from(arr!([{ let v = V::next(); let w = v.0; drop(v); V::new(w) }; $n])),
    || { let rows = arr!([Row { id: V::next(), twice: [1; 2] }; $n]); Vec::from(rows).into_iter().map(|r: Row| { ensure!(r.twice == [1, 1], "the row is another"); r.id }).collect() },
    || { let mut k = 0; let mut f = || { k += 1; V::next() }; let a: Vec<V> = Vec::from(arr!([f(); $n])); ensure!(k == a.len(), "the expression is evaluated {k} times for {} elements", a.len()); a },
    || Vec::from(arr!([arr!([V::next(); 2]); $n])).into_iter().map(|[a, b]: [V; 2]| { ensure!(b.0 == a.0 + 1, "the inner array is {} {}", a.0, b.0); drop(a); V::new(b.0 / 2) }).collect(),
    || Vec::from(arr!([vec![V::next()]; $n])).into_iter().map(|mut v: Vec<V>| { ensure!(v.len() == 1, "inner length {}", v.len()); v.remove(0) }).collect(),
    || { let a: [V; $n] = arr!([V::next(); $n]); Vec::from(a) },
])),*] } }
macro_rules! index { ($i:expr, $c:expr, $d:expr) => { $i as u32 * $c + $d } }
macro_rules! long { ($($n:tt)*) => { vec![$(($n as usize, stringify!($n), [
    (|| arr!([NEXT.fetch_add(1, SeqCst); $n]).to_vec()) as fn() -> Vec<u32>,
    || { let capacity = 3u32; let default_length = 5u32; arr!([index; $n]).to_vec() },
])),*] } }
const N3: usize = 3;
struct Sizes;
impl Sizes { const FIVE: usize = 5; }
macro_rules! by_expr { ($e:expr) => { Vec::from(arr!([V::next(); $e])) } }
macro_rules! by_literal { ($e:literal) => { Vec::from(arr!([V::next(); $e])) } }

fn judge(v: Vec<V>, n: usize, what: &str) {
    ensure!(v.len() == n, "{what}: {} elements, expected {n}", v.len());
    for (i, x) in v.iter().enumerate() { ensure!(x.0 == i as u32 && *x.1 == x.0, "{what}: element {i} is {}", x.0) }
    ensure!(ALIVE.load(SeqCst) == n as i64, "{what}: {} elements live, expected {n}", ALIVE.load(SeqCst));
    drop(v);
    ensure!(ALIVE.load(SeqCst) == 0, "{what}: {} elements live after the array is gone", ALIVE.load(SeqCst));
}
fn begin(fail_at: u32) { ALIVE.store(0, SeqCst); NEXT.store(0, SeqCst); FAIL_AT.store(fail_at, SeqCst) }

fn main() {
    fn all() -> Vec<(usize, &'static str, [Make; 9])> { rows!(0 1 2 3 4 5 6 7 8 9 10 11 15 16 17 31 32 33 0x0 0b101 0o17 1_6 007 12usize) }
    let longs = || long!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40
        41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 99 100 101 127 128 129 255 256 257 511 512 513 1000 1023 1024 1025
        0x0 0x1 0x10 0xFF 0b0 0b101 0o17 1_6 1_00 0_3 007 2usize 12usize 0x1fusize 3_2usize);
    let n_longs = longs().len();
    let rows = all();
    let n_rows = rows.len();
    Check::new("C34", "model_checking", "the array macro expanded for every length up to 65 and around powers of two up to 1025, in every form of a literal, with every kind of element expression, and with every element failing; a state is (length, kind, failing element)")
        .assume("the expansions are enumerated when the check is compiled; an expansion that does not compile is a violation")
        .scenario("arrays", "every length and form of a literal with every kind of element", move || {
            let rows = all();
            let (n, text, f) = &rows[choose(n_rows)];
            let k = choose(KINDS.len());
            begin(u32::MAX);
            judge(f[k](), *n, &format!("[{}; {text}]", KINDS[k]));
            step(); state(&(n, k));
        })
        .scenario("long arrays", "every length up to 65 and around powers of two up to 1025 of numbers, by a call and by an element macro", move || {
            let rows = longs();
            let (n, text, f) = &rows[choose(n_longs)];
            let k = choose(2);
            begin(u32::MAX);
            let want: Vec<u32> = (0..*n as u32).map(|i| if k == 0 { i } else { 3 * i + 5 }).collect();
            let got = f[k]();
            ensure!(got == want, "[{k}; {text}]: {got:?}");
            step(); state(&(n, k));
        })
        .scenario("failing elements", "every length up to 33 with every element failing: those made before are destroyed once, none is made after", move || {
            let rows = all();
            let (n, text, f) = &rows[choose(n_rows)];
            let k = *pick(&[0usize, 1, 3, 4, 5, 7, 8]);
            if *n == 0 { return }
            let at = choose(*n);
            begin(at as u32);
            let r = std::panic::catch_unwind(f[k]);
            ensure!(r.is_err(), "[{}; {text}]: the failure of element {at} is lost", KINDS[k]);
            ensure!(ALIVE.load(SeqCst) == 0, "[{}; {text}]: {} elements live after element {at} failed", KINDS[k], ALIVE.load(SeqCst));
            ensure!(NEXT.load(SeqCst) == at as u32 + 1, "[{}; {text}]: {} elements were made though element {at} failed", KINDS[k], NEXT.load(SeqCst));
            step(); state(&(n, k, at));
        })
        .scenario("lengths that are no plain literal", "constants, associated constants, sums, and lengths handed through macros", || {
            let (capacity, default_length) = (7usize, 9usize);
            begin(u32::MAX);
            let c = choose(10);
            let (n, v): (usize, Vec<V>) = match c {
                0 => (3, Vec::from(arr!([V::next(); N3]))),
                1 => (5, Vec::from(arr!([V::next(); Sizes::FIVE]))),
                2 => (7, Vec::from(arr!([V::next(); 3 + 4]))),
                3 => (6, Vec::from(arr!([V::next(); N3 * 2]))),
                4 => (4, Vec::from(arr!([V::next(); (4)]))),
                5 => (8, by_expr!(8)),
                6 => (9, by_literal!(9)),
                7 => (6, by_expr!(Sizes::FIVE + 1)),
                8 => (3, Vec::from(arr!([element; N3]))),
                _ => (2, Vec::from(arr!([element; { 1 + 1 }]))),
            };
            judge(v, n, &format!("length form {c}"));
            step(); state(&c);
        })
        .scenario("pointers", "non_null_new_uncheck! of addresses of several kinds, evaluated once", || {
            let mut x = [1u64, 2, 3];
            let i = choose(4);
            if i == 3 {
                let mut k = 0;
                let p = x.as_mut_ptr();
                let q = non_null_new_uncheck!({ k += 1; p });
                ensure!(k == 1 && q.as_ptr() == p, "evaluated {k} times");
                let b = Box::into_raw(Box::new(5u8));
                let q = non_null_new_uncheck!(b);
                ensure!(q.as_ptr() == b && unsafe { *q.as_ref() } == 5, "another pointer");
                drop(unsafe { Box::from_raw(q.as_ptr()) });
            } else {
                let p: *mut u64 = &mut x[i];
                let q: std::ptr::NonNull<u64> = non_null_new_uncheck!(p);
                ensure!(q.as_ptr() == p && unsafe { *q.as_ref() } == i as u64 + 1, "another pointer");
                let base = x.as_mut_ptr();
                let q = non_null_new_uncheck!(base.wrapping_add(i));
                ensure!(unsafe { *q.as_ptr() } == i as u64 + 1, "another pointer");
            }
            step(); state(&i);
        })
        .run()
}
