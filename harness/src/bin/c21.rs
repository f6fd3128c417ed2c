//! C21: a skip list returns all memory, and its keys live as long as it does.
use h::sl::*;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use mc::*;

fn ends(b: Both, how: usize, live: (usize, usize)) {
    let Both { list, arena, set, log, .. } = b;
    // slices handed out by the list stay readable until list and arena are both gone
    let held: Vec<UnsafeSlice> = sut("iter", || list.iter().take(set.len() + 1).collect());
    let same = |when: &str| for (s, k) in held.iter().zip(&set) { ensure!(s.as_ref() == k.as_slice(), "key {} changed {when}; {log:?}", show(k)) };
    ensure!(held.len() == set.len(), "the list holds {} keys, expected {}", held.len(), set.len());
    match how {
        0 => { sut("drop arena handle", || drop(arena)); same("after the caller's arena handle is gone"); sut("drop list", || drop(list)); }
        1 => { sut("drop list", || drop(list)); same("after the list is gone"); sut("drop arena", || drop(arena)); }
        _ => { let it = sut("iter", || list.iter()); sut("drop list", || drop(list)); sut("drop cursor", || drop(it)); same("after list and cursor are gone"); sut("drop arena", || drop(arena)); }
    }
    step();
    drop(held);
    ensure!(alloc::live() == live, "{} blocks and {} bytes remain after list and arena are gone; insertions {log:?}", alloc::live().0 - live.0, alloc::live().1 - live.1);
}
fn main() {
    Check::new("C21", "model_checking", "every sequence of insertions up to a depth with every tower height, repeats and refused keys included, then every order of giving up list, arena and cursor, with every block of memory tracked; a state is the sequence and the order of release")
        .assume("memory is tracked by the global allocator and AddressSanitizer")
        .scenario("sequences", format!("every sequence of up to {} insertions of 4 keys with repeats, heights 1..3, 3 orders of release", by_tier(4, 5)), || {
            steer();
            let how = choose(3);
            let live = alloc::live();
            let mut b = Both::new(Order::Bytewise);
            for _ in 0..by_tier(4, 5) {
                let c = choose(5);
                if c == 0 { break }
                b.insert([&b"b"[..], b"", b"a", b"cc"][c - 1], 1 + choose(3));
            }
            state(&(how, &b.log));
            ends(b, how, live);
        }).split(4)
        .scenario("refused", format!("every sequence of up to {} insertions, some of keys that cannot be compared", by_tier(4, 5)), || {
            steer();
            let how = choose(3);
            let live = alloc::live();
            let mut b = Both::new(Order::Partial);
            for _ in 0..by_tier(4, 5) {
                let c = choose(5);
                if c == 0 { break }
                b.insert([&b"0"[..], b"?", b"a", b"?b"][c - 1], 1 + choose(3));
            }
            state(&(how, &b.log));
            ends(b, how, live);
        }).split(4)
        .scenario("many", "0..600 keys of 0..3000 bytes, 3 orders of release; memory usage covers the keys", || {
            unsteer();
            let n = 20 * choose(31);
            let how = choose(3);
            let live = alloc::live();
            let mut b = Both::new(Order::Bytewise);
            let big = flag();
            for i in 0..n { let mut k = format!("{:05}", i * 7919 % 10007).into_bytes(); if big { k.resize(k.len() + i * 61 % 3000, b'v') } b.insert(&k, 1) }
            let keys: usize = b.set.iter().map(|k| k.len()).sum();
            let (m, a) = sut("memory_usage", || (b.list.memory_usage(), b.arena.lock().unwrap().memory_usage()));
            ensure!(m == a, "the list reports {m} bytes, its arena {a}");
            ensure!(m >= keys, "memory usage {m} is less than the {keys} bytes of the keys");
            state(&(n, how, big));
            ends(b, how, live);
        })
        .scenario("crowd", "65537 keys, 3 orders of insertion and release", || {
            let how = choose(3);
            let live = alloc::live();
            let b = crowd(65537, how);
            state(&(how, &b.log));
            ends(b, how, live);
        }).split(1)
        .run()
}
