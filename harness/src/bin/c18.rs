//! C18: arena memory is exclusive, stays put, is accounted for and is returned.
use level_db_rust::util::arena::{Arena, ArenaAllocLike};
use level_db_rust::util::slice::Slice;
use mc::*;
use std::sync::{Arc, Mutex};

/// LevelDB's policy: blocks of 4096, requests above 1024 that do not fit get a block of their own.
struct Ref { left: usize, usage: usize }
impl Ref {
    /// Returns whether the request is served from the current block.
    fn alloc(&mut self, n: usize, had: &mut bool) -> bool {
        if *had && n <= self.left { self.left -= n; return true }
        if n > 1024 { self.usage += n } else { self.usage += 4096; self.left = 4096 - n; *had = true }
        false
    }
}
fn play(next: &mut dyn FnMut(usize) -> Option<(usize, Option<usize>)>) {
    let live = alloc::live();
    let mut a = sut("arena", Arena::default);
    ensure!(a.memory_usage() == 0, "an empty arena uses {} bytes", a.memory_usage());
    let mut m = Ref { left: 0, usage: 0 };
    let mut had = false;
    let mut held: Vec<(*mut u8, usize, u8)> = vec![];
    let mut seq = vec![];
    let mut k = 0usize;
    while let Some((n, al)) = next(k) {
        let (p, l) = sut("allocate", || { let b = match al { None => a.allocate(n), Some(x) => a.allocate_align(n, x) }; (b.as_mut_ptr(), b.len()) });
        step();
        seq.push((n, al));
        ensure!(l == n, "allocate({n}) gives {l} bytes; sequence {seq:?}");
        let inside = m.alloc(n, &mut had);
        // an empty request may or may not need a block
        ensure!(a.memory_usage() == m.usage, "memory usage {} after {seq:?}, expected {}", a.memory_usage(), m.usage);
        if let Some(x) = al { if p as usize % x != 0 {
            if inside { known("arena-align-in-block", format!("allocate_align({n}, {x}) inside a block gives an address that is not a multiple of {x}")) }
            else { fail(format!("allocate_align({n}, {x}) in a block of its own gives an address that is not a multiple of {x}; sequence {seq:?}")) }
        } }
        let pat = (k as u8).wrapping_mul(7).wrapping_add(3);
        for i in 0..n { unsafe { p.add(i).write(pat.wrapping_add(i as u8)) } }
        held.push((p, n, pat));
        let mut r: Vec<(usize, usize)> = held.iter().filter(|x| x.1 > 0).map(|x| (x.0 as usize, x.1)).collect();
        r.sort();
        for w in r.windows(2) { ensure!(w[0].0 + w[0].1 <= w[1].0, "allocations overlap after {seq:?}"); }
        for (j, (p, n, pat)) in held.iter().enumerate() { for i in 0..*n { ensure!(unsafe { p.add(i).read() } == pat.wrapping_add(i as u8), "allocation {j} changed after {seq:?}"); } }
        state(&seq);
        k += 1;
    }
    sut("drop", || drop(a));
    ensure!(alloc::live() == live, "{:?} blocks and bytes remain after the arena is gone; sequence {seq:?}", alloc::live());
}
fn main() {
    Check::new("C18", "model_checking", "every sequence of requests up to a depth with sizes around the policy's boundaries, every earlier allocation re-read in full after each, against a model of the block policy; a state is a sequence of requests")
        .scenario("sequences", format!("every sequence of up to {} requests of 0, 1, 7, 512, 1023, 1024, 1025, 3072, 4096, 4097 or 9000 bytes", by_tier(5, 6)), || {
            let d = by_tier(5, 6);
            play(&mut |k| { if k == d { return None } let c = choose(12); if c == 0 { None } else { Some(([0, 1, 7, 512, 1023, 1024, 1025, 3072, 4096, 4097, 9000][c - 1], None)) } });
        })
        .scenario("boundary", "every fill 0..4097 of a block followed by a request of 0, 1, 2, 16, 1024 or 1025 bytes, then 3 bytes", || {
            let f = choose(4098);
            let n = *pick(&[0usize, 1, 2, 16, 1024, 1025]);
            play(&mut |k| match k { 0 => Some((1, None)), 1 => Some((f, None)), 2 => Some((n, None)), 3 => Some((3, None)), _ => None });
        })
        .scenario("aligned", format!("every sequence of up to {} requests of 1, 3, 8, 1024, 1500 or 4096 bytes aligned to 1, 2, 8, 16, 64 or 4096", by_tier(3, 4)), || {
            let d = by_tier(3, 4);
            play(&mut |k| { if k == d { return None } let c = choose(7); if c == 0 { return None } Some(([1, 3, 8, 1024, 1500, 4096][c - 1], Some(*pick(&[1usize, 2, 8, 16, 64, 4096])))) });
        })
        .scenario("large", "every sequence of 3 requests of 5, 1025, 65535, 65536, 65537, 70000, 2^20 + 1 or 2^24 bytes, aligned or not", || {
            let al = *pick(&[None, Some(1usize), Some(64)]);
            play(&mut |k| { if k == 3 { return None } Some((*pick(&[5usize, 1025, 65535, 65536, 65537, 70000, (1 << 20) + 1, 1 << 24]), if k == 0 { None } else { al })) });
        })
        .scenario("many", "2000 requests of one size 0..300, and of sizes cycling through 0..m", || {
            let n = choose(301);
            let cyc = flag();
            let mut a = sut("arena", Arena::default);
            let (mut m, mut had) = (Ref { left: 0, usage: 0 }, false);
            let mut held: Vec<(*mut u8, usize)> = vec![];
            for k in 0..2000usize {
                let n = if cyc { k * 7 % (n + 1) } else { n };
                let b = sut("allocate", || a.allocate(n));
                ensure!(b.len() == n, "allocate({n}) gives {} bytes", b.len());
                b.fill(k as u8);
                held.push((b.as_mut_ptr(), n));
                m.alloc(n, &mut had);
                ensure!(a.memory_usage() == m.usage, "memory usage {} after {} requests, expected {}", a.memory_usage(), k + 1, m.usage);
                step();
            }
            for (k, (p, n)) in held.iter().enumerate() { for i in 0..*n { ensure!(unsafe { p.add(i).read() } == k as u8, "allocation {k} changed"); } }
            state(&(n, cyc));
            sut("drop", || drop(a));
        })
        .scenario("refused", "requests of 1 byte to 2^64 - 1 bytes that cannot be met, alone and after others: no region is handed out, and what is handed out later is sound", || {
            let big = isize::MAX as usize;
            let (n, limit) = *pick(&[(1usize, 4095usize), (1024, 4095), (1025, 1024), (5000, 4999), (1 << 32, 1 << 24), (1 << 40, 1 << 30), (big - 4096, 1 << 30), (big, 1 << 30), (big + 1, 1 << 30), (usize::MAX - 4096, 1 << 30), (usize::MAX - 8, 1 << 30), (usize::MAX, 1 << 30)]);
            let before = choose(4);
            let al = *pick(&[None, Some(1usize), Some(8), Some(4096)]);
            let r = apart(|| {
                // not dropped when it holds what is no memory
                let mut a = std::mem::ManuallyDrop::new(Arena::default());
                let mut held: Vec<(*mut u8, usize)> = vec![];
                let mut take = |a: &mut Arena, n: usize| { let b = a.allocate(n); b.fill(held.len() as u8 + 1); held.push((b.as_mut_ptr(), n)); for (k, (p, n)) in held.iter().enumerate() { for i in 0..*n { if unsafe { p.add(i).read() } != k as u8 + 1 { return false } } } true };
                for _ in 0..before { if !take(&mut a, if before == 3 { 1500 } else { 2000 }) { return 3 } }
                let usage = a.memory_usage();
                alloc::refuse(limit);
                let r = sut_try(|| match al { None => a.allocate(n).len(), Some(x) => a.allocate_align(n, x).len() });
                alloc::refuse(usize::MAX);
                if r.is_ok() { return 1 }
                if a.memory_usage() != usage { return 2 }
                for m in [100, 3000, 2000, 3, 1024] { if !take(&mut a, m) { return 3 } }
                drop(std::mem::ManuallyDrop::into_inner(a));
                0
            });
            match r {
                Some(1) => fail(format!("{n} bytes are requested and not to be had, and a region is handed out")),
                Some(2) => fail(format!("the memory usage changes though the request of {n} bytes was refused")),
                Some(3) => fail(format!("regions overlap or change after the request of {n} bytes was refused")),
                _ => {}
            }
            step(); state(&(n, before, al));
        })
        .scenario("wide", "every sequence of 3 requests of 5, 2^31, 2^32 - 1, 2^32 or 2^32 + 5 bytes: first and last bytes of each kept, and the usage counted", || {
            alloc::cap(1 << 40);
            let live = alloc::live();
            let mut a = sut("arena", Arena::default);
            let (mut m, mut had) = (Ref { left: 0, usage: 0 }, false);
            let mut held: Vec<(*mut u8, usize)> = vec![];
            for k in 0..3usize {
                let n = *pick(&[5usize, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5]);
                let (p, l) = sut("allocate", || { let b = a.allocate(n); (b.as_mut_ptr(), b.len()) });
                step();
                ensure!(l == n, "allocate({n}) gives {l} bytes");
                m.alloc(n, &mut had);
                ensure!(a.memory_usage() == m.usage, "memory usage {} after {k} earlier requests and one of {n} bytes, expected {}", a.memory_usage(), m.usage);
                held.push((p, n));
                unsafe { p.write(k as u8 + 1); p.add(n - 1).write(k as u8 + 11) }
                for (j, (p, n)) in held.iter().enumerate() { ensure!(unsafe { p.read() == j as u8 + 1 && p.add(n - 1).read() == j as u8 + 11 }, "allocation {j} of {n} bytes changed"); }
                let mut r: Vec<(usize, usize)> = held.iter().map(|x| (x.0 as usize, x.1)).collect();
                r.sort();
                for w in r.windows(2) { ensure!(w[0].0 + w[0].1 <= w[1].0, "allocations overlap"); }
            }
            state(&held.iter().map(|h| h.1).collect::<Vec<_>>());
            sut("drop", || drop(a));
            ensure!(alloc::live() == live, "{:?} blocks and bytes remain after the arena is gone", alloc::live());
        }).split(0)
        .scenario("copies", "a Slice of 0, 1, 100 or 5000 bytes copied with an arena equals the original", || {
            let n = *pick(&[0usize, 1, 100, 5000]);
            let d: Vec<u8> = (0..n).map(|i| i as u8).collect();
            let a = Arc::new(Mutex::new(Arena::default()));
            let s = sut("copy_with_arena", || Slice::from_buf(&d).copy_with_arena(a.clone()));
            ensure!(s.as_ref() == d.as_slice(), "copy_with_arena of {n} bytes holds other bytes");
            step(); state(&n);
            if n > 0 {
                // does the copy own what the arena owns too? the arena's next byte shows where its memory lies
                let p = s.as_ref().as_ptr() as usize;
                let q = a.lock().unwrap().allocate(1).as_ptr() as usize;
                let in_arena = n <= 1024 && p + n == q || n > 1024 && a.lock().unwrap().memory_usage() == n + 4096;
                if in_arena { std::mem::forget(s); known("slice-owns-arena-memory", "dropping a Slice made by copy_with_arena frees memory of the arena".into()); return }
            }
            sut("drop", || drop(s));
            sut("drop", || drop(a));
        })
        .run()
}
