//! C17: an UnsafeSlice holds its bytes for as long as its arena lives.
use level_db_rust::util::arena::{Arena, ArenaRef};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use mc::*;
use std::sync::{Arc, Mutex};

fn new() -> ArenaRef { sut("arena", || Arc::new(Mutex::new(Arena::default()))) }
fn get(data: &[u8], a: &ArenaRef) -> UnsafeSlice {
    sut("new_with_arena", || match UnsafeSlice::new_with_arena(data, a.clone()) { Ok(u) => u, Err(e) => fail(format!("new_with_arena: {}", e.to_string())) })
}
fn is(u: &UnsafeSlice, w: &[u8], what: &str) {
    ensure!(u.len() == w.len(), "{what}: {} bytes long, expected {}", u.len(), w.len());
    ensure!(u.as_ref() == w, "{what}: holds {:02x?}.., expected {:02x?}..", &u.as_ref()[..w.len().min(8)], &w[..w.len().min(8)]);
}
fn fill(n: usize, k: usize) -> Vec<u8> { (0..n).map(|i| (i * 31 + k * 97 + 1) as u8).collect() }
fn main() {
    Check::new("C17", "model_checking", "every sequence of creations up to a depth in one arena with sizes around its block boundaries, all held slices re-read after each; every sub-slice of every length; a state is the list of lengths held")
        .scenario("held", format!("every sequence of up to {} creations of 0, 1, 5, 1000, 1024, 1025, 2000, 4096 or 5000 bytes; all earlier slices re-read; copies that outlive the arena; all memory returned", by_tier(5, 6)), || {
            let live = alloc::live();
            let a = new();
            let mut held: Vec<(UnsafeSlice, Vec<u8>)> = vec![];
            let mut copies: Vec<(Slice, Vec<u8>)> = vec![];
            for k in 0..by_tier(5, 6) {
                let c = choose(10);
                if c == 0 { break }
                let d = fill([0, 1, 5, 1000, 1024, 1025, 2000, 4096, 5000][c - 1], k);
                let mut src = d.clone();
                let u = get(&src, &a);
                src.fill(0xEE);
                drop(src);
                copies.push((sut("to_slice", || u.to_slice()), d.clone()));
                held.push((u, d));
                step();
                for (i, (u, d)) in held.iter().enumerate() { is(u, d, &format!("slice {i} after creation {k}")); let v = *u; is(&v, d, "a copy of it"); }
                let mut r: Vec<(usize, usize)> = held.iter().map(|(u, _)| (u.as_ref().as_ptr() as usize, u.len())).filter(|x| x.1 > 0).collect();
                r.sort();
                for w in r.windows(2) { ensure!(w[0].0 + w[0].1 <= w[1].0, "two slices of one arena overlap"); }
                state(&held.iter().map(|x| x.1.len()).collect::<Vec<_>>());
            }
            held.clear();
            sut("drop", || drop(a));
            for (s, d) in &copies { ensure!(s.as_ref() == d.as_slice(), "a safe copy changes when its arena is gone") }
            sut("drop", || drop(copies));
            ensure!(alloc::live() == live, "{:?} blocks and bytes remain after the arena is gone", alloc::live());
        })
        .scenario("sub-slices", "every (start, length) of slices of 0..12 bytes, and of their sub-slices, in and just out of bounds; starts and lengths whose sum overflows", || {
            let n = choose(13);
            let a = new();
            let d = fill(n, 3);
            let u = get(&d, &a);
            let after = get(b"\xEE\xEE\xEE\xEE", &a);
            for s in 0..n + 2 { for l in 0..n + 2 {
                let g = sut_try(|| unsafe { u.sub_slice(s, l) });
                step(); state(&(n, s, l));
                if s + l > n { ensure!(g.is_err(), "sub_slice({s}, {l}) of {n} bytes is out of bounds and is given out"); continue }
                let Ok(v) = g else { fail(format!("sub_slice({s}, {l}) of {n} bytes panicked: {}", g.err().unwrap())) };
                is(&v, &d[s..s + l], &format!("sub_slice({s}, {l}) of {n} bytes"));
                ensure!(sut("to_slice", || v.to_slice()).as_ref() == &d[s..s + l], "to_slice of sub_slice({s}, {l})");
                for s2 in 0..l + 2 { for l2 in 0..l + 2 {
                    let g = sut_try(|| unsafe { v.sub_slice(s2, l2) });
                    if s2 + l2 > l { ensure!(g.is_err(), "sub_slice({s2}, {l2}) of a sub-slice of {l} bytes is out of bounds and is given out"); continue }
                    let Ok(v2) = g else { fail("sub_slice of a sub-slice panicked".into()) };
                    is(&v2, &d[s + s2..s + s2 + l2], "sub-slice of a sub-slice");
                } }
            } }
            for s in (0..n + 2).chain([n + 20, isize::MAX as usize, usize::MAX - n, usize::MAX - 1, usize::MAX]) { for l in [isize::MAX as usize, (usize::MAX - s).wrapping_add(1), (usize::MAX - s).wrapping_add(2), (n.wrapping_sub(s)), usize::MAX - 1, usize::MAX] {
                if s.checked_add(l).is_some_and(|e| e <= n) { continue }
                let g = sut_try(|| unsafe { u.sub_slice(s, l) });
                step();
                ensure!(g.is_err(), "sub_slice({s}, {l}) of {n} bytes is out of bounds and is given out");
            } }
            is(&u, &d, "the whole afterwards"); is(&after, b"\xEE\xEE\xEE\xEE", "its neighbour");
        })
        .scenario("long", "sub-slices of slices around 2^7 to 2^17 bytes: every pair of boundary starts and lengths", || {
            const LONG: [usize; 17] = [0, 1, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131073];
            let n = *pick(&LONG);
            let a = new();
            let d: Vec<u8> = (0..n).map(|i| (i * 37 + i / 251) as u8).collect();
            let u = get(&d, &a);
            is(&u, &d, "a long slice");
            for s in LONG { for l in LONG {
                let g = sut_try(|| unsafe { u.sub_slice(s, l) });
                step(); state(&(n, s, l));
                if s + l > n { ensure!(g.is_err(), "sub_slice({s}, {l}) of {n} bytes is out of bounds and is given out"); continue }
                let Ok(v) = g else { fail(format!("sub_slice({s}, {l}) of {n} bytes panicked: {}", g.err().unwrap())) };
                is(&v, &d[s..s + l], &format!("sub_slice({s}, {l}) of {n} bytes"));
                ensure!(sut("to_slice", || v.to_slice()).as_ref() == &d[s..s + l], "to_slice of sub_slice({s}, {l}) of {n} bytes");
            } }
            let t: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let Ok(x) = sut("try_into", || t.as_str().try_into_unsafe_slice(a.clone())) else { fail("try_into_unsafe_slice failed".into()) };
            sut("text", || ensure!(x.as_str() == t && x.to_string() == t, "text of {n} bytes"));
            is(&u, &d, "the long slice afterwards");
        })
        .scenario("text", "every text of up to 3 characters over 1 to 4 byte characters", || {
            let n = choose(4);
            let t: String = (0..n).map(|_| *pick(&['a', '\0', '\u{e9}', '\u{20ac}', '\u{1f980}'])).collect();
            let a = new();
            for u in [sut("try_into", || t.as_str().try_into_unsafe_slice(a.clone())), sut("try_into", || t.try_into_unsafe_slice(a.clone()))] {
                let Ok(u) = u else { fail("try_into_unsafe_slice failed".into()) };
                is(&u, t.as_bytes(), "text");
                sut("text", || ensure!(u.as_str() == t && u.to_string() == t && format!("{u}") == t && u.to_slice().as_str() == t, "text of {t:?}"));
                is(&u, t.as_bytes(), "text after printing");
            }
            step(); state(&t);
        })
        .scenario("poisoned", "an arena whose lock was poisoned gives an error, not a slice", || {
            let a = new();
            let n = choose(3);
            let u = get(&fill(n, 1), &a);
            let b = a.clone();
            let _ = sut_try(|| { let _g = b.lock().unwrap(); panic!("poison") });
            let r = sut("new_with_arena", || UnsafeSlice::new_with_arena(b"abc", a.clone()));
            ensure!(r.is_err(), "a slice is made in a poisoned arena");
            is(&u, &fill(n, 1), "slice of an arena that is poisoned later");
            step(); state(&n);
        })
        .run()
}
