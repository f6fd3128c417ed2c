//! C14: the bytewise comparator is the total lexicographic order of unsigned bytes.
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use mc::*;
use std::cmp::Ordering;

fn cmp(a: &[u8], b: &[u8]) -> Ordering {
    // exact-size heap buffers, so that a read past either end is caught
    let (x, y): (Box<[u8]>, Box<[u8]>) = (a.into(), b.into());
    step();
    match sut("compare", || BytewiseComparatorImpl::default().compare(&x, &y)) { Some(o) => o, None => fail(format!("compare({a:02x?}, {b:02x?}) has no answer")) }
}
fn want(a: &[u8], b: &[u8]) -> Ordering {
    let n = a.len().min(b.len());
    for i in 0..n { if a[i] != b[i] { return if (a[i] as u32) < b[i] as u32 { Ordering::Less } else { Ordering::Greater } } }
    if a.len() < b.len() { Ordering::Less } else if a.len() > b.len() { Ordering::Greater } else { Ordering::Equal }
}
fn judge(a: &[u8], b: &[u8]) {
    let (g, w) = (cmp(a, b), want(a, b));
    ensure!(g == w, "compare({a:02x?}, {b:02x?}) is {g:?}, expected {w:?}");
    state(&(a, b));
}
fn words(al: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max { last = last.iter().flat_map(|w| al.iter().map(move |c| { let mut v = w.clone(); v.push(*c); v })).collect(); all.extend(last.iter().cloned()) }
    all
}
fn main() {
    let c = Check::new("C14", "model_checking", "every pair of strings over boundary bytes up to a length, every pair of bytes at every position, and every triple for transitivity, against the definition; a state is a pair");
    let w4 = words(&[0, 1, 0x7f, 0x80, 0xff], by_tier(4, 5));
    let w2 = words(&[0, 0x7f, 0x80, 0xff], 2);
    c
        .scenario("pairs", format!("all pairs of strings of up to {} bytes over 00 01 7f 80 ff", by_tier(4, 5)), move || {
            let a = pick(&w4);
            for b in &w4 { judge(a, b) }
        })
        .scenario("triples", "all triples of strings of up to 2 bytes over 00 7f 80 ff: antisymmetry and transitivity of the answers", move || {
            let w = &w2;
            let (a, b) = (pick(w), pick(w));
            let ab = cmp(a, b);
            ensure!(cmp(b, a) == ab.reverse(), "compare of {a:02x?} and {b:02x?} is not antisymmetric");
            ensure!((ab == Ordering::Equal) == (a == b), "compare of {a:02x?} and {b:02x?} is {ab:?}");
            for c in w {
                if ab != Ordering::Greater && cmp(b, c) != Ordering::Greater { ensure!(cmp(a, c) != Ordering::Greater, "{a:02x?} <= {b:02x?} <= {c:02x?}, but not {a:02x?} <= {c:02x?}"); }
            }
            state(&(a, b));
        })
        .scenario("bytes", "all pairs of bytes after 0, 1, 7, 8, 15, 16, 31, 63, 64, 200 or 4096 equal bytes, equal and unequal tails", || {
            let n = *pick(&[0usize, 1, 7, 8, 15, 16, 31, 63, 64, 200, 4096]);
            let x = choose(256) as u8;
            for y in 0..=255u8 {
                for (ta, tb) in [(&b""[..], &b""[..]), (b"z", b""), (b"\xff", b"\0")] {
                    let mut a = vec![0x80; n]; let mut b = a.clone();
                    a.push(x); b.push(y); a.extend(ta); b.extend(tb);
                    if n == 4096 && y % 17 != x % 17 { continue }
                    judge(&a, &b);
                }
            }
        })
        .scenario("long", "pairs of strings around 2^8, 2^12, 2^15, 2^16 and 2^17 bytes that differ at one position, at none or in length", || {
            const LONG: [usize; 13] = [255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131071, 131073];
            let n = *pick(&LONG);
            let a: Vec<u8> = (0..n).map(|i| (i * 37 + i / 251) as u8).collect();
            let at: Vec<usize> = LONG.iter().flat_map(|x| [x - 1, *x]).chain([0, 1, n / 2, n - 1]).filter(|p| *p < n).collect();
            let long = |b: &[u8], what: &str| {
                for (x, y) in [(&a[..], b), (b, &a[..])] { let (g, w) = (cmp(x, y), want(x, y)); ensure!(g == w, "strings of {} and {} bytes, {what}, compare {g:?}, expected {w:?}", x.len(), y.len()); }
                state(&(n, b.len(), what));
            };
            long(&a, "the same");
            for p in at {
                for d in [1u8, 0x80] { let mut b = a.clone(); b[p] ^= d; long(&b, &format!("differing at {p} by {d:#x}")); b.push(0); long(&b, &format!("differing at {p} by {d:#x}, one longer")); }
                long(&a[..p], "one a prefix of the other");
            }
        })
        .scenario("huge", format!("zeros of 2^24 and {} bytes against as many, one fewer, half as many and few, and with a last byte that differs", by_tier("2^32", "2^31, 2^32 and 2^33")), || {
            let n = 1usize << *pick(by_tier(&[24, 32][..], &[24, 31, 32, 33]));
            alloc::cap(1 << 40);
            let (a, mut b) = (vec![0u8; n + 1], vec![0u8; n + 1]);
            let last = *pick(&[1u8, 0x80]);
            b[n] = last;
            let c = BytewiseComparatorImpl::default();
            for (m, k, w) in [(n, n, Ordering::Equal), (n, n - 1, Ordering::Greater), (n, n / 2, Ordering::Greater), (n + 1, 1, Ordering::Greater), (n, 0, Ordering::Greater), (n + 1, n + 1, Ordering::Less)] {
                let g = sut("compare", || (c.compare(&a[..m], &b[..k]), c.compare(&b[..k], &a[..m])));
                ensure!(g == (Some(w), Some(w.reverse())), "{m} zeros and {k} bytes, zeros but perhaps the last, compare {g:?}, expected {w:?}");
                step(); state(&(m, k, last));
            }
        }).split(2)
        .scenario("lengths", "every pair of lengths 0..130 of one string and its prefixes", || {
            let a: Vec<u8> = (0..choose(131)).map(|i| i as u8 ^ 0x5a).collect();
            for m in 0..131 { let b: Vec<u8> = (0..m).map(|i| i as u8 ^ 0x5a).collect(); judge(&a, &b) }
        })
        .scenario("name", "the name by which databases recognise the order", || {
            let n = sut("get_name", || BytewiseComparatorImpl::default().get_name());
            ensure!(n == "leveldb.BytewiseComparator", "comparator name is {n}");
            step(); state(&n);
        })
        .run()
}
