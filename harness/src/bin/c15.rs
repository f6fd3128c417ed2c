//! C15: shortened keys still separate.
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use mc::*;

fn text(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
fn sep_ref(s: &[u8], l: &[u8]) -> Vec<u8> {
    let n = s.len().min(l.len());
    let i = (0..n).find(|i| s[*i] != l[*i]);
    if let Some(i) = i { if s[i] < 0xff && (s[i] as u32) + 1 < l[i] as u32 { let mut v = s[..=i].to_vec(); v[i] += 1; return v } }
    s.to_vec()
}
fn succ_ref(k: &[u8]) -> Vec<u8> {
    match k.iter().position(|b| *b != 0xff) { None => k.to_vec(), Some(i) => { let mut v = k[..=i].to_vec(); v[i] += 1; v } }
}
fn separator(s: &[u8], l: &[u8]) {
    let g = sut("find_shortest_separator", || BytewiseComparatorImpl::default().find_shortest_separator(&text(s), &Slice::from_buf(l)));
    let g = g.as_bytes();
    step(); state(&(s, l));
    if s < l { ensure!(s <= g && g < l, "separator of {s:02x?} and {l:02x?} is {g:02x?}, which is not in between"); }
    ensure!(g.len() <= s.len(), "separator of {s:02x?} and {l:02x?} is {g:02x?}, longer than the start");
    if s >= l { ensure!(g == s, "separator of {s:02x?} and {l:02x?}, which are not in order, is {g:02x?}"); }
    ensure!(g == sep_ref(s, l), "separator of {s:02x?} and {l:02x?} is {g:02x?}, LevelDB's is {:02x?}", sep_ref(s, l));
}
fn successor(k: &[u8]) {
    let g = sut("find_short_successor", || BytewiseComparatorImpl::default().find_short_successor(&text(k)));
    let g = g.as_bytes();
    step(); state(k);
    ensure!(g >= k && g.len() <= k.len(), "successor of {k:02x?} is {g:02x?}");
    ensure!(g == succ_ref(k), "successor of {k:02x?} is {g:02x?}, LevelDB's is {:02x?}", succ_ref(k));
}
fn words(al: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max { last = last.iter().flat_map(|w| al.iter().map(move |c| { let mut v = w.clone(); v.push(*c); v })).collect(); all.extend(last.iter().cloned()) }
    all
}
fn main() {
    let c = Check::new("C15", "model_checking", "every pair of keys up to a length over boundary bytes, and every pair of bytes at a difference, judged by the definition of a separator and by LevelDB's result; a state is a pair or a key")
        .assume("keys are arbitrary bytes, carried in String values as the interface has them");
    let w1 = words(&[0, 1, 2, 0x7f, 0x80, 0xfe, 0xff], by_tier(3, 4));
    let w2 = words(&[0, 0x7f, 0xfe, 0xff], 6);
    c
        .scenario("pairs", format!("all pairs of keys of up to {} bytes over 00 01 02 7f 80 fe ff", by_tier(3, 4)), move || {
            let a = pick(&w1);
            for b in &w1 { separator(a, b) }
        })
        .scenario("bytes", "all pairs of bytes at the first difference after 0..3 or 40 common bytes, 3 and 2 tails", || {
            let n = *pick(&[0usize, 1, 2, 3, 40]);
            let x = choose(256) as u8;
            for y in 0..=255u8 { for ta in [&b""[..], b"\0", b"\xffz"] { for tb in [&b""[..], b"\0"] {
                let mut a = vec![0xc3; n]; let mut b = a.clone();
                a.push(x); a.extend(ta); b.push(y); b.extend(tb);
                separator(&a, &b);
            } } }
        })
        .scenario("lengths", format!("start and limit with tails of 0..{} bytes after 0..12 common bytes, the differing bytes 0 (one is a prefix), 1, 2 or more apart, at both ends of the byte range", by_tier(40, 140)), move || {
            let m = by_tier(41, 141);
            let n = *pick(&[0usize, 1, 7, 12]);
            let ta = choose(m);
            for tb in 0..m { for (x, y) in [(0u8, 1u8), (0, 2), (0, 0xff), (0x61, 0x62), (0x61, 0x63), (0x61, 0x6f), (0x7f, 0x80), (0x7f, 0x81), (0xfe, 0xff), (0xfd, 0xff), (0xfc, 0xff), (0xff, 0), (0x62, 0x61)] { for f in [0u8, 0x7a, 0xff] {
                let mut a = vec![0xc3; n]; let mut b = a.clone();
                if x < y && f == 0x7a { separator(&[&a[..], &vec![f; ta]].concat(), &[&b[..], &vec![f; ta + tb]].concat()) }
                a.push(x); a.extend(vec![f; ta]); b.push(y); b.extend(vec![f; tb]);
                separator(&a, &b);
            } } }
        })
        .scenario("long", "keys with 126..130, 254..258, 4096 or 65533..65538 common bytes, every pair of 7 bytes or an end after them, tails of 0, 1, 300 and 70000 bytes", || {
            let n = *pick(&[126usize, 127, 128, 129, 130, 254, 255, 256, 257, 258, 4096, 65533, 65534, 65535, 65536, 65537, 65538]);
            let f = *pick(&[0xc3u8, 0xff, 0]);
            let (ta, tb) = *pick(&[(0usize, 0usize), (1, 0), (0, 1), (300, 0), (0, 300), (300, 300), (70000, 1), (1, 70000)]);
            let c = [None, Some(0u8), Some(1), Some(2), Some(0x7f), Some(0xfd), Some(0xfe), Some(0xff)];
            for x in c { for y in c {
                let mut a = vec![f; n]; let mut b = a.clone();
                if let Some(x) = x { a.push(x); a.extend(vec![0x61; ta]) }
                if let Some(y) = y { b.push(y); b.extend(vec![0x61; tb]) }
                separator(&a, &b);
            } }
            successor(&vec![f; n]);
            successor(&[vec![0xff; n], vec![f; ta]].concat());
        })
        .scenario("long-successors", "keys of 0..300 bytes ff, followed by every byte and tails of 0, 1 and 20 bytes", || {
            let n = choose(301);
            let k = vec![0xff; n];
            successor(&k);
            for x in 0..=255u8 { for t in [0usize, 1, 20] { let mut v = k.clone(); v.push(x); v.extend(vec![0x7a; t]); successor(&v); } }
        })
        .scenario("successors", "all keys of up to 2 bytes, and of up to 6 over 00 7f fe ff", move || {
            if flag() {
                successor(pick(&w2));
            } else {
                let a = choose(256) as u8;
                successor(&[a]);
                for b in 0..=255u8 { successor(&[a, b]); successor(&[0xff, a, b]); }
            }
        })
        .run()
}
