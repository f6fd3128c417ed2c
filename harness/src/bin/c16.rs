//! C16: a Slice behaves as the byte string it holds.
use level_db_rust::util::slice::Slice;
use mc::*;
use std::cmp::Ordering;

fn words(al: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max { last = last.iter().flat_map(|w| al.iter().map(move |c| { let mut v = w.clone(); v.push(*c); v })).collect(); all.extend(last.iter().cloned()) }
    all
}
/// The definition: unsigned lexicographic order.
fn order(a: &[u8], b: &[u8]) -> Ordering {
    for i in 0..a.len().min(b.len()) { if a[i] != b[i] { return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater } } }
    if a.len() < b.len() { Ordering::Less } else if a.len() > b.len() { Ordering::Greater } else { Ordering::Equal }
}
fn begins(a: &[u8], b: &[u8]) -> bool { a.len() >= b.len() && (0..b.len()).all(|i| a[i] == b[i]) }
fn of(v: &[u8]) -> Slice { sut("from_buf", || Slice::from_buf(v)) }
fn is(s: &Slice, w: &[u8], what: &str) {
    sut(what, || {
        ensure!(s.size() == w.len() && s.empty() == w.is_empty() && s.len() == w.len(), "{what}: size {} empty {}, expected {} bytes", s.size(), s.empty(), w.len());
        ensure!(s.as_ref() == w && &**s == w, "{what}: holds {:02x?}, expected {w:02x?}", s.as_ref());
    });
}
fn pair(a: &[u8], b: &[u8]) {
    let (x, y) = (of(a), of(b));
    sut("comparing", || {
        let o = order(a, b);
        ensure!(x.partial_cmp(&y) == Some(o), "partial_cmp of {a:02x?} and {b:02x?} is {:?}, expected {o:?}", x.partial_cmp(&y));
        ensure!((x == y) == (o == Ordering::Equal) && (x != y) == (o != Ordering::Equal), "== of {a:02x?} and {b:02x?}");
        ensure!((x < y) == (o == Ordering::Less) && (x > y) == (o == Ordering::Greater) && (x <= y) == (o != Ordering::Greater) && (x >= y) == (o != Ordering::Less), "<, > of {a:02x?} and {b:02x?}");
        ensure!(x.starts_with(&y) == begins(a, b), "starts_with: does {a:02x?} begin with {b:02x?}? answer {}", x.starts_with(&y));
    });
    is(&x, a, "left of a comparison"); is(&y, b, "right of a comparison");
    for j in [None, Some(""), Some(","), Some("->\u{e9}")] {
        let mut m = of(a);
        sut("merge", || m.merge(of(b), j.map(String::from)));
        let w = if b.is_empty() { a.to_vec() } else { [a, j.unwrap_or("").as_bytes(), b].concat() };
        is(&m, &w, "merge");
    }
    step(); state(&(a, b));
}
fn bounds<T: PartialEq + std::fmt::Debug>(what: &str, got: Result<T, String>, want: Option<T>) {
    step();
    match (got, want) {
        (Ok(g), Some(w)) => ensure!(g == w, "{what} is {g:02x?}, expected {w:02x?}"),
        (Err(_), None) => {}
        (Ok(g), None) => fail(format!("{what} is out of bounds, it gives {g:02x?}")),
        (Err(e), Some(w)) => fail(format!("{what} panicked ({e}), expected {w:02x?}")),
    }
}
const LONG: [usize; 15] = [127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131073];
fn main() {
    let c = Check::new("C16", "model_checking", "every pair of strings up to a length for comparison, prefix and merge; every index and range of every length; every sequence of operations up to a depth, against a byte vector; a state is a pair, a string with its ranges, or a string reached by a sequence")
        .assume("text conversions are only judged on valid UTF-8");
    let w1 = words(&[0, 0x61, 0x7f, 0x80, 0xff], by_tier(3, 4));
    c.scenario("pairs", format!("all pairs of strings of up to {} bytes over 00 61 7f 80 ff; 4 joiners", by_tier(3, 4)), move || {
            let a = pick(&w1);
            for b in &w1 { pair(a, b) }
        })
        .scenario("bytes", "all pairs of bytes after 0, 7, 8, 31 or 64 equal bytes, 3 pairs of tails", || {
            let n = *pick(&[0usize, 7, 8, 31, 64]);
            let x = choose(256) as u8;
            for y in 0..=255u8 { for (ta, tb) in [(&b""[..], &b""[..]), (b"z", b""), (b"\xff", b"\0")] {
                let mut a = vec![0x80; n]; let mut b = a.clone();
                a.push(x); b.push(y); a.extend(ta); b.extend(tb);
                let (x, y) = (of(&a), of(&b));
                let o = order(&a, &b);
                sut("comparing", || ensure!(x.partial_cmp(&y) == Some(o) && (x == y) == (o == Ordering::Equal) && x.starts_with(&y) == begins(&a, &b), "comparing {a:02x?} and {b:02x?}"));
                step(); state(&(a, b));
            } }
        })
        .scenario("long", "pairs of strings around 2^7, 2^8, 2^12, 2^15, 2^16 and 2^17 bytes that differ at one position, at none or in length; ranges and prefixes there", || {
            let n = *pick(&LONG);
            let a: Vec<u8> = (0..n).map(|i| (i * 37 + i / 251) as u8).collect();
            let at: Vec<usize> = LONG.iter().flat_map(|x| [x.wrapping_sub(1), *x]).chain([0, 1, n / 2, n - 1]).filter(|p| *p < n).collect();
            let x = of(&a);
            let cmp = |b: &[u8], what: &str| {
                let (y, o) = (of(b), order(&a, b));
                sut("comparing", || ensure!(x.partial_cmp(&y) == Some(o) && (x == y) == (o == Ordering::Equal) && x.starts_with(&y) == begins(&a, b) && y.starts_with(&x) == begins(b, &a), "comparing strings of {n} and {} bytes, {what}: {:?} {} {}, expected {o:?}", b.len(), x.partial_cmp(&y), x == y, x.starts_with(&y)));
                step(); state(&(n, b.len(), what));
            };
            cmp(&a, "the same");
            for &p in &at {
                for d in [1u8, 0x80] { let mut b = a.clone(); b[p] ^= d; cmp(&b, &format!("differing at {p} by {d:#x}")); b.push(0); cmp(&b, &format!("differing at {p} by {d:#x}, one longer")); }
                cmp(&a[..p], "a prefix");
                let what = format!("of {n} bytes at {p}");
                bounds(&format!("index {what}"), sut_try(|| x[p]), Some(a[p]));
                let same = |w: &[u8], g: Result<Vec<u8>, String>, op: &str| { step(); ensure!(g.as_deref() == Ok(w), "{op} {what} is wrong") };
                same(&a[p..], sut_try(|| x[p..].to_vec()), "a range from the position");
                same(&a[..p], sut_try(|| x[..p].to_vec()), "a range to the position");
                same(&a[p / 2..p], sut_try(|| x[p / 2..p].to_vec()), "a range");
                same(&a[p..], sut_try(|| x.remove_prefix(p).to_vec()), "prefix removal");
                same(&a[p / 2..p / 2 + p / 3], sut_try(|| x.as_sub_ref(p / 2, p / 3).to_vec()), "a sub-slice");
                let mut m = of(&a);
                sut("index_mut", || { m[p..][0] ^= 3; if p > 0 { m[p - 1..p][0] ^= 1; m[..p][0] ^= 4 } });
                let mut w = a.clone(); w[p] ^= 3; if p > 0 { w[p - 1] ^= 1; w[0] ^= 4 }
                ensure!(m.as_ref() == w.as_slice(), "writing through ranges {what}");
                for j in [None, Some("-")] {
                    let (mut u, v) = (of(&a[..p]), of(&a[p..]));
                    sut("merge", || u.merge(v, j.map(String::from)));
                    ensure!(u.as_ref() == [&a[..p], j.unwrap_or("").as_bytes(), &a[p..]].concat().as_slice() && u.size() == n + j.map_or(0, |_| 1), "merging the parts {what}");
                    step();
                }
            }
            let (c, s) = (sut("clone", || x.clone()), x.size());
            ensure!(s == n && c.as_ref() == a.as_slice(), "a clone of {n} bytes");
            ensure!(sut("into Vec", || Vec::from(c)) == a, "taking out {n} bytes");
        })
        .scenario("huge", format!("zeros of 2^24 and {} bytes against as many, one fewer, half as many and few, and with a last byte that differs; ranges there", by_tier("2^32", "2^31, 2^32 and 2^33")), || {
            let n = 1usize << *pick(by_tier(&[24, 32][..], &[24, 31, 32, 33]));
            alloc::cap(1 << 40);
            let of = |n: usize| Slice::from_vec(vec![0u8; n]);
            let (a, mut d) = (of(n + 1), of(n + 1));
            sut("index_mut", || d[n..][0] = 7);
            let order = |x: &Slice, y: &Slice, w: Ordering, begins: bool, what: &str| {
                let (l, m) = (x.size(), y.size());
                sut("comparing", || {
                    ensure!(x.partial_cmp(y) == Some(w) && y.partial_cmp(x) == Some(w.reverse()), "comparing {l} and {m} bytes, {what}: {:?} {:?}", x.partial_cmp(y), y.partial_cmp(x));
                    ensure!((x == y) == (w == Ordering::Equal) && x.starts_with(y) == begins && (y.starts_with(x)) == (w == Ordering::Equal), "equality and prefixes of {l} and {m} bytes, {what}");
                });
                step(); state(&(l, m, what));
            };
            order(&d, &a, Ordering::Greater, false, "the last differing");
            match choose(4) {
                0 => order(&a, &of(n + 1), Ordering::Equal, true, "the same"),
                1 => order(&a, &of(n), Ordering::Greater, true, "one fewer"),
                2 => order(&a, &of(n / 2), Ordering::Greater, true, "half as many"),
                _ => for m in [0, 1, 5] { order(&a, &of(m), Ordering::Greater, true, "few") },
            }
            ensure!(d.size() == n + 1 && !d.empty(), "a slice of {} bytes says it has {}", n + 1, d.size());
            for i in [0, 1, n / 2 + 1, n - 1, n] {
                let w = |i: usize| if i == n { 7 } else { 0 };
                bounds("index", sut_try(|| d[i]), Some(w(i)));
                bounds("range from", sut_try(|| (d[i..][0], d[i..].len())), Some((w(i), n + 1 - i)));
                bounds("range to", sut_try(|| (d[..i + 1][i], d[..i + 1].len())), Some((w(i), i + 1)));
                bounds("range", sut_try(|| d[i..i + 1].to_vec()), Some(vec![w(i)]));
                bounds("sub-slice", sut_try(|| d.as_sub_ref(i, 1).to_vec()), Some(vec![w(i)]));
                state(&(n, i));
            }
            bounds("prefix removal", sut_try(|| d.remove_prefix(n - 2).to_vec()), Some(vec![0, 0, 7]));
            bounds("index", sut_try(|| d[n + 1]), None);
            bounds("range", sut_try(|| d[n..n + 2].to_vec()), None);
        }).split(2)
        .scenario("prefixes", "every pair of lengths 0..70 of one string and its prefixes", || {
            let a: Vec<u8> = (0..choose(71)).map(|i| (i * 37) as u8).collect();
            for m in 0..71 { let b: Vec<u8> = (0..m).map(|i| (i * 37) as u8).collect(); pair(&a, &b) }
        })
        .scenario("ranges", "every index, range, prefix removal and sub-slice of strings of 0..9 bytes, in, just and far out of bounds", || {
            let n = choose(10);
            let v: Vec<u8> = (0..n).map(|i| (0x70 + i * 17) as u8).collect();
            let mut s = of(&v);
            let far = [isize::MAX as usize, usize::MAX - n, usize::MAX - 1, usize::MAX];
            for i in (0..n + 2).chain(far) {
                bounds(&format!("s[{i}] of {n} bytes"), sut_try(|| s[i]), v.get(i).copied());
                bounds(&format!("s[{i}..] of {n} bytes"), sut_try(|| s[i..].to_vec()), v.get(i..).map(|x| x.to_vec()));
                bounds(&format!("s[..{i}] of {n} bytes"), sut_try(|| s[..i].to_vec()), v.get(..i).map(|x| x.to_vec()));
                bounds(&format!("remove_prefix({i}) of {n} bytes"), sut_try(|| s.remove_prefix(i).to_vec()), v.get(i..).map(|x| x.to_vec()));
                is(&s, &v, "remove_prefix leaves its subject");
                for j in (0..n + 2).chain(far).chain([(usize::MAX - i).wrapping_add(1), (usize::MAX - i).wrapping_add(2)]) {
                    bounds(&format!("s[{i}..{j}] of {n} bytes"), sut_try(|| s[i..j].to_vec()), v.get(i..j).map(|x| x.to_vec()));
                    bounds(&format!("as_sub_ref({i}, {j}) of {n} bytes"), sut_try(|| s.as_sub_ref(i, j).to_vec()), v.get(i..).and_then(|x| x.get(..j)).map(|x| x.to_vec()));
                    // writing through ranges
                    for kind in 0..3 {
                        let mut m = of(&v);
                        let got = sut_try(|| { let r: &mut [u8] = match kind { 0 => &mut m[i..j], 1 => &mut m[i..], _ => &mut m[..j] }; for b in r { *b ^= 0x55 } });
                        let mut w = v.clone();
                        let ok = match kind { 0 => w.get_mut(i..j), 1 => w.get_mut(i..), _ => w.get_mut(..j) }.map(|r| for b in r { *b ^= 0x55 });
                        bounds(&format!("writing range kind {kind} of ({i}, {j}) of {n} bytes"), got, ok);
                        is(&m, &w, "after writing through a range");
                    }
                }
            }
            sut("deref_mut", || for b in s.iter_mut() { *b = b.wrapping_add(1) });
            is(&s, &v.iter().map(|b| b.wrapping_add(1)).collect::<Vec<_>>(), "deref_mut");
            state(&v);
        })
        .scenario("conversions", "every text of up to 4 characters over 1 to 4 byte characters, through every conversion", || {
            let n = choose(5);
            let t: String = (0..n).map(|_| *pick(&['a', '\0', '\u{e9}', '\u{20ac}', '\u{1f980}'])).collect();
            let b = t.as_bytes();
            sut("conversion", || {
                for s in [Slice::from(&t), Slice::from(t.as_str()), Slice::from(t.clone()), Slice::from_buf(b), Slice::from_vec(b.to_vec()), unsafe {
                    let v = b.to_vec().into_boxed_slice(); let n = v.len(); Slice::from_raw_parts(Box::into_raw(v) as *mut u8, n)
                }] {
                    is(&s, b, "construction");
                    ensure!(s.as_str() == t && s.to_string() == t && format!("{s}") == t, "text of {t:?} is {:?} / {:?}", s.as_str(), s.to_string());
                    ensure!(s.borrow_data().as_str() == t && s.borrow_data().into_owned() == t, "borrow_data of {t:?}");
                    let c = s.clone();
                    ensure!(Vec::from(s.clone()) == b, "into bytes of {t:?}");
                    ensure!(String::from(s) == t, "into String of {t:?}");
                    is(&c, b, "a clone that outlives its source");
                }
            });
            is(&Slice::default(), b"", "default");
            step(); state(b);
        })
        .scenario("sequences", format!("every sequence of up to {} operations on two slices, against byte vectors; all memory returned", by_tier(4, 6)), || {
            let live = alloc::live();
            let mut s: Vec<Slice> = vec![of(b"ab"), of(b"")];
            let mut m: Vec<Vec<u8>> = vec![b"ab".to_vec(), vec![]];
            for _ in 0..by_tier(4, 6) {
                let op = choose(9);
                if op == 0 { break }
                match op {
                    1 | 2 => { let (i, j) = (op - 1, 2 - op); let c = sut("clone", || s[j].clone()); sut("merge", || s[i].merge(c, None)); let o = m[j].clone(); m[i].extend(o); }
                    3 => { let c = sut("clone", || s[1].clone()); sut("merge", || s[0].merge(c, Some("-".into()))); if !m[1].is_empty() { let o = m[1].clone(); m[0].push(b'-'); m[0].extend(o); } }
                    4 => { let n = m[0].len() / 2; s[0] = sut("remove_prefix", || s[0].remove_prefix(n)); m[0].drain(..n); }
                    5 => { s.swap(0, 1); m.swap(0, 1); }
                    6 => { s[1] = sut("clone", || s[0].clone()); m[1] = m[0].clone(); }
                    7 => { let n = m[0].len(); if n > 0 { sut("index_mut", || s[0][n - 1..n][0] ^= 1); m[0][n - 1] ^= 1; } }
                    _ => { let t = sut("into Vec", || Vec::from(std::mem::take(&mut s[0]))); ensure!(t == m[0], "into Vec gives {t:02x?}, expected {:02x?}", m[0]); s[0] = Slice::from_vec(t); }
                }
                step();
                for i in 0..2 { is(&s[i], &m[i], "after an operation") }
                let o = order(&m[0], &m[1]);
                sut("partial_cmp", || ensure!(s[0].partial_cmp(&s[1]) == Some(o) && s[0].starts_with(&s[1]) == begins(&m[0], &m[1]), "comparing {:02x?} and {:02x?}", m[0], m[1]));
                state(&m);
            }
            sut("drop", || drop(s));
            ensure!(alloc::live() == live, "{:?} blocks and bytes remain after all slices are gone", alloc::live());
        })
        .run()
}
