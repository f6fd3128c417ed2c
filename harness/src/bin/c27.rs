//! C27: a memtable stores each entry, key, sequence number, type and value, in LevelDB's form.
use h::refs::varint;
use level_db_rust::db::db_format::ValueType;
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::util::slice::Slice;
use mc::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::sync::Arc;

thread_local! { static SEEN: RefCell<Vec<(Vec<u8>, Vec<u8>)>> = const { RefCell::new(vec![]) }; }
/// Set: only pairs of equal entries are remembered.
static EQUALS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Sorts entries by their bytes and remembers what it was asked.
struct Spy;
impl Comparator for Spy {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> {
        let _t = alloc::Tag::off();
        if a == b || !EQUALS.load(std::sync::atomic::Ordering::Relaxed) { SEEN.with(|s| s.borrow_mut().push((a.to_vec(), b.to_vec()))) }
        Some(a.cmp(b))
    }
    fn get_name(&self) -> String { "spy".into() }
    fn find_shortest_separator(&self, s: &String, _: &Slice) -> String { s.clone() }
    fn find_short_successor(&self, k: &String) -> String { k.clone() }
}
fn entry(seq: usize, del: bool, k: &[u8], v: &[u8]) -> Vec<u8> {
    let mut e = varint(k.len() as u64 + 8);
    e.extend(k);
    e.extend(((seq as u64) << 8 | !del as u64).to_le_bytes());
    e.extend(varint(v.len() as u64));
    e.extend(v);
    e
}
type E = (usize, bool, Vec<u8>, Vec<u8>);
fn add(t: &mut MemTable<Spy>, e: &E) -> Vec<(Vec<u8>, Vec<u8>)> {
    SEEN.with(|s| s.borrow_mut().clear());
    let r = sut("add", || t.add(e.0, if e.1 { ValueType::KTypeDeletion } else { ValueType::KTypeValue }, &e.2, &e.3).map_err(|e| e.to_string()));
    ensure!(r.is_ok(), "add fails: {r:?}");
    step();
    SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()))
}
fn brief(b: &[u8]) -> String { if b.len() > 40 { format!("{:02x?}.. ({} bytes)", &b[..40], b.len()) } else { format!("{b:02x?}") } }
fn play(entries: &[E]) {
    EQUALS.store(false, std::sync::atomic::Ordering::Relaxed);
    let live = alloc::live();
    h::sl::steer(); // every tower has height 1, so that a search meets every smaller entry
    let mut t = sut("create", || MemTable::create(Arc::new(Spy)));
    let mut have: Vec<Vec<u8>> = vec![];
    let mut mem = sut("usage", || t.approximate_memory_usage());
    for e in entries {
        let w = entry(e.0, e.1, &e.2, &e.3);
        let asked = add(&mut t, e);
        for (a, b) in &asked {
            for x in [a, b] { ensure!(*x == w || have.contains(x), "the table compares {}, which is no entry added; the entry being added is {}", brief(x), brief(&w)); }
        }
        if !have.is_empty() { ensure!(asked.iter().any(|(a, b)| *a == w || *b == w), "the entry {} is not the one compared", brief(&w)); }
        if !have.contains(&w) { have.push(w); have.sort(); }
        let m = sut("usage", || t.approximate_memory_usage());
        ensure!(m >= mem && m >= have.iter().map(|x| x.len()).sum(), "approximate memory usage {m} after {mem}, entries take {}", have.iter().map(|x| x.len()).sum::<usize>());
        mem = m;
    }
    // an entry above all others meets every one of them, in order
    let top: E = (1, false, vec![0xff; 400], vec![]);
    let w = entry(top.0, top.1, &top.2, &top.3);
    let mut probe_max = have.clone(); probe_max.push(w.clone()); probe_max.sort();
    let asked = add(&mut t, &top);
    let mut met: Vec<Vec<u8>> = vec![];
    for (a, b) in asked { let o = if a == w { b } else { a }; if o != w && !met.contains(&o) { met.push(o) } }
    let smaller: Vec<Vec<u8>> = have.iter().take_while(|x| **x < w).cloned().collect();
    let mut met_smaller: Vec<Vec<u8>> = met.iter().filter(|x| **x < w).cloned().collect();
    met_smaller.sort();
    ensure!(met_smaller == smaller, "a search past all entries meets {} of {} entries", met_smaller.len(), smaller.len());
    state(&have);
    sut("drop", || drop(t));
    h::sl::unsteer();
    ensure!(alloc::live() == live, "{:?} blocks and bytes remain after the table is gone", alloc::live());
}
fn main() {
    Check::new("C27", "model_checking", "every sequence of additions up to a depth over keys, values, types and sequence numbers, and every key and value length around the length encodings, through a comparator that records the stored entries; a state is the set of entries")
        .assume("stored entries are observed through the comparator, since lookup is not implemented; every tower has height 1")
        .scenario("sequences", format!("every sequence of {} additions: 3 keys, 2 values, 2 types, 3 sequence numbers", by_tier(3, 4)), || {
            let es: Vec<E> = (0..by_tier(3, 4)).map(|_| (*pick(&[0usize, 1, (1 << 56) - 1]), flag(), pick(&[&b""[..], b"k", b"kk"]).to_vec(), pick(&[&b""[..], b"value"]).to_vec())).collect();
            play(&es);
        })
        .scenario("key-lengths", "every key length 0..300, around 2^14 and 2^21, values of 0, 5 and 200 bytes, both types", || {
            let n = choose(341);
            let n = if n <= 300 { n } else if n < 321 { 16384 - 18 + (n - 301) } else { (1 << 21) - 18 + (n - 321) };
            let v = vec![0x76; *pick(&[0usize, 5, 200])];
            let d = flag();
            play(&[(7, d, vec![0x6b; n], v.clone()), (8, d, vec![0x61; n], v)]);
        })
        .scenario("value-lengths", "every value length 0..300, around 2^14 and 2^21, keys of 0, 3 and 130 bytes", || {
            let n = choose(331);
            let n = if n <= 300 { n } else if n < 316 { 16384 - 8 + (n - 301) } else { (1 << 21) - 8 + (n - 316) };
            let k = vec![0x6b; *pick(&[0usize, 3, 130])];
            play(&[(7, false, k.clone(), (0..n).map(|i| (i * 7) as u8).collect()), (6, true, k, vec![])]);
        })
        .scenario("numbers", "sequence numbers 2^i and 2^i - 1 for i up to 56, both types", || {
            let i = choose(57);
            let s = if flag() { (1usize << i) - 1 } else if i < 56 { 1 << i } else { 0 };
            play(&[(s, flag(), b"key".to_vec(), b"v".to_vec()), (1, false, b"abc".to_vec(), b"w".to_vec())]);
        })
        .scenario("many", "0..120 entries of growing size in one table, ascending, descending and mixed", || {
            let n = choose(121);
            let o = choose(3);
            let es: Vec<E> = (0..n).map(|i| { let j = match o { 0 => i, 1 => n - i, _ => i * 31 % 128 }; (i, i % 5 == 0, format!("{j:03}").into_bytes(), vec![i as u8; i * 13 % 700]) }).collect();
            play(&es);
        }).split(2)
        .scenario("unrepresentable", "keys of 2^32 - 8 to 2^33 and values of 2^32 to 2^33 bytes, whose length has no encoding, are refused without effect", || {
            let (k, v) = *pick(&[(3usize, 1usize << 32), (3, (1 << 32) + 5), (0, 1 << 33), ((1 << 32) - 8, 0), (1 << 32, 2), (1 << 33, 1 << 32)]);
            alloc::cap(1 << 40);
            h::sl::steer();
            let (key, value) = (vec![0u8; k], vec![0u8; v]);
            let mut t = sut("create", || MemTable::create(Arc::new(Spy)));
            let small: E = (1, false, b"k".to_vec(), b"v".to_vec());
            add(&mut t, &small);
            let m = sut("usage", || t.approximate_memory_usage());
            // (or the check would need that much memory itself)
            alloc::refuse(1 << 31);
            let r = sut("add", || t.add(2, ValueType::KTypeValue, &key, &value).is_ok());
            alloc::refuse(usize::MAX);
            ensure!(!r, "a key of {k} bytes and a value of {v} bytes are taken, stored with lengths {} and {}", (k + 8) as u32, v as u32);
            ensure!(sut("usage", || t.approximate_memory_usage()) == m, "memory usage changes though a value of {v} bytes was refused");
            // the entry put before is the only one there
            let w = entry(small.0, small.1, &small.2, &small.3);
            let asked = add(&mut t, &(3, true, vec![0xff; 200], vec![]));
            for (a, b) in &asked { ensure!(*a == w || *b == w, "the table compares with {} and {} after an entry was refused", brief(a), brief(b)) }
            ensure!(!asked.is_empty(), "the table is empty after an entry was refused");
            h::sl::unsteer();
            state(&(k, v));
        }).split(1)
        .scenario("crowd", "65537 entries in one table, ascending and mixed; each is met again when it is added again", || {
            h::sl::unsteer();
            EQUALS.store(true, std::sync::atomic::Ordering::Relaxed);
            let live = alloc::live();
            let n = 65537usize;
            let mixed = flag();
            let mut t = sut("create", || MemTable::create(Arc::new(Spy)));
            let of = |i: usize| -> E { let j = if mixed { i * 7919 % n } else { i }; (j, j % 5 == 0, (j as u32).to_be_bytes().to_vec(), vec![j as u8; j % 7]) };
            for i in 0..n { add(&mut t, &of(i)); }
            for i in 0..n {
                let e = of(i);
                let w = entry(e.0, e.1, &e.2, &e.3);
                ensure!(add(&mut t, &e).iter().any(|(a, b)| *a == w && *b == w), "entry {} of {n} is not met when it is added again", brief(&w));
            }
            EQUALS.store(false, std::sync::atomic::Ordering::Relaxed);
            let m = sut("usage", || t.approximate_memory_usage());
            ensure!(m >= n * 20, "approximate memory usage {m} with {n} entries");
            state(&(n, mixed, m));
            sut("drop", || drop(t));
            ensure!(alloc::live() == live, "{:?} blocks and bytes remain after the table is gone", alloc::live());
        }).split(1)
        .run()
}
