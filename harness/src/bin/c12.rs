//! C12: bloom filters are LevelDB's, bit for bit, and useful.
use h::refs::*;
use level_db_rust::traits::filter_policy_trait::FilterPolicy;
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use mc::*;

fn mk(n: usize, shape: usize) -> Vec<Vec<u8>> {
    (0..n as u64).map(|i| match shape {
        0 => (i as u32).to_le_bytes().to_vec(),
        1 => format!("key{i:06}").into_bytes(),
        _ => vec![(i % 251) as u8; i as usize % 67],
    }).collect()
}
fn build(bpk: usize, cap: Option<usize>, keys: &[Vec<u8>]) -> Slice {
    let sl: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    let refs: Vec<&Slice> = sl.iter().collect();
    sut("create_filter", || {
        let p = BloomFilterPolicy::new_with_bits_per_key(bpk);
        match cap { None => p.create_filter(refs), Some(c) => p.create_filter_with_len(c, refs) }
    })
}
fn same(bpk: usize, cap: Option<usize>, keys: &[Vec<u8>]) {
    let f = build(bpk, cap, keys);
    let w = bloom_create(bpk, cap.unwrap_or(keys.len()), keys);
    step(); state(f.as_ref());
    if f.as_ref() != w.as_slice() {
        let at = f.as_ref().iter().zip(&w).position(|(a, b)| a != b);
        fail(format!("filter of {} keys at {bpk} bits per key (capacity {cap:?}) has {} bytes, LevelDB's has {}; first difference at {at:?}; last byte {:?}, LevelDB's {:?}; keys {:02x?}", keys.len(), f.size(), w.len(), f.as_ref().last(), w.last(), &keys[..keys.len().min(4)]));
    }
}
fn main() {
    Check::new("C12", "model_checking", "every bits-per-key setting and key count up to a bound against a reference filter; every short filter and probe count against a reference lookup; false positives counted over fixed key ranges; a state is a filter or (filter, key)")
        .scenario("settings", "every bits-per-key 0..300, 6 key counts, 3 shapes", || {
            let b = choose(301);
            same(b, None, &mk(*pick(&[0usize, 1, 2, 8, 9, 100]), choose(3)));
        })
        .scenario("counts", "every key count 0..300, 5 settings, 3 shapes", || {
            let n = choose(301);
            same(*pick(&[1usize, 7, 8, 10, 33]), None, &mk(n, choose(3)));
        })
        .scenario("wide", "2^i - 1, 2^i and 2^i + 1 bits per key for i from 8 to 24, 3 key counts; 2^31 to 2^32 + 64 bits in all, by bits per key or by capacity", || {
            let i = choose(51 + 6);
            if i < 51 {
                let b = (1usize << (8 + i / 3)) + i % 3 - 1;
                return same(b, None, &mk(1 + choose(3), 1));
            }
            let bits = [1usize << 31, (1 << 32) - 64, (1 << 32) - 8, 1 << 32, (1 << 32) + 8, (1 << 32) + 64][i - 51];
            let keys = mk(5, 1);
            let (b, cap) = if i % 2 == 0 { (bits, Some(1)) } else { (8, Some(bits / 8)) };
            let f = build(b, cap, &keys);
            let k = bloom_k(b);
            let mut w: std::collections::BTreeMap<usize, u8> = Default::default();
            for key in &keys { for b in bloom_bits(key, k, bits) { *w.entry(b / 8).or_default() |= 1 << (b % 8) } }
            ensure!(f.size() == bits / 8 + 1 && f.as_ref()[bits / 8] == k as u8, "filter of {bits} bits has {} bytes and says {:?} probes, {k} expected", f.size(), f.as_ref().last());
            let mut set = vec![];
            let mut at = 0;
            for c in f.as_ref()[..bits / 8].chunks(4096) {
                // (compared as a whole first: most are empty)
                if c != &[0u8; 4096][..c.len()] { for (i, x) in c.iter().enumerate() { if *x != 0 { set.push((at + i, *x)) } } }
                at += c.len();
            }
            let w: Vec<_> = w.into_iter().collect();
            ensure!(set == w, "filter of {bits} bits ({b} per key, capacity {cap:?}): bytes that are not 0 are {set:x?}, LevelDB's are {w:x?}");
            step(); state(&(bits, b, set));
        }).split(1)
        .scenario("long-keys", "keys of 10 lengths from 255 to 131073 bytes", || {
            let n = *pick(&[255, 256, 257, 1000, 32767, 32768, 65535, 65536, 70000, 131073]);
            let k: Vec<u8> = (0..n).map(|i| (i * 37 + i / 251) as u8).collect();
            same(*pick(&[1usize, 10, 30]), None, &[k.clone(), vec![0xff; n], k[1..].to_vec()]);
        })
        .scenario("large", "1000 to 70000 keys, 4 settings, 3 shapes", || {
            let n = *pick(&[1000usize, 6553, 6554, 8192, 20000, 65535, 65536, 70000]);
            same(*pick(&[1usize, 8, 10, 33]), None, &mk(n, choose(3)));
        })
        .scenario("capacity", "every capacity 0..90 with 0..30 keys", || {
            let (c, n) = (choose(91), choose(31));
            same(*pick(&[1usize, 3, 10]), Some(c), &mk(n, choose(3)));
        })
        .scenario("lookup", "every probe count 0..255 with filters of 0..4 bytes: each single bit, none, all, all but one; 40 keys", || {
            let k = choose(256) as u8;
            let n = choose(5);
            let mut base: Vec<Vec<u8>> = vec![vec![0; n], vec![0xff; n]];
            for b in 0..8 * n { let mut v = vec![0; n]; v[b / 8] = 1 << (b % 8); base.push(v); let mut v = vec![0xff; n]; v[b / 8] ^= 1 << (b % 8); base.push(v); }
            let p = BloomFilterPolicy::new();
            let mut keys = mk(20, 0); keys.extend(mk(20, 2));
            for mut f in base {
                f.push(k);
                let fs = Slice::from_buf(&f);
                for key in &keys {
                    // Lookup in a filter without bits has no meaning when it has probes to make.
                    if n == 0 && f.len() >= 2 { continue }
                    let g = sut("key_may_match", || p.key_may_match(&Slice::from_buf(key), &fs));
                    let w = bloom_may_match(key, &f);
                    ensure!(g == w, "filter {f:02x?} and key {key:02x?}: key_may_match says {g}, LevelDB {w}");
                    step(); state(&(&f, key));
                }
            }
            ensure!(!sut("key_may_match", || p.key_may_match(&Slice::from_buf(b"a"), &Slice::default())), "an empty filter matches");
        })
        .scenario("names", "bits per key 0..500: what the policy says of itself", || {
            use level_db_rust::util::filter_policy::{AsBloomHash, FromPolicy};
            let b = choose(501);
            let p = sut("new", || BloomFilterPolicy::new_with_bits_per_key(b));
            ensure!(p.from_bits_per_key() == b && p.from_k() == bloom_k(b), "policy of {b} bits per key says {} bits and {} probes", p.from_bits_per_key(), p.from_k());
            ensure!(p.name() == "leveldb.BuiltinBloomFilter", "policy name {}", p.name());
            ensure!(BloomFilterPolicy::new().from_bits_per_key() == 10, "default bits per key");
            let k = format!("{b}");
            let s = Slice::from(&k);
            ensure!(s.bloom_hash() == leveldb_hash(k.as_bytes(), 0xbc9f1d34) && BloomFilterPolicy::bloom_hash(&s) == s.bloom_hash(), "bloom hash of {k}");
            step(); state(&b);
        })
        .scenario("false-positives", "10 bits per key, 1..10000 keys on LevelDB's schedule of sizes, 10000 absent keys: at most 2% match", || {
            let n = *pick(&[1usize, 2, 5, 10, 20, 50, 100, 200, 500, 1000, 2000, 5000, 10000]);
            let f = build(10, None, &mk(n, 0));
            ensure!(f.size() <= n * 10 / 8 + 40, "filter of {n} keys takes {} bytes", f.size());
            let p = BloomFilterPolicy::new();
            let mut hits = 0;
            for i in 0..10000u32 {
                if p.key_may_match(&Slice::from_buf(&(i + 1_000_000_000).to_le_bytes()), &f) { hits += 1 }
                step();
            }
            ensure!(hits <= 200, "{hits} of 10000 absent keys match a filter of {n} keys at 10 bits per key");
            state(&(n, hits));
        })
        .run()
}
