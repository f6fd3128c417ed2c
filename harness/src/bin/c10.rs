//! C10: hash codes are those of LevelDB.
use h::refs::leveldb_hash;
use level_db_rust::util::hash::{Hash, ToHash};
use level_db_rust::util::r#const::HASH_DEFAULT_SEED;
use level_db_rust::util::slice::Slice;
use mc::*;

fn judge(data: &[u8], seed: u32) {
    let b: Box<[u8]> = data.to_vec().into_boxed_slice();
    let g = sut("hashing", || Hash::hash_code(&b, seed));
    let w = leveldb_hash(data, seed);
    step();
    ensure!(g == w, "hash of {data:02x?} with seed {seed:x} is {g:08x}, LevelDB's is {w:08x}");
    state(&(data, seed));
}
fn main() {
    let mut c = Check::new("C10", "model_checking", "every string of up to 2 bytes, every length up to a bound with several patterns and seeds, every single-bit string, lengths around powers of two, against a reference; a state is (data, seed)")
        .scenario("short", "the empty string, all strings of 1 and 2 bytes, 3 seeds", || {
            let seed = *pick(&[0u32, 0xbc9f1d34, u32::MAX]);
            let a = choose(257);
            if a == 256 { judge(&[], seed); return }
            judge(&[a as u8], seed);
            for b in 0..=255u8 { judge(&[a as u8, b], seed) }
        })
        .scenario("lengths", format!("every length 0..{}, 5 patterns, 4 seeds, every start alignment", by_tier(100, 600)), || {
            let n = choose(by_tier(101, 601));
            let p = choose(5);
            let seed = *pick(&[0u32, 1, 0xbc9f1d34, 0x80000000]);
            let d: Vec<u8> = (0..n).map(|i| match p { 0 => 0, 1 => 0xff, 2 => i as u8, 3 => 0x80, _ => ((i * 97) ^ (i >> 3)) as u8 }).collect();
            judge(&d, seed);
            for al in 1..4 { let mut v = vec![0; al]; v.extend(&d); ensure!(Hash::hash_code(&v[al..], seed) == leveldb_hash(&d, seed), "hash of {n} bytes depends on the alignment"); }
        })
        .scenario("long", format!("every length within 5 of a power of two up to 2^{}, 3 patterns", by_tier(18, 25)), || {
            let e = 7 + choose(by_tier(12, 19));
            let n = (1usize << e) + choose(11) - 5;
            let p = choose(3);
            let d: Vec<u8> = (0..n).map(|i| match p { 0 => 0, 1 => 0xff, _ => ((i * 97) ^ (i >> 7)) as u8 }).collect();
            let (g, w) = (sut("hashing", || Hash::hash_code(&d, 0xbc9f1d34)), leveldb_hash(&d, 0xbc9f1d34));
            ensure!(g == w, "hash of {n} bytes of pattern {p} is {g:08x}, LevelDB's is {w:08x}");
            step(); state(&(n, p));
        })
        .scenario("huge", "zeros of 2^24, 2^25 .. 2^32 bytes and 3 more, and of 5.2 GiB, where the length times the factor exceeds 64 bits", || {
            let e = choose(10);
            let n = if e == 9 { (1usize << 32) / 10 * 13 } else { (1usize << (24 + e)) + 3 };
            alloc::cap(1 << 40);
            let d = vec![0u8; n];
            let (g, w) = (sut("hashing", || Hash::hash_code(&d, 0xbc9f1d34)), leveldb_hash(&d, 0xbc9f1d34));
            ensure!(g == w, "hash of {n} zeros is {g:08x}, LevelDB's is {w:08x}");
            step(); state(&n);
        }).split(1)
        .scenario("single-bits", "every string of 1..24 bytes with exactly one bit set", || {
            let n = 1 + choose(24);
            for bit in 0..8 * n { let mut v = vec![0u8; n]; v[bit / 8] = 1 << (bit % 8); judge(&v, 0xbc9f1d34) }
        })
        .scenario("tails", "every 3 byte tail over 6 byte values after 0, 4 or 8 bytes", || {
            let al = [0u8, 1, 0x7f, 0x80, 0xfe, 0xff];
            let mut v: Vec<u8> = (0..*pick(&[0usize, 4, 8])).map(|i| 0xf0 | i as u8).collect();
            for _ in 0..3 { v.push(*pick(&al)) }
            judge(&v, *pick(&[0u32, 0xbc9f1d34]));
        })
        .scenario("types", "strings, slices, byte vectors and Slices of the same bytes hash alike", || {
            let n = choose(20);
            let s: String = (0..n).map(|i| (b'a' + i as u8) as char).collect();
            let seed = *pick(&[0u32, 7, u32::MAX]);
            let w = leveldb_hash(s.as_bytes(), seed);
            let d = leveldb_hash(s.as_bytes(), HASH_DEFAULT_SEED);
            let b = s.as_bytes();
            sut("hashing", || {
                ensure!(s.to_hash_with_seed(seed) == w && s.as_str().to_hash_with_seed(seed) == w && b.to_hash_with_seed(seed) == w && b.to_vec().to_hash_with_seed(seed) == w && Slice::from_buf(b).to_hash_with_seed(seed) == w, "the hash of {s:?} with seed {seed} depends on its type");
                ensure!(s.to_hash() == d && s.as_str().to_hash() == d && b.to_hash() == d && b.to_vec().to_hash() == d && Slice::from_buf(b).to_hash() == d, "the hash of {s:?} with the default seed depends on its type");
            });
            let wide: Vec<u32> = (0..n as u32).map(|i| i * 0x01020304).collect();
            let bytes: Vec<u8> = wide.iter().flat_map(|x| x.to_le_bytes()).collect();
            ensure!(wide.to_hash_with_seed(seed) == leveldb_hash(&bytes, seed), "the hash of {n} u32 values is not that of their bytes");
            step(); state(&(n, seed));
        });
    if thorough() {
        c = c.scenario("three-bytes", "all strings of 3 bytes", || {
            let (a, b) = (choose(256) as u8, choose(256) as u8);
            for x in 0..=255u8 { let d = [a, b, x]; ensure!(Hash::hash_code(&d, 0xbc9f1d34) == leveldb_hash(&d, 0xbc9f1d34), "hash of {d:02x?}"); }
            steps(256); state(&(a, b));
        });
    }
    c.run()
}
