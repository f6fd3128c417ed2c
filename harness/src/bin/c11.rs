//! C11: a bloom filter never denies a key it was built from.
use level_db_rust::traits::filter_policy_trait::FilterPolicy;
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use mc::*;

fn judge(bpk: usize, cap: Option<usize>, keys: &[Vec<u8>], reader_bpk: usize) {
    let sl: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    let refs: Vec<&Slice> = sl.iter().collect();
    let f = sut("create_filter", || {
        let p = if bpk == 10 { BloomFilterPolicy::new() } else { BloomFilterPolicy::new_with_bits_per_key(bpk) };
        match cap { None => p.create_filter(refs), Some(c) => p.create_filter_with_len(c, refs) }
    });
    step();
    let r = BloomFilterPolicy::new_with_bits_per_key(reader_bpk);
    for k in &sl {
        ensure!(sut("key_may_match", || r.key_may_match(k, &f)), "key {:02x?} was put in a filter of {} keys at {bpk} bits per key (capacity {cap:?}), and the filter denies it; keys {:02x?}", k.as_ref(), keys.len(), &keys[..keys.len().min(6)]);
        step();
    }
    if f.size() < 1 << 23 { state(f.as_ref()) } else { state(&(f.size(), keys)) }
}
fn pool() -> Vec<Vec<u8>> {
    vec![vec![], b"a".to_vec(), vec![0], vec![0xff], b"hello".to_vec(), vec![0; 4], vec![0xff; 7], (0..=255u8).collect(), b"world\0".to_vec(), vec![0x80, 0x7f, 0x80]]
}
fn many(n: usize, shape: usize) -> Vec<Vec<u8>> {
    (0..n as u64).map(|i| match shape {
        0 => (i as u32).to_le_bytes().to_vec(),
        1 => format!("key{i:06}").into_bytes(),
        2 => vec![(i % 251) as u8; i as usize % 67],
        _ => { let mut v = i.wrapping_mul(0x9E3779B97F4A7C15).to_be_bytes().to_vec(); v.truncate(1 + i as usize % 8); v }
    }).collect()
}
fn main() {
    Check::new("C11", "model_checking", "every subset of a pool of keys, every bits-per-key setting and every key count up to a bound; after each build every key of the set is looked up; a state is a filter")
        .scenario("subsets", "every subset of 10 keys, 9 settings of bits per key", || {
            let p = pool();
            let m = choose(1 << p.len());
            let keys: Vec<_> = p.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, k)| k.clone()).collect();
            let b = *pick(&[0usize, 1, 2, 5, 8, 10, 20, 44, 100]);
            judge(b, None, &keys, *pick(&[1usize, 10]));
        })
        .scenario("settings", "every bits-per-key 0..200 for writer, 3 readers, 5 key counts, 4 key shapes", || {
            let b = choose(201);
            let n = *pick(&[1usize, 2, 7, 8, 65]);
            judge(b, None, &many(n, choose(4)), *pick(&[0usize, 10, 60]));
        })
        .scenario("capacity", "every capacity 0..70 given apart from the number of keys 0..40", || {
            let (c, n) = (choose(71), choose(41));
            judge(*pick(&[1usize, 10, 30]), Some(c), &many(n, choose(4)), 10);
        })
        .scenario("counts", format!("every key count 0..{}, 4 key shapes, 4 settings", by_tier(260, 1500)), || {
            let n = choose(by_tier(261, 1501));
            judge(*pick(&[4usize, 10, 16, 43]), None, &many(n, choose(4)), 10);
        })
        .scenario("large", "1000, 5000, 20000 and 70000 keys, 4 shapes, 3 settings", || {
            let n = *pick(&[1000usize, 5000, 20000, 70000]);
            judge(*pick(&[10usize, 24, 50]), None, &many(n, choose(4)), 10);
        })
        .scenario("wide", "2^i - 1, 2^i and 2^i + 1 bits per key for i from 8 to 24, and 2^31 to 2^32 + 64, 1 to 3 keys of a pool", || {
            let i = choose(51 + 6);
            let b = if i < 51 { (1usize << (8 + i / 3)) + i % 3 - 1 } else { [1 << 31, (1 << 32) - 64, (1 << 32) - 8, 1 << 32, (1 << 32) + 8, (1 << 32) + 64][i - 51] };
            let p = pool();
            let j = if i < 51 { choose(4) } else { i % 3 };
            match j { 3 => judge(b, None, &p[..3], 10), _ => judge(b, None, &[p[[1, 4, 7][j]].clone()], 10) }
        }).split(1)
        .scenario("long-keys", "keys of 10 lengths from 255 to 131073 bytes, alone, together and with a prefix that differs in the last byte", || {
            let n = *pick(&[255, 256, 257, 1000, 32767, 32768, 65535, 65536, 70000, 131073]);
            let b = *pick(&[1usize, 10, 30]);
            let k: Vec<u8> = (0..n).map(|i| (i * 37 + i / 251) as u8).collect();
            let (mut l, mut s) = (k.clone(), k.clone());
            *l.last_mut().unwrap() ^= 1; s.pop();
            judge(b, None, &[k.clone()], 10);
            judge(b, None, &[s, l, k], 10);
        })
        .scenario("bytes", "every key of up to 2 bytes, together and alone", || {
            let a = choose(256) as u8;
            let keys: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![a, b]).chain([vec![a], vec![]]).collect();
            judge(10, None, &keys, 10);
            for k in &keys { judge(10, None, &[k.clone()], 10) }
        })
        .run()
}
