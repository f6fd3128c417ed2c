//! C22: the cache answers like a map of the last value inserted for each key.
use h::cachem::*;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::slice::Slice;
use mc::*;

const BIG: usize = 1 << 30;
fn depth(b: &mut Both, n: usize) {
    let k = b.keys.len();
    b.judge();
    for _ in 0..n {
        let c = choose(2 * k + 2);
        if c == 0 { break }
        b.op(if c <= k { Op::Insert(c - 1, c - 1) } else if c <= 2 * k { Op::Erase(c - k - 1) } else { Op::Prune });
        b.judge();
        state(&b.m.view());
    }
}
fn load(b: &Both, shard: usize) {
    let g = sut("slots", || b.c.slots().map_err(st)).unwrap();
    let len = g - b.slots0 / SHARDS * (SHARDS - 1);
    ensure!(b.m.shard_len(shard) as f64 <= len as f64 * 0.75, "{} entries in a table of {len} slots", b.m.shard_len(shard));
}
fn main() {
    keys();
    Check::new("C22", "model_checking", "every sequence of insertions, erasures and prunings up to a depth over keys that share shard, bucket or the whole hash, and every fill level across table growth, with every key looked up and the total charge compared to a model after every operation; a state is the contents")
        .assume("capacity is far above what is inserted, so that nothing is evicted")
        .scenario("collisions", format!("every sequence of up to {} operations on 5 keys: two with equal hashes, two more in their bucket, one in another shard", by_tier(5, 6)), || {
            let k = keys();
            let t = &k.twins[0];
            let mut b = Both::new(BIG, 0, vec![t.0.clone(), t.1.clone(), k.chain[0].clone(), k.chain[1].clone(), k.other[0].clone()]);
            depth(&mut b, by_tier(5, 6));
        }).split(4)
        .scenario("plain", format!("every sequence of up to {} operations on the empty key, short keys and a key of 1000 bytes", by_tier(5, 6)), || {
            let mut b = Both::new(BIG, 0, vec![vec![], vec![0], vec![0, 0], vec![7; 1000]]);
            depth(&mut b, by_tier(5, 6));
        }).split(4)
        .scenario("growth", "fill a shard with 0..200 keys (all counts around the growth points), 3 mixes of chained and spread keys, then every pair of an erasure or re-insertion at 8 positions; all looked up", || {
            let k = keys();
            let n = *pick(&if thorough() { (0..201).collect::<Vec<usize>>() } else { (0..28).chain(46..51).chain(95..99).chain([150, 191, 192, 193, 194, 200]).collect() });
            let mix = choose(3);
            let mut ks: Vec<Vec<u8>> = (0..n).map(|i| if mix == 0 || (mix == 1 && i % 2 == 0) { k.same[i].clone() } else { k.chain.get(i % k.chain.len()).filter(|_| i < 2 * k.chain.len()).cloned().unwrap_or_else(|| k.same[i].clone()) }).collect();
            ks.dedup(); ks.push(k.twins[0].0.clone()); ks.push(k.twins[0].1.clone());
            let sh = shard(&k.twins[0].0);
            let mut b = Both::new(BIG, 0, ks.clone());
            for i in 0..n.min(ks.len()) { b.op(Op::Insert(i, 1)); b.judge_key(i); if i > 0 { b.judge_key(i / 2) } load(&b, sh); }
            b.judge();
            let m = ks.len();
            for _ in 0..2 {
                let p = choose(8) * (m - 1) / 7;
                b.op(if flag() { Op::Erase(p) } else { Op::Insert(p, 3) });
                b.judge_key(p); b.judge_charge();
            }
            b.judge();
            state(&b.m.view());
        })
        .scenario("chains", "16 keys of one bucket: every erasure order pattern, growth in between", || {
            let k = keys();
            let mut ks = k.chain.clone();
            let nchain = 2 + choose(9);
            ks.truncate(nchain);
            ks.extend(k.same.iter().take(30).cloned());
            let mut b = Both::new(BIG, 0, ks);
            for i in 0..nchain { b.op(Op::Insert(i, 1)) }
            let first = choose(nchain);
            b.op(Op::Erase(first)); for i in 0..nchain { b.judge_key(i) }
            if flag() { for i in nchain..nchain + 30 { b.op(Op::Insert(i, 1)) } b.judge(); }
            let second = choose(nchain);
            b.op(Op::Erase(second)); b.judge();
            let third = choose(nchain);
            b.op(Op::Insert(third, 2)); b.judge();
            let fourth = choose(nchain);
            b.op(Op::Erase(fourth)); b.judge();
            state(&b.m.view());
        })
        .scenario("all-out", "fill with 0..60 keys of one shard, erase all in 4 orders, all looked up after each, fill again", || {
            let k = keys();
            let n = choose(61);
            let o = choose(4);
            let mut b = Both::new(BIG, 0, k.same[..n].to_vec());
            for i in 0..n { b.op(Op::Insert(i, i + 1)) }
            for i in 0..n { b.op(Op::Erase(match o { 0 => i, 1 => n - 1 - i, 2 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }, _ => (i * 2) % n + ((i * 2) / n) * (1 - n % 2) })); b.judge(); }
            if o == 3 { b.op(Op::Prune) }
            ensure!(b.m.len() == 0, "model: {n} {o}");
            for i in 0..n { b.op(Op::Insert(i, 1)) }
            b.judge();
            state(&(n, o));
        })
        .scenario("huge", "120000 keys in one shard, across every growth up to 262144 slots: all looked up, every third erased or replaced, all looked up again, pruned", || {
            let o = choose(3);
            let n = by_tier(120_000u32, 450_000);
            let ks: Vec<Vec<u8>> = (0u32..).map(|i| i.to_le_bytes().to_vec()).filter(|k| shard(k) == [0usize, 7, 31][o]).take(n as usize).collect();
            let c = sut("new_with_capacity", || ShardLRUCache::<u32>::new_with_capacity(BIG, 0));
            let mut c = c;
            let all = |c: &ShardLRUCache<u32>, want: &dyn Fn(u32) -> Option<u32>, charge: usize| {
                for (i, k) in ks.iter().enumerate() {
                    let g = sut("lookup", || c.lookup(&Slice::from_buf(k)).map_err(st)).unwrap().map(|v| *v);
                    step(); ensure!(g == want(i as u32), "key {i} of {n} in one shard: {g:?}, expected {:?}", want(i as u32));
                }
                let g = sut("total_charge", || c.total_charge().map_err(st)).unwrap();
                ensure!(g == charge, "the total charge is {g}, expected {charge}");
                step();
            };
            for (i, k) in ks.iter().enumerate() { sut("insert", || c.insert(&Slice::from_buf(k), i as u32, 1).map_err(st)).unwrap(); step() }
            all(&c, &|i| Some(i), n as usize);
            for (i, k) in ks.iter().enumerate().filter(|x| x.0 % 3 == 0) {
                if i % 2 == 0 { sut("erase", || c.erase(&Slice::from_buf(k)).map_err(st)).unwrap() } else { sut("insert", || c.insert(&Slice::from_buf(k), !(i as u32), 2).map_err(st)).unwrap() }
            }
            all(&c, &|i| if i % 3 != 0 { Some(i) } else if i % 2 == 0 { None } else { Some(!i) }, (0..n as usize).map(|i| if i % 3 != 0 { 1 } else if i % 2 == 0 { 0 } else { 2 }).sum());
            sut("prune", || c.prune().map_err(st)).unwrap();
            all(&c, &|_| None, 0);
            state(&(o, n));
        }).split(1)
        .scenario("prune", "fill 0..100 keys in all shards, prune, the table is back to its first size, fill again", || {
            let k = keys();
            let n = choose(101);
            let len = *pick(&[0usize, 512, 513, 2000, 5000]);
            let mut ks = k.same[..n].to_vec();
            ks.extend(k.other.iter().take(n).cloned());
            let mut b = Both::new(BIG, len, ks);
            let per = (len.max(512) / 32).next_power_of_two();
            ensure!(b.slots0 == 32 * per, "a table for {len} entries starts with {} slots, expected {}", b.slots0, 32 * per);
            let shared = sut("new_arc_with_capacity", || ShardLRUCache::<Val>::new_arc_with_capacity(BIG, len));
            let g = sut("slots", || shared.slots().map_err(st)).unwrap();
            ensure!(g == b.slots0 && shared.capacity() == BIG, "a shared cache for {len} entries starts with {g} slots, expected {}", b.slots0);
            drop(shared);
            for i in 0..b.keys.len() { b.op(Op::Insert(i, 1)) }
            b.judge();
            b.op(Op::Prune);
            b.judge();
            let g = sut("slots", || b.c.slots().map_err(st)).unwrap();
            ensure!(g == b.slots0, "after a prune the table has {g} slots, at first {}", b.slots0);
            for i in 0..b.keys.len() { b.op(Op::Insert(i, 2)) }
            b.judge();
            state(&(n, len));
        })
        .run()
}
