//! C24: a value lives exactly as long as the cache or a reader holds it, and all memory returns.
use h::cachem::*;
use mc::*;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

fn end(b: Both, held: Vec<(Arc<Val>, u32)>, live: (usize, usize)) {
    let Both { c, m, keys, log, .. } = b;
    drop((m, keys));
    sut("drop cache", || drop(c));
    for (v, n) in &held { ensure!(v.get() == *n, "a held value changed when the cache was dropped; {log:?}") }
    let d = distinct(&held);
    ensure!(ALIVE.load(SeqCst) == d, "{} values are alive after the cache is gone, {d} are held; {log:?}", ALIVE.load(SeqCst));
    drop(held);
    ensure!(ALIVE.load(SeqCst) == 0, "{} values are alive after cache and readers are gone; {log:?}", ALIVE.load(SeqCst));
    ensure!(alloc::live() == live, "{} blocks and {} bytes remain after cache and readers are gone; {log:?}", alloc::live().0 - live.0, alloc::live().1 - live.1);
}
fn distinct(held: &[(Arc<Val>, u32)]) -> i64 { let mut p: Vec<u32> = held.iter().map(|h| h.1).collect(); p.sort(); p.dedup(); p.len() as i64 }
fn only_held(b: &Both, held: &[(Arc<Val>, u32)]) -> i64 {
    // held values that the cache no longer has
    let mut p: Vec<u32> = held.iter().map(|h| h.1).filter(|n| !b.keys.iter().any(|k| b.m.get(k) == Some(*n))).collect();
    p.sort(); p.dedup(); p.len() as i64
}
fn main() {
    keys();
    Check::new("C24", "model_checking", "every sequence of insertions, lookups that keep what they got, erasures and prunings up to a depth, with and without eviction, then every order of giving up cache and readers; living values and memory counted after every operation; a state is the contents with the values held")
        .assume("memory is tracked by the global allocator and AddressSanitizer")
        .scenario("sequences", format!("every sequence of up to {} operations on 3 keys (two with equal hashes), share 2 or unbounded, all charges 1 or two keys charged nothing", by_tier(6, 7)), || {
            let cap = *pick(&[2 * 32usize, 1 << 30]);
            let charges = *pick(&[[1, 1, 1], [1, 0, 0]]);
            let live = alloc::live();
            ALIVE.store(0, SeqCst);
            let mut b = Both::new(cap, 0, { let k = keys(); vec![k.twins[0].0.clone(), k.twins[0].1.clone(), k.same[3].clone()] });
            let mut held = vec![];
            for _ in 0..by_tier(6, 7) {
                let c = choose(11);
                match c {
                    0 => break,
                    1..=3 => b.op(Op::Insert(c - 1, charges[c - 1])),
                    4..=6 => b.op(Op::Erase(c - 4)),
                    7..=9 => { if let Some(v) = b.lookup(c - 7) { let n = v.get(); held.push((v, n)) } b.log.push(format!("hold {}", c - 7)); step(); }
                    _ => b.op(Op::Prune),
                }
                for (v, n) in &held { ensure!(v.get() == *n, "a held value changed; {:?}", b.log) }
                let o = only_held(&b, &held);
                b.judge_alive(o);
                state(&(charges, b.m.view(), held.iter().map(|h| h.1).collect::<Vec<_>>()));
            }
            end(b, held, live);
        }).split(4)
        .scenario("fills", "0..150 keys of one shard with growth or eviction, every third held, dropped or pruned, charges 1 to 3 or 0 to 2", || {
            let n = choose(151);
            let cap = *pick(&[20 * 32usize, 1 << 30]);
            let low = choose(2);
            let live = alloc::live();
            ALIVE.store(0, SeqCst);
            let mut b = Both::new(cap, 0, keys().same[..n].to_vec());
            let mut held = vec![];
            for i in 0..n {
                b.op(Op::Insert(i, low + i % 3));
                if i % 3 == 0 { if let Some(v) = b.lookup(i) { let k = v.get(); held.push((v, k)) } }
                if i % 7 == 6 { b.op(Op::Erase(i - 3)) }
            }
            let o = only_held(&b, &held);
            b.judge_alive(o);
            if flag() { b.op(Op::Prune); b.judge_alive(distinct(&held)); for i in 0..n { b.op(Op::Insert(n - 1 - i, 1)) } let o = only_held(&b, &held); b.judge_alive(o); }
            state(&(n, cap, low));
            end(b, held, live);
        })
        .scenario("keys", "keys of 0..2000 bytes are copied: the caller's key may change or go", || {
            let n = *pick(&[0usize, 1, 16, 2000]);
            let charge = choose(2);
            let live = alloc::live();
            ALIVE.store(0, SeqCst);
            let c = sut("new", || level_db_rust::util::cache::ShardLRUCache::new_arc_with_capacity(1 << 20, 0));
            let mut k = level_db_rust::util::slice::Slice::from_vec(vec![1; n]);
            sut("insert", || c.insert(&k, Val::new(9), charge).map_err(st)).unwrap();
            for b in k.iter_mut() { *b = 2 }
            let look = |x: u8| { let k = level_db_rust::util::slice::Slice::from_vec(vec![x; n]); sut("lookup", || c.lookup(&k).map_err(st)).unwrap().map(|v| v.get()) };
            ensure!(look(1) == Some(9), "the key changed with the caller's");
            ensure!(n == 0 || look(2) == None, "the key changed with the caller's");
            drop(k);
            ensure!(look(1) == Some(9), "the key went with the caller's");
            step(); state(&(n, charge));
            let c2 = c.clone();
            sut("drop", || drop(c));
            ensure!(ALIVE.load(SeqCst) == 1, "dropping one of two handles empties the cache");
            sut("drop", || drop(c2));
            ensure!(ALIVE.load(SeqCst) == 0 && alloc::live() == live, "{} values and {} blocks remain", ALIVE.load(SeqCst), alloc::live().0 - live.0);
        })
        .run()
}
