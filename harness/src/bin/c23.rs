//! C23: the cache never holds more than its capacity, and gives up its oldest entries first.
use h::cachem::*;
use mc::*;

fn judge(b: &Both, share: usize) {
    b.judge();
    let g = sut("total_charge", || b.c.total_charge().map_err(st)).unwrap();
    ensure!(g == 0 || g / SHARDS <= share, "total charge {g} is above the capacity; {:?}", b.tail());
}
fn main() {
    keys();
    Check::new("C23", "model_checking", "every sequence of insertions with charges around the capacity, erasures and prunings up to a depth, for every small capacity, against a model that evicts by age; every key looked up after every operation; a state is the contents in order of age")
        .assume("each of the 32 shards has an equal share of the capacity, rounded up; entries are as old as their last insertion")
        .scenario("sequences", format!("every sequence of up to {} operations on 4 keys of one shard, charges 0, 1, 2 and 5, share 1..6", by_tier(4, 5)), || {
            let share = 1 + choose(6);
            let mut b = Both::new(share * 32 - if flag() { 31 } else { 0 }, 0, { let k = keys(); vec![k.twins[0].0.clone(), k.twins[0].1.clone(), k.chain[0].clone(), k.same[3].clone()] });
            for _ in 0..by_tier(4, 5) {
                let c = choose(4 * 4 + 4 + 1);
                if c == 20 { break }
                b.op(if c < 16 { Op::Insert(c % 4, [0, 1, 2, 5][c / 4]) } else { Op::Erase(c - 16) });
                judge(&b, share);
                state(&(share, b.m.view()));
            }
        }).split(4)
        .scenario("shards", "4 operations on keys of two shards, share 2 and 3: shards do not evict for each other", || {
            let share = 2 + choose(2);
            let k = keys();
            let mut b = Both::make(flag(), share * 32, 0, vec![k.same[0].clone(), k.same[1].clone(), k.other[0].clone(), k.other[1].clone()]);
            for _ in 0..5 { let c = choose(13); b.op(if c < 8 { Op::Insert(c % 4, 1 + c / 4) } else if c < 12 { Op::Erase(c - 8) } else { Op::Prune }); judge(&b, share); state(&(share, b.m.view())); }
        }).split(4)
        .scenario("capacities", "every capacity 0..200, 40 insertions of charge 1, 2 or 7 in one shard, spread over all shards, or one entry larger than all", || {
            let cap = choose(201);
            let ch = *pick(&[1usize, 2, 7, 1000]);
            let k = keys();
            let ks = if flag() { k.same[..40].to_vec() } else { k.other[..40].to_vec() };
            let mut b = Both::make(flag(), cap, 0, ks);
            for i in 0..40 { b.op(Op::Insert(i, ch)); judge(&b, (cap + 31) / 32); }
            state(&(cap, b.m.view()));
        })
        .scenario("large", format!("every sequence of {} operations on 3 keys, capacities 2^33 to the largest number, charges around the share, 2^32 and the largest number", by_tier(3, 4)), || {
            let cap = *pick(&[1usize << 33, (1 << 45) + 7, 1 << 63, usize::MAX - 31, usize::MAX - 30, usize::MAX]);
            let share = cap / 32 + (cap % 32 != 0) as usize;
            let k = keys();
            let mut b = Both::make(flag(), cap, 0, vec![k.same[0].clone(), k.same[1].clone(), k.other[0].clone()]);
            let charges = [1, u32::MAX as usize, (1 << 32) + 5, share / 2, share - 1, share, usize::MAX - 1, usize::MAX];
            for _ in 0..by_tier(3, 4) {
                let c = choose(3 * 8 + 3);
                b.op(if c < 24 { Op::Insert(c % 3, charges[c / 3]) } else { Op::Erase(c - 24) });
                judge(&b, share);
                state(&(cap, b.m.view()));
            }
        }).split(4)
        .scenario("streams", "3 streams of 600 insertions with repeats through a shard of share 3..60, growth included", || {
            let share = 3 + choose(58);
            let s = choose(3);
            let k = keys();
            let mut b = Both::new(share * 32, 0, k.same[..120].to_vec());
            for i in 0..600usize {
                let j = match s { 0 => i % 120, 1 => i * i % 113, _ => (i * 7919 + i / 50) % 120 };
                b.op(if i % 11 == 10 { Op::Erase((j + 1) % 120) } else { Op::Insert(j, 1 + (i * s) % 3) });
                b.judge_key(j); b.judge_key((j + 1) % 120); b.judge_key((i + 61) % 120); b.judge_charge();
                if i % 100 == 99 { judge(&b, share) }
            }
            state(&(share, s, b.m.view()));
        })
        .run()
}
