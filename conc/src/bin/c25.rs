//! C25: threads that share a cache.
use k::cachem::{keys, shard, st, SHARDS};
use k::*;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::slice::Slice;
use mc::*;
use std::sync::Arc;

type Cache = Arc<ShardLRUCache<V>>;
static mut ALIVE: i64 = 0;
struct V(u32, Box<u32>);
impl V { fn new(v: u32) -> V { unsafe { ALIVE += 1 } V(v, Box::new(!v)) } fn get(&self) -> u32 { ensure!(*self.1 == !self.0, "a value was overwritten"); self.0 } }
impl Drop for V { fn drop(&mut self) { unsafe { ALIVE -= 1 } if *self.1 != !self.0 { fail("a destroyed value was overwritten".into()) } *self.1 = 0; } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Insert(u8, u8), Lookup(u8), Charge, Slots }
/// What an operation gave; `id` is the value inserted or found (0: none), or the charge.
#[derive(Clone, Copy, Debug)]
struct Ev { op: Op, id: u32, call: u64, ret: u64 }
const N: usize = 24;
static mut HIST: [Ev; N] = [Ev { op: Op::Slots, id: 0, call: 0, ret: 0 }; N];
static mut LEN: usize = 0;
static mut NEXT: u32 = 0;

struct World { keys: Vec<Vec<u8>>, share: usize }
impl World {
    fn new(share: usize, keys: Vec<Vec<u8>>) -> World { unsafe { LEN = 0; NEXT = 0; ALIVE = 0; } World { keys, share } }
    fn cache(&self) -> Cache { ShardLRUCache::new_arc_with_capacity(self.share * SHARDS, 0) }
}
/// One call, by a thread or the main program.
fn call(c: &ShardLRUCache<V>, w: &World, op: Op, held: &mut Vec<Arc<V>>) {
    point();
    let at = unsafe { LEN += 1; LEN - 1 };
    let id = unsafe { NEXT += 1; NEXT };
    unsafe { HIST[at] = Ev { op, id: 0, call: tick(), ret: u64::MAX } }
    let e = |r: level_db_rust::util::status::Status| -> ! { fail(format!("{op:?} fails: {}", st(r))) };
    let id = match op {
        Op::Insert(k, charge) => match c.insert(&Slice::from_buf(&w.keys[k as usize]), V::new(id), charge as usize) { Ok(()) => id, Err(r) => e(r) },
        Op::Lookup(k) => match c.lookup(&Slice::from_buf(&w.keys[k as usize])) { Ok(Some(v)) => { let i = v.get(); held.push(v); i } Ok(None) => 0, Err(r) => e(r) },
        Op::Charge => match c.total_charge() { Ok(v) => v as u32, Err(r) => e(r) },
        Op::Slots => match c.slots() { Ok(v) => v as u32, Err(r) => e(r) },
    };
    unsafe { HIST[at].id = id; HIST[at].ret = tick(); }
    for v in held.iter() { v.get(); }
}
/// The model: the entries of each shard in order of age.
#[derive(Clone, PartialEq, Eq, Hash, Default, Debug)]
struct Model { sh: Vec<(usize, Vec<(u8, u32, u8)>)> }
impl Model {
    fn at(&mut self, s: usize) -> &mut Vec<(u8, u32, u8)> {
        if let Some(i) = self.sh.iter().position(|x| x.0 == s) { return &mut self.sh[i].1 }
        self.sh.push((s, vec![])); &mut self.sh.last_mut().unwrap().1
    }
    fn insert(&mut self, s: usize, k: u8, id: u32, charge: u8, share: usize) {
        let v = self.at(s);
        v.retain(|e| e.0 != k);
        v.push((k, id, charge));
        while v.iter().map(|e| e.2 as usize).sum::<usize>() >= share && !v.is_empty() { v.remove(0); }
    }
    fn get(&mut self, s: usize, k: u8) -> u32 { self.at(s).iter().find(|e| e.0 == k).map_or(0, |e| e.1) }
    fn usage(&self, s: usize) -> u32 { self.sh.iter().find(|x| x.0 == s).map_or(0, |x| x.1.iter().map(|e| e.2 as u32).sum()) }
}
/// Whether the calls have an order, compatible with their times, in which the model answers the same.
/// A total charge looks at the shards one by one, in any order.
struct Search<'a> { ev: &'a [Ev], shard: Vec<usize>, used: Vec<usize>, share: usize, fin: &'a dyn Fn(&mut Model) -> bool }
impl Search<'_> {
    fn go(&self, done: u32, m: &Model, part: &mut Vec<(u32, u32)>) -> bool {
        if done.count_ones() as usize == self.ev.len() { return (self.fin)(&mut m.clone()) }
        let first = self.ev.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in self.ev.iter().enumerate() {
            if done >> i & 1 == 1 || e.call > first { continue }
            match e.op {
                Op::Insert(k, c) => { let mut n = m.clone(); n.insert(self.shard[k as usize], k, e.id, c, self.share); if self.go(done | 1 << i, &n, part) { return true } }
                Op::Lookup(k) => { let mut n = m.clone(); if n.get(self.shard[k as usize], k) == e.id && self.go(done | 1 << i, &n, part) { return true } }
                Op::Slots => if self.go(done | 1 << i, m, part) { return true },
                Op::Charge => for (j, s) in self.used.iter().enumerate() {
                    if part[i].0 >> j & 1 == 1 { continue }
                    let old = part[i];
                    part[i] = (old.0 | 1 << j, old.1 + m.usage(*s));
                    let full = part[i].0.count_ones() as usize == self.used.len();
                    let ok = if full { part[i].1 == e.id && self.go(done | 1 << i, m, part) } else { self.go(done, m, part) };
                    part[i] = old;
                    if ok { return true }
                },
            }
        }
        false
    }
}
fn judge(w: &World, c: &ShardLRUCache<V>) {
    #[allow(static_mut_refs)]
    let ev: Vec<Ev> = unsafe { HIST[..LEN].to_vec() };
    let mut fin = vec![];
    for k in 0..w.keys.len() { fin.push(match c.lookup(&Slice::from_buf(&w.keys[k])) { Ok(v) => v.map_or(0, |v| v.get()), Err(r) => fail(format!("lookup fails: {}", st(r))) }) }
    let charge = match c.total_charge() { Ok(v) => v as u32, Err(r) => fail(format!("total_charge fails: {}", st(r))) };
    let _t = alloc::Tag::off();
    let sh: Vec<usize> = w.keys.iter().map(|k| shard(k)).collect();
    let mut used = sh.clone(); used.sort(); used.dedup();
    let end = |m: &mut Model| (0..sh.len()).all(|k| m.get(sh[k], k as u8) == fin[k]) && used.iter().map(|s| m.usage(*s)).sum::<u32>() == charge;
    let s = Search { ev: &ev, shard: sh.clone(), used: used.clone(), share: w.share, fin: &end };
    let ok = s.go(0, &Model::default(), &mut vec![(0, 0); ev.len()]);
    ensure!(ok, "no order of the calls explains the answers: {ev:?}, in the end {fin:?} with charge {charge}");
    let n = fin.iter().filter(|v| **v != 0).count() as i64;
    ensure!(unsafe { ALIVE } == n, "{} values are alive, {n} are in the cache and none is held", unsafe { ALIVE });
    let slots: Vec<u32> = ev.iter().filter(|e| e.op == Op::Slots).map(|e| e.id).collect();
    let last = c.slots().map_err(st).unwrap_or(0) as u32;
    for v in &slots { ensure!(*v >= slots[0] && *v <= last, "slots seen: {slots:?}, in the end {last}") }
    state(&(ev.iter().map(|e| (format!("{:?}", e.op), e.id)).collect::<Vec<_>>(), fin));
}
/// Runs the programs on one cache; `drop_early`: the threads own the cache, the main program does not.
fn play(w: World, prefill: &[Op], progs: Vec<Vec<Op>>) {
    note!("prefill {prefill:?}, threads {progs:?}");
    let w = &w;
    exec(|| {
        let c = w.cache();
        let mut none = vec![];
        for op in prefill { call(&c, w, *op, &mut none) }
        none.clear();
        let bodies = progs.iter().map(|p| {
            let c = c.clone();
            let (w, p): (&'static World, &'static Vec<Op>) = unsafe { (&*(w as *const _), &*(p as *const _)) };
            Box::new(move || { let mut held = vec![]; for op in p { call(&c, w, *op, &mut held) } drop(c); for v in held { v.get(); } }) as Box<dyn FnOnce()>
        }).collect();
        threads(bodies);
        { let _t = alloc::Tag::off(); note!("calls: {:?}", unsafe { let h = &raw const HIST; &(&*h)[..LEN] }); }
        drop(none);
        judge(w, &c);
    });
}
fn prog(menu: &[Op], max: usize) -> Vec<Op> {
    let mut p = vec![*pick(menu)];
    while p.len() < max { let c = choose(menu.len() + 1); if c == 0 { break } p.push(menu[c - 1]) }
    p
}
fn main() {
    keys();
    use Op::*;
    Check::new("C25", "model_checking", "every schedule within a preemption bound of every program of a set, on the real cache and its real locks; every answer explained by an order of the calls that fits their times; unordered memory accesses, freed memory, dead locks and leaks reported; a state is a history of answers with the final contents")
        .assume("sequentially consistent interleavings at the granularity of atomic operations; weak memory only as data races; total_charge and slots look at the shards one by one")
        .scenario("bounds", "which caches may be shared between or sent to threads", || {
            use std::cell::Cell; use std::rc::Rc;
            ensure!(is_auto!(ShardLRUCache<u64>: Sync) && is_auto!(ShardLRUCache<u64>: Send) && is_auto!(ShardLRUCache<std::sync::Mutex<Cell<u8>>>: Sync), "a cache of values that threads may share cannot be shared");
            ensure!(!is_auto!(ShardLRUCache<Cell<u8>>: Sync), "a cache of values that threads must not share can be shared");
            ensure!(!is_auto!(ShardLRUCache<Cell<u8>>: Send), "a cache hands out shared values, but may be sent to another thread with values that must not be shared");
            ensure!(!is_auto!(ShardLRUCache<Rc<u8>>: Sync) && !is_auto!(ShardLRUCache<Rc<u8>>: Send), "a cache of values bound to a thread can be shared or sent");
            step(); state(&0u8);
        })
        .scenario_dev("pairs", format!("two threads of up to 2 calls on two keys of equal hash, share 4 (so that insertions evict), with and without an earlier entry; {} preemptions", by_tier(2, 3)), by_tier(2, 3), || {
            let k = keys();
            let menu = [Insert(0, 1), Insert(1, 2), Lookup(0), Lookup(1)];
            let pre: &[Op] = pick(&[&[][..], &[Insert(0, 1)][..]]);
            let (a, b) = (prog(&menu, 2), prog(&menu, 2));
            play(World::new(4, vec![k.twins[0].0.clone(), k.twins[0].1.clone()]), pre, vec![a, b]);
        }).split(5)
        .scenario_dev("evict", format!("two threads, one of up to 2 insertions of large entries, one of up to 2 lookups or insertions, share 4, all keys in one shard and bucket; {} preemptions", by_tier(2, 3)), by_tier(2, 3), || {
            let k = keys();
            let a = prog(&[Insert(0, 3), Insert(1, 3), Insert(2, 2), Insert(2, 9)], 2);
            let b = prog(&[Lookup(0), Lookup(1), Lookup(2), Insert(0, 2)], 2);
            play(World::new(4, k.chain[..3].to_vec()), &[Insert(0, 1), Insert(1, 1)], vec![a, b]);
        }).split(5)
        .scenario_dev("growth", format!("a shard of 11 or 12 entries whose table grows with the 13th: two threads insert and look up; {} preemptions", by_tier(2, 3)), by_tier(2, 3), || {
            let k = keys();
            let n = 11 + choose(2) as u8;
            let mut ks = k.chain[..6].to_vec(); ks.extend(k.same[..8].to_vec());
            let pre: Vec<Op> = (0..n).map(|i| Insert(i, 1)).collect();
            let a = prog(&[Insert(12, 1), Insert(13, 1)], 2);
            let b = prog(&[Lookup(0), Lookup(5), Lookup(9), Lookup(12), Insert(13, 1)], 2);
            play(World::new(100, ks), &pre, vec![a, b]);
        }).split(5)
        .scenario_dev("three", format!("three threads of one call each on two keys of one shard; {} preemptions", by_tier(2, 4)), by_tier(2, 4), || {
            let k = keys();
            let menu = [Insert(0, 1), Insert(0, 2), Insert(1, 2), Lookup(0), Lookup(1)];
            let pre: &[Op] = pick(&[&[][..], &[Insert(0, 1)][..]]);
            let p = (0..3).map(|_| prog(&menu, 1)).collect();
            play(World::new(4, k.chain[..2].to_vec()), pre, p);
        }).split(5)
        .scenario_dev("totals", format!("total charge and slots against insertions in two shards; {} preemptions", by_tier(1, 2)), by_tier(1, 2), || {
            let k = keys();
            let a = prog(&[Insert(0, 1), Insert(1, 2), Insert(0, 5)], 2);
            let b = prog(&[Charge, Slots, Lookup(1)], by_tier(1, 2));
            play(World::new(6, vec![k.same[0].clone(), k.other[0].clone()]), &[Insert(1, 1)], vec![a, b]);
        }).split(4)
        .scenario_dev("shards", format!("two threads of up to 3 calls on keys of different shards, and a third that reads both; {} preemptions", by_tier(1, 2)), by_tier(1, 2), || {
            let k = keys();
            let a = prog(&[Insert(0, 1), Insert(1, 1)], 2);
            let b = prog(&[Insert(1, 1), Insert(0, 1)], 2);
            play(World::new(2, vec![k.same[0].clone(), k.other[0].clone()]), &[], vec![a, b, vec![Lookup(0), Lookup(1)]]);
        }).split(5)
        .scenario_dev("last owner", format!("threads own the cache, the last one to let go destroys it while values are held; {} preemptions", by_tier(2, 3)), by_tier(2, 3), || {
            let k = keys();
            let w = &World::new(4, k.chain[..2].to_vec());
            let p: Vec<Vec<Op>> = (0..2).map(|_| prog(&[Lookup(0), Insert(1, 1), Insert(0, 3)], 2)).collect();
            exec(|| {
                let c = w.cache();
                call(&c, w, Insert(0, 1), &mut vec![]);
                let bodies = (0..2usize).map(|i| {
                    let c = c.clone();
                    let (w, p): (&'static World, &'static Vec<Op>) = unsafe { (&*(w as *const _), &*(&p[i] as *const _)) };
                    Box::new(move || { let mut held = vec![]; for op in p { call(&c, w, *op, &mut held) } drop(c); for v in held { v.get(); point(); } }) as Box<dyn FnOnce()>
                }).collect();
                drop(c);
                threads(bodies);
                ensure!(unsafe { ALIVE } == 0, "{} values survive the cache", unsafe { ALIVE });
            });
            #[allow(static_mut_refs)]
            state(&unsafe { HIST[..LEN].iter().map(|e| (format!("{:?}", e.op), e.id)).collect::<Vec<_>>() });
        }).split(4)
        .run()
}
