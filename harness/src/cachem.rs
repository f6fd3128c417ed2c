//! A model of the sharded cache, and keys with chosen hash collisions.
use crate::refs::leveldb_hash;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::slice::Slice;
use mc::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};

pub const SHARDS: usize = 32;
pub fn hash(k: &[u8]) -> u32 { leveldb_hash(k, 0) }
pub fn shard(k: &[u8]) -> usize { (hash(k) >> 27) as usize }

/// A value that counts its living copies and knows its identity.
pub static ALIVE: AtomicI64 = AtomicI64::new(0);
pub struct Val(pub u32, Box<u32>);
impl Val {
    pub fn new(v: u32) -> Val { ALIVE.fetch_add(1, SeqCst); Val(v, Box::new(!v)) }
    pub fn get(&self) -> u32 { ensure!(*self.1 == !self.0, "a value was overwritten"); self.0 }
}
impl Drop for Val { fn drop(&mut self) { ALIVE.fetch_sub(1, SeqCst); if *self.1 != !self.0 { eprintln!("value overwritten"); std::process::abort() } *self.1 = 0; } }

/// Families of keys.
pub struct Keys {
    /// pairs of keys with equal hashes
    pub twins: Vec<(Vec<u8>, Vec<u8>)>,
    /// keys of the shard of the first twin
    pub same: Vec<Vec<u8>>,
    /// those of `same` whose hashes also agree in the low 8 bits
    pub chain: Vec<Vec<u8>>,
    pub other: Vec<Vec<u8>>,
}
pub fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| {
        let mut seen: HashMap<u32, Vec<u8>> = HashMap::new();
        let mut twins = vec![];
        for i in 0..600_000u32 {
            let k = format!("{i:x}").into_bytes();
            let h = hash(&k);
            if let Some(o) = seen.get(&h) { twins.push((o.clone(), k)); if twins.len() == 2 { break } } else { seen.insert(h, k); }
        }
        assert!(!twins.is_empty(), "no colliding keys");
        let h0 = hash(&twins[0].0);
        let (mut same, mut chain, mut other) = (vec![], vec![], vec![]);
        for i in 0..2_000_000u32 {
            let k = format!("k{i}").into_bytes();
            let h = hash(&k);
            if h >> 27 == h0 >> 27 {
                if same.len() < 700 { same.push(k.clone()) }
                if (h ^ h0) & 0xff == 0 && chain.len() < 16 { chain.push(k) }
            } else if other.len() < 64 { other.push(k) }
            if chain.len() == 16 && same.len() == 700 { break }
        }
        Keys { twins, same, chain, other }
    })
}

#[derive(Clone, Default)]
struct Shard { order: Vec<Vec<u8>>, map: BTreeMap<Vec<u8>, (u32, usize)>, usage: usize }
#[derive(Clone)]
pub struct Model { shards: Vec<Shard>, share: usize, pub next: u32 }
impl Model {
    pub fn new(capacity: usize) -> Model { Model { shards: vec![Shard::default(); SHARDS], share: capacity / SHARDS + (capacity % SHARDS != 0) as usize, next: 1 } }
    pub fn erase(&mut self, k: &[u8]) {
        let s = &mut self.shards[shard(k)];
        if let Some((_, c)) = s.map.remove(k) { s.usage -= c; s.order.retain(|x| x != k) }
    }
    pub fn insert(&mut self, k: &[u8], v: u32, charge: usize) {
        self.erase(k);
        let share = self.share;
        let s = &mut self.shards[shard(k)];
        s.map.insert(k.to_vec(), (v, charge));
        s.order.push(k.to_vec());
        // what is in the shard and the new charge may be more than a number holds
        let mut usage = s.usage as u128 + charge as u128;
        while usage >= share as u128 && !s.order.is_empty() {
            let o = s.order.remove(0);
            let (_, c) = s.map.remove(&o).unwrap();
            usage -= c as u128;
        }
        s.usage = usage as usize;
    }
    pub fn prune(&mut self) { for s in &mut self.shards { *s = Shard::default() } }
    pub fn get(&self, k: &[u8]) -> Option<u32> { self.shards[shard(k)].map.get(k).map(|x| x.0) }
    pub fn charge(&self) -> usize { self.shards.iter().map(|s| s.usage).sum() }
    pub fn len(&self) -> usize { self.shards.iter().map(|s| s.map.len()).sum() }
    pub fn shard_len(&self, s: usize) -> usize { self.shards[s].map.len() }
    /// Canonical contents, in order of age.
    pub fn view(&self) -> Vec<(Vec<u8>, usize)> { self.shards.iter().flat_map(|s| s.order.iter().map(|k| (k.clone(), s.map[k].1))).collect() }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Insert(usize, usize), Erase(usize), Prune }
pub struct Both { pub c: Arc<ShardLRUCache<Val>>, pub m: Model, pub keys: Vec<Vec<u8>>, slices: Vec<Slice>, pub log: Vec<String>, pub slots0: usize }
fn own(c: &mut Arc<ShardLRUCache<Val>>) -> &mut ShardLRUCache<Val> { Arc::get_mut(c).expect("the cache has one owner") }
pub fn st(s: level_db_rust::util::status::Status) -> String { s.to_string() }
impl Both {
    pub fn new(capacity: usize, length: usize, keys: Vec<Vec<u8>>) -> Both { Both::make(false, capacity, length, keys) }
    /// With either constructor.
    pub fn make(shared: bool, capacity: usize, length: usize, keys: Vec<Vec<u8>>) -> Both {
        let c = if shared { sut("new_arc_with_capacity", || ShardLRUCache::new_arc_with_capacity(capacity, length)) } else { sut("new_with_capacity", || Arc::new(ShardLRUCache::new_with_capacity(capacity, length))) };
        ensure!(c.capacity() == capacity, "capacity is {}, expected {capacity}", c.capacity());
        let slots0 = sut("slots", || c.slots().map_err(st)).unwrap();
        Both { c, m: Model::new(capacity), slices: keys.iter().map(|k| Slice::from_buf(k)).collect(), keys, log: vec![], slots0 }
    }
    pub fn op(&mut self, op: Op) {
        match op {
            Op::Insert(k, charge) => {
                let v = self.m.next;
                self.m.next += 1;
                self.log.push(format!("insert {} ({charge})", self.name(k)));
                let r = sut("insert", || self.c.insert(&self.slices[k], Val::new(v), charge).map_err(st));
                ensure!(r.is_ok(), "insert fails: {r:?}; {:?}", self.log);
                let key = self.keys[k].clone();
                self.m.insert(&key, v, charge);
            }
            Op::Erase(k) => {
                self.log.push(format!("erase {}", self.name(k)));
                let r = sut("erase", || own(&mut self.c).erase(&self.slices[k]).map_err(st));
                ensure!(r.is_ok(), "erase fails: {r:?}; {:?}", self.log);
                let key = self.keys[k].clone();
                self.m.erase(&key);
            }
            Op::Prune => {
                self.log.push("prune".into());
                let r = sut("prune", || own(&mut self.c).prune().map_err(st));
                ensure!(r.is_ok(), "prune fails: {r:?}");
                self.m.prune();
            }
        }
        step();
    }
    fn name(&self, k: usize) -> String { String::from_utf8_lossy(&self.keys[k]).into_owned() }
    pub fn lookup(&self, k: usize) -> Option<Arc<Val>> {
        sut("lookup", || match self.c.lookup(&self.slices[k]) { Ok(v) => v, Err(e) => fail(format!("lookup fails: {}", st(e))) })
    }
    pub fn judge_key(&self, k: usize) {
        let g = self.lookup(k).map(|v| v.get());
        let w = self.m.get(&self.keys[k]);
        ensure!(g == w, "lookup of {} gives value number {g:?}, expected {w:?}; {:?}", self.name(k), self.tail());
        step();
    }
    pub fn tail(&self) -> &[String] { &self.log[self.log.len().saturating_sub(30)..] }
    pub fn judge(&self) {
        for k in 0..self.keys.len() { self.judge_key(k) }
        self.judge_charge();
    }
    pub fn judge_charge(&self) {
        let g = sut("total_charge", || self.c.total_charge().map_err(st)).unwrap();
        ensure!(g == self.m.charge(), "total charge is {g}, expected {}; {:?}", self.m.charge(), self.tail());
    }
    pub fn judge_alive(&self, held: i64) {
        let g = ALIVE.load(SeqCst);
        ensure!(g == self.m.len() as i64 + held, "{g} values are alive, {} are in the cache and {held} held elsewhere; {:?}", self.m.len(), self.tail());
    }
}
