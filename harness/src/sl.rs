//! Skip lists for the checks: tower heights chosen by the explorer, comparators.

use level_db_rust::db::skip_list::SkipList;
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::util::arena::{Arena, ArenaRef};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use mc::*;
use std::cmp::Ordering;
use std::sync::{Arc, Mutex};

/// Draws that follow: `ups` times "yes", then "no" for ever.
static mut UPS: u32 = 0;
pub fn next_height(h: usize) { unsafe { UPS = h as u32 - 1 } }
/// Tower heights come from `next_height`.
pub fn steer() {
    unsafe { rand::HOOK = Some(|| Some(if UPS > 0 { UPS -= 1; true } else { false })); UPS = 0; }
    rand::reset();
}
/// Tower heights come from the fixed sequence.
pub fn unsteer() { unsafe { rand::HOOK = None; } rand::reset(); }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Order { Bytewise, Reverse, Length, Partial }
pub struct Cmp(pub Order);
pub fn cmp(o: Order, a: &[u8], b: &[u8]) -> Option<Ordering> {
    match o {
        Order::Bytewise => Some(a.cmp(b)),
        Order::Reverse => Some(b.cmp(a)),
        // keys of one length are equal
        Order::Length => Some(a.len().cmp(&b.len())),
        // a key that starts with '?' cannot be compared with one that starts with 'a' or '?'
        Order::Partial => {
            let q = |k: &[u8]| k.first() == Some(&b'?');
            let a_ = |k: &[u8]| k.first() == Some(&b'a');
            if (q(a) && (a_(b) || q(b))) || (q(b) && a_(a)) { None } else { Some(a.cmp(b)) }
        }
    }
}
impl Comparator for Cmp {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { cmp(self.0, a, b) }
    fn get_name(&self) -> String { "test".into() }
    fn find_shortest_separator(&self, s: &String, _: &Slice) -> String { s.clone() }
    fn find_short_successor(&self, k: &String) -> String { k.clone() }
}
pub fn us(k: &[u8], a: &ArenaRef) -> UnsafeSlice {
    match UnsafeSlice::new_with_arena(k, a.clone()) { Ok(u) => u, Err(_) => fail("new_with_arena failed".into()) }
}
/// A list together with the set it must be.
pub struct Both { pub list: SkipList<Cmp>, pub arena: ArenaRef, pub set: Vec<Vec<u8>>, pub o: Order, pub log: Vec<String> }
impl Both {
    pub fn new(o: Order) -> Both {
        let arena: ArenaRef = sut("arena", || Arc::new(Mutex::new(Arena::default())));
        let list = sut("create", || SkipList::create(Arc::new(Cmp(o)), arena.clone()));
        Both { list, arena, set: vec![], o, log: vec![] }
    }
    /// Where `k` is or belongs; None when it cannot be compared with a key of the set.
    pub fn find(&self, k: &[u8]) -> Option<Result<usize, usize>> {
        if self.set.iter().any(|x| cmp(self.o, k, x).is_none()) { return None }
        Some(self.set.binary_search_by(|x| cmp(self.o, x, k).unwrap()))
    }
    pub fn insert(&mut self, k: &[u8], h: usize) {
        self.log.push(format!("{}^{h}", show(k)));
        let used = sut("memory_usage", || self.list.memory_usage());
        let u = sut("slice", || us(k, &self.arena));
        let before = sut("memory_usage", || self.list.memory_usage());
        ensure!(before >= used, "memory usage went down");
        next_height(h);
        let r = sut("insert", || self.list.insert(u).map_err(|e| e.to_string()));
        step();
        match self.find(k) {
            Some(Ok(_)) => {
                ensure!(r.is_ok(), "inserting a present key fails: {r:?}; {}", self.story());
                let after = sut("memory_usage", || self.list.memory_usage());
                ensure!(after == before, "inserting a present key takes {} bytes of the arena; {}", after - before, self.story());
            }
            Some(Err(i)) => { ensure!(r.is_ok(), "insert fails: {r:?}; {}", self.story()); self.set.insert(i, k.to_vec()) }
            // A key that cannot be compared with some key may be refused or placed by those it meets.
            None => if r.is_ok() {
                let now: Vec<Vec<u8>> = sut("iter", || self.list.iter().map(|s| s.as_ref().to_vec()).collect());
                // what the list says was inserted is there, unless it was before
                ensure!(now.len() == self.set.len() + 1 || self.set.iter().any(|x| x == k), "a key that cannot be compared with all is neither refused nor inserted: {}; {}", shows(&now), self.story());
                if now.len() == self.set.len() + 1 {
                    let i = now.iter().position(|x| x == k).unwrap_or(0);
                    let mut w = self.set.clone(); w.insert(i, k.to_vec());
                    ensure!(now == w, "after inserting a key that cannot be compared with all: {}; {}", shows(&now), self.story());
                    for (a, b) in w.iter().zip(&w[1..]) { ensure!(cmp(self.o, a, b) == Some(Ordering::Less), "out of order: {}; {}", shows(&w), self.story()) }
                    self.set = w;
                }
            }
        }
    }
    pub fn story(&self) -> String { format!("insertions (key^height) {}", self.log.join(" ")) }
    /// Contents, order, size and report.
    pub fn judge(&self, probes: &[Vec<u8>]) {
        let now: Vec<Vec<u8>> = sut("iter", || {
            let mut v = vec![];
            for s in self.list.iter() { v.push(s.as_ref().to_vec()); if v.len() > self.set.len() + 2 { break } }
            v
        });
        ensure!(now == self.set, "the list iterates {}, expected {}; {}", shows(&now), shows(&self.set), self.story());
        sut("len", || ensure!(self.list.len() == self.set.len(), "len is {}, expected {}; {}", self.list.len(), self.set.len(), self.story()));
        let (h, m) = (self.list.height(), self.list.max_height());
        ensure!(h <= m && (h >= 1) == !self.set.is_empty(), "height {h} of at most {m} with {} keys", self.set.len());
        for p in probes {
            let w = match self.find(p) { None => self.set.contains(p), Some(r) => r.is_ok() };
            if self.find(p).is_none() && !w { continue }
            if self.find(p).is_none() { continue }
            let g = sut("contains", || self.list.contains(p));
            ensure!(g == w, "contains({}) is {g}, expected {w}; {}", show(p), self.story());
            step();
        }
    }
    pub fn report(&self) {
        // printing is for text
        if self.set.iter().any(|k| std::str::from_utf8(k).is_err()) { return }
        let t = sut("to_string", || self.list.to_string());
        // height: H, num: N\n [head] -> key(level) ... -> [tail]
        let mut at = 0;
        ensure!(t.contains(&format!("num: {}", self.set.len())) && t.contains(&format!("height: {}", self.list.height())), "report {t:?} of {} keys", self.set.len());
        for k in &self.set {
            let k = format!("{}(", String::from_utf8_lossy(k));
            match t[at..].find(&k) { Some(i) => at += i + k.len(), None => fail(format!("report {t:?} does not list {k:?} in order; {}", self.story())) }
        }
        ensure!(t[at..].contains("[tail]"), "report {t:?} has no end");
    }
}
pub fn show(k: &[u8]) -> String { format!("{:?}", String::from_utf8_lossy(k)) }
pub fn shows(v: &[Vec<u8>]) -> String { v.iter().map(|k| show(k)).collect::<Vec<_>>().join(",") }

/// A list of `n` keys of 4 bytes, put in ascending, descending or mixed, towers from the fixed sequence.
pub fn crowd(n: usize, order: usize) -> Both {
    unsteer();
    let mut b = Both::new(Order::Bytewise);
    b.log.push(format!("{n} keys, {}", ["ascending", "descending", "mixed"][order]));
    for i in 0..n {
        let j = match order { 0 => i, 1 => n - 1 - i, _ => i * 7919 % n };
        let u = sut("slice", || us(&(j as u32 * 2).to_be_bytes(), &b.arena));
        let r = sut("insert", || b.list.insert(u).map_err(|e| e.to_string()));
        ensure!(r.is_ok(), "insertion {i} of {} fails: {r:?}", b.story());
        step();
    }
    b.set = (0..n).map(|j| (j as u32 * 2).to_be_bytes().to_vec()).collect();
    b
}
