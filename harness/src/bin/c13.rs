//! C13: filter blocks have LevelDB's layout and lose no key.
use h::refs::*;
use level_db_rust::table::filter_block::*;
use level_db_rust::traits::filter_policy_trait::{FilterPolicy, FilterPolicyPtr};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use mc::*;
use std::sync::Arc;

/// A policy whose filters are the list of the keys.
struct Listing;
impl FilterPolicy for Listing {
    fn name(&self) -> String { "listing".into() }
    fn create_filter(&self, keys: Vec<&Slice>) -> Slice { Slice::from_vec(listing(&keys.iter().map(|k| k.as_ref().to_vec()).collect::<Vec<_>>())) }
    fn create_filter_with_len(&self, _: usize, keys: Vec<&Slice>) -> Slice { self.create_filter(keys) }
    fn key_may_match(&self, key: &Slice, f: &Slice) -> bool { listing_has(f, key) }
}
fn listing(keys: &[Vec<u8>]) -> Vec<u8> { let mut o = vec![keys.len() as u8]; for k in keys { o.extend((k.len() as u16).to_le_bytes()); o.extend(k) } o }
fn listing_has(f: &[u8], key: &[u8]) -> bool {
    let mut p = 1;
    for _ in 0..f[0] { let n = u16::from_le_bytes([f[p], f[p + 1]]) as usize; if &f[p + 2..p + 2 + n] == key { return true } p += 2 + n }
    false
}
#[derive(Clone, Copy, PartialEq)]
enum P { List, Bloom }
fn make(p: P, keys: &[Vec<u8>]) -> Vec<u8> { match p { P::List => listing(keys), P::Bloom => bloom_create(10, keys.len(), keys) } }

struct Ref { p: P, out: Vec<u8>, offs: Vec<u32>, pend: Vec<Vec<u8>> }
impl Ref {
    fn gen(&mut self) {
        self.offs.push(self.out.len() as u32);
        if !self.pend.is_empty() { let f = make(self.p, &self.pend); self.out.extend(f); self.pend.clear(); }
    }
    fn start(&mut self, off: u64) { while (self.offs.len() as u64) < off / 2048 { self.gen() } }
    fn finish(mut self) -> Vec<u8> {
        if !self.pend.is_empty() { self.gen() }
        let at = self.out.len() as u32;
        for o in &self.offs { self.out.extend(o.to_le_bytes()) }
        self.out.extend(at.to_le_bytes());
        self.out.push(11);
        self.out
    }
}
/// What a reader finds for a data block at `off`.
fn filter_for(block: &[u8], off: u64) -> Option<&[u8]> {
    let n = block.len();
    let lg = block[n - 1];
    let at = u32::from_le_bytes(block[n - 5..n - 1].try_into().unwrap()) as usize;
    let num = (n - 5 - at) / 4;
    let i = (off >> lg) as usize;
    if i >= num { return None }
    let w = |i: usize| u32::from_le_bytes(block[at + 4 * i..at + 4 * i + 4].try_into().unwrap()) as usize;
    Some(&block[w(i)..w(i + 1)])
}
#[derive(Clone, Debug)]
enum Op { Start(u64), Key(Vec<u8>), Str(String) }

fn judge(p: P, ops: &[Op], cap: Option<usize>) {
    let pol: FilterPolicyPtr = match p { P::List => Arc::new(Box::new(Listing)), P::Bloom => Arc::new(Box::new(BloomFilterPolicy::new())) };
    let mut r = Ref { p, out: vec![], offs: vec![], pend: vec![] };
    let mut placed = vec![];
    let mut off = 0;
    let got = sut("building a filter block", || {
        let mut b = match cap { None => FilterBlockBuilder::new_with_policy(pol.clone()), Some(c) => FilterBlockBuilder::new_with_policy_capacity(pol.clone(), c) };
        for o in ops {
            step();
            match o {
                Op::Start(o) => { b.start_block(*o); r.start(*o); off = *o }
                Op::Key(k) => { b.add_key(&Slice::from_buf(k)); r.pend.push(k.clone()); placed.push((off, k.clone())) }
                Op::Str(k) => { b.add_key_from_str(k); r.pend.push(k.clone().into_bytes()); placed.push((off, k.clone().into_bytes())) }
            }
            ensure!(b.get_result() == r.out && b.get_tmp_filter_offsets() == r.offs, "after {}: {} bytes of filters at {:?}, expected {} at {:?}", head(ops), b.get_result().len(), head(&b.get_tmp_filter_offsets()), r.out.len(), head(&r.offs));
            ensure!(b.get_keys() == r.pend.concat(), "keys waiting for a filter: {:02x?}, expected {:02x?}", b.get_keys(), r.pend);
        }
        match b.finish() { Ok(s) => s, Err(e) => fail(format!("finish failed: {}", e.to_string())) }
    });
    let want = r.finish();
    state(got.as_ref());
    for (o, k) in &placed {
        let f = filter_for(got.as_ref(), *o);
        let hit = match f { None => false, Some(f) if f.is_empty() => false, Some(f) => match p { P::List => listing_has(f, k), P::Bloom => bloom_may_match(k, f) } };
        ensure!(hit, "key {k:02x?} of the data block at {o} is not in the filter a reader consults, {f:02x?}; ops {}", head(ops));
    }
    ensure!(got.as_ref() == want.as_slice(), "block is {}, LevelDB's is {}; ops {}", head(got.as_ref()), head(&want), head(ops));
}
/// The first and last of many.
fn head<T: std::fmt::Debug>(v: &[T]) -> String { let n = v.len(); if n <= 60 { format!("{v:02x?}") } else { format!("{n} of {:02x?} .. {:02x?}", &v[..20], &v[n - 20..]) } }
fn key(i: usize) -> Op {
    match i { 0 => Op::Key(b"k".to_vec()), 1 => Op::Key(vec![]), 2 => Op::Key(vec![0xff, 0, 0x80]), _ => Op::Str("hello".into()) }
}
fn main() {
    Check::new("C13", "model_checking", "every sequence of starts and additions up to a depth, offsets around the 2 KiB boundaries, against a reference builder after every operation, and a reference reader for every key; a state is a block")
        .scenario("sequences", format!("every sequence of up to {} operations: 7 offset increments, 4 keys; 2 policies", by_tier(5, 7)), || {
            let p = if flag() { P::List } else { P::Bloom };
            let mut ops = vec![];
            let mut off = 0u64;
            for _ in 0..by_tier(5, 7) {
                let c = choose(12);
                if c == 0 { break }
                if c < 8 { off += [0, 1, 2047, 2048, 2049, 4096, 9000][c - 1]; ops.push(Op::Start(off)) } else { ops.push(key(c - 8)) }
            }
            judge(p, &ops, None);
        })
        .scenario("offsets", "every data block offset 0..9000, alone and followed by a second block; a key in each", || {
            let o = choose(9001) as u64;
            let d = *pick(&[0u64, 1, 100, 2047, 2048, 5000]);
            judge(P::List, &[Op::Start(0), key(0), Op::Start(o), key(2), Op::Start(o + d), key(3)], None);
            judge(P::List, &[Op::Start(o), key(0)], None);
            judge(P::List, &[Op::Start(0), Op::Start(o)], None);
        })
        .scenario("counts", "0..80 keys of 0..64 bytes in one or many blocks, 2 policies, 3 capacities", || {
            let n = choose(81);
            let p = if flag() { P::List } else { P::Bloom };
            let per = *pick(&[1usize, 3, 1000]);
            let mut ops = vec![Op::Start(0)];
            for i in 0..n { if i > 0 && i % per == 0 { ops.push(Op::Start((i / per) as u64 * 1500)) } ops.push(Op::Key(vec![i as u8; (i * 7) % 65])) }
            judge(p, &ops, *pick(&[None, Some(0), Some(1000)]));
        })
        .scenario("far", "data blocks just before, at and after 4 and 8 GiB into the file, after none, one or 300 filters", || {
            let mut ops = vec![];
            let n = *pick(&[0u64, 1, 300]);
            for i in 0..n { ops.push(Op::Start(i * 2048)); ops.push(Op::Key(i.to_le_bytes()[..2].to_vec())) }
            ops.push(Op::Start(*pick(&[(1u64 << 32) - 1, 1 << 32, (1 << 32) + 2047, (1 << 32) + 2048, 1 << 33])));
            ops.push(key(2));
            judge(P::List, &ops, None);
        }).split(2)
        .scenario("crowded", "data blocks of 255 to 257 and 65535 to 66000 keys with a bloom filter, a smaller block after them", || {
            let n = *pick(&[255usize, 256, 257, 65535, 65536, 65537, 66000]);
            let ks: Vec<Vec<u8>> = (0..n as u32).map(|i| i.to_le_bytes()[..3].to_vec()).collect();
            let mut r = Ref { p: P::Bloom, out: vec![], offs: vec![], pend: vec![] };
            let got = sut("building a filter block", || {
                let mut b = FilterBlockBuilder::new_with_policy(Arc::new(Box::new(BloomFilterPolicy::new_with_bits_per_key(10))));
                b.start_block(0); r.start(0);
                for k in &ks { b.add_key(&Slice::from_buf(k)); r.pend.push(k.clone()) }
                step();
                b.start_block(5000); r.start(5000);
                b.add_key_from_str("x"); r.pend.push(b"x".to_vec());
                match b.finish() { Ok(s) => s, Err(e) => fail(format!("finish failed: {}", e.to_string())) }
            });
            let f = filter_for(got.as_ref(), 0);
            for k in &ks { ensure!(f.is_some_and(|f| bloom_may_match(k, f)), "key {k:02x?} of {n} is not in the filter of its block"); }
            ensure!(got.as_ref() == r.finish().as_slice(), "the block of {n} keys is not LevelDB's");
            state(&n);
        }).split(1)
        .scenario("large", "data blocks up to 64 MiB into the file, filters beyond 64 KiB", || {
            let k = choose(3);
            let mut ops = vec![Op::Start(0), Op::Key(vec![7; 60000]), Op::Key(vec![8; 65535])];
            ops.push(Op::Start([1u64 << 20, 1 << 26, (1 << 26) + 2047][k]));
            ops.push(key(0)); ops.push(Op::Start([1u64 << 21, (1 << 26) + 2048, 1 << 27][k])); ops.push(key(2));
            judge(P::List, &ops, None);
        }).split(1)
        .run()
}
