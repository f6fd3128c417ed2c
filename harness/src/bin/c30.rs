//! C30: a linked list is a sequence.
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use mc::*;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

static ALIVE: AtomicI64 = AtomicI64::new(0);
struct V(u32, Box<u32>);
impl V { fn new(n: u32) -> V { ALIVE.fetch_add(1, SeqCst); V(n, Box::new(n)) } }
impl Drop for V { fn drop(&mut self) { ALIVE.fetch_sub(1, SeqCst); } }

fn st<T>(r: level_db_rust::util::Result<T>) -> Result<T, String> { r.map_err(|e| e.to_string()) }
fn judge(l: &LinkedList<V>, m: &[u32], hist: &dyn Fn() -> String) {
    ensure!(sut("length", || l.length()) == m.len(), "length is {}, expected {}; {}", l.length(), m.len(), hist());
    for i in (0..m.len() + 2).chain([usize::MAX]) {
        let g = sut("get", || st(l.get(i)).map(|o| o.map(|v| (v.0, *v.1))));
        let h = sut("get_mut", || st(l.get_mut(i)).map(|o| o.map(|v| (v.0, *v.1))));
        step();
        for (n, g) in [("get", g), ("get_mut", h)] {
            match m.get(i) {
                Some(w) => ensure!(g == Ok(Some((*w, *w))), "{n}({i}) of {m:?} is {g:?}; {}", hist()),
                None => ensure!(g.is_err(), "{n}({i}) beyond the {} elements is {g:?}; {}", m.len(), hist()),
            }
        }
    }
    ensure!(ALIVE.load(SeqCst) == m.len() as i64, "{} elements are alive, the list has {}", ALIVE.load(SeqCst), m.len());
}
fn main() {
    Check::new("C30", "model_checking", "every sequence of additions at the front, the back and every position up to a depth, every element read both ways after each, against a vector; a state is the sequence of elements")
        .assume("removals are not implemented and are outside")
        .scenario("sequences", format!("every sequence of up to {} operations: push, add, add_first, add_last, add at every position and beyond, writes through get_mut", by_tier(6, 7)), || {
            let live = alloc::live();
            ALIVE.store(0, SeqCst);
            let mut l: LinkedList<V> = if flag() { sut("new", LinkedList::new) } else { sut("default", LinkedList::default) };
            let mut m: Vec<u32> = vec![];
            let mut hist = vec![];
            judge(&l, &m, &|| format!("{hist:?}"));
            for k in 0..by_tier(6, 7) as u32 {
                let v = 10 + k;
                let c = choose(5 + m.len() + 3);
                if c == 0 { break }
                hist.push(c);
                let x = sut("element", || V::new(v));
                match c {
                    1 => { sut("push", || l.push(x)); m.insert(0, v) }
                    2 => { sut("add", || l.add(x)); m.push(v) }
                    3 => { let r = sut("add_first", || st(l.add_first(x))); ensure!(r == Ok(true), "add_first: {r:?}"); m.insert(0, v) }
                    4 => { let r = sut("add_last", || st(l.add_last(x))); ensure!(r == Ok(true), "add_last: {r:?}"); m.push(v) }
                    _ => {
                        let p = c - 5;
                        let r = sut("add_by_position", || st(l.add_by_position(p, x)));
                        if p <= m.len() { ensure!(r == Ok(true), "add_by_position({p}) to {} elements: {r:?}", m.len()); m.insert(p, v) }
                        else { ensure!(r.is_err(), "add_by_position({p}) to {} elements: {r:?}", m.len()) }
                    }
                }
                judge(&l, &m, &|| format!("operations {hist:?}"));
                state(&m);
            }
            sut("drop", || drop(l));
            ensure!(ALIVE.load(SeqCst) == 0 && alloc::live() == live, "{} elements and {} blocks remain after the list is gone; {hist:?}", ALIVE.load(SeqCst), alloc::live().0 - live.0);
        })
        .scenario("writes", "lists of 0..20 elements: each element written through get_mut is the one read back", || {
            ALIVE.store(0, SeqCst);
            let n = 1 + choose(20);
            let p = choose(n);
            let mut l: LinkedList<V> = LinkedList::new();
            let mut m = vec![];
            for i in 0..n as u32 { sut("add", || l.add(V::new(i))); m.push(i) }
            sut("get_mut", || if let Ok(Some(v)) = l.get_mut(p) { v.0 = 99; *v.1 = 99 } else { fail(format!("get_mut({p})")) });
            m[p] = 99;
            let r = sut("add_by_position", || st(l.add_by_position(p, V::new(77))));
            ensure!(r == Ok(true), "{r:?}");
            m.insert(p, 77);
            judge(&l, &m, &|| format!("n {n} p {p}"));
            state(&m);
        })
        .scenario("long", "lists of 0..200 elements built from either end, one more in the middle", || {
            ALIVE.store(0, SeqCst);
            let n = choose(201);
            let w = choose(3);
            let mut l: LinkedList<V> = LinkedList::new();
            let mut m: Vec<u32> = vec![];
            for i in 0..n as u32 {
                if w == 0 || w == 2 && i % 2 == 0 { sut("add", || l.add(V::new(i))); m.push(i) } else { sut("push", || l.push(V::new(i))); m.insert(0, i) }
            }
            let p = n / 2;
            let r = sut("add_by_position", || st(l.add_by_position(p, V::new(1000))));
            ensure!(r == Ok(true), "{r:?}");
            m.insert(p, 1000);
            judge(&l, &m, &|| format!("n {n} from {w}"));
            state(&m);
        })
        .scenario("far", "lists of 257, 1000 and 66000 elements: elements read, written and added at positions around 2^7, 2^8 and 2^16 and at both ends", || {
            ALIVE.store(0, SeqCst);
            let n = *pick(&[257u32, 1000, 66000]);
            let at: Vec<usize> = [0usize, 1, 126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536, 65537, n as usize / 2, n as usize - 1].into_iter().filter(|p| *p < n as usize).collect();
            let p = *pick(&at);
            let mut l: LinkedList<V> = LinkedList::new();
            let mut m: Vec<u32> = vec![];
            for i in 0..n { sut("add", || l.add(V::new(i))); m.push(i) }
            let look = |l: &LinkedList<V>, m: &[u32]| {
                ensure!(sut("length", || l.length()) == m.len(), "length is {}, expected {}", l.length(), m.len());
                for i in at.iter().flat_map(|p| [*p, *p + 1]).chain([m.len() - 1, m.len()]) {
                    let g = sut("get", || st(l.get(i)).map(|o| o.map(|v| (v.0, *v.1))));
                    match m.get(i) { Some(w) => ensure!(g == Ok(Some((*w, *w))), "get({i}) of {} is {g:?}, expected {w}", m.len()), None => ensure!(g.is_err(), "get({i}) beyond {} elements is {g:?}", m.len()) }
                    step();
                }
            };
            look(&l, &m);
            sut("get_mut", || if let Ok(Some(v)) = l.get_mut(p) { v.0 = 1 << 30; *v.1 = 1 << 30 } else { fail(format!("get_mut({p})")) });
            m[p] = 1 << 30;
            look(&l, &m);
            let r = sut("add_by_position", || st(l.add_by_position(p, V::new(1 << 29))));
            ensure!(r == Ok(true), "{r:?}");
            m.insert(p, 1 << 29);
            look(&l, &m);
            sut("drop", || drop(l));
            ensure!(ALIVE.load(SeqCst) == 0, "elements remain");
            state(&(n, p));
        }).split(2)
        .scenario("deep", "dropping a list of 300000 elements", || {
            ALIVE.store(0, SeqCst);
            let mut l: LinkedList<V> = LinkedList::new();
            for i in 0..300_000 { l.add(V::new(i)) }
            sut("drop", || drop(l));
            ensure!(ALIVE.load(SeqCst) == 0, "elements remain");
            step(); state(&0);
        }).split(0)
        .run()
}
