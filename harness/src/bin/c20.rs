//! C20: a skip list cursor stands where its moves put it, in key order.
use h::sl::*;
use level_db_rust::db::skip_list::Iter;
use level_db_rust::traits::DataIterator;
use mc::*;

/// Where the cursor must be: before the first key, on a key, or past the last.
#[derive(Clone, Debug, PartialEq, Hash)]
enum At { Start, Key(Vec<u8>), End }
fn next(at: &At, set: &[Vec<u8>]) -> At {
    let i = match at { At::Start => 0, At::Key(k) => set.iter().position(|x| x == k).unwrap() + 1, At::End => return At::End };
    set.get(i).map_or(At::End, |k| At::Key(k.clone()))
}
fn judge(c: &Iter<Cmp>, at: &At, what: &str) {
    let v = sut("valid", || c.valid());
    match at {
        At::Key(k) => {
            ensure!(v, "after {what} the cursor is not valid, expected it on {}", show(k));
            let g = sut("key", || c.key().as_ref().to_vec());
            ensure!(g == *k, "after {what} the cursor is on {}, expected {}", show(&g), show(k));
        }
        _ => {
            ensure!(!v, "after {what} the cursor is valid, expected {at:?}");
            ensure!(sut_try(|| c.key().as_ref().to_vec()).is_err(), "after {what} an invalid cursor gives a key");
        }
    }
    step();
}
fn list(n: usize) -> Both {
    let mut b = Both::new(Order::Bytewise);
    for i in 0..n { b.insert(format!("k{}", (i * 3 + 1) % 5 * 2).as_bytes(), 1 + choose(3)) }
    b
}
fn go(b: &mut Both, depth: usize, grow: bool) {
    let mut c = sut("iter", || b.list.iter());
    let mut at = At::Start;
    let mut hist = vec![];
    // an invalid cursor in a list that has grown since: only a seek says where it is
    let mut lost = false;
    let mut moved = false;
    for _ in 0..depth {
        let op = choose(if grow { 7 } else { 5 });
        match op {
            0 => break,
            3 | 4 if lost => assume(false),
            _ => {}
        }
        match op {
            1 => { hist.push("first"); lost = false; sut("seek_to_first", || c.seek_to_first()); at = next(&At::Start, &b.set) }
            2 => { hist.push("last"); lost = false; sut("seek_to_last", || c.seek_to_last()); at = b.set.last().map_or(At::End, |k| At::Key(k.clone())) }
            3 => { hist.push("next"); sut("next", || DataIterator::next(&mut c)); at = next(&at, &b.set) }
            4 => {
                hist.push("iterate");
                let g = sut("Iterator::next", || Iterator::next(&mut c).map(|s| s.as_ref().to_vec()));
                at = next(&at, &b.set);
                let w = match &at { At::Key(k) => Some(k.clone()), _ => None };
                ensure!(g == w, "after {hist:?} the iterator gives {g:?}, expected {w:?}; {}", b.story());
            }
            _ => { let k: &[u8] = if op == 5 { b"k3" } else { b"k9" }; hist.push(if op == 5 { "insert k3" } else { "insert k9" }); b.insert(k, 2); lost |= !matches!(at, At::Key(_)) && !(at == At::Start && !moved) }
        }
        moved |= op <= 4;
        judge(&c, &at, &format!("{hist:?} with {}", b.story()));
        state(&(&b.log, &hist, &at));
    }
}
fn main() {
    Check::new("C20", "model_checking", "every sequence of cursor moves up to a depth over every list of up to 3 keys with every choice of towers, with insertions in between, against a position in a sorted set; a state is the list, the moves and the position")
        .assume("moves that the code leaves unimplemented (seek, backwards) are outside")
        .scenario("moves", format!("every sequence of {} moves, lists of 0..3 keys, heights 1..3", by_tier(5, 6)), || {
            steer();
            let mut b = list(choose(4));
            go(&mut b, by_tier(5, 6), false);
        }).split(4)
        .scenario("growing", format!("every sequence of {} moves and insertions, lists of 0..3 keys, heights 1..3", by_tier(4, 5)), || {
            steer();
            let mut b = list(choose(4));
            go(&mut b, by_tier(4, 5), true);
        }).split(4)
        .scenario("towers", "5 keys, every combination of heights 1..4: first, last, whole traversal", || {
            steer();
            let mut b = Both::new(Order::Bytewise);
            for i in 0..5 { b.insert(format!("k{}", (i * 3 + 1) % 5 * 2).as_bytes(), 1 + choose(4)) }
            let mut c = sut("iter", || b.list.iter());
            sut("seek_to_last", || c.seek_to_last());
            judge(&c, &At::Key(b.set[4].clone()), "seek_to_last");
            sut("seek_to_first", || c.seek_to_first());
            for k in &b.set { judge(&c, &At::Key(k.clone()), "walking"); sut("next", || DataIterator::next(&mut c)); }
            judge(&c, &At::End, "walking past the last");
            sut("seek_to_last", || c.seek_to_last());
            judge(&c, &At::Key(b.set[4].clone()), "seek_to_last again");
            state(&b.log);
        })
        .scenario("long", "0..300 keys: traversal from the first, and the last key", || {
            unsteer();
            let n = choose(301);
            let mut b = Both::new(Order::Bytewise);
            for i in 0..n { b.insert(format!("{:04}", i * 7919 % 1009).as_bytes(), 1) }
            let mut c = sut("iter", || b.list.iter());
            judge(&c, &At::Start, "creation");
            sut("seek_to_first", || c.seek_to_first());
            let mut at = next(&At::Start, &b.set);
            for i in 0..n { ensure!(at == At::Key(b.set[i].clone()), "model"); judge(&c, &at, "walking"); sut("next", || DataIterator::next(&mut c)); at = b.set.get(i + 1).map_or(At::End, |k| At::Key(k.clone())); }
            judge(&c, &At::End, "walking past the last");
            sut("seek_to_last", || c.seek_to_last());
            judge(&c, &b.set.last().map_or(At::End, |k| At::Key(k.clone())), "seek_to_last");
            state(&n);
        })
        .scenario("crowd", format!("{} keys in 3 orders: traversal from the first, and the last key", by_tier("65537", "65535 to 65537 and 150000")), || {
            let b = crowd(*pick(by_tier(&[65537usize][..], &[65535, 65536, 65537, 150000])), choose(3));
            let mut c = sut("iter", || b.list.iter());
            sut("seek_to_first", || c.seek_to_first());
            for k in &b.set { judge(&c, &At::Key(k.clone()), "walking"); sut("next", || DataIterator::next(&mut c)); }
            judge(&c, &At::End, "walking past the last");
            sut("seek_to_last", || c.seek_to_last());
            judge(&c, &At::Key(b.set.last().unwrap().clone()), "seek_to_last");
            sut("seek_to_first", || c.seek_to_first());
            let mut n = 1;
            sut("Iterator", || for s in c.by_ref() { ensure!(s.as_ref() == b.set[n].as_slice(), "the iterator gives {} as key {n}, expected {}", show(s.as_ref()), show(&b.set[n])); n += 1; if n == b.set.len() { break } });
            state(&(b.set.len(), &b.log));
        }).split(1)
        .run()
}
