//! C19: a skip list is the ordered set of the keys inserted, whatever the towers.
use h::sl::*;
use mc::*;

fn k(i: usize) -> Vec<u8> { [&b"b"[..], b"d", b"", b"dd", b"\xff", b"\0", b"c", b"ca"][i].to_vec() }
fn all(n: usize) -> Vec<Vec<u8>> { let mut v: Vec<_> = (0..n).map(k).collect(); v.push(b"a".to_vec()); v.push(b"zz".to_vec()); v.push(b"da".to_vec()); v }
fn main() {
    Check::new("C19", "model_checking", "every sequence of insertions up to a depth combined with every tower height of every node, over several orders, judged against a sorted set after every insertion; a state is the contents with the sequence of heights")
        .assume("the random source is replaced by the explorer, which decides every tower height")
        .scenario("sequences", format!("every sequence of {} insertions of 4 keys with repeats, heights 1..3 each", by_tier(5, 6)), || {
            steer();
            let mut b = Both::new(Order::Bytewise);
            let probes = all(4);
            b.judge(&probes);
            for _ in 0..by_tier(5, 6) {
                let c = choose(4);
                let fresh = !b.set.contains(&k(c));
                let h = if fresh { 1 + choose(3) } else { 1 + choose(2) };
                b.insert(&k(c), h);
                b.judge(&probes);
                state(&b.log);
            }
            b.report();
        }).split(4)
        .scenario("orders", format!("every order of {} distinct keys, heights 1, 2, 3 or 8 each", by_tier(5, 6)), || {
            steer();
            let n = by_tier(5, 6);
            let mut b = Both::new(Order::Bytewise);
            let mut left: Vec<usize> = (0..n).collect();
            while !left.is_empty() {
                let i = left.remove(choose(left.len()));
                b.insert(&k(i), *pick(if n - left.len() <= 4 { &[1usize, 2, 3, 8][..] } else { &[1, 3][..] }));
            }
            b.judge(&all(8));
            b.report();
            state(&b.log);
        }).split(4)
        .scenario("comparators", "orders other than bytewise: reverse, by length (distinct keys may be equal), 4 insertions, heights 1..3", || {
            steer();
            let mut b = Both::new(if flag() { Order::Reverse } else { Order::Length });
            for _ in 0..4 { let c = choose(5); b.insert(&k(c), 1 + choose(3)); b.judge(&all(5)); state(&(b.o as usize, &b.log)); }
        }).split(4)
        .scenario("incomparable", format!("{} insertions of keys some of which cannot be compared: refused and without effect, or placed in order", by_tier(4, 5)), || {
            steer();
            let mut b = Both::new(Order::Partial);
            let ks: [&[u8]; 5] = [b"0", b"?", b"a", b"z", b"?b"];
            let p: Vec<Vec<u8>> = ks.iter().map(|x| x.to_vec()).collect();
            for _ in 0..by_tier(4, 5) { let c = choose(5); b.insert(ks[c], 1 + choose(3)); b.judge(&p); state(&b.log); }
            b.report();
        }).split(4)
        .scenario("heights", "one, then 12 keys, all of one height 1..8, ascending, descending or inside out; a ninth tower cannot exist", || {
            steer();
            let h = 1 + choose(9);
            let n = 13i32;
            let o = choose(3);
            let mut b = Both::new(Order::Bytewise);
            for i in 0..n {
                let j = match o { 0 => i, 1 => n - 1 - i, _ => n / 2 + if i % 2 == 0 { i / 2 } else { -(i + 1) / 2 } };
                let key = format!("k{j:02}").into_bytes();
                b.insert(&key, h);
                ensure!(b.list.height() <= b.list.max_height(), "height {} above the maximum", b.list.height());
                b.judge(&[key, b"k".to_vec(), b"l".to_vec()]);
            }
            b.report();
            state(&b.log);
        })
        .scenario("many", "0..400 keys in 5 orders, heights from a fixed sequence or all equal, keys of 1..200 bytes", || {
            unsteer();
            let n = 4 * choose(101);
            let o = choose(5);
            let mut b = Both::new(Order::Bytewise);
            let mut keys: Vec<Vec<u8>> = vec![];
            for i in 0..n {
                let j = match o { 0 => i, 1 => n - i, 2 => i * 7919 % 1009, 3 => i * i % 97, _ => (i ^ 0x55) * 31 % 1024 };
                let mut key = format!("{j:05}").into_bytes();
                key.resize(1 + (j * 37) % 200, b'x');
                b.insert(&key, 1);
                keys.push(key);
            }
            let mut p = keys; p.truncate(60); p.push(b"00000".to_vec()); p.push(b"~".to_vec()); p.push(vec![]);
            b.judge(&p);
            state(&(n, o));
        })
        .scenario("crowd", format!("{} keys in 3 orders; every key is present, none between, all once in order, none taken twice", by_tier("65537 and 70000", "65535 to 65537, 70000 and 150000")), || {
            let n = *pick(by_tier(&[65537usize, 70000][..], &[65535, 65536, 65537, 70000, 150000]));
            let mut b = crowd(n, choose(3));
            b.judge(&[]);
            for j in 0..n {
                let k = (j as u32 * 2).to_be_bytes();
                let (is, not) = sut("contains", || (b.list.contains(&k), b.list.contains(&(j as u32 * 2 + 1).to_be_bytes())));
                ensure!(is && !not, "contains({k:02x?}) is {is}, contains its successor {not}; {}", b.story());
                step();
            }
            for j in [0, 1, 65535, n / 2, n - 1] { b.insert(&(j as u32 * 2).to_be_bytes(), 1); b.insert(&(j as u32 * 2 + 1).to_be_bytes(), 1) }
            b.judge(&[]);
            state(&(n, &b.log));
        }).split(2)
        .run()
}
