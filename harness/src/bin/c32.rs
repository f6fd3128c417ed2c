//! C32: the random number generator is reproducible and keeps its ranges for every seed.
use level_db_rust::util::random::Random;
use mc::*;

const M: u32 = 0x7fff_ffff;
fn seed(s: u32) -> u32 { if s == 0 || s == M { 1 } else { s } }
fn next(s: u32) -> u32 {
    let p = s.wrapping_mul(16807);
    let n = (p >> 31) + (p & M);
    if n > M { n - M } else { n }
}
fn main() {
    Check::new("C32", "model_checking", "every seed (all 2^32), and for each seed of a set every sequence of requests up to a depth, against a reference; a state is a generator state and a request")
        .scenario("seeds", "all 2^32 seeds: two draws each", || {
            let block = choose(1 << 12) as u32;
            let mut n = 0;
            let mut s = block << 20;
            let end = s | 0xf_ffff;
            loop {
                let mut r = Random::new(s);
                let (a, b) = (r.next(), r.next());
                let w = next(seed(s));
                if a != w || b != next(w) || a == 0 || a > M || b == 0 || b > M { fail(format!("seed {s}: draws {a} and {b}, expected {w} and {}", next(w))) }
                n += 1;
                if n & 0xffff == 0 { beat() }
                if end == s { break }
                s += 1;
            }
            steps(n); state(&block);
        })
        .scenario("requests", format!("every sequence of {} requests of 13 kinds from 8 seeds", by_tier(4, 5)), || {
            let s = *pick(&[0u32, 1, 301, M, M + 1, 0xdeadbeef, 0xffff_ffff, 537824]);
            let mut r = sut("new", || Random::new(s));
            let mut m = seed(s);
            for _ in 0..by_tier(4, 5) {
                m = next(m);
                let c = choose(13);
                let g: u64;
                let w: u64;
                match c {
                    0 => { g = sut("next", || r.next()) as u64; w = m as u64 }
                    1 => { g = sut("next_bool", || r.next_bool()) as u64; w = (m % 2 == 0) as u64 }
                    2..=5 => { let n = [1, 4, 1000, u32::MAX][c - 2]; g = sut("uniform", || r.uniform(n)) as u64; w = (m % n) as u64; ensure!(g < n as u64, "uniform({n}) gives {g}") }
                    6..=8 => { let n = [1, 4, 7][c - 6]; g = sut("one_in", || r.one_in(n)) as u64; w = (m % n == 0) as u64 }
                    _ => {
                        let n = [0, 1, 10, 31][c - 9];
                        let b = 1u32 << (m % (n + 1));
                        m = next(m);
                        g = sut("skewed", || r.skewed(n)) as u64;
                        w = (m % b) as u64;
                        ensure!(g < 1 << n, "skewed({n}) gives {g}");
                    }
                }
                step();
                ensure!(g == w, "seed {s}, request {c}: {g}, expected {w}");
                state(&(m, c));
            }
        })
        .scenario("ranges", "uniform and one_in of every n up to 2000, skewed of every n up to 31, 4 seeds, 50 draws", || {
            let n = 1 + choose(2000) as u32;
            let s = *pick(&[1u32, 301, 0xdeadbeef, M - 1]);
            let mut r = sut("new", || Random::new(s));
            let mut m = seed(s);
            for _ in 0..50 {
                m = next(m);
                let g = sut("uniform", || r.uniform(n));
                ensure!(g == m % n, "seed {s}: uniform({n}) gives {g}, expected {}", m % n);
                m = next(m);
                ensure!(sut("one_in", || r.one_in(n)) == (m % n == 0), "seed {s}: one_in({n})");
                let k = n % 32;
                m = next(m);
                let b = 1u32 << (m % (k + 1));
                m = next(m);
                let g = sut("skewed", || r.skewed(k));
                ensure!(g == m % b, "seed {s}: skewed({k}) gives {g}, expected {}", m % b);
                steps(3);
            }
            state(&(n, s));
        })
        .run()
}
