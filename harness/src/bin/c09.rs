//! C09: checksums are CRC-32C, however the data lies in memory or is split.
use h::refs::*;
use level_db_rust::util::crc::{AsCrc, ToMask, CRC};
use level_db_rust::util::slice::Slice;
use mc::*;

fn pat(style: usize, n: usize) -> Vec<u8> {
    match style { 0 => vec![0; n], 1 => vec![0xff; n], 2 => (0..n).map(|i| i as u8).collect(), 3 => (0..n).map(|i| !(i as u8)).collect(), _ => (0..n).map(|i| ((i * 167 + 59) ^ (i >> 2)) as u8).collect() }
}
fn main() {
    let n = by_tier(80, 200);
    let mut c = Check::new("C09", "model_checking", "every length, every alignment and every split of fixed patterns, every single-bit string, every string of 1 and 2 bytes, and every 32 bit value for masking, against a bitwise reference; a state is (data, alignment, initial value)")
        .scenario("alignments", format!("lengths 0..{n} at 16 alignments, 5 patterns, 4 initial values"), move || {
            let len = choose(n + 1);
            let al = choose(16);
            let style = choose(5);
            let data = pat(style, len);
            // exactly sized block so that reads beyond the data are seen
            let l = std::alloc::Layout::from_size_align(al + len, 16).unwrap();
            let mut v = vec![0u8; al + len];
            v.reserve_exact(0);
            let _ = l;
            v[al..].copy_from_slice(&data);
            for init in [0u32, 1, 0xdeadbeef, u32::MAX] {
                let g = sut("extend", || CRC::extend(init, &v[al..]));
                let w = crc32c_extend(init, &data);
                step();
                ensure!(g == w, "extending {init:08x} by {len} bytes (pattern {style}) at alignment {al} gives {g:08x}, expected {w:08x}");
                state(&(len, al, style, init));
            }
            let w = crc32c(&data);
            ensure!(CRC::value(&v[al..]) == w, "value of {len} bytes at alignment {al}");
            ensure!((&v[al..]).as_crc() == w && v[al..].as_crc() == w, "as_crc of a byte slice of {len} bytes");
            ensure!(data.as_crc() == w, "as_crc of a vector of {len} bytes");
            ensure!(Slice::from_buf(&data).as_crc() == w, "as_crc of a Slice of {len} bytes");
            if let Ok(s) = std::str::from_utf8(&data) { ensure!(s.as_crc() == w && String::from(s).as_crc() == w, "as_crc of a string of {len} bytes"); }
        })
        .scenario("splits", "every split of strings of 0..70 bytes into two and of 24 bytes into three parts", || {
            let len = choose(71);
            let data = pat(4, len);
            let w = crc32c(&data);
            for i in 0..=len {
                let g = CRC::extend(CRC::value(&data[..i]), &data[i..]);
                let e = (&data[i..]).as_crc_extend(CRC::value(&data[..i]));
                ensure!(g == w && e == w, "{len} bytes split at {i}: {g:08x}/{e:08x}, in one piece {w:08x}");
                step(); state(&(len, i));
                if len == 24 { for j in i..=len { let g = CRC::extend(CRC::extend(CRC::value(&data[..i]), &data[i..j]), &data[j..]); ensure!(g == w, "24 bytes split at {i} and {j}"); step(); } }
            }
        })
        .scenario("huge", format!("zeros of 2^24, 2^25 .. 2^{} bytes and 3 more, from an initial value, behind a byte, and split after 2^23 bytes", by_tier(32, 33)), || {
            let n = (1usize << (24 + choose(by_tier(9, 10)))) + 3;
            alloc::cap(1 << 40);
            let d = vec![0u8; n];
            let g = match choose(3) {
                0 => (sut("extend", || CRC::extend(0xdeadbeef, &d)), crc32c_zeros(0xdeadbeef, n as u64)),
                1 => (sut("value", || CRC::value(&d[1..])), crc32c_zeros(0, n as u64 - 1)),
                _ => (sut("extend", || CRC::extend(CRC::value(&d[..1 << 23]), &d[1 << 23..])), crc32c_zeros(0, n as u64)),
            };
            ensure!(g.0 == g.1, "checksum of {n} zeros is {:08x}, expected {:08x}", g.0, g.1);
            step(); state(&(n, g.1));
        }).split(2)
        .scenario("single-bits", "every string of 1..40 bytes with exactly one bit set, at 4 alignments", || {
            let len = 1 + choose(40);
            let al = choose(4);
            let mut v = vec![0u8; al + len];
            for bit in 0..8 * len {
                v[al + bit / 8] = 1 << (bit % 8);
                let g = CRC::value(&v[al..]);
                let w = crc32c(&v[al..]);
                ensure!(g == w, "bit {bit} of {len} bytes at alignment {al}: {g:08x}, expected {w:08x}");
                v[al + bit / 8] = 0;
                step(); state(&(len, al, bit));
            }
        })
        .scenario("single-values", "all 256 values of every byte of strings of 16..80 bytes that are otherwise zero, at 2 alignments, so that every entry of every table is used", || {
            let len = 16 + choose(65);
            let al = 3 * choose(2);
            let mut v = vec![0u8; al + len];
            for i in 0..len {
                for x in 0..=255u8 {
                    v[al + i] = x;
                    let g = CRC::value(&v[al..]);
                    let w = crc32c(&v[al..]);
                    ensure!(g == w, "{len} zero bytes with {x:02x} at {i}, alignment {al}: {g:08x}, expected {w:08x}");
                }
                v[al + i] = 0;
                steps(256); state(&(len, al, i));
            }
        })
        .scenario("initial-values", "every value of each byte of the initial value, for 0..40 bytes", || {
            let len = choose(41);
            let data = pat(4, len);
            for sh in [0, 8, 16, 24] { for x in 0..256u32 {
                let init = x << sh;
                let g = CRC::extend(init, &data);
                let w = crc32c_extend(init, &data);
                ensure!(g == w, "extending {init:08x} by {len} bytes gives {g:08x}, expected {w:08x}");
            } }
            steps(1024); state(&len);
        })
        .scenario("long", format!("lengths -17..=17 around every power of two from 2^7 to 2^{}, whole and split at the power", by_tier(17, 21)), || {
            let k = 7 + choose(by_tier(11, 15));
            let len = (1usize << k) - 17 + choose(35);
            let data = pat(4, len);
            let g = CRC::value(&data);
            let w = crc32c(&data);
            ensure!(g == w, "value of {len} bytes is {g:08x}, expected {w:08x}");
            let at = len.min(1 << k) / 2 + 5;
            let g = CRC::extend(CRC::value(&data[..at]), &data[at..]);
            ensure!(g == w, "{len} bytes split at {at}: {g:08x}, in one piece {w:08x}");
            step(); state(&len);
        })
        .scenario("two-bytes", "every string of 1 and 2 bytes", || {
            let a = choose(256) as u8;
            ensure!(CRC::value(&[a]) == crc32c(&[a]), "value of {a:02x}");
            for b in 0..=255u8 {
                let g = CRC::value(&[a, b]);
                ensure!(g == crc32c(&[a, b]), "value of {a:02x} {b:02x} is {g:08x}, expected {:08x}", crc32c(&[a, b]));
                step();
            }
            state(&a);
        })
        .scenario("typed", "slices of wider integers are taken byte for byte", || {
            let n = choose(9);
            let w: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(0x9E3779B9)).collect();
            let b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
            let g = sut("as_crc", || w.as_slice().as_crc());
            ensure!(g == crc32c(&b) && w.as_crc() == g, "as_crc of {n} u32 values");
            let w: Vec<u64> = (0..n as u64).map(|i| i.wrapping_mul(0x9E3779B97F4A7C15)).collect();
            let b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
            ensure!(w.as_slice().as_crc() == crc32c(&b), "as_crc of {n} u64 values");
            step(); state(&n);
        })
        .scenario("mask", "every 32 bit checksum: mask equals the reference, unmask undoes it, no checksum masks to itself", || {
            let hi = (choose(256) as u32) << 24;
            for lo in 0..1u32 << 24 {
                let x = hi | lo;
                let m = CRC::mask(x);
                ensure!(m == crc_mask(x), "mask({x:08x}) is {m:08x}, expected {:08x}", crc_mask(x));
                ensure!(CRC::unmask(m) == x, "unmask(mask({x:08x})) is {:08x}", CRC::unmask(m));
                if lo & 0xffff == 0 { ensure!(x.to_mask() == m && ToMask::unmask(m) == x, "to_mask({x:08x})"); }
            }
            steps(1 << 24);
            state(&hi);
        }).split(1);
    if thorough() {
        c = c.scenario("three-bytes", "every string of 3 bytes", || {
            let (a, b) = (choose(256) as u8, choose(256) as u8);
            for x in 0..=255u8 { let g = CRC::value(&[a, b, x]); ensure!(g == crc32c(&[a, b, x]), "value of {a:02x} {b:02x} {x:02x}"); }
            steps(256); state(&(a, b));
        });
    }
    c.run()
}
