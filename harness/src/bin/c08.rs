//! C08: checked encoding and decoding never leave the buffer.
use h::refs::varint;
use level_db_rust::util::coding::{Decoder, Encoder};
use level_db_rust::util::slice::Slice;
use mc::*;

/// Reference decoder over a byte string.
struct Ref<'a> { b: &'a [u8], at: usize }
enum Want<T> { Ok(T, usize), Err, Either(T, usize) }
impl<'a> Ref<'a> {
    fn fixed(&self, n: usize) -> Want<u64> {
        if self.b.len() - self.at < n { return Want::Err }
        let mut v = 0u64;
        for i in 0..n { v |= (self.b[self.at + i] as u64) << (8 * i) }
        Want::Ok(v, self.at + n)
    }
    fn varint(&self, bits: u32) -> Want<u64> {
        let max = (bits as usize + 6) / 7;
        let mut v = 0u128;
        for i in 0..max {
            let Some(x) = self.b.get(self.at + i) else { return Want::Err };
            v |= ((*x & 127) as u128) << (7 * i);
            if *x < 128 {
                let t = if bits == 32 { v as u32 as u64 } else { v as u64 };
                // bits beyond the type may be dropped (as LevelDB does) or refused
                return if v >> bits != 0 { Want::Either(t, self.at + i + 1) } else { Want::Ok(t, self.at + i + 1) };
            }
        }
        Want::Err
    }
}
type R<T> = Result<T, String>;
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: R<T>, off: usize, want: Want<T>, r: &mut Ref, atomic: bool) {
    step();
    match (got, want) {
        (Ok(g), Want::Ok(w, o)) | (Ok(g), Want::Either(w, o)) => {
            ensure!(g == w, "{what} at {} of {:02x?} gives {g:x?}, expected {w:x?}", r.at, r.b);
            ensure!(off == o, "{what} at {} of {:02x?} moves to {off}, expected {o}", r.at, r.b);
            r.at = o;
        }
        (Err(_), Want::Err) | (Err(_), Want::Either(..)) => {
            ensure!(off <= r.b.len(), "{what} failed and left the decoder at {off}, beyond the end of {:02x?}", r.b);
            if atomic { ensure!(off == r.at, "{what} failed at {} of {:02x?} but moved the decoder to {off}", r.at, r.b); }
            r.at = off;
        }
        (Ok(g), Want::Err) => fail(format!("{what} at {} of {:02x?} must be refused, it gives {g:x?}", r.at, r.b)),
        (Err(e), Want::Ok(w, _)) => fail(format!("{what} at {} of {:02x?} is refused ({e}), expected {w:x?}", r.at, r.b)),
    }
}
fn ask(d: &mut Decoder, r: &mut Ref, op: usize) {
    let e = |s: level_db_rust::util::status::Status| s.to_string();
    match op {
        0 => { let g = sut("get_fixed32", || d.get_fixed32().map(|x| x as u64).map_err(e)); same("get_fixed32", g, d.offset(), r.fixed(4), r, true) }
        1 => { let g = sut("get_fixed64", || d.get_fixed64().map_err(e)); same("get_fixed64", g, d.offset(), r.fixed(8), r, true) }
        2 => { let g = sut("get_varint32", || d.get_varint32().map(|x| x as u64).map_err(e)); same("get_varint32", g, d.offset(), r.varint(32), r, true) }
        3 => { let g = sut("get_varint64", || d.get_varint64().map_err(e)); same("get_varint64", g, d.offset(), r.varint(64), r, true) }
        4 => {
            let g = sut("get_length_prefixed_slice", || d.get_length_prefixed_slice().map(|s| s.to_vec()).map_err(e));
            let w = match r.varint(32) {
                Want::Err => Want::Err,
                Want::Ok(n, o) => if n as usize <= r.b.len() - o { Want::Ok(r.b[o..o + n as usize].to_vec(), o + n as usize) } else { Want::Err },
                Want::Either(n, o) => if n as usize <= r.b.len() - o { Want::Either(r.b[o..o + n as usize].to_vec(), o + n as usize) } else { Want::Err },
            };
            same("get_length_prefixed_slice", g, d.offset(), w, r, true)
        }
        k => {
            let ns = [0usize, 1, 2, 3, 5, 9, usize::MAX, usize::MAX - 2, isize::MAX as usize, 1 << 32];
            let n = *pick(&ns);
            let left = r.b.len() - r.at;
            let fits = n <= left;
            if k == 5 {
                let g = sut("get_buf", || d.get_buf(n).map(|s| s.to_vec()).map_err(e));
                let w = if fits { let v = r.b[r.at..r.at + n].to_vec(); if n == 0 && left == 0 { Want::Either(v, r.at) } else { Want::Ok(v, r.at + n) } } else { Want::Err };
                same(&format!("get_buf({n})"), g, d.offset(), w, r, true)
            } else {
                let g = sut("skip", || d.skip(n).map_err(e));
                let w = if fits { if left == 0 { Want::Either(r.at, r.at) } else { Want::Ok(r.at + n, r.at + n) } } else { Want::Err };
                same(&format!("skip({n})"), g, d.offset(), w, r, true)
            }
        }
    }
}
fn decode(bytes: &[u8], ops: usize) {
    // exactly sized heap blocks: a read beyond the end hits a red zone
    let kind = choose(3);
    let boxed: Box<[u8]> = bytes.to_vec().into_boxed_slice();
    let vec = { let mut v = Vec::with_capacity(bytes.len()); v.extend_from_slice(bytes); v };
    let slice = Slice::from_buf(bytes);
    let mut d = match kind { 0 => Decoder::with_buf(&boxed), 1 => Decoder::with_vec(&vec), _ => Decoder::with_slice(&slice) };
    let mut r = Ref { b: bytes, at: 0 };
    for _ in 0..ops {
        ensure!(d.can_get() == (r.at < bytes.len()), "can_get is {} at {} of {}", d.can_get(), r.at, bytes.len());
        let op = choose(7);
        ask(&mut d, &mut r, op);
        state(&(bytes, r.at));
    }
}
/// Bounded containers refuse what does not fit and keep the bytes around it.
fn encode(ops: usize, maxcap: usize) {
    let cap = choose(maxcap + 1);
    let use_slice = flag();
    let mut boxed: Box<[u8]> = vec![0xEE; cap].into_boxed_slice();
    let mut slice = Slice::from_buf(&boxed);
    let mut model: Vec<u8> = vec![];
    let mut sh = vec![];
    {
        let mut e = if use_slice { Encoder::with_slice(&mut slice) } else { Encoder::with_buf(&mut boxed) };
        for _ in 0..ops {
            let op = choose(10);
            let big: Vec<u8> = (0..200).map(|i| i as u8).collect();
            let enc: Vec<u8> = match op {
                0 => 0x04030201u32.to_le_bytes().to_vec(),
                1 => 0x0807060504030201u64.to_le_bytes().to_vec(),
                2 => varint(3), 3 => varint(20000), 4 => varint(u32::MAX as u64), 5 => varint(u64::MAX),
                6 => vec![7, 8, 9],
                7 => vec![],
                8 => vec![2, 1, 2],
                _ => big.clone(),
            };
            let fits = model.len() + enc.len() <= cap;
            let r = sut("a checked write", || match op {
                0 => e.put_fixed32(0x04030201),
                1 => e.put_fixed64(0x0807060504030201),
                2 => e.put_varint32(3), 3 => e.put_varint64(20000), 4 => e.put_varint32(u32::MAX), 5 => e.put_varint64(u64::MAX),
                6 => e.put_buf(&[7, 8, 9]),
                7 => e.put_buf(&[]),
                8 => e.put_length_prefixed_slice(&Slice::from_buf(&[1, 2])),
                _ => e.put_buf(&big),
            });
            step();
            sh.push((op, r.is_ok()));
            if fits && !(enc.is_empty() && model.len() == cap) {
                ensure!(r.is_ok(), "operation {op} needs {} bytes at {} of {cap} and is refused", enc.len(), model.len());
            }
            if !fits { ensure!(r.is_err(), "operation {op} needs {} bytes at {} of {cap} and is accepted", enc.len(), model.len()); }
            if r.is_ok() {
                model.extend(&enc);
                ensure!(e.offset() == model.len(), "the encoder stands at {}, {} bytes were written", e.offset(), model.len());
            } else {
                ensure!(e.offset() == model.len(), "a refused write moves the encoder to {}", e.offset());
            }
            state(&(cap, &sh));
        }
        ensure!(e.len() == cap, "the container's length changed to {}", e.len());
    }
    let got: &[u8] = if use_slice { &slice } else { &boxed };
    ensure!(got.len() == cap, "the container has {} bytes, it had {cap}", got.len());
    ensure!(got[..model.len()] == model[..], "the container holds {got:02x?}, expected {model:02x?}");
    ensure!(got[model.len()..].iter().all(|b| *b == 0xEE), "bytes beyond the written ones changed: {got:02x?}");
    outcome(format!("{} refused", sh.iter().filter(|s| !s.1).count()));
}
/// Writes of long data, or behind long data, with hardly enough room or hardly too little.
fn long_writes() {
    let before = *pick(&[0usize, 1, 127, 255, 256, 65534, 65535, 65536]);
    let len = *pick(&[0usize, 1, 126, 127, 128, 129, 255, 256, 257, 16383, 16384, 16385, 65534, 65535, 65536, 70000, (1 << 21) - 1, 1 << 21]);
    let kind = choose(6);
    let data: Vec<u8> = (0..len).map(|i| (i * 7 + i / 256) as u8).collect();
    let enc: Vec<u8> = match kind { 0 => data.clone(), 1 => [varint(len as u64), data.clone()].concat(), 2 => (len as u32).to_le_bytes().to_vec(), 3 => (len as u64).to_le_bytes().to_vec(), _ => varint(len as u64) };
    let need = before + enc.len();
    let Some(cap) = (need + 1).checked_sub(choose(6)) else { return };
    let use_slice = flag();
    let mut boxed: Box<[u8]> = vec![0xEE; cap].into_boxed_slice();
    let mut slice = Slice::from_buf(&boxed);
    let what = format!("write kind {kind} of length {len} behind {before} bytes in a {} of {cap}, needed {need}", if use_slice { "slice" } else { "buffer" });
    let mut at = 0;
    {
        let mut e = if use_slice { Encoder::with_slice(&mut slice) } else { Encoder::with_buf(&mut boxed) };
        if before > 0 {
            let r = sut("put_buf", || e.put_buf(&vec![0x11; before]));
            ensure!(r.is_ok() == (before <= cap), "put_buf of {before} bytes into {cap}: {}", r.is_ok());
            if r.is_err() { ensure!(e.offset() == 0, "a refused write moves the encoder"); return }
            at = before;
        }
        if at == cap && enc.is_empty() { return }
        let r = sut("a checked write", || match kind {
            0 => e.put_buf(&data), 1 => e.put_length_prefixed_slice(&Slice::from_buf(&data)), 2 => e.put_fixed32(len as u32), 3 => e.put_fixed64(len as u64),
            4 => e.put_varint32(len as u32), _ => e.put_varint64(len as u64) });
        step(); state(&(before, len, kind, cap, use_slice));
        ensure!(r.is_ok() == (need <= cap), "{what}: {}", if r.is_ok() { "accepted" } else { "refused" });
        if r.is_ok() { at = need }
        ensure!(e.offset() == at, "{what}: the encoder stands at {}, expected {at}", e.offset());
    }
    let got: &[u8] = if use_slice { &slice } else { &boxed };
    ensure!(got.len() == cap && got[..before] == vec![0x11; before][..] && (at == before || got[before..at] == enc[..]) && got[at..].iter().all(|b| *b == 0xEE), "{what}: the container does not hold what was written");
}
fn main() {
    let n = by_tier(5, 6);
    let m = by_tier(3, 4);
    Check::new("C08", "model_checking", "every byte string over a small alphabet of lead and continuation bytes is decoded by every sequence of checked reads, from exactly sized heap blocks under AddressSanitizer, against a reference decoder; every sequence of checked writes into containers of every small capacity; a state is (bytes, position) or (capacity, operations)")
        .assume("bits of a varint32 beyond bit 31 may be dropped or refused; a refused length prefixed write or read may have consumed its prefix; a zero length read at the very end may be refused")
        .scenario("strings", format!("all strings of 0..{n} bytes over 00 01 05 7f 80 ff, 1 read"), move || {
            let k = choose(n + 1);
            let b: Vec<u8> = (0..k).map(|_| *pick(&[0u8, 1, 5, 0x7f, 0x80, 0xff])).collect();
            decode(&b, 1)
        })
        .scenario("reads", format!("all strings of 0..{m} bytes over 00 02 7f 80 ff, all sequences of 3 reads"), move || {
            let k = choose(m + 1);
            let b: Vec<u8> = (0..k).map(|_| *pick(&[0u8, 2, 0x80, 0xff])).collect();
            decode(&b, by_tier(2, 3))
        })
        .scenario("long", "runs of 3..12 continuation bytes followed by each of 4 last bytes or nothing, then 0..2 more bytes", || {
            let k = 3 + choose(10);
            let c = *pick(&[0x80u8, 0xff, 0x81]);
            let mut b = vec![c; k];
            match choose(6) { 0 => {}, i => b.push([0, 1, 0x0f, 0x10, 0x7f][i - 1]) }
            for _ in 0..choose(3) { b.push(0x33) }
            let n = by_tier(1, 2);
            decode(&b, n)
        })
        .scenario("prefix-lengths", "length prefixes of every size class with 0..3 bytes behind them", || {
            let lens = [0u64, 1, 2, 3, 4, 127, 128, 16383, 16384, 1 << 21, 1 << 28, 0x7fff_ffff, 0x8000_0000, 0xffff_fffb, 0xffff_ffff, 1 << 33, (1 << 35) - 1];
            let mut b: Vec<u8> = vec![0x55; choose(2)];
            let skip = b.len();
            b.extend(varint(*pick(&lens)));
            for _ in 0..choose(4) { b.push(1) }
            let boxed: Box<[u8]> = b.clone().into_boxed_slice();
            let mut d = Decoder::with_buf(&boxed);
            let mut r = Ref { b: &b, at: 0 };
            for _ in 0..skip { ensure!(d.skip(1).is_ok(), "skip refused"); r.at += 1; }
            ask(&mut d, &mut r, 4);
            let k = choose(7);
            ask(&mut d, &mut r, k);
            state(&(&b, r.at));
        })
        .scenario("writes", "all sequences of 3 checked writes into buffers and slices of 0..13 bytes", || encode(by_tier(3, 4), by_tier(13, 20)))
        .scenario("long writes", "each kind of write of lengths around 2^7, 2^8, 2^14, 2^16 and 2^21, behind 0 to 65536 bytes, with 4 bytes too little to one too many of room", long_writes)
        .run()
}
