//! C07: what the encoder writes is the LevelDB encoding, and the decoder reads it back.
use h::refs::varint;
use level_db_rust::util::coding::{varint_length, Decoder, Encoder};
use level_db_rust::util::slice::Slice;
use mc::*;

#[derive(Clone, Debug, PartialEq)]
enum V { F32(u32), F64(u64), V32(u32), V64(u64), B(Vec<u8>), L(Vec<u8>) }
fn reference(v: &V) -> Vec<u8> {
    match v {
        V::F32(x) => x.to_le_bytes().to_vec(),
        V::F64(x) => x.to_le_bytes().to_vec(),
        V::V32(x) => varint(*x as u64),
        V::V64(x) => varint(*x),
        V::B(b) => b.clone(),
        V::L(b) => { let mut o = varint(b.len() as u64); o.extend(b); o }
    }
}
/// The beginning of what would be shown.
fn brief(d: &dyn std::fmt::Debug) -> String { let s = format!("{d:02x?}"); if s.len() > 600 { format!("{}..", &s[..600]) } else { s } }
fn put(e: &mut Encoder, v: &V, unchecked: bool) {
    let r = sut("encoding", || unsafe {
        match (v, unchecked) {
            (V::F32(x), true) => { e.uncheck_put_fixed32(*x); Ok(()) }
            (V::F64(x), true) => { e.uncheck_put_fixed64(*x); Ok(()) }
            (V::V32(x), true) => { e.uncheck_put_varint32(*x); Ok(()) }
            (V::V64(x), true) => { e.uncheck_put_varint64(*x); Ok(()) }
            (V::B(b), true) => { e.uncheck_put_buf(b); Ok(()) }
            (V::L(b), true) => { e.uncheck_put_length_prefixed_slice(&Slice::from_buf(b)); Ok(()) }
            (V::F32(x), _) => e.put_fixed32(*x),
            (V::F64(x), _) => e.put_fixed64(*x),
            (V::V32(x), _) => e.put_varint32(*x),
            (V::V64(x), _) => e.put_varint64(*x),
            (V::B(b), _) => e.put_buf(b),
            (V::L(b), _) => e.put_length_prefixed_slice(&Slice::from_buf(b)),
        }
    });
    step();
    if let Err(s) = r { let v = brief(v); fail(format!("encoding {v} into a container with room failed: {}", s.to_string())) }
}
fn get(d: &mut Decoder, v: &V, unchecked: bool) -> V {
    let r = sut("decoding", || unsafe {
        Ok::<V, level_db_rust::util::status::Status>(match (v, unchecked) {
            (V::F32(_), true) => V::F32(d.uncheck_get_fixed32()),
            (V::F64(_), true) => V::F64(d.uncheck_get_fixed64()),
            (V::V32(_), true) => V::V32(d.uncheck_get_varint32()),
            (V::V64(_), true) => V::V64(d.uncheck_get_varint64()),
            (V::B(b), true) => V::B(d.uncheck_get_buf(b.len()).to_vec()),
            (V::L(_), true) => V::L(d.uncheck_get_length_prefixed_slice().to_vec()),
            (V::F32(_), _) => V::F32(d.get_fixed32()?),
            (V::F64(_), _) => V::F64(d.get_fixed64()?),
            (V::V32(_), _) => V::V32(d.get_varint32()?),
            (V::V64(_), _) => V::V64(d.get_varint64()?),
            (V::B(b), _) => V::B(d.get_buf(b.len())?.to_vec()),
            (V::L(_), _) => V::L(d.get_length_prefixed_slice()?.to_vec()),
        })
    });
    step();
    match r { Ok(v) => v, Err(s) => fail(format!("decoding {} failed: {}", brief(v), s.to_string())) }
}
fn check_decode(mut d: Decoder, vs: &[V], total: usize, unchecked: bool) {
    let mut at = 0;
    ensure!(d.limit() == total, "the decoder's limit is {} for {total} bytes", d.limit());
    for (i, v) in vs.iter().enumerate() {
        let r = reference(v).len();
        ensure!(d.can_get() == (at < total), "can_get is {} at {at} of {total}", d.can_get());
        if matches!(v, V::B(b) | V::L(b) if b.is_empty()) && at == total { at += r; continue }
        let g = get(&mut d, v, unchecked);
        ensure!(g == *v, "value {i} of {} reads back as {}", brief(&vs), brief(&g));
        at += r;
        ensure!(d.offset() == at, "after value {i} of {} the decoder stands at {}, expected {at}", brief(&vs), d.offset());
    }
    ensure!(!d.can_get(), "the decoder has more to give after the last of {}", brief(&vs));
}
/// Skips to value `k` and reads from there.
fn check_skip(mut d: Decoder, vs: &[V], unchecked: bool) {
    let k = choose(vs.len());
    let at: usize = vs[..k].iter().map(|v| reference(v).len()).sum();
    if at > 0 || k > 0 {
        let r = sut("skipping", || if unchecked { Ok(unsafe { d.uncheck_skip(at) }) } else { d.skip(at) });
        match r { Ok(o) => ensure!(o == at && d.offset() == at, "skip({at}) gives {o}"), Err(s) => if reference(&vs[k]).is_empty() { return } else { fail(format!("skip({at}) failed: {}", s.to_string())) } }
    }
    if reference(&vs[k]).is_empty() { return }
    let g = get(&mut d, &vs[k], false);
    ensure!(g == vs[k], "value {k} of {}, reached by skip, reads back as {}", brief(&vs), brief(&g));
}
/// What an encoder says of itself, and the decoders made of it.
fn check_encoder(e: &Encoder, vs: &[V], written: usize, room: usize, unchecked: bool) {
    ensure!(e.len() == room && e.offset() == written, "the encoder stands at {} of {}, expected {written} of {room}", e.offset(), e.len());
    for d in [e.create_decoder(), Decoder::from_encoder(e)] {
        ensure!(d.limit() == room && d.offset() == 0, "a decoder made of the encoder stands at {} of {}, expected 0 of {room}", d.offset(), d.limit());
        if written == room { check_decode(d, vs, room, unchecked) }
    }
}
fn round(vs: &[V]) {
    let bytes: Vec<u8> = vs.iter().flat_map(|v| reference(v)).collect();
    state(&bytes);
    let container = choose(4);
    let unchecked = flag();
    note!("{} in container {container}, unchecked {unchecked}", brief(&vs));
    let same = |got: &[u8]| ensure!(got == &bytes[..], "{} encodes as {}, expected {}", brief(&vs), brief(&got), brief(&bytes));
    match container {
        0 | 1 => {
            // growing vector, empty or with bytes that will be overwritten
            let mut v: Vec<u8> = if container == 0 { vec![] } else { vec![0xEE; 3] };
            let pre = v.len();
            let off = {
                let mut e = sut("creating", || Encoder::with_vec(&mut v));
                for x in vs { put(&mut e, x, unchecked) }
                check_encoder(&e, vs, bytes.len(), bytes.len().max(pre), unchecked);
                e.offset()
            };
            ensure!(off == bytes.len(), "the encoder stands at {off} after {} bytes", bytes.len());
            ensure!(v.len() == bytes.len().max(pre), "the vector has {} bytes, {} were written", v.len(), bytes.len());
            same(&v[..bytes.len()]);
            v.truncate(bytes.len());
            check_decode(Decoder::with_vec(&v), vs, v.len(), unchecked);
            check_skip(Decoder::with_vec(&v), vs, unchecked);
        }
        2 => {
            let mut b: Box<[u8]> = vec![0xEE; bytes.len()].into_boxed_slice();
            { let mut e = Encoder::with_buf(&mut b); for x in vs { put(&mut e, x, unchecked) }
              check_encoder(&e, vs, bytes.len(), bytes.len(), unchecked); }
            same(&b);
            check_decode(Decoder::with_buf(&b), vs, b.len(), unchecked);
        }
        _ => {
            let mut s = Slice::from_buf(&vec![0xEE; bytes.len()]);
            { let mut e = Encoder::with_slice(&mut s); for x in vs { put(&mut e, x, unchecked) } 
              check_encoder(&e, vs, bytes.len(), bytes.len(), unchecked); }
            same(&s);
            check_decode(Decoder::with_slice(&s), vs, s.size(), unchecked);
        }
    }
}
fn edges64() -> Vec<u64> {
    let mut v = vec![0, 1, u64::MAX, 0x0123_4567_89ab_cdef];
    for k in 0..10 { let b = 1u64 << (7 * k).min(63); v.extend([b, b - 1, b + 1]); }
    for k in [8, 16, 31, 32, 33, 48, 56, 62] { v.extend([1u64 << k, (1u64 << k) - 1]); }
    v.sort(); v.dedup(); v
}
fn main() {
    let d = by_tier(3, 4);
    let mut c = Check::new("C07", "model_checking", "every sequence of values from an alphabet of edge values is encoded into every container by checked and unchecked calls, compared with a reference encoder, and decoded; a state is an encoded byte string")
        .scenario("each", "each of about 48 edge values alone, as each of the 4 integer encodings", || {
            let all = edges64();
            let x = *pick(&all);
            let v = match choose(4) { 0 => V::F32(x as u32), 1 => V::F64(x), 2 => V::V32(x as u32), _ => V::V64(x) };
            let n = varint_length(x);
            ensure!(n == varint(x).len(), "varint_length({x}) is {n}, the encoding has {} bytes", varint(x).len());
            round(&[v]);
        })
        .scenario("bits", "every value of the form 2^a + 2^b and 2^a - 2^b, as varints and fixed", || {
            let a = choose(64); 
            for b in 0..64 { for x in [(1u64 << a).wrapping_add(1 << b), (1u64 << a).wrapping_sub(1 << b)] {
                let mut v = vec![];
                let mut e = Encoder::with_vec(&mut v);
                let vs = [V::V64(x), V::V32(x as u32), V::F64(x), V::F32(x as u32)];
                for y in &vs { put(&mut e, y, false) }
                let want: Vec<u8> = vs.iter().flat_map(reference).collect();
                ensure!(v == want, "{vs:?} encodes as {v:02x?}, expected {want:02x?}");
                check_decode(Decoder::with_vec(&v), &vs, v.len(), false);
                ensure!(varint_length(x) == varint(x).len(), "varint_length({x})");
                state(&x);
            } }
        })
        .scenario("sequences", format!("all sequences of {d} values out of 12"), move || {
            let al = [V::F32(0x04030201), V::F32(u32::MAX), V::F64(0x0807060504030201), V::V32(5), V::V32(300), V::V32(u32::MAX), V::V64(1 << 42), V::V64(u64::MAX),
                V::B(vec![]), V::B(vec![9, 8, 7]), V::L(vec![]), V::L((0..130).map(|x| x as u8).collect())];
            let vs: Vec<V> = (0..d).map(|_| pick(&al).clone()).collect();
            round(&vs)
        })
        .scenario("lengths", "buffers and length prefixed slices of every length 0..300 and around 2^14, 2^16 and 2^21, between two integers", || {
            let n = if flag() { choose(301) } else { let k = choose(22); if k < 8 { 16380 + k } else if k < 15 { 65532 + k - 8 } else { (1 << 21) - 3 + k - 15 } };
            let b: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
            round(&[V::V32(1), if flag() { V::L(b) } else { V::B(b) }, V::F32(7)])
        });
    c = c.scenario("far", "8 values across and beyond position 2^31 and 2^32 of a buffer, reached by skip, to its last byte and not further", || {
            let n = *pick(&[1usize << 31, 1 << 32]);
            let vs = [V::F32(0x04030201), V::V32(300), V::V64(1 << 42), V::B(vec![9, 8, 7]), V::F64(0x0807060504030201), V::L((0..130).map(|x| x as u8).collect()), V::V32(u32::MAX), V::F32(7)];
            let bytes: Vec<u8> = vs.iter().flat_map(reference).collect();
            let start = n - *pick(&[0usize, 1, 3, 5, 9, 20]);
            alloc::cap(1 << 40);
            let mut v = vec![0u8; start + bytes.len()];
            v[start..].copy_from_slice(&bytes);
            let unchecked = flag();
            let mut d = if flag() { Decoder::with_vec(&v) } else { Decoder::with_buf(&v) };
            // (in two steps, the first of which does not reach the position)
            for k in [start / 2, start - start / 2] {
                let r = sut("skip", || if unchecked { Ok(unsafe { d.uncheck_skip(k) }) } else { d.skip(k) });
                match r { Ok(o) => ensure!(o == d.offset(), "skip({k}) gives {o}, the decoder stands at {}", d.offset()), Err(e) => fail(format!("skip({k}) in {} bytes failed: {}", v.len(), e.to_string())) }
            }
            ensure!(d.offset() == start && d.limit() == v.len(), "after skipping {start} bytes of {} the decoder stands at {} of {}", v.len(), d.offset(), d.limit());
            for (i, x) in vs.iter().enumerate() {
                ensure!(d.can_get(), "nothing to get at {} of {}", d.offset(), v.len());
                let g = get(&mut d, x, unchecked);
                ensure!(g == *x, "value {i}, {} behind {start} bytes, reads as {}", brief(x), brief(&g));
            }
            ensure!(d.offset() == v.len() && !d.can_get(), "the decoder stands at {} of {}", d.offset(), v.len());
            let more = sut("reading past the end", || d.get_fixed32().is_ok() || d.get_varint32().is_ok() || d.get_varint64().is_ok() || d.get_fixed64().is_ok() || d.get_buf(1).is_ok() || d.get_length_prefixed_slice().is_ok() || d.skip(1).is_ok());
            ensure!(!more && d.offset() == v.len(), "something is read past the end of {} bytes", v.len());
            state(&(start, unchecked));
        })
        .scenario("far-writing", format!("6 values written across and beyond position 2^32 of a {}", by_tier("buffer", "buffer and of a vector")), || {
            let vs = [V::F32(0x04030201), V::V32(300), V::V64(1 << 42), V::F64(0x0807060504030201), V::L((0..130).map(|x| x as u8).collect()), V::V32(u32::MAX)];
            let bytes: Vec<u8> = vs.iter().flat_map(reference).collect();
            let start = (1usize << 32) - *pick(by_tier(&[2usize][..], &[0, 2, 9]));
            alloc::cap(1 << 40);
            let before = vec![0u8; start];
            let in_vec = thorough() && flag();
            let mut v = if in_vec { vec![] } else { vec![0u8; start + bytes.len()] };
            let at = {
                let mut e = if in_vec { Encoder::with_vec(&mut v) } else { Encoder::with_buf(&mut v) };
                put(&mut e, &V::B(before), false);
                ensure!(e.offset() == start, "after {start} bytes the encoder stands at {}", e.offset());
                for x in &vs { put(&mut e, x, false) }
                let full = !in_vec && sut("writing past the end", || e.put_varint32(1).is_ok());
                ensure!(!full, "something is written past the end of {} bytes", start + bytes.len());
                e.offset()
            };
            ensure!(at == start + bytes.len() && v.len() == at, "the encoder stands at {at}, the container has {} bytes, expected {}", v.len(), start + bytes.len());
            ensure!(v[start..] == bytes[..], "{} behind {start} bytes encodes as {}", brief(&vs), brief(&&v[start..]));
            ensure!(v[..start].chunks(1 << 16).all(|c| c == &[0u8; 1 << 16][..c.len()]), "bytes before position {start} changed");
            state(&(start, in_vec));
        }).split(0)
        .scenario("unrepresentable", "length prefixed slices of 2^32 to 2^33 bytes, whose length has no encoding, are refused and nothing is written", || {
            let n = *pick(&[1usize << 32, (1 << 32) + 1, (1 << 32) + 300, 1 << 33]);
            alloc::cap(1 << 40);
            let s = Slice::from_vec(vec![0u8; n]);
            let mut v = vec![1u8, 2];
            alloc::refuse(1 << 31);
            let mut e = Encoder::with_vec(&mut v);
            let r = sut("put_length_prefixed_slice", || { let a = e.put_fixed32(5).is_ok(); (a, e.put_length_prefixed_slice(&s).is_ok(), e.offset(), e.put_varint32(9).is_ok()) });
            alloc::refuse(usize::MAX);
            ensure!(r == (true, false, 4, true), "a slice of {n} bytes is written with a length of {} (written, offset {})", n as u32, r.2);
            ensure!(v == [5, 0, 0, 0, 9], "after a slice of {n} bytes was refused the vector holds {:02x?}", &v[..v.len().min(20)]);
            step(); state(&n);
        }).split(1);
    if thorough() {
        c = c.scenario("all-u32", "every 32 bit value as varint32, varint64 and fixed32", || {
            let hi = (choose(4096) as u32) << 20;
            let mut buf = [0u8; 14];
            for lo in 0..1u32 << 20 {
                let x = hi | lo;
                let n = {
                    let mut e = Encoder::with_buf(&mut buf);
                    let ok = e.put_varint32(x).is_ok() & e.put_varint64(x as u64).is_ok() & e.put_fixed32(x).is_ok();
                    ensure!(ok, "encoding {x} failed");
                    e.offset()
                };
                let l = varint_length(x as u64);
                ensure!(n == 2 * l + 4, "{x} took {n} bytes");
                let mut d = Decoder::with_buf(&buf[..n]);
                let ok = matches!(d.get_varint32(), Ok(y) if y == x) && matches!(d.get_varint64(), Ok(y) if y == x as u64) && matches!(d.get_fixed32(), Ok(y) if y == x);
                ensure!(ok, "{x} does not read back");
            }
            steps(1 << 20);
            state(&hi);
        }).split(1);
    }
    c.run()
}
