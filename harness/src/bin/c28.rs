//! C28: lookup keys and internal key tags have LevelDB's encoding.
use h::refs::varint;
use level_db_rust::db::db_format::{pack_sequence_and_type, LookupKey, ParsedInternalKey, ValueType};
use level_db_rust::util::slice::Slice;
use mc::*;

fn judge(key: &[u8], seq: usize) {
    let l = sut("LookupKey::new", || LookupKey::new(Slice::from_buf(key), seq));
    let mut internal = key.to_vec();
    internal.extend(((seq as u64) << 8 | 1).to_le_bytes());
    let mut table = varint(internal.len() as u64);
    table.extend(&internal);
    let (t, i) = sut("reading", || (l.mem_table_key(), l.internal_key()));
    ensure!(t.as_ref() == table.as_slice(), "memtable key of {} bytes {:02x?}.. at {seq} is {:02x?}.., LevelDB's is {:02x?}..", key.len(), &key[..key.len().min(8)], &t.as_ref()[..t.size().min(24)], &table[..table.len().min(24)]);
    ensure!(i.as_ref() == internal.as_slice(), "internal key of {} bytes {:02x?}.. at {seq} is {:02x?}.., LevelDB's is {:02x?}..", key.len(), &key[..key.len().min(8)], &i.as_ref()[..i.size().min(24)], &internal[..internal.len().min(24)]);
    let again = sut("reading", || (l.internal_key(), l.mem_table_key()));
    ensure!(again.0 == i && again.1 == t, "reading a lookup key changes it");
    step(); state(&table);
}
fn main() {
    Check::new("C28", "model_checking", "every key length and sequence number around the encodings' boundaries against a reference; a state is an encoded key")
        .scenario("lengths", "every key length 0..400, around 2^14 and 2^21, 4 sequence numbers, 2 patterns", || {
            let n = choose(441);
            let n = if n <= 400 { n } else if n <= 420 { 16384 - 18 + (n - 401) } else { (1 << 21) - 18 + (n - 421) };
            let k: Vec<u8> = if flag() { vec![0xff; n] } else { (0..n).map(|i| (i * 31) as u8).collect() };
            judge(&k, *pick(&[0usize, 1, 0x1234567, (1 << 56) - 1]));
        })
        .scenario("numbers", "sequence numbers 2^i, 2^i - 1 and 0x55.. patterns up to 56 bits, every key of 0 or 1 bytes and some longer", || {
            let i = choose(57);
            let s = match choose(3) { 0 => (1usize << i) - 1, 1 => if i < 56 { 1 << i } else { 0 }, _ => 0x55_5555_5555_5555 >> i };
            judge(&[], s);
            for b in 0..=255u8 { judge(&[b], s) }
            judge(b"a longer key", s);
            for (t, n) in [(ValueType::KTypeDeletion, 0u64), (ValueType::KTypeValue, 1)] {
                let g = sut("pack_sequence_and_type", || pack_sequence_and_type(s, t));
                ensure!(g == (s as u64) << 8 | n, "packing sequence {s:x} and type {n} gives {g:x}");
                step();
            }
        })
        .scenario("types", "value types and their numbers, -300..300 and the extremes; length of an internal key", || {
            let i = choose(603);
            let v: i32 = match i { 601 => i32::MAX, 602 => i32::MIN, _ => i as i32 - 300 };
            let g = sut("try_from", || ValueType::try_from(v).map(|t| t.get_value()));
            match v { 0 | 1 => ensure!(g == Ok(v as usize), "value type {v} reads {g:?}"), _ => ensure!(g.is_err(), "number {v} is a value type") }
            let n = i % 300;
            let p = ParsedInternalKey::default();
            let q = ParsedInternalKey::new(Slice::from_vec(vec![1; n]), 5, ValueType::KTypeValue);
            let l = sut("internal_key_encoding_length", || p.internal_key_encoding_length(q));
            ensure!(l == n + 8, "an internal key of a {n} byte user key takes {l} bytes");
            step(); state(&v);
        })
        .run()
}
