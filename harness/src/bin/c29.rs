//! C29: a version edit's record lists exactly what was set and added, in LevelDB's form.
use h::refs::varint;
use level_db_rust::db::db_format::InternalKey;
use level_db_rust::db::file_meta_data::FileMetaData;
use level_db_rust::db::version_edit::{Tag, VersionEdit};
use level_db_rust::util::slice::Slice;
use mc::*;

#[derive(Default, Clone, Hash, Debug)]
struct Model { cmp: Option<Vec<u8>>, log: Option<u64>, prev: Option<u64>, next: Option<u64>, seq: Option<u64>, ptrs: Vec<u32>, dels: Vec<(u32, u64)>, news: Vec<(u32, u64, u64)> }
impl Model {
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(c) = &self.cmp { o.push(1); o.extend(varint(c.len() as u64)); o.extend(c) }
        if let Some(n) = self.log { o.push(2); o.extend(varint(n)) }
        if let Some(n) = self.prev { o.push(9); o.extend(varint(n)) }
        if let Some(n) = self.next { o.push(3); o.extend(varint(n)) }
        if let Some(n) = self.seq { o.push(4); o.extend(varint(n)) }
        for l in &self.ptrs { o.push(5); o.extend(varint(*l as u64)); o.push(0) }
        for (l, f) in &self.dels { o.push(6); o.extend(varint(*l as u64)); o.extend(varint(*f)) }
        for (l, f, s) in &self.news { o.push(7); o.extend(varint(*l as u64)); o.extend(varint(*f)); o.extend(varint(*s)); o.push(0); o.push(0) }
        o
    }
}
/// Fields of a record, by LevelDB's grammar.
fn parse(b: &[u8]) -> Option<Vec<Vec<u64>>> {
    fn num(b: &[u8], p: &mut usize) -> Option<u64> { let mut v = 0u64; for i in 0..10 { let x = *b.get(*p)?; *p += 1; v |= ((x & 127) as u64) << (7 * i); if x < 128 { return Some(v) } } None }
    fn text(b: &[u8], p: &mut usize) -> Option<u64> { let n = num(b, p)? as usize; let t = b.get(*p..*p + n)?; *p += n; Some(hash_of(t)) }
    let (mut o, mut p) = (vec![], 0);
    while p < b.len() {
        let t = num(b, &mut p)?;
        let mut f = vec![t];
        match t {
            1 => f.push(text(b, &mut p)?),
            2 | 3 | 4 | 9 => f.push(num(b, &mut p)?),
            5 => { f.push(num(b, &mut p)?); f.push(text(b, &mut p)?) }
            6 => { f.push(num(b, &mut p)?); f.push(num(b, &mut p)?) }
            7 => { for _ in 0..3 { f.push(num(b, &mut p)?) } f.push(text(b, &mut p)?); f.push(text(b, &mut p)?) }
            _ => return None,
        }
        o.push(f);
    }
    Some(o)
}
/// The beginning of what would be shown.
fn brief(d: &dyn std::fmt::Debug) -> String { let s = format!("{d:02x?}"); if s.len() > 900 { format!("{}..", &s[..900]) } else { s } }
fn judge(v: &VersionEdit, m: &Model, hist: &[String]) {
    let mut out = vec![];
    let r = sut("encode_to", || v.encode_to(&mut out).map_err(|e| e.to_string()));
    step();
    ensure!(r.is_ok(), "encode_to fails: {r:?}; {hist:?}");
    let (g, w) = (out.as_slice(), m.bytes());
    // fields may come in any order to a reader; what counts is which fields there are
    let (mut gf, wf) = (parse(g), parse(&w).unwrap());
    ensure!(gf.is_some(), "the record {} cannot be parsed; {hist:?}", brief(&g));
    let mut ws = wf.clone(); ws.sort();
    gf.as_mut().unwrap().sort();
    ensure!(gf.as_ref().unwrap() == &ws, "the record {} says {}, expected {}; {hist:?}", brief(&g), brief(&gf), brief(&ws));
    ensure!(g == w.as_slice(), "the record is {}, LevelDB's is {}; {hist:?}", brief(&g), brief(&w));
    state(&w);
}
fn op(v: &mut VersionEdit, m: &mut Model, c: usize, n: u64) -> String {
    sut("setter", || match c {
        0 => { v.set_comparator_name(Slice::from_buf(b"leveldb.BytewiseComparator")); m.cmp = Some(b"leveldb.BytewiseComparator".to_vec()) }
        1 => { v.set_comparator_name(Slice::default()); m.cmp = Some(vec![]) }
        2 => { v.set_log_number(n); m.log = Some(n) }
        3 => { v.set_prev_log_number(n); m.prev = Some(n) }
        4 => { v.set_next_file(n); m.next = Some(n) }
        5 => { v.set_last_sequence(n); m.seq = Some(n) }
        6 => { v.set_compact_pointer(n as u32 % 7, InternalKey::default()); m.ptrs.push(n as u32 % 7) }
        7 => { v.add_file(n as u32 % 7, n, n / 2 + 3, InternalKey::default(), InternalKey::default()); m.news.push((n as u32 % 7, n, n / 2 + 3)) }
        8 => { v.delete_file(n as u32 % 7, n); m.dels.push((n as u32 % 7, n)) }
        // compaction pointers outlive a clear, as in LevelDB
        _ => { v.clear(); *m = Model { ptrs: std::mem::take(&mut m.ptrs), ..Model::default() } }
    });
    format!("{} {n}", ["comparator", "empty comparator", "log", "prev log", "next file", "last sequence", "compact pointer", "add file", "delete file", "clear"][c])
}
fn main() {
    Check::new("C29", "model_checking", "every sequence of settings, additions, deletions and clears up to a depth, encoded after every operation, and every numeric field at every encoding boundary, against a reference record and a parser; a state is a record")
        .assume("records are written to an empty buffer: the encoder starts at the front of what it is given")
        .assume("internal keys in edits are empty: no other can be made through the interface yet")
        .scenario("sequences", format!("every sequence of up to {} operations of 10 kinds, with distinct numbers or always the same", by_tier(5, 6)), || {
            let live = alloc::live();
            let mut v = match choose(3) { 0 => sut("new", VersionEdit::new), 1 => sut("new", || VersionEdit::new_with_log_number(6)), _ => sut("new", || VersionEdit::new_with_prev_log_number(300)) };
            let mut m = Model::default();
            let mut hist = vec![];
            // the same numbers again and again, except for deletions, of which LevelDB keeps a set
            let again = flag();
            // which constructor it was shows in its first record
            let mut out = vec![];
            sut("encode_to", || v.encode_to(&mut out).map_err(|e| e.to_string())).unwrap();
            match parse(&out).as_deref() { Some([]) => {} Some([f]) if *f == [2, 6] => m.log = Some(6), Some([f]) if *f == [9, 300] => m.prev = Some(300), f => fail(format!("a new edit's record says {f:?}")) }
            drop(out);
            judge(&v, &m, &hist);
            for i in 0..by_tier(5, 6) {
                let c = choose(11);
                if c == 0 { break }
                hist.push(op(&mut v, &mut m, c - 1, if again && c != 9 { 300 } else { [1u64, 127, 128, 300, 1 << 40, 9][i] }));
                judge(&v, &m, &hist);
            }
            sut("drop", || drop(v));
            drop((m, hist)); // the model is extended inside op and counts as live there
            ensure!(alloc::live() == live, "memory remains after the edit is gone");
        }).split(3)
        .scenario("constructors", "each constructor sets its number and no other", || {
            let n = *pick(&[0u64, 1, 127, 128, u64::MAX]);
            let l = sut("new", || VersionEdit::new_with_log_number(n));
            judge(&l, &Model { log: Some(n), ..Model::default() }, &[]);
            let p = sut("new", || VersionEdit::new_with_prev_log_number(n));
            judge(&p, &Model { prev: Some(n), ..Model::default() }, &[]);
            judge(&sut("new", VersionEdit::new), &Model::default(), &[]);
        })
        .scenario("numbers", "each numeric field at 0, 2^i - 1, 2^i, for all widths", || {
            let i = choose(65);
            let n: u64 = match choose(2) { 0 => (1u128 << i).wrapping_sub(1) as u64, _ => if i < 64 { 1 << i } else { 0 } };
            let l = (n & 0xffff_ffff) as u32;
            let f = choose(9);
            let mut v = sut("new", VersionEdit::new);
            let mut m = Model::default();
            sut("setter", || match f {
                0 => { v.set_log_number(n); m.log = Some(n) }
                1 => { v.set_prev_log_number(n); m.prev = Some(n) }
                2 => { v.set_next_file(n); m.next = Some(n) }
                3 => { v.set_last_sequence(n); m.seq = Some(n) }
                4 => { v.set_compact_pointer(l, InternalKey::default()); m.ptrs.push(l) }
                5 => { v.delete_file(l, n); m.dels.push((l, n)) }
                6 => { v.delete_file(3, n); m.dels.push((3, n)) }
                7 => { v.add_file(l, n, 5, InternalKey::default(), InternalKey::default()); m.news.push((l, n, 5)) }
                _ => { v.add_file(2, 77, n, InternalKey::default(), InternalKey::default()); m.news.push((2, 77, n)) }
            });
            judge(&v, &m, &[format!("field {f} at {n}")]);
        })
        .scenario("names", "comparator names of every length 0..300 and around 2^14, 2^16 and 2^21, set twice", || {
            let n = choose(319);
            let n = match n { 0..=300 => n, 301..=306 => (1 << 14) - 3 + n - 301, 307..=312 => (1 << 16) - 3 + n - 307, _ => (1 << 21) - 3 + n - 313 };
            let mut v = sut("new", VersionEdit::new);
            sut("set", || { v.set_comparator_name(Slice::from_vec(vec![b'x'; 40])); v.set_comparator_name(Slice::from_vec(vec![b'n'; n])) });
            judge(&v, &Model { cmp: Some(vec![b'n'; n]), ..Model::default() }, &[]);
        })
        .scenario("many", "0..300 and 210000 files added and deleted: all listed, in order", || {
            let n = choose(302);
            let n = if n == 301 { 210000 } else { n };
            let mut v = sut("new", VersionEdit::new);
            let mut m = Model::default();
            for i in 0..n as u64 { op(&mut v, &mut m, if i % 3 == 0 { 8 } else { 7 }, i * 1000); if i % (if n > 300 { 3 } else { 50 }) == 2 { op(&mut v, &mut m, 6, i); } }
            judge(&v, &m, &[format!("{n} files")]);
            op(&mut v, &mut m, 9, 0);
            judge(&v, &m, &[format!("{n} files, cleared")]);
        }).split(1)
        .scenario("tags", "tags and their numbers 0..1000", || {
            let n = choose(1001) as u32;
            let g = sut("from_value", || Tag::from_value(n).map(|t| t.get_value()));
            let w = if matches!(n, 1..=7 | 9) { Some(n as i32) } else { None };
            ensure!(g == w, "tag number {n} reads {g:?}, expected {w:?}");
            step(); state(&n);
        })
        .scenario("files", "file descriptions: every constructor keeps what it is given; equality", || {
            let s = *pick(&[0u64, 1, 1 << 40, u64::MAX]);
            let n = *pick(&[0u64, 9, u64::MAX]);
            let r = *pick(&[0i32, 1, 7]);
            let k = InternalKey::default;
            sut("file", || {
                let all = [(FileMetaData::new(r, 1 << 30, n, s, k(), k()), r, n, s), (FileMetaData::new_with_number_file_size_internal_key(n, s, k(), k()), 0, n, s),
                    (FileMetaData::new_with_refs_allowed_seeks_file_size(r, 1 << 30, s), r, 0, s), (FileMetaData::new_with_refs_allowed_seeks_file_size_internal_key(r, 1 << 30, s, k(), k()), r, 0, s),
                    (FileMetaData::new_with_refs(r), r, 0, 0), (FileMetaData::new_with_refs_allowed_seeks(r, 1 << 30), r, 0, 0), (FileMetaData::default(), 0, 0, 0)];
                for (i, (f, r, n, s)) in all.iter().enumerate() {
                    ensure!(f.get_refs() == *r && f.get_number() == *n && f.get_file_size() == *s, "file description {i} says {} {} {}, expected {r} {n} {s}", f.get_refs(), f.get_number(), f.get_file_size());
                    ensure!(f.get_smallest().encode_len() == 0 && f.get_largest().encode_len() == 0, "file description {i} has keys");
                    for (j, (g, r2, n2, s2)) in all.iter().enumerate() { ensure!((f == g) == ((r, n, s) == (r2, n2, s2)), "file descriptions {i} and {j}: equality"); }
                }
                let mut f = FileMetaData::new_with_refs(r);
                f.add_refs(3); f.add_refs(-1); f.set_file_size(s);
                ensure!(f.get_refs() == r + 2 && f.get_file_size() == s, "changing a file description");
                ensure!(FileMetaData::new_with_refs_allowed_seeks(r, 5) != FileMetaData::new_with_refs_allowed_seeks(r, 6), "allowed seeks do not count in equality");
            });
            step(); state(&(s, n, r));
        })
        .run()
}
