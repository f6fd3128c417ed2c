//! C05: the bytes of a log are those of the LevelDB log format.
use h::{dev::*, refs::*, wal::*};
use mc::*;
use std::rc::Rc;

fn format(depth: usize, blocks: usize, small: &[usize], window: isize) {
    let disk: DiskRef = Rc::default();
    let mut w = new_writer(&disk);
    let mut model = LogRef::new();
    for i in 0..depth {
        let ls = lengths(model.bytes.len(), blocks, small, window);
        let rec = payload(i, *pick(&ls), i % 3);
        note!("add record of {} bytes", rec.len());
        let before = model.bytes.len();
        model.add(&rec);
        let r = add(&mut w, &rec);
        ensure!(r.is_ok(), "adding record {i} failed: {r:?}");
        let d = disk.borrow();
        ensure!(d.data.len() == model.bytes.len(), "after record {i} the file has {} bytes, the format asks for {}", d.data.len(), model.bytes.len());
        if let Some(k) = (before..model.bytes.len()).find(|k| d.data[*k] != model.bytes[*k]) {
            fail(format!("byte {k} of the file is {:02x}, the format asks for {:02x} (record {i})", d.data[k], model.bytes[k]));
        }
        ensure!(d.flushed == d.data.len(), "record {i} was acknowledged but not flushed");
        state(&model.frags.iter().map(|f| (f.start, f.kind)).collect::<Vec<_>>());
    }
}
/// The reader takes every file of the format.
fn foreign(depth: usize) {
    let mut model = LogRef::new();
    let mut recs = vec![];
    for i in 0..depth {
        let ls = lengths(model.bytes.len(), 2, &[0, 1, 100], 9);
        let rec = payload(i + 3, *pick(&ls), 0);
        model.add(&rec);
        recs.push(rec);
    }
    state(&model.frags.iter().map(|f| (f.start, f.kind)).collect::<Vec<_>>());
    let data = rc(model.bytes);
    let got = drain(&mut reader(Source::plain(&data), true, 0), depth + 3);
    expect(&got, &recs, "reading a log written by LevelDB");
}
/// Other writers may cut a record into fragments anywhere.
fn cuts() {
    let rec = payload(1, 24, 0);
    let mut model = LogRef::new();
    model.frag(1, b"before", 0);
    let n = choose(4);
    let mut at = 0;
    for i in 0..=n {
        let end = if i == n { rec.len() } else { (at + choose(9)).min(rec.len()) };
        let kind = match (i == 0, i == n) { (true, true) => 1, (true, _) => 2, (_, true) => 4, _ => 3 };
        model.frag(kind, &rec[at..end], 1);
        at = end;
    }
    model.frag(1, b"", 2);
    state(&model.bytes);
    let data = rc(model.bytes);
    let got = drain(&mut reader(Source::plain(&data), flag(), 0), 9);
    expect(&got, &[b"before".to_vec(), rec, vec![]], "reading a record in several fragments of one block");
}
/// Takes the bytes of one record of zeros and of a short one after it, and compares them with the format as they come.
struct Judge { at: std::rc::Rc<std::cell::Cell<usize>>, heads: Vec<[u8; 7]>, end: usize, tail: Vec<u8> }
impl std::io::Write for Judge {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let at = self.at.get();
        let off = at % 32768;
        let n;
        if at >= self.end {
            n = b.len();
            let t = &self.tail[(at - self.end).min(self.tail.len())..];
            ensure!(b.len() <= t.len() && b == &t[..n], "bytes {at}.. of the file are {b:02x?}, the format asks for {t:02x?}");
        } else if off < 7 {
            n = b.len().min(7 - off);
            let h = &self.heads[if at < 32768 { 0 } else if at / 32768 == (self.end - 1) / 32768 { 2 } else { 1 }][off..off + n];
            ensure!(b[..n] == *h, "bytes {at}.. of the file are {:02x?}, the format asks for {h:02x?}", &b[..n]);
        } else {
            n = b.len().min(32768 - off).min(self.end - at);
            ensure!(b[..n].iter().all(|x| *x == 0), "bytes {at}.. of the file are not zero");
        }
        self.at.set(at + n);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn huge() {
    let e = *pick(&[24, 31, 32]);
    let n = (1usize << e) + 5;
    alloc::cap(1 << 40);
    let head = |kind: u8, len: usize| {
        let c = crc_mask(crc32c_zeros(crc32c(&[kind]), len as u64)).to_le_bytes();
        [c[0], c[1], c[2], c[3], len as u8, (len >> 8) as u8, kind]
    };
    let last = n % 32761;
    let mut model = LogRef::new();
    model.add(b"after");
    let at: std::rc::Rc<std::cell::Cell<usize>> = std::rc::Rc::default();
    let end = n / 32761 * 32768 + 7 + last;
    let j = Judge { at: at.clone(), heads: vec![head(2, 32761), head(3, 32761), head(4, last)], end, tail: model.bytes };
    let mut w = sut("opening a log for writing", || level_db_rust::db::log_writer::LogWriter::new(Box::new(j)));
    let r = sut("add_record", || w.add_record(level_db_rust::util::slice::Slice::from_vec(vec![0u8; n])).is_ok());
    ensure!(r, "adding a record of {n} bytes failed");
    ensure!(at.get() == end, "a record of {n} bytes takes {} bytes of the file, the format asks for {end}", at.get());
    let r = sut("add_record", || w.add_record("after".into()).is_ok());
    ensure!(r && at.get() == end + 12, "a record after one of {n} bytes");
    step(); state(&n);
}
fn main() {
    let d = by_tier(2, 3);
    Check::new("C05", "model_checking", "every sequence of record lengths from the boundary alphabet is written by the real writer and compared byte for byte with a reference encoder, and read by the real reader from the reference encoder's file; a state is the list of fragment positions and types")
        .scenario("writer", format!("all sequences of {d} records, lengths ending -20..+10 bytes around the ends of the next 3 blocks or small"), move || format(d, 3, &[0, 1, 10, 1000], 20)).split(2)
        .scenario("writer-small", "all sequences of 4 records of 0,1,2,200 or 256 or 5000 bytes", || format(4, 0, &[0, 1, 2, 200, 256, 5000], 0))
        .scenario("huge", "a record of 2^24, 2^31 or 2^32 zeros and 5 more, and a short one behind it", huge).split(1)
        .scenario("reader", format!("all sequences of {d} records in files of the reference encoder"), move || foreign(d)).split(2)
        .scenario("reader-cuts", "a 24 byte record cut into 1..4 fragments within one block, every cut of up to 8 bytes", cuts)
        .run()
}
