//! C06: reading a log from a start offset.
use h::{dev::*, refs::*, wal::*};
use mc::*;

fn from_offset(recs: &[Vec<u8>], offs: &dyn Fn(&LogRef) -> Vec<usize>) {
    let m = LogRef::of(recs);
    let data = rc(m.bytes.clone());
    let off = *pick(&offs(&m));
    note!("records {:?}, start offset {off}", recs.iter().map(|r| r.len()).collect::<Vec<_>>());
    let got = drain(&mut reader(Source::plain(&data), true, off), recs.len() + 4);
    let n = got.len() - 1;
    state(&(recs.iter().map(|r| r.len()).collect::<Vec<_>>(), off));
    for (i, g) in got[..n].iter().enumerate() { ensure!(matches!(g, Got::Rec(_)), "reading from offset {off}: answer {i} is {}", show(g)); }
    ensure!(n <= recs.len(), "reading from offset {off} yields {n} records of {}", recs.len());
    let first = recs.len() - n;
    expect(&got, &recs[first..], &format!("reading from offset {off} (the last {n} records)"));
    let due = (0..recs.len()).find(|r| m.start_of(*r) >= off).unwrap_or(recs.len());
    ensure!(first <= due, "reading from offset {off}: record {due} begins at {} and is not returned", if due < recs.len() { m.start_of(due) } else { 0 });
    ensure!(first >= due, "reading from offset {off} returns a record that begins at {}, before that offset", m.start_of(first));
    outcome(format!("{n} of {}", recs.len()));
}
/// A device that never gives more than n bytes at a time.
struct Trickle(Source, usize);
impl std::io::Read for Trickle { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let k = b.len().min(self.1); self.0.read(&mut b[..k]) } }
impl std::io::Seek for Trickle { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
impl level_db_rust::db::log_reader::SeekableReader for Trickle {}
/// Logs cut off, read from an offset, on a device that gives little at a time, with or without verification.
fn cut_and_slow() {
    let lens: &[usize] = *pick(&[&[3usize, 0, 70000, 5][..], &[40000, BLOCK - 7240 - 21, 1, 9], &[BLOCK - 14, 5, 30000], &[100, 200, 300, 0, 400]]);
    let recs: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, l)| payload(i, *l, 0)).collect();
    let m = LogRef::of(&recs);
    let mut at: Vec<usize> = m.frags.iter().flat_map(|f| [f.start, f.start + 1, f.start + HEADER, (f.start + f.end()) / 2, f.end() - 1]).chain((0..=m.bytes.len()).step_by(BLOCK).flat_map(|b| [b.saturating_sub(7), b.saturating_sub(6), b.saturating_sub(5), b, b + 1])).collect();
    at.push(m.bytes.len());
    at.retain(|o| *o <= m.bytes.len());
    at.sort(); at.dedup();
    let (off, cut) = (*pick(&at), *pick(&at));
    let n = *pick(&[7usize, 1000, BLOCK - 1]);
    let verify = flag();
    if off > cut { return }
    let src = Source::prefix(&rc(m.bytes.clone()), cut);
    let mut r = sut("opening", || level_db_rust::db::log_reader::LogReader::new(Box::new(Trickle(src, n)), verify, off));
    let got = drain(&mut r, recs.len() + 4);
    let want: Vec<Vec<u8>> = (0..recs.len()).filter(|r| m.start_of(*r) >= off && m.end_of(*r) <= cut).map(|r| recs[r].clone()).collect();
    state(&(lens, off, cut, n, verify));
    expect(&got, &want, &format!("log of {lens:?} cut at {cut}, read from {off} on a device that gives {n} bytes at a time"));
}
/// A device whose every block below `far` is the same, and which has `tail` from there on.
struct Far { block: Vec<u8>, far: u64, tail: Vec<u8>, pos: u64, read: u64 }
impl std::io::Read for Far {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let (src, at) = if self.pos < self.far { (&self.block, self.pos % BLOCK as u64) } else { (&self.tail, (self.pos - self.far).min(self.tail.len() as u64)) };
        let n = b.len().min(src.len() - at as usize);
        b[..n].copy_from_slice(&src[at as usize..at as usize + n]);
        self.pos += n as u64;
        self.read += n as u64;
        ensure!(self.read < 1 << 26, "{} bytes were read without coming to the offset, or to an end", self.read);
        Ok(n)
    }
}
impl std::io::Seek for Far {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.pos = match p { std::io::SeekFrom::Start(n) => n, std::io::SeekFrom::Current(d) => self.pos.wrapping_add(d as u64), std::io::SeekFrom::End(d) => (self.far + self.tail.len() as u64).wrapping_add(d as u64) };
        Ok(self.pos)
    }
}
impl level_db_rust::db::log_reader::SeekableReader for Far {}
/// Logs of up to 2^62 bytes: blocks that are one record each, then a few records.
fn far() {
    let filler = payload(40, BLOCK - HEADER, 0);
    let recs: Vec<Vec<u8>> = match choose(3) { 0 => vec![payload(0, 9, 0)], 1 => vec![payload(0, 20, 0), payload(1, 40000, 0), payload(2, 0, 0)], _ => vec![payload(0, BLOCK - 14, 0), payload(1, 0, 0), payload(2, 7, 0)] };
    let m = LogRef::of(&recs);
    let base = 1u64 << (16 + choose(47));
    let far = *pick(&[base - BLOCK as u64, base, base + BLOCK as u64]);
    let mut at: Vec<i64> = m.frags.iter().flat_map(|f| [f.start as i64, f.start as i64 + 1, f.end() as i64 - 1]).chain([m.bytes.len() as i64, -1, -6, -7, -8, -(BLOCK as i64), 1 - BLOCK as i64]).collect();
    at.sort(); at.dedup();
    let o = *pick(&at);
    let mut all = vec![(-(BLOCK as i64), filler.clone())];
    for (i, r) in recs.iter().enumerate() { all.push((m.start_of(i) as i64, r.clone())) }
    let want: Vec<Vec<u8>> = all.iter().filter(|x| x.0 >= o).map(|x| x.1.clone()).collect();
    let dev = Far { block: LogRef::of(&[filler]).bytes, far, tail: m.bytes.clone(), pos: 0, read: 0 };
    let off = far.wrapping_add(o as u64);
    let verify = flag();
    state(&(far, o, recs.len(), verify));
    let mut r = sut("opening", || level_db_rust::db::log_reader::LogReader::new(Box::new(dev), verify, off as usize));
    expect(&drain(&mut r, recs.len() + 4), &want, &format!("reading a log of {} bytes from {off}", far + m.bytes.len() as u64));
}
fn main() {
    let d = by_tier(2, 3);
    Check::new("C06", "model_checking", "files of the reference encoder read by the real reader from every start offset near a fragment, header or block edge; a state is (record lengths, offset)")
        .scenario("edges", format!("all sequences of {d} records after a first one of 100 bytes, lengths around the next 3 block ends, offsets within 8 bytes of every edge"), move || {
            let mut m = LogRef::new();
            let mut recs = vec![payload(9, 100, 0)];
            m.add(&recs[0]);
            for i in 0..d {
                let ls = lengths(m.bytes.len(), if i == 0 { 3 } else { 1 }, &[0, 7], by_tier(8, 3));
                let r = payload(i, *pick(&ls), 0);
                m.add(&r);
                recs.push(r);
            }
            from_offset(&recs, &|m| {
                let mut v = std::collections::BTreeSet::new();
                for f in &m.frags { for e in [f.start, f.end()] { for k in 0..=2 { v.insert((e + k).saturating_sub(1)); } } }
                for b in (0..=m.bytes.len()).step_by(BLOCK) { for k in 0..=18 { v.insert((b + k).saturating_sub(9)); } }
                v.insert(m.bytes.len());
                v.into_iter().filter(|o| *o <= m.bytes.len()).collect()
            })
        }).split(2)
        .scenario("all-offsets", "every 61st offset, and all within 9 bytes of a block edge, of three files of 4 to 7 blocks: records of 1 byte to 2 blocks; 200 records of about 1000 bytes; records that leave 7, 6, 1 and 0 bytes in a block", || {
            let lens: Vec<usize> = match choose(3) {
                0 => vec![1, 20000, 13000, 65536, 10, 9000, 9000],
                1 => (0..200).map(|i| 1000 + i % 7).collect(),
                _ => vec![BLOCK - 14, 5, BLOCK - 13 - 12, 6, BLOCK - 8 - 13, 7, BLOCK - 7, BLOCK - 20, 0, 9, 40000],
            };
            let recs: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, l)| payload(i, *l, 0)).collect();
            from_offset(&recs, &|m| (0..=m.bytes.len()).filter(|o| o % 61 == 0 || (o + 9) % BLOCK <= 18).collect())
        }).split(1)
        .scenario("cut and slow", "four logs of 4 or 5 records, cut at every edge and read from every edge, on a device that gives 7, 1000 or 32767 bytes at a time, with and without verification", cut_and_slow)
        .scenario("far", "logs whose last records are near each power of two from 2^16 to 2^62, read from every edge there", far)
        .run()
}
