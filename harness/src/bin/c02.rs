//! C02: after a crash the log holds exactly the records that reached the device whole.
use h::{dev::*, refs::*, wal::*};
use mc::*;
use std::rc::Rc;

fn history(depth: usize, blocks: usize, small: &[usize], window: isize, style: usize) -> (LogRef, Vec<Vec<u8>>, Rc<Vec<u8>>) {
    // The history is written by the real writer; the reference encoder only says where fragments lie.
    let disk: DiskRef = Rc::default();
    let mut w = new_writer(&disk);
    let mut model = LogRef::new();
    let mut recs = vec![];
    for i in 0..depth {
        let ls = lengths(disk.borrow().data.len(), blocks, small, window);
        let rec = payload(i, *pick(&ls), style);
        model.add(&rec);
        ensure!(add(&mut w, &rec).is_ok(), "adding record {i} failed");
        recs.push(rec);
    }
    let data = rc(disk.borrow().data.clone());
    ensure!(data.len() == model.bytes.len(), "the log has {} bytes, its format asks for {}", data.len(), model.bytes.len());
    (model, recs, data)
}
fn whole(m: &LogRef, cut: usize) -> usize { (0..m.recs).filter(|r| m.end_of(*r) <= cut).count() }

/// Every crash point: the file ends at byte `cut`.
fn cut_at(m: &LogRef, recs: &[Vec<u8>], data: &Rc<Vec<u8>>, cut: usize, checksum: bool) {
    let k = whole(m, cut);
    let got = drain(&mut reader(Source::prefix(data, cut), checksum, 0), recs.len() + 4);
    state(&(&m.frags.iter().map(|f| (f.start, f.len)).collect::<Vec<_>>(), cut));
    expect(&got, &recs[..k], &format!("log cut off after {cut} of {} bytes", data.len()));
    if cut < data.len() { outcome(format!("{k} of {} records", recs.len())) }
}
fn every_byte(depth: usize, small: &'static [usize]) {
    let (m, recs, data) = history(depth, 0, small, 0, 0);
    let checksum = flag();
    for cut in 0..=data.len() { cut_at(&m, &recs, &data, cut, checksum) }
}
/// Cut points around every fragment edge and block edge of long histories.
fn edges(depth: usize, window: isize, near: usize) {
    let (m, recs, data) = history(depth, 2, &[0, 30], window, 0);
    let mut cuts = std::collections::BTreeSet::new();
    for f in &m.frags { for e in [f.start, f.start + HEADER, f.end()] { for d in 0..=2 * near { cuts.insert((e + d).saturating_sub(near)); } } }
    for b in (0..=data.len()).step_by(BLOCK) { for d in 0..=2 * near { cuts.insert((b + d).saturating_sub(near)); } }
    for cut in cuts { if cut <= data.len() { cut_at(&m, &recs, &data, cut, true) } }
}
/// Torn write: the file has its full length, but an arbitrary subset of the 512 byte sectors that
/// were not yet acknowledged holds zeros. Acknowledged records come first and whole, nothing that
/// was never written comes back.
fn torn(depth: usize) {
    let (m, recs, data) = history(depth, 1, &[3, 700, 1400], 6, 0);
    let acked = choose(depth);
    let base = if acked == 0 { 0 } else { m.end_of(acked - 1) };
    let mut bytes = (*data).clone();
    let s0 = base / 512;
    let s1 = (bytes.len() - 1) / 512;
    // at most the first and last 3 sectors of the suffix vary alone, those between are lost together
    let n = s1 + 1 - s0;
    let mut lost = vec![];
    for i in 0..n {
        if n > 6 && i > 3 && i < n - 2 { let prev = lost[3]; lost.push(prev); continue }
        lost.push(flag());
    }
    for (i, l) in lost.iter().enumerate() {
        if *l { for b in (s0 + i) * 512..((s0 + i + 1) * 512).min(bytes.len()) { if b >= base { bytes[b] = 0 } } }
    }
    let intact: Vec<bool> = (0..m.recs).map(|r| m.frags.iter().filter(|f| f.rec == r).all(|f| bytes[f.start..f.end()] == m.bytes[f.start..f.end()])).collect();
    state(&(base, bytes.len(), &lost));
    let got = drain(&mut reader(Source::plain(&rc(bytes)), true, 0), recs.len() + 80);
    let mut i = 0;
    for (k, g) in got.iter().enumerate() {
        match g {
            Got::Rec(r) => {
                let at = (i..recs.len()).find(|j| &recs[*j] == r && intact[*j]);
                match at {
                    None => fail(format!("answer {k} is {}, which is not a record that survived: {}", show(g), shows(&got))),
                    Some(j) => { if i < acked { ensure!(j == i, "acknowledged record {i} is missing: {}", shows(&got)) } i = j + 1 }
                }
            }
            Got::Err(_) => ensure!(i >= acked, "an error comes before acknowledged record {i}: {}", shows(&got)),
            Got::End => {}
        }
    }
    ensure!(i >= acked, "only {i} of {acked} acknowledged records come back: {}", shows(&got));
    outcome(format!("{} records, {} errors", got.iter().filter(|g| matches!(g, Got::Rec(_))).count(), got.iter().filter(|g| matches!(g, Got::Err(_))).count()));
}
/// A device that dies while a record is being written: the bytes taken so far are what a crash leaves.
fn dying() {
    struct Dying(DiskRef, usize);
    impl std::io::Write for Dying {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let mut d = self.0.borrow_mut();
            let n = b.len().min(self.1 - d.data.len());
            if n == 0 && !b.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "no power")) }
            d.data.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> { let mut d = self.0.borrow_mut(); d.flushed = d.data.len(); Ok(()) }
    }
    let lens: Vec<usize> = (0..3).map(|_| *pick(&[0usize, 1, 5, 20])).collect();
    let total: usize = lens.iter().map(|l| l + HEADER).sum();
    let limit = choose(total + 1);
    let disk: DiskRef = Rc::default();
    let b: Box<dyn std::io::Write> = Box::new(Dying(disk.clone(), limit));
    let mut w = level_db_rust::db::log_writer::LogWriter::new(b);
    let recs: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, l)| payload(i, *l, 0)).collect();
    let mut acked = 0;
    for r in &recs { if add(&mut w, r).is_ok() { acked += 1 } else { break } }
    let data = rc(disk.borrow().data.clone());
    let got = drain(&mut reader(Source::plain(&data), true, 0), 6);
    let n = got.len() - 1;
    ensure!(n >= acked, "{acked} records were acknowledged before the crash, {n} come back");
    expect(&got, &recs[..n], "log of a writer whose device died");
    state(&(lens, limit));
    outcome(format!("{acked} acknowledged"));
}
/// A device that holds back what was not flushed: a crash after each addition leaves everything
/// flushed and any part of the rest.
fn volatile(depth: usize, window: isize) {
    let disk: DiskRef = Rc::default();
    let mut w = new_writer(&disk);
    let mut recs = vec![];
    for i in 0..depth {
        let ls = lengths(disk.borrow().data.len(), 1, &[0, 1, 300], window);
        let rec = payload(i, *pick(&ls), 0);
        ensure!(add(&mut w, &rec).is_ok(), "adding record {i} failed");
        recs.push(rec);
        let (data, flushed) = { let d = disk.borrow(); (rc(d.data.clone()), d.flushed) };
        let mut cuts = vec![flushed, flushed + 1, (flushed + data.len()) / 2, data.len()];
        cuts.retain(|c| *c <= data.len());
        cuts.dedup();
        for cut in cuts {
            let got = drain(&mut reader(Source::prefix(&data, cut), true, 0), recs.len() + 4);
            expect(&got, &recs, &format!("{} records were acknowledged and the device kept the {flushed} bytes that were flushed and {} of {} more", recs.len(), cut - flushed, data.len() - flushed));
        }
        state(&(data.len(), flushed));
    }
    outcome("every acknowledged record had been flushed");
}
fn main() {
    let d = by_tier(2, 3);
    Check::new("C02", "model_checking", "histories written by the real writer, cut off at every byte (or at every byte near an edge for long ones) or torn in every subset of sectors, and recovered by the real reader; a state is (fragment layout, crash point)")
        .assume("a crash leaves a prefix of the file that holds at least what was flushed, or a file of full length in which unacknowledged 512 byte sectors are zero")
        .scenario("every-byte", "every crash point of every history of 4 records of 0,1,6,13 or 40 bytes, with and without checksums", || every_byte(4, &[0, 1, 6, 13, 40])).split(2)
        .scenario("edges", format!("crash points within 8 bytes of every fragment and block edge, all histories of {d} records with lengths around the next 2 block ends"), move || edges(d, by_tier(9, 8), 8)).split(2)
        .scenario("long", "every 97th byte and all edges of records of 3 blocks", || {
            let (m, recs, data) = { let disk: DiskRef = Rc::default(); let mut w = new_writer(&disk); let mut m = LogRef::new(); let a = choose(3) * 11000; let recs: Vec<Vec<u8>> = [100 + a, 2 * BLOCK + 500, 40].iter().enumerate().map(|(i, l)| payload(i, *l, 0)).collect(); for r in &recs { m.add(r); ensure!(add(&mut w, r).is_ok(), "add failed"); } let d = rc(disk.borrow().data.clone()); (m, recs, d) };
            let part = choose(8);
            for cut in (part * 97..data.len()).step_by(97 * 8) { cut_at(&m, &recs, &data, cut, true) }
        })
        .scenario("dying-device", "the device stops taking bytes at every byte while 3 records of 0,1,5 or 20 bytes are added", dying)
        .scenario("volatile", format!("a crash after each addition leaves what was flushed and part of the rest, all histories of {d} records with lengths around the block end"), move || volatile(d, by_tier(12, 10)))
        .scenario("torn", format!("every subset of the unacknowledged sectors lost (inner sectors of long records together), all histories of {d} records"), move || torn(d)).split(4)
        .run()
}
