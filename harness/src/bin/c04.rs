//! C04: device faults while a log is written or read.
use h::{dev::*, refs::*, wal::*};
use level_db_rust::db::log_writer::LogWriter;
use mc::*;
use std::rc::Rc;

fn writer_faults(depth: usize, blocks: usize, small: &[usize], window: isize) {
    let disk: DiskRef = Rc::default();
    let b: Box<dyn std::io::Write> = Box::new(Faulty(disk.clone()));
    let mut w = sut("opening", || LogWriter::new(b));
    let mut model = LogRef::new();
    let mut recs: Vec<Vec<u8>> = vec![];
    let mut acked = 0;
    for i in 0..depth {
        let ls = lengths(model.bytes.len(), blocks, small, window);
        let rec = payload(i, *pick(&ls), 0);
        note!("add record of {} bytes", rec.len());
        model.add(&rec);
        recs.push(rec.clone());
        let r = add(&mut w, &rec);
        let d = disk.borrow();
        state(&(recs.iter().map(|r| r.len()).collect::<Vec<_>>(), d.writes, d.data.len(), d.flushed, d.failed));
        let n = d.data.len().min(model.bytes.len());
        ensure!(d.data.len() <= model.bytes.len() && d.data[..n] == model.bytes[..n], "the device holds bytes that are not a prefix of the log ({} bytes, {} faults)", d.data.len(), d.faults);
        match r {
            Ok(()) => {
                ensure!(!d.failed, "adding record {i} succeeded although the device reported a failure");
                ensure!(d.data.len() == model.bytes.len(), "adding record {i} succeeded, but {} of {} bytes reached the device", d.data.len(), model.bytes.len());
                ensure!(d.flushed == d.data.len(), "adding record {i} succeeded, but only {} of {} bytes were flushed", d.flushed, d.data.len());
                acked += 1;
            }
            Err(e) => {
                ensure!(d.failed, "adding record {i} failed with '{e}' although the device could go on");
                break;
            }
        }
    }
    outcome(format!("{acked} acknowledged, {} faults", disk.borrow().faults));
    let data = rc(disk.borrow().data.clone());
    let got = drain(&mut reader(Source::plain(&data), true, 0), depth + 4);
    let n = got.len() - 1;
    ensure!(n >= acked, "{acked} records acknowledged, {n} read back");
    expect(&got, &recs[..n], "after a device fault");
}
/// The writer is asked to go on after an error; once the device has been in order again, what it
/// acknowledges is there.
fn going_on(depth: usize, blocks: usize, small: &[usize], window: isize) {
    let disk: DiskRef = Rc::default();
    let b: Box<dyn std::io::Write> = Box::new(Faulty(disk.clone()));
    let mut w = sut("opening", || LogWriter::new(b));
    let mut recs: Vec<(Vec<u8>, bool)> = vec![];
    for i in 0..depth {
        // the last one only has to be there
        let ls = if i + 1 < depth { lengths(disk.borrow().data.len(), blocks, small, window) } else { small.to_vec() };
        let rec = payload(i, *pick(&ls), 0);
        note!("add record of {} bytes", rec.len());
        disk.borrow_mut().failed = false;
        let r = add(&mut w, &rec);
        let d = disk.borrow();
        match &r {
            Ok(()) => {
                ensure!(!d.failed, "adding record {i} succeeded although the device reported a failure");
                ensure!(d.flushed == d.data.len(), "adding record {i} succeeded, but only {} of {} bytes were flushed", d.flushed, d.data.len());
            }
            Err(e) => ensure!(d.failed, "adding record {i} failed with '{e}' although the device could go on"),
        }
        recs.push((rec, r.is_ok()));
        state(&(recs.iter().map(|r| (r.0.len(), r.1)).collect::<Vec<_>>(), d.data.len(), d.flushed));
    }
    let data = rc(disk.borrow().data.clone());
    let told = || recs.iter().map(|r| format!("{} bytes {}", r.0.len(), if r.1 { "added" } else { "refused" })).collect::<Vec<_>>().join(", ");
    let got = drain(&mut reader(Source::plain(&data), true, 0), 4 * depth + 4);
    // where one may stand after the answers so far: refused records may be missing
    let mut at = vec![0];
    for g in &got {
        let Got::Rec(x) = g else { continue };
        at = (0..depth).filter(|k| recs[*k].0 == *x && at.iter().any(|p| p <= k && recs[*p..*k].iter().all(|r| !r.1))).map(|k| k + 1).collect();
        ensure!(!at.is_empty(), "of {}, the reader gives {}", told(), shows(&got));
    }
    ensure!(at.iter().any(|p| recs[*p..].iter().all(|r| !r.1)), "of {}, the reader gives only {}", told(), shows(&got));
    outcome(format!("{} of {depth} added, {} errors", recs.iter().filter(|r| r.1).count(), got.iter().filter(|g| matches!(g, Got::Err(_))).count()));
}
fn reader_faults(depth: usize, blocks: usize, small: &[usize], window: isize) {
    let mut model = LogRef::new();
    let mut recs = vec![];
    for i in 0..depth {
        let ls = lengths(model.bytes.len(), blocks, small, window);
        let rec = payload(i, *pick(&ls), 0);
        model.add(&rec);
        recs.push(rec);
    }
    let data = rc(model.bytes);
    let mut src = Source::plain(&data);
    src.faulty = true;
    let st = src.failed.clone();
    let mut r = reader(src, true, 0);
    let mut got = vec![];
    // an error before the first record is reported by it
    let mut before = 0;
    loop {
        let g = next(&mut r);
        let failed = st.borrow().1 > before;
        before = st.borrow().1;
        state(&(recs.iter().map(|r: &Vec<u8>| r.len()).collect::<Vec<_>>(), got.len(), *st.borrow(), matches!(g, Got::Rec(_))));
        if failed {
            ensure!(matches!(g, Got::Err(_)), "the device failed while record {} was read, the reader answered {}", got.len(), show(&g));
            outcome(format!("error after {} records", got.len()));
            // what came before the failure is right
            for (i, g) in got.iter().enumerate() { ensure!(*g == Got::Rec(recs[i].clone()), "record {i} differs: {}", show(g)) }
            // asking again never yields something that was not written
            for _ in 0..depth + 3 {
                match next(&mut r) { Got::Rec(x) => ensure!(recs.contains(&x), "after a device failure the reader returned a record that was never written"), Got::End => break, Got::Err(_) => {} }
            }
            return;
        }
        if let Got::Err(e) = &g { fail(format!("the reader reported '{e}' although the device only gave short or interrupted reads")) }
        let end = g == Got::End;
        got.push(g);
        if end { break }
        ensure!(got.len() <= depth + 3, "no end");
    }
    outcome(format!("{} deviations", st.borrow().0));
    expect(&got, &recs, "over a device with short and interrupted reads");
}
/// A device that never gives or takes more than `n` bytes at a time.
fn trickle() {
    let n = *pick(&[1usize, 2, 3, 6, 7, 8, 100, 511, 4096, 32767]);
    struct W(DiskRef, usize);
    impl std::io::Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let k = b.len().min(self.1); self.0.borrow_mut().data.extend_from_slice(&b[..k]); Ok(k) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    struct R(Source, usize);
    impl std::io::Read for R { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let k = b.len().min(self.1); self.0.read(&mut b[..k]) } }
    impl std::io::Seek for R { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
    impl level_db_rust::db::log_reader::SeekableReader for R {}
    let lens = [100, *pick(&[0usize, 30000, 32700, 40000, 70000]), 50];
    let recs: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, l)| payload(i, *l, 0)).collect();
    let model = LogRef::of(&recs);
    let disk: DiskRef = Rc::default();
    let mut w = LogWriter::new(Box::new(W(disk.clone(), n)));
    for r in &recs { ensure!(add(&mut w, r).is_ok(), "a device that takes {n} bytes at a time: adding a record failed"); }
    ensure!(disk.borrow().data == model.bytes, "a device that takes {n} bytes at a time holds a different log");
    let data = rc(model.bytes);
    let mut r = sut("opening", || level_db_rust::db::log_reader::LogReader::new(Box::new(R(Source::plain(&data), n)), true, 0));
    let got = drain(&mut r, 7);
    state(&(n, lens));
    expect(&got, &recs, &format!("a device that gives {n} bytes at a time"));
}
/// A device interrupted `n` times before each or at one of its answers.
fn patience() {
    let n = *pick(&[1usize, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 4096, 10000, 65535, 65536, 65537]);
    let at = choose(6); // 5: always
    #[derive(Clone)]
    struct I { n: usize, at: usize, call: usize, left: usize }
    impl I {
        fn go(&mut self) -> std::io::Result<()> {
            if self.left > 0 { self.left -= 1; return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)) }
            self.call += 1;
            self.left = if self.at == 5 || self.call == self.at { self.n } else { 0 };
            Ok(())
        }
    }
    struct W(DiskRef, I);
    impl std::io::Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.1.go()?; let k = b.len().min(9); self.0.borrow_mut().data.extend_from_slice(&b[..k]); Ok(k) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    struct R(Source, I);
    impl std::io::Read for R { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.1.go()?; let k = b.len().min(9); self.0.read(&mut b[..k]) } }
    impl std::io::Seek for R { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
    impl level_db_rust::db::log_reader::SeekableReader for R {}
    let i = I { n, at, call: 0, left: if at == 0 || at == 5 { n } else { 0 } };
    let recs: Vec<Vec<u8>> = [20, 0].iter().enumerate().map(|(i, l)| payload(i, *l, 0)).collect();
    let model = LogRef::of(&recs);
    let disk: DiskRef = Rc::default();
    let mut w = LogWriter::new(Box::new(W(disk.clone(), i.clone())));
    for r in &recs { ensure!(add(&mut w, r).is_ok(), "a device interrupted {n} times in a row: adding a record failed"); }
    ensure!(disk.borrow().data == model.bytes, "a device interrupted {n} times in a row holds a different log");
    let data = rc(model.bytes);
    let mut r = sut("opening", || level_db_rust::db::log_reader::LogReader::new(Box::new(R(Source::plain(&data), i)), true, 0));
    let got = drain(&mut r, 6);
    state(&(n, at));
    step();
    expect(&got, &recs, &format!("a device interrupted {n} times in a row"));
}
fn main() {
    let dev = by_tier(2, 3);
    Check::new("C04", "model_checking", "the answers of the device under the real writer and reader are choices: full, 1 byte, half, interrupted, error, nothing (and flush errors), with a bounded number of deviations per execution; a state is (history, device progress)")
        .assume("the device takes the writes that follow a failed one behind what it has taken")
        .scenario_dev("writer", format!("up to {dev} deviations anywhere in 3 records of 0,1,12 bytes"), dev, || writer_faults(3, 0, &[0, 1, 12], 0))
        .scenario_dev("writer-long", format!("up to {dev} deviations anywhere in 2 records ending around the next 2 block ends"), dev, || writer_faults(2, 2, &[5], by_tier(2, 8))).split(2)
        .scenario_dev("writer-edges", "one deviation anywhere in 2 records ending within 8 bytes of the next 2 block ends", 1, || writer_faults(2, 2, &[5], 8)).split(2)
        .scenario_dev("going-on", format!("up to {dev} deviations anywhere in 4 records of 1 or 12 bytes, the writer is used again after each error"), dev, || going_on(4, 0, &[1, 12], 0))
        .scenario_dev("going-on-long", format!("up to {dev} deviations anywhere in 2 records ending within {} bytes of the next block end{} and one of 5 bytes, the writer is used again after each error", by_tier(1, 3), by_tier("", "s")), dev, || going_on(3, by_tier(1, 2), &[5], by_tier(1, 3))).split(2)
        .scenario_dev("going-on-edges", format!("one deviation anywhere in 2 records ending within 8 bytes of the next {}block ends and one of 5 bytes, the writer is used again after an error", by_tier("", "2 ")), 1, || going_on(3, by_tier(1, 2), &[5], 8)).split(2)
        .scenario_dev("reader", format!("up to {dev} deviations anywhere while 3 records of 0,9 bytes are read"), dev, || reader_faults(3, 0, &[0, 9], 0))
        .scenario_dev("reader-long", format!("up to {dev} deviations anywhere while 2 records around the next 2 block ends are read"), dev, || reader_faults(2, 2, &[5], by_tier(3, 8))).split(2)
        .scenario("trickle", "devices that never move more than n bytes at a time, n from 1 to 32767, logs of up to 4 blocks", trickle)
        .scenario("patience", "1 to 65537 interruptions in a row (powers of 2 and 10 and their neighbours) before one of the first 5 answers of the device or before each", patience)
        .run()
}
