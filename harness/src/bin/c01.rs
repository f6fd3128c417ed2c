//! C01: what is written to a log is read back.
use h::{dev::*, refs::*, wal::*};
use mc::*;
use std::rc::Rc;

fn round_trip(depth: usize, blocks: usize, small: &[usize], window: isize, styles: usize) {
    let style = if styles > 1 { choose(styles) } else { 0 };
    let disk: DiskRef = Rc::default();
    let mut w = new_writer(&disk);
    let mut recs: Vec<Vec<u8>> = vec![];
    let mut pos = 0;
    let mut shape = vec![];
    for i in 0..depth {
        let ls = lengths(pos, blocks, small, window);
        let len = *pick(&ls);
        let rec = payload(i, len, style);
        note!("add record of {len} bytes");
        let r = add(&mut w, &rec);
        ensure!(r.is_ok(), "adding record {i} failed: {r:?}");
        recs.push(rec);
        pos = disk.borrow().data.len();
        shape.push((len, pos));
    }
    drop(w);
    state(&shape);
    let data = rc(disk.borrow().data.clone());
    for checksum in [true, false] {
        let mut r = reader(Source::plain(&data), checksum, 0);
        let got = drain(&mut r, recs.len() + 4);
        expect(&got, &recs, if checksum { "reading back" } else { "reading back without checksums" });
        ensure!(next(&mut r) == Got::End, "after the end of the log the reader found more");
    }
    outcome(format!("{} blocks", data.len() / BLOCK + 1));
}

fn main() {
    let d = by_tier(2, 3);
    let s = by_tier(5, 7);
    Check::new("C01", "model_checking", "every sequence of record lengths from an alphabet of small lengths and of all lengths ending near a block boundary, written by the real writer and read by the real reader; a state is the sequence of (record length, file length)")
        .assume("record contents come from one of three fixed patterns; lengths outside the alphabet are not tried")
        .scenario("boundary", format!("all sequences of {d} records, lengths 0,1,10,1000 and ending -20..+10 bytes around the ends of the next 3 blocks"), move || round_trip(d, 3, &[0, 1, 10, 1000], 20, 1))
        .split(2)
        .scenario("patterns", "all sequences of 2 records with constant contents 00.. and ff.., lengths near the block ends", || round_trip(2, 2, &[0, 1, 7], 8, 3))
        .scenario("small", format!("all sequences of {s} records of 0..6 bytes"), move || {
            round_trip(s, 0, &[0, 1, 2, 3, 4, 5, 6][..], 0, 1)
        })
        .scenario("huge", "a record of just under, just over and exactly 2^21 and 2^24 bytes between two short ones", || {
            let disk: DiskRef = Rc::default();
            let mut w = new_writer(&disk);
            let n = (1usize << *pick(&[21, 24])) + choose(3) * 3 - 3;
            let recs: Vec<Vec<u8>> = [7, n, 9].iter().enumerate().map(|(i, l)| payload(i, *l, 0)).collect();
            for r in &recs { ensure!(add(&mut w, r).is_ok(), "adding a record of {} bytes failed", r.len()); }
            state(&n);
            expect(&drain(&mut reader(Source::plain(&rc(disk.borrow().data.clone())), true, 0), 9), &recs, "reading back");
        }).split(2)
        .scenario("many", "3000 records whose lengths run through 0..m, for 12 values of m up to 5000: logs of up to 250 blocks", || {
            let disk: DiskRef = Rc::default();
            let mut w = new_writer(&disk);
            let m = *pick(&[1usize, 2, 3, 8, 64, 127, 256, 500, 1000, 2000, 3001, 5000]);
            let recs: Vec<Vec<u8>> = (0..3000).map(|i| payload(i, i * 7919 % m, 0)).collect();
            for r in &recs { ensure!(add(&mut w, r).is_ok(), "adding a record failed"); }
            state(&m);
            expect(&drain(&mut reader(Source::plain(&rc(disk.borrow().data.clone())), true, 0), 3004), &recs, "reading back");
        }).split(1)
        .scenario("long", "records of 4, 5 and 16 blocks, alone and after a record that leaves 0..10 bytes in the block", || {
            let disk: DiskRef = Rc::default();
            let mut w = new_writer(&disk);
            let a = BLOCK - 2 * HEADER - choose(20).min(30);
            let lens = [a, *pick(&[4, 5, 16]) * BLOCK + choose(3) * 4111, 100];
            let recs: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, l)| payload(i, *l, 0)).collect();
            for r in &recs { ensure!(add(&mut w, r).is_ok(), "adding a record failed"); }
            let data = rc(disk.borrow().data.clone());
            state(&lens);
            let got = drain(&mut reader(Source::plain(&data), true, 0), 9);
            expect(&got, &recs, "reading back");
        })
        .run()
}
