//! C03: damage to a log is detected and never turns into a record.
use h::{dev::*, refs::*, wal::*};
use mc::*;
use std::rc::Rc;

fn build(lens: &[usize], style: usize) -> (LogRef, Vec<Vec<u8>>) {
    let disk: DiskRef = Rc::default();
    let mut w = new_writer(&disk);
    let mut m = LogRef::new();
    let recs: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, l)| payload(i, *l, style)).collect();
    for r in &recs { m.add(r); ensure!(add(&mut w, r).is_ok(), "adding a record failed"); }
    let d = disk.borrow().data.clone();
    ensure!(d.len() == m.bytes.len(), "the log has {} bytes, its format asks for {}", d.len(), m.bytes.len());
    m.bytes = d;
    (m, recs)
}
/// `bytes` is a damaged version of the log.
fn judge(m: &LogRef, recs: &[Vec<u8>], bytes: Vec<u8>, what: &dyn Fn() -> String) {
    let changed: Vec<usize> = (0..bytes.len()).filter(|k| bytes[*k] != m.bytes[*k]).collect();
    if changed.is_empty() { return }
    let hit: Vec<&Frag> = m.frags.iter().filter(|f| changed.iter().any(|c| (f.start..f.end()).contains(c))).collect();
    let last_block = (bytes.len() - 1) / BLOCK;
    let first_bad = hit.iter().map(|f| f.start / BLOCK).min();
    let last_bad = hit.iter().map(|f| f.start / BLOCK).max();
    let damaged: Vec<bool> = (0..recs.len()).map(|r| hit.iter().any(|f| f.rec == r)).collect();
    let got = drain(&mut reader(Source::plain(&rc(bytes)), true, 0), recs.len() + m.frags.len() + 40);
    // no fabricated, altered, repeated or reordered record
    let mut next_rec = 0;
    let mut seen = vec![false; recs.len()];
    let mut errs = 0;
    for g in &got {
        match g {
            Got::Rec(r) => match (next_rec..recs.len()).find(|j| !damaged[*j] && &recs[*j] == r) {
                Some(j) => { seen[j] = true; next_rec = j + 1 }
                None => fail(format!("{}: the reader returned {}, which is not an undamaged record in order; answers: {}", what(), show(g), shows(&got))),
            },
            Got::Err(e) => { errs += 1; ensure!(e.to_lowercase().contains("corrupt"), "{}: the damage is reported as '{e}', not as corruption", what()); }
            Got::End => {}
        }
    }
    // records outside the damaged blocks survive
    for r in 0..recs.len() {
        let blocks = (m.start_of(r) / BLOCK, (m.end_of(r) - 1) / BLOCK);
        let before = first_bad.map_or(true, |b| blocks.1 < b);
        // in the damaged block, records before the damage are safe as well
        let ahead = hit.first().map_or(true, |h| m.end_of(r) <= h.start);
        let after = last_bad.map_or(true, |b| blocks.0 > b);
        if before || ahead || after { ensure!(seen[r], "{}: undamaged record {r} outside the damaged block is lost; answers: {}", what(), shows(&got)); }
    }
    // reported, unless the damage can look like the torn end of the log
    let could_be_torn = hit.first().map_or(false, |f| f.start / BLOCK == last_block && changed.iter().any(|c| *c >= f.start + 4 && *c < f.start + 6));
    if !hit.is_empty() && !could_be_torn { ensure!(errs > 0, "{}: the damage is not reported; answers: {}", what(), shows(&got)); }
    if hit.is_empty() { ensure!(errs == 0, "{}: bytes that belong to no record were changed, yet an error is reported", what()); }
    outcome(format!("{} of {} records, {} errors", seen.iter().filter(|s| **s).count(), recs.len(), errs.min(4)));
}
fn flips(lens: &[usize], style: usize, positions: &dyn Fn(&LogRef) -> Vec<usize>, kinds: usize) {
    let (m, recs) = build(lens, style);
    let ps = positions(&m);
    let p = *pick(&ps);
    for k in 0..kinds {
        let mut b = m.bytes.clone();
        let old = b[p];
        b[p] = match k { 0..=7 => old ^ (1 << k), 8 => 0, 9 => 0xff, 10 => old.wrapping_add(1), 11 => old.wrapping_sub(1), _ => !old };
        state(&(lens, style, p, b[p]));
        judge(&m, &recs, b, &|| format!("byte {p} (fragment {:?}) changed from {old:02x} by pattern {k}", m.frags.iter().position(|f| (f.start..f.end()).contains(&p))));
    }
}
fn near_edges(m: &LogRef) -> Vec<usize> {
    let mut v = std::collections::BTreeSet::new();
    for f in &m.frags {
        for d in 0..HEADER + 2 { v.insert(f.start + d); }
        v.insert(f.start + HEADER + f.len / 2);
        for d in 1..3 { v.insert(f.end() - d); }
    }
    for b in (BLOCK..m.bytes.len()).step_by(BLOCK) { for d in 1..4 { v.insert(b - d); } }
    v.into_iter().filter(|p| *p < m.bytes.len()).collect()
}
fn main() {
    let multi: Vec<Vec<usize>> = vec![
        vec![100, BLOCK, 50, 60],
        vec![BLOCK - 2 * HEADER - 8, 20, 2 * BLOCK + 10, 5],
        vec![BLOCK - HEADER - 3, 40, BLOCK - HEADER, 9, 9],
        vec![BLOCK - 2 * HEADER, 0, 3 * BLOCK, 1],
        vec![3 * BLOCK + 17],
    ];
    let m2 = multi.clone();
    let triple = by_tier(3, 5);
    Check::new("C03", "model_checking", "logs written by the real writer, every single bit flip and byte change at every position (near every edge for long ones), pairs of damaged bytes, and cut or swapped fragments, read by the real reader; a state is a damaged file")
        .assume("checksums are on; a damaged record whose length field was changed in the last block may be taken for the torn end of the log")
        .scenario("short", "all bit flips and 5 byte changes at every byte of all logs of 3 records of 0,1,9 or 30 bytes in 3 styles", || {
            let lens: Vec<usize> = (0..3).map(|_| *pick(&[0usize, 1, 9, 30])).collect();
            let style = choose(3);
            flips(&lens, style, &|m| (0..m.bytes.len()).collect(), 13)
        })
        .scenario("long", "all bit flips and 5 byte changes near every fragment and block edge of 5 logs of 2 to 4 blocks", move || {
            let lens = pick(&multi).clone();
            flips(&lens, 0, &near_edges, 13)
        })
        .scenario("pairs", "two bytes of a 3 record log inverted, every pair of positions", || {
            let (m, recs) = build(&[4, 0, 11], 0);
            let a = choose(m.bytes.len());
            for b in a + 1..m.bytes.len() {
                let mut x = m.bytes.clone();
                x[a] = !x[a]; x[b] = !x[b];
                state(&(a, b));
                judge(&m, &recs, x, &|| format!("bytes {a} and {b} inverted"));
            }
        })
        .scenario("type", "every value of the type byte of every fragment", move || {
            let lens = pick(&m2).clone();
            let (m, recs) = build(&lens, 0);
            let f = pick(&m.frags).clone();
            for t in 0..=255u8 {
                let mut x = m.bytes.clone();
                x[f.start + 6] = t;
                state(&(&lens, f.start, t));
                judge(&m, &recs, x, &|| format!("type of the fragment at {} set to {t}", f.start));
            }
        })
        .scenario("zeroed", "every run of 1 to 64 zeroed bytes of a short log, and every zeroed 512 byte sector of a long one", || {
            if flag() {
                let (m, recs) = build(&[20, 3, 40], 2);
                let at = choose(m.bytes.len());
                for n in 1..=64usize.min(m.bytes.len() - at) {
                    let mut x = m.bytes.clone();
                    x[at..at + n].fill(0);
                    state(&(at, n));
                    judge(&m, &recs, x, &|| format!("{n} bytes at {at} zeroed"));
                }
            } else {
                let (m, recs) = build(&[500, BLOCK, 700, 300], 2);
                let s = choose(m.bytes.len() / 512);
                let mut x = m.bytes.clone();
                x[s * 512..s * 512 + 512].fill(0);
                state(&(s, 512));
                judge(&m, &recs, x, &|| format!("sector {s} zeroed"));
            }
        })
        .scenario("orphans", format!("all sequences of {triple} well-formed fragments of types 0 to 5 and 255, with checksums verified or not"), move || {
            // Every fragment is intact, but their order may not be one a writer produces.
            let mut m = LogRef::new();
            let mut want: Vec<Vec<u8>> = vec![];
            let mut open: Option<Vec<u8>> = None;
            let mut bad = 0;
            // what comes before a fragment of an unknown type has to be returned, what comes after it in the block may be
            let mut sure = usize::MAX;
            for i in 0..triple {
                let kind = *pick(&[1u8, 2, 3, 4, 0, 5, 255]);
                let body = vec![b'a' + i as u8; 1 + i];
                m.frag(kind, &body, i);
                match (kind, open.take()) {
                    (1, o) => { if o.is_some() { bad += 1 } want.push(body) }
                    (2, o) => { if o.is_some() { bad += 1 } open = Some(body) }
                    (3, Some(mut v)) => { v.extend(body); open = Some(v) }
                    (4, Some(mut v)) => { v.extend(body); want.push(v) }
                    (3 | 4, None) => bad += 1,
                    _ => { bad += 1; sure = sure.min(want.len()) }
                }
                state(&m.bytes);
            }
            let got = drain(&mut reader(Source::plain(&rc(m.bytes)), flag(), 0), 3 * triple + 4);
            let recs: Vec<Vec<u8>> = got.iter().filter_map(|g| if let Got::Rec(r) = g { Some(r.clone()) } else { None }).collect();
            let errs = got.iter().filter(|g| matches!(g, Got::Err(_))).count();
            let mut rest = want.iter().skip(sure);
            let fits = if sure == usize::MAX { recs == want } else { recs.len() >= sure && recs[..sure] == want[..sure] && recs[sure..].iter().all(|r| rest.any(|w| w == r)) };
            ensure!(fits, "fragments out of order: got {}, expected the complete records {:?}", shows(&got), want);
            ensure!((errs > 0) == (bad > 0), "fragments out of order: {errs} errors for {bad} misplaced fragments: {}", shows(&got));
            outcome(format!("{} records, {} errors", recs.len(), errs));
        })
        .run()
}
