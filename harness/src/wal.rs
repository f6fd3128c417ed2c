//! Driving the log writer and reader.
use crate::dev::*;
use crate::refs::*;
use level_db_rust::db::log_reader::LogReader;
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::util::slice::Slice;
use mc::*;
use std::rc::Rc;

/// Payload of record `i`.
pub fn payload(i: usize, len: usize, style: usize) -> Vec<u8> {
    match style {
        0 => (0..len).map(|k| ((k * 131 + (k >> 8) * 29 + i * 71 + 13) ^ (k >> 3)) as u8).collect(),
        1 => vec![0; len],
        _ => vec![0xff; len],
    }
}
/// Record lengths worth distinguishing when the file is `pos` bytes long: absolute small ones, and
/// every length that ends within 8 bytes of a block end.
pub fn lengths(pos: usize, blocks: usize, small: &[usize], window: isize) -> Vec<usize> {
    let mut v: Vec<usize> = small.to_vec();
    let mut room = BLOCK - pos % BLOCK;
    if room < HEADER { room = BLOCK }
    let fit = room as isize - HEADER as isize;
    for b in 0..blocks as isize {
        let base = fit + b * (BLOCK - HEADER) as isize;
        for d in -window..=window / 2 { let n = base + d; if n >= 0 && !v.contains(&(n as usize)) { v.push(n as usize) } }
    }
    v
}
pub fn new_writer(d: &DiskRef) -> LogWriter { let b: Box<dyn std::io::Write> = Box::new(Plain(d.clone())); sut("opening a log for writing", || LogWriter::new(b)) }
pub fn reader(s: Source, checksum: bool, off: usize) -> LogReader { sut("opening a log for reading", || LogReader::new(Box::new(s), checksum, off)) }

#[derive(Debug, Clone, PartialEq)]
pub enum Got { Rec(Vec<u8>), End, Err(String) }
pub fn next(r: &mut LogReader) -> Got {
    let x = sut("reading a record", || r.read_next());
    step();
    match x { Ok(Some(s)) => Got::Rec(s.to_vec()), Ok(None) => Got::End, Err(e) => Got::Err(e.to_string()) }
}
/// Reads until the end of the log (errors included), at most `max` answers.
pub fn drain(r: &mut LogReader, max: usize) -> Vec<Got> {
    let mut v = vec![];
    loop {
        let g = next(r);
        let end = g == Got::End;
        v.push(g);
        if end { return v }
        ensure!(v.len() <= max, "reading the log does not come to an end: {} answers, the last {}", v.len(), show(v.last().unwrap()));
    }
}
pub fn show(g: &Got) -> String {
    match g { Got::Rec(r) => format!("record of {} bytes {:02x?}", r.len(), &r[..r.len().min(8)]), Got::End => "end".into(), Got::Err(e) => format!("error '{e}'") }
}
pub fn shows(v: &[Got]) -> String { v.iter().map(show).collect::<Vec<_>>().join(", ") }
/// The answers must be exactly these records and then the end.
pub fn expect(got: &[Got], want: &[Vec<u8>], what: &str) {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(Got::Rec(r)) if r == w => {}
            Some(Got::Rec(r)) => {
                let at = r.iter().zip(w.iter()).position(|(a, b)| a != b).unwrap_or(r.len().min(w.len()));
                fail(format!("{what}: record {i} has {} bytes, written {} bytes, first difference at byte {at}", r.len(), w.len()))
            }
            Some(g) => fail(format!("{what}: {} instead of record {i} ({} bytes)", show(g), w.len())),
            None => fail(format!("{what}: nothing instead of record {i}")),
        }
    }
    ensure!(got.get(want.len()) == Some(&Got::End), "{what}: after the {} written records comes {}", want.len(), show(&got[want.len()]));
}
pub fn add(w: &mut LogWriter, rec: &[u8]) -> Result<(), String> {
    let s = Slice::from_buf(rec);
    let r = sut("adding a record", || w.add_record(s));
    step();
    r.map_err(|e| e.to_string())
}
pub fn rc(v: Vec<u8>) -> Rc<Vec<u8>> { Rc::new(v) }
