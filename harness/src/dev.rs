//! In-memory devices whose answers the explorer decides.
use level_db_rust::db::log_reader::SeekableReader;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Default, Clone, Debug)]
pub struct Disk {
    /// bytes the device has taken
    pub data: Vec<u8>,
    /// length that had been taken when the last flush succeeded
    pub flushed: usize,
    pub writes: usize,
    pub faults: usize,
    /// the device reported a failure that the caller cannot retry
    pub failed: bool,
}
pub type DiskRef = Rc<RefCell<Disk>>;

/// A device that takes everything.
pub struct Plain(pub DiskRef);
impl Write for Plain {
    fn write(&mut self, b: &[u8]) -> Result<usize> { let mut d = self.0.borrow_mut(); d.data.extend_from_slice(b); d.writes += 1; Ok(b.len()) }
    fn flush(&mut self) -> Result<()> { let mut d = self.0.borrow_mut(); d.flushed = d.data.len(); Ok(()) }
}
/// A device each of whose answers may deviate.
pub struct Faulty(pub DiskRef);
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let mut d = self.0.borrow_mut();
        d.writes += 1;
        if b.is_empty() { return Ok(0) }
        let k = mc::choose_dev(6);
        if k != 0 { d.faults += 1 }
        let n = match k {
            0 => b.len(),
            1 => 1,
            2 => (b.len() + 1) / 2,
            3 => { mc::note!("write of {} bytes: interrupted", b.len()); return Err(Error::from(ErrorKind::Interrupted)) }
            4 => { d.failed = true; mc::note!("write of {} bytes: error", b.len()); return Err(Error::new(ErrorKind::Other, "device error")) }
            _ => { d.failed = true; mc::note!("write of {} bytes: takes none", b.len()); return Ok(0) }
        };
        if k != 0 { mc::note!("write of {} bytes takes {}", b.len(), n); }
        d.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut d = self.0.borrow_mut();
        if mc::choose_dev(2) == 1 {
            d.faults += 1; d.failed = true;
            mc::note!("flush: error");
            return Err(Error::new(ErrorKind::Other, "flush error"));
        }
        d.flushed = d.data.len();
        Ok(())
    }
}

pub struct Source {
    pub data: Rc<Vec<u8>>,
    pub pos: usize,
    pub limit: usize,
    pub faulty: bool,
    pub failed: Rc<RefCell<(usize, usize)>>, // (deviations, errors)
}
impl Source {
    pub fn plain(data: &Rc<Vec<u8>>) -> Source { Source { limit: data.len(), data: data.clone(), pos: 0, faulty: false, failed: Default::default() } }
    pub fn prefix(data: &Rc<Vec<u8>>, n: usize) -> Source { Source { limit: n, data: data.clone(), pos: 0, faulty: false, failed: Default::default() } }
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = b.len().min(self.limit.saturating_sub(self.pos));
        let mut take = n;
        if self.faulty && n > 0 {
            let k = mc::choose_dev(6);
            if k != 0 { self.failed.borrow_mut().0 += 1 }
            match k {
                0 => {}
                1 => take = 1,
                2 => take = (n + 1) / 2,
                3 => take = (n - 1).max(1),
                4 => { mc::note!("read: interrupted"); return Err(Error::from(ErrorKind::Interrupted)) }
                _ => { mc::note!("read: error"); self.failed.borrow_mut().1 += 1; return Err(Error::new(ErrorKind::Other, "device error")) }
            }
            if take != n { mc::note!("read of {} bytes at {} gives {}", n, self.pos, take); }
        }
        if take == 0 { return Ok(0) }
        b[..take].copy_from_slice(&self.data[self.pos..self.pos + take]);
        self.pos += take;
        Ok(take)
    }
}
impl Seek for Source {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        if self.faulty && mc::choose_dev(2) == 1 {
            mc::note!("seek: error");
            let mut f = self.failed.borrow_mut();
            f.0 += 1; f.1 += 1;
            return Err(Error::new(ErrorKind::Other, "seek error"));
        }
        let p = match to {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.limit as i64 + d,
        };
        if p < 0 { return Err(Error::from(ErrorKind::InvalidInput)) }
        self.pos = p as usize;
        Ok(p as u64)
    }
}
impl SeekableReader for Source {}
