//! Reference definitions, written from the LevelDB format documents, with no use of level_db_rust.

/// CRC-32C, bit by bit.
pub fn crc32c_extend(crc: u32, data: &[u8]) -> u32 {
    let t = table();
    let mut c = !crc;
    for b in data { c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8); }
    !c
}
/// The same for `n` zero bytes, in a number of steps logarithmic in `n`.
pub fn crc32c_zeros(crc: u32, mut n: u64) -> u32 {
    let apply = |m: &[u32; 32], v: u32| (0..32).filter(|i| v >> i & 1 == 1).fold(0, |a, i| a ^ m[i]);
    // what one zero byte makes of each bit
    let mut m = [0u32; 32];
    for i in 0..32 { m[i] = !crc32c_extend(!(1 << i), &[0]) }
    let mut c = !crc;
    while n > 0 {
        if n & 1 == 1 { c = apply(&m, c) }
        let s = m;
        for i in 0..32 { m[i] = apply(&s, s[i]) }
        n >>= 1;
    }
    !c
}
pub fn crc32c(data: &[u8]) -> u32 { crc32c_extend(0, data) }
pub fn crc_mask(c: u32) -> u32 { ((c >> 15) | (c << 17)).wrapping_add(0xa282ead8) }
fn table() -> &'static [u32; 256] {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 256]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0x82f63b78 } else { c >> 1 } }
            t[i as usize] = c;
        }
        t
    })
}

pub const BLOCK: usize = 32768;
pub const HEADER: usize = 7;

#[derive(Clone, Debug, PartialEq)]
pub struct Frag { pub start: usize, pub len: usize, pub kind: u8, pub rec: usize }
impl Frag { pub fn end(&self) -> usize { self.start + HEADER + self.len } }

/// The log format of LevelDB: the file, and where each fragment lies.
pub struct LogRef { pub bytes: Vec<u8>, pub frags: Vec<Frag>, pub recs: usize }
impl LogRef {
    pub fn new() -> LogRef { LogRef { bytes: vec![], frags: vec![], recs: 0 } }
    pub fn of(recs: &[Vec<u8>]) -> LogRef { let mut l = LogRef::new(); for r in recs { l.add(r) } l }
    pub fn add(&mut self, rec: &[u8]) {
        let mut left = rec;
        let mut first = true;
        loop {
            let room = BLOCK - self.bytes.len() % BLOCK;
            if room < HEADER { self.bytes.resize(self.bytes.len() + room, 0); }
            let avail = BLOCK - self.bytes.len() % BLOCK - HEADER;
            let n = left.len().min(avail);
            let last = n == left.len();
            let kind = match (first, last) { (true, true) => 1, (true, false) => 2, (false, false) => 3, (false, true) => 4 };
            self.frag(kind, &left[..n], self.recs);
            left = &left[n..];
            first = false;
            if last { break }
        }
        self.recs += 1;
    }
    pub fn frag(&mut self, kind: u8, data: &[u8], rec: usize) {
        let c = crc_mask(crc32c_extend(crc32c(&[kind]), data));
        self.frags.push(Frag { start: self.bytes.len(), len: data.len(), kind, rec });
        self.bytes.extend_from_slice(&c.to_le_bytes());
        self.bytes.extend_from_slice(&(data.len() as u16).to_le_bytes());
        self.bytes.push(kind);
        self.bytes.extend_from_slice(data);
    }
    /// First byte after the last fragment of record `r`.
    pub fn end_of(&self, r: usize) -> usize { self.frags.iter().filter(|f| f.rec == r).last().unwrap().end() }
    pub fn start_of(&self, r: usize) -> usize { self.frags.iter().find(|f| f.rec == r).unwrap().start }
}

pub fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v >= 128 { o.push((v as u8 & 127) | 128); v >>= 7; }
    o.push(v as u8);
    o
}

/// LevelDB's Hash().
pub fn leveldb_hash(data: &[u8], seed: u32) -> u32 {
    let m: u32 = 0xc6a4a793;
    let mut h = seed ^ (data.len() as u32).wrapping_mul(m);
    let mut it = data.chunks_exact(4);
    for w in &mut it {
        h = h.wrapping_add(u32::from_le_bytes(w.try_into().unwrap())).wrapping_mul(m);
        h ^= h >> 16;
    }
    let r = it.remainder();
    if r.len() == 3 { h = h.wrapping_add((r[2] as u32) << 16); }
    if r.len() >= 2 { h = h.wrapping_add((r[1] as u32) << 8); }
    if !r.is_empty() {
        h = h.wrapping_add(r[0] as u32).wrapping_mul(m);
        h ^= h >> 24;
    }
    h
}

/// LevelDB's bloom filter, with `k` probes.
pub fn bloom_k(bits_per_key: usize) -> usize {
    // nearest integer to 0.69 * bits_per_key, in integers
    ((69 * bits_per_key + 50) / 100).clamp(1, 30)
}
pub fn bloom_create(bits_per_key: usize, n: usize, keys: &[Vec<u8>]) -> Vec<u8> {
    let bytes = ((n * bits_per_key).max(64) + 7) / 8;
    let mut f = vec![0u8; bytes];
    let k = bloom_k(bits_per_key);
    for key in keys {
        for b in bloom_bits(key, k, bytes * 8) { f[b / 8] |= 1 << (b % 8); }
    }
    f.push(k as u8);
    f
}
pub fn bloom_bits(key: &[u8], k: usize, bits: usize) -> Vec<usize> {
    let h = leveldb_hash(key, 0xbc9f1d34);
    let delta = h.rotate_right(17);
    (0..k as u32).map(|i| h.wrapping_add(delta.wrapping_mul(i)) as usize % bits).collect()
}
pub fn bloom_may_match(key: &[u8], filter: &[u8]) -> bool {
    if filter.len() < 2 { return false }
    let (k, bits) = (*filter.last().unwrap() as usize, (filter.len() - 1) * 8);
    if k > 30 { return true }
    bloom_bits(key, k, bits).iter().all(|b| filter[b / 8] & (1 << (b % 8)) != 0)
}
