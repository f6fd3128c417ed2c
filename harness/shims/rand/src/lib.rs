//! `rand` with its only ambient source of entropy (`random`, `thread_rng`, `from_entropy`)
//! routed to the explorer: every draw is a choice between all-zero and all-one bits.
//! After `LIMIT` draws in one case the remaining draws come from a fixed sequence, so that
//! rejection loops end.
pub use real::distributions;
pub use real::seq;
pub use real::{CryptoRng, Error, Fill, Rng, RngCore, SeedableRng};
pub use real::{rngs as real_rngs};
use real::distributions::{Distribution, Standard};
use std::cell::Cell;

/// Called for every draw; returns Some(true) for all ones, Some(false) for all zeros,
/// None when the draw must come from the fixed sequence.
pub static mut HOOK: Option<fn() -> Option<bool>> = None;

thread_local! { static LCG: Cell<u64> = const { Cell::new(0x9E3779B97F4A7C15) }; }
pub fn reset() { LCG.with(|c| c.set(0x9E3779B97F4A7C15)) }

fn draw() -> u64 {
    let h = unsafe { HOOK };
    match h.and_then(|f| f()) {
        Some(true) => u64::MAX,
        Some(false) => 0,
        None => LCG.with(|c| {
            let mut x = c.get();
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            c.set(x);
            x.wrapping_mul(0x2545F4914F6CDD1D)
        }),
    }
}

#[derive(Clone, Debug, Default)]
pub struct ThreadRng(());
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { (draw() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { draw() }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) { let b = draw().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for ThreadRng {}
pub fn thread_rng() -> ThreadRng { ThreadRng(()) }
pub fn random<T>() -> T where Standard: Distribution<T> { thread_rng().gen() }

pub mod rngs {
    pub use super::ThreadRng;
    pub use super::ThreadRng as OsRng;
    pub use real::rngs::StdRng;
    pub mod mock { pub use real::rngs::mock::StepRng; }
}
pub mod prelude {
    pub use real::distributions::Distribution;
    pub use super::rngs::StdRng;
    pub use super::rngs::ThreadRng;
    pub use real::seq::{IteratorRandom, SliceRandom};
    pub use super::{random, thread_rng};
    pub use real::{CryptoRng, Rng, RngCore, SeedableRng};
}
