//! Oracles and environment objects shared by the checks.
pub mod cachem;
pub mod dev;
pub mod refs;
pub mod sl;
pub mod wal;

/// Routes the random draws of the code under test to the explorer; the first `MAX_DRAWS` draws of
/// a case are choices.
pub static mut MAX_DRAWS: u32 = 0;
pub fn explore_random(max_draws: u32) {
    unsafe {
        MAX_DRAWS = max_draws;
        rand::HOOK = Some(|| {
            let _t = mc::alloc::Tag::off();
            if mc::draws_left(MAX_DRAWS) { Some(mc::flag()) } else { None }
        });
    }
    rand::reset();
}
