//! Seeds of `RandomState`: every thread draws its hash keys from here, so a fresh thread with seed s
//! iterates its hash tables in an order that is a function of s alone.
use std::cell::Cell;
thread_local! { static SEED: Cell<u64> = const { Cell::new(0x5eed) }; }
pub fn set_thread_seed(seed: u64) {
    SEED.with(|s| s.set(seed));
}
pub fn fill(buf: &mut [u8]) {
    let mut x = SEED.with(|s| {
        let v = s.get();
        s.set(v.wrapping_add(0x9E37_79B9_7F4A_7C15));
        v
    });
    for b in buf.iter_mut() {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        *b = (z ^ (z >> 31)) as u8;
    }
}
