//! Source of unconstrained inputs: symbolic values under Kani, a byte queue natively
//! (counterexample replay and seeded self-tests of the specification).
#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 { kani::any() }
    pub fn u16() -> u16 { kani::any() }
    pub fn u32() -> u32 { kani::any() }
    pub fn bool() -> bool { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    pub enum Src { Replay(VecDeque<Vec<u8>>), Rng(u64) }
    thread_local! { static SRC: RefCell<Src> = RefCell::new(Src::Rng(1)); }
    pub struct Discard;
    pub fn set_replay(v: Vec<Vec<u8>>) { SRC.with(|s| *s.borrow_mut() = Src::Replay(v.into())) }
    pub fn set_seed(x: u64) { SRC.with(|s| *s.borrow_mut() = Src::Rng(x.wrapping_mul(0x9E3779B97F4A7C15) | 1)) }
    fn take(n: usize) -> [u8; 8] {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Src::Replay(q) => {
                let v = q.pop_front().unwrap_or_default();
                let mut r = [0u8; 8];
                for i in 0..n.min(v.len()) { r[i] = v[i]; }
                r
            }
            Src::Rng(x) => {
                *x ^= *x << 13; *x ^= *x >> 7; *x ^= *x << 17;
                let mut y = *x;
                y = (y ^ (y >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
                y ^= y >> 32;
                // bias towards boundary values
                let mut r = y.to_le_bytes();
                let sel = (y >> 56) as u8;
                if sel & 7 == 0 { for b in r.iter_mut().take(n) { *b = 0 } }
                else if sel & 7 == 1 { for b in r.iter_mut().take(n) { *b = 0xFF } }
                else if sel & 7 == 2 { for b in r.iter_mut().take(n) { *b = 0 } r[0] = 1; }
                r
            }
        })
    }
    pub fn u8() -> u8 { take(1)[0] }
    pub fn u16() -> u16 { let r = take(2); u16::from_le_bytes([r[0], r[1]]) }
    pub fn u32() -> u32 { let r = take(4); u32::from_le_bytes([r[0], r[1], r[2], r[3]]) }
    pub fn bool() -> bool { take(1)[0] & 1 == 1 }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Discard) } }
}
pub use imp::*;
/// unconstrained value `< n`
pub fn below(n: u8) -> u8 {
    let v = u8();
    #[cfg(kani)] kani::assume(v < n);
    #[cfg(not(kani))] let v = v % n;
    v
}
