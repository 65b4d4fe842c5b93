//! Proof harnesses: generated by check.py in a scratch copy of this crate.
pub const GROUPS: &[(&str, fn())] = &[];
