//! Stand-ins: everything is concrete, and what fails panics.
#![allow(dead_code)]
pub fn within(_bits: u32, lo: u64, _hi: u64) -> u64 {
    lo
}
pub fn concrete(v: u64) -> u64 {
    v
}
pub fn check(c: bool, id: u64) {
    assert!(c, "check {}", id)
}
pub fn symbolic() -> bool {
    false
}
