//! Interface between harnesses and whatever runs them: the symbolic executor (which implements
//! these functions itself) or the native replayer (src/replay.rs), which feeds back the inputs
//! of a counterexample.
#![allow(dead_code)]
extern "C" {
    fn nk_sym(bits: u64) -> u64;
    fn nk_choose(n: u64) -> u64;
    fn nk_concrete(v: u64) -> u64;
    fn nk_assume(c: bool);
    fn nk_check(c: bool, id: u64);
    fn nk_cover(id: u64);
    fn nk_allow_panic(on: bool);
    fn nk_end() -> !;
    fn nk_note(p: *const u8, n: usize, v: u64);
    fn nk_symbolic() -> u64;
    fn nk_fs_budget(n: u64);
    fn nk_fs_killed() -> u64;
    fn nk_clock(secs: u64);
    fn nk_written() -> u64;
    fn nk_closed(fd: i32) -> u64;
}
/// What the clock of the system shows from now on.
pub fn system_clock(secs: u64) {
    unsafe { nk_clock(secs) }
}
/// How often `write` was called on made-up file descriptors.
pub fn written() -> u64 {
    unsafe { nk_written() }
}
/// How often a made-up file descriptor (from 1000 on) was closed.
pub fn closed(fd: i32) -> u64 {
    unsafe { nk_closed(fd) }
}
/// Whether the budget has run out.
pub fn fs_killed() -> bool {
    unsafe { nk_fs_killed() == 1 }
}
/// After `n` more changes to files (writes and truncations) the process is taken to be killed: when
/// called again with `u64::MAX`, files are what they were at that moment. May be symbolic.
pub fn fs_budget(n: u64) {
    unsafe { nk_fs_budget(n) }
}
/// A fresh unconstrained bit-vector.
pub fn sym(bits: u32) -> u64 {
    unsafe { nk_sym(bits as u64) }
}
pub fn u64s() -> u64 {
    sym(64)
}
pub fn u32s() -> u32 {
    sym(32) as u32
}
pub fn u16s() -> u16 {
    sym(16) as u16
}
pub fn u8s() -> u8 {
    sym(8) as u8
}
pub fn bools() -> bool {
    sym(1) & 1 == 1
}
/// A symbolic value in `lo..=hi`.
pub fn within(bits: u32, lo: u64, hi: u64) -> u64 {
    let v = sym(bits);
    assume(v >= lo && v <= hi);
    v
}
/// Case split: one path per value in `0..n`.
pub fn choose(n: u64) -> u64 {
    unsafe { nk_choose(n) }
}
/// Split into one path per feasible value.
pub fn concrete(v: u64) -> u64 {
    unsafe { nk_concrete(v) }
}
pub fn assume(c: bool) {
    unsafe { nk_assume(c) }
}
/// The obligation: must hold for every assignment on this path.
pub fn check(c: bool, id: u64) {
    unsafe { nk_check(c, id) }
}
/// Reachability marker (vacuity guard).
pub fn cover(id: u64) {
    unsafe { nk_cover(id) }
}
pub fn allow_panic(on: bool) {
    unsafe { nk_allow_panic(on) }
}
pub fn end() -> ! {
    unsafe { nk_end() }
}
pub fn note(s: &str, v: u64) {
    unsafe { nk_note(s.as_ptr(), s.len(), v) }
}
pub fn symbolic() -> bool {
    unsafe { nk_symbolic() == 1 }
}
