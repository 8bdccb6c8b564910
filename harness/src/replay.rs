//! Native replay: runs one harness on the real code with recorded input values.
//! usage: replay HARNESS V1,V2,...   exit 1: an obligation failed, 101: panic, 0: held, 3: assumption
//! not met or inputs exhausted.
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
static INPUTS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
fn next() -> u64 {
    INPUTS.lock().unwrap().pop().unwrap_or_else(|| {
        println!("inputs exhausted");
        std::process::exit(3)
    })
}
#[no_mangle]
pub extern "C" fn nk_sym(_bits: u64) -> u64 {
    next()
}
#[no_mangle]
pub extern "C" fn nk_choose(_n: u64) -> u64 {
    next()
}
#[no_mangle]
pub extern "C" fn nk_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn nk_assume(c: bool) {
    if !c {
        println!("assumption not met");
        std::process::exit(3)
    }
}
#[no_mangle]
pub extern "C" fn nk_check(c: bool, id: u64) {
    if !c {
        println!("CHECK {} FAILED", id);
        std::process::exit(1)
    }
}
#[no_mangle]
pub extern "C" fn nk_cover(_id: u64) {}
#[no_mangle]
pub extern "C" fn nk_allow_panic(_on: bool) {}
#[no_mangle]
pub extern "C" fn nk_end() -> ! {
    println!("held");
    std::process::exit(0)
}
#[no_mangle]
pub extern "C" fn nk_note(p: *const u8, n: usize, v: u64) {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    println!("note {} = {} (0x{:x})", s, v, v);
}
#[no_mangle]
pub extern "C" fn nk_symbolic() -> u64 {
    0
}
/// Hash maps are seeded as in the executor, or as told.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    let seed: usize = std::env::var("NK_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    for i in 0..n {
        unsafe { *buf.add(i) = (i * 37 + 11 + seed * 101 + (seed >> 1) * i) as u8 }
    }
    n as isize
}
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
static KEPT: AtomicBool = AtomicBool::new(false);
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        if e.file_name() == ".kept" {
            continue;
        }
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &to.join(e.file_name()))
        } else {
            std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
        }
    }
}
/// See `nk::fs_budget`.
#[no_mangle]
pub extern "C" fn nk_fs_budget(n: u64) {
    BUDGET.store(u64::MAX, SeqCst);
    if KEPT.swap(false, SeqCst) {
        let d = std::env::var("NK_SCRATCH").unwrap();
        let d = Path::new(&d);
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            if e.file_name() == ".kept" {
            } else if e.file_type().unwrap().is_dir() {
                std::fs::remove_dir_all(e.path()).unwrap()
            } else {
                std::fs::remove_file(e.path()).unwrap()
            }
        }
        copy(&d.join(".kept"), d);
        std::fs::remove_dir_all(d.join(".kept")).unwrap();
    }
    BUDGET.store(n, SeqCst)
}
#[no_mangle]
pub extern "C" fn nk_fs_killed() -> u64 {
    KEPT.load(SeqCst) as u64
}
fn change() {
    match BUDGET.load(SeqCst) {
        u64::MAX => {}
        0 => {
            BUDGET.store(u64::MAX, SeqCst);
            let d = std::env::var("NK_SCRATCH").unwrap();
            copy(Path::new(&d), &Path::new(&d).join(".kept"));
            KEPT.store(true, SeqCst)
        }
        n => BUDGET.store(n - 1, SeqCst),
    }
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[no_mangle]
pub extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd >= 1000 {
        WRITTEN.fetch_add(1, SeqCst);
        return n as isize;
    }
    if fd > 2 {
        change()
    }
    unsafe { syscall(1, fd as i64, buf, n) as isize }
}
static WRITTEN: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub extern "C" fn nk_written() -> u64 {
    WRITTEN.load(SeqCst)
}
static CLOCK: AtomicU64 = AtomicU64::new(1_600_000_000);
static CLOSED: Mutex<Vec<i32>> = Mutex::new(vec![]);
#[no_mangle]
pub extern "C" fn nk_clock(secs: u64) {
    CLOCK.store(secs, SeqCst)
}
#[no_mangle]
pub extern "C" fn nk_closed(fd: i32) -> u64 {
    CLOSED.lock().unwrap().iter().filter(|x| **x == fd).count() as u64
}
#[no_mangle]
pub extern "C" fn clock_gettime(_clock: i32, t: *mut [i64; 2]) -> i32 {
    unsafe { *t = [CLOCK.load(SeqCst) as i64, 0] }
    0
}
#[no_mangle]
pub extern "C" fn close(fd: i32) -> i32 {
    if fd >= 1000 {
        CLOSED.lock().unwrap().push(fd);
        return 0;
    }
    unsafe { syscall(3, fd as i64) as i32 }
}
#[no_mangle]
pub extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fd >= 1000 {
        return 0;
    }
    unsafe { syscall(0, fd as i64, buf, n) as isize }
}
#[no_mangle]
pub extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if fd >= 1000 {
        return 0;
    }
    unsafe { syscall(72, fd as i64, cmd as i64, arg) as i32 }
}
#[no_mangle]
pub extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    change();
    unsafe { syscall(77, fd as i64, len) as i32 }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut v: Vec<u64> = a
        .get(2)
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        .unwrap_or_default();
    v.reverse();
    *INPUTS.lock().unwrap() = v;
    let (_, f) = nkh::HARNESSES.iter().find(|(n, _)| *n == a[1]).expect("unknown harness");
    f();
    println!("held");
}
