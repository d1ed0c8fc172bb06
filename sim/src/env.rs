//! The process environment as the simulated code sees it. While a run is being simulated, the
//! clock and the entropy of the process come from here, so that code which should not look at
//! them (but might) still gives repeatable runs, and two replicas can be given different ones.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

static SIM: AtomicBool = AtomicBool::new(false);
static ENTROPY: AtomicU64 = AtomicU64::new(0);
static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
/// how often simulated code looked at the process clock or asked for entropy
pub static LOOKED: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

#[repr(C)]
pub struct TimeSpec {
    s: i64,
    n: i64,
}

pub fn simulate(entropy: u64, clock_ns: u64) {
    ENTROPY.store(entropy, SeqCst);
    CLOCK_NS.store(clock_ns, SeqCst);
    LOOKED.store(0, SeqCst);
    SIM.store(true, SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if !SIM.load(SeqCst) {
        return syscall(318, buf, len, flags as u64) as isize;
    }
    LOOKED.fetch_add(1, SeqCst);
    let mut x = ENTROPY.load(SeqCst);
    for i in 0..len {
        *buf.add(i) = (crate::rng::splitmix(&mut x) >> 13) as u8;
    }
    ENTROPY.store(x, SeqCst);
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut TimeSpec) -> i32 {
    if !SIM.load(SeqCst) {
        return syscall(228, clk as i64, ts) as i32;
    }
    LOOKED.fetch_add(1, SeqCst);
    let t = CLOCK_NS.fetch_add(137_000, SeqCst);
    (*ts).s = (t / 1_000_000_000) as i64;
    (*ts).n = (t % 1_000_000_000) as i64;
    0
}
