//! faster clock for child processes: the time which passes inside of the program under test is scaled,
//! so that its time limited steps end earlier

use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

pub static SCALE: AtomicI64 = AtomicI64::new(1);
static BASE: AtomicI64 = AtomicI64::new(0);

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// in the child, before anything else
pub fn scale(k: i64) {
    let mut ts = [0i64; 2];
    raw(1, ts.as_mut_ptr());
    BASE.store(ts[0] * 1_000_000_000 + ts[1], SeqCst);
    SCALE.store(k, SeqCst);
}

fn raw(clk: i32, ts: *mut i64) -> i32 {
    // clock_gettime
    unsafe { syscall(228, clk as i64, ts) as i32 }
}

pub fn gettime(clk: i32, ts: *mut i64) -> i32 {
    let res = raw(clk, ts);
    let k = SCALE.load(SeqCst);
    if k != 1 && clk == 1 && res == 0 {
        let b = BASE.load(SeqCst);
        unsafe {
            let t = b + (*ts * 1_000_000_000 + *ts.add(1) - b) * k;
            *ts = t / 1_000_000_000;
            *ts.add(1) = t % 1_000_000_000;
        }
    }
    res
}

/// in a binary which uses it
#[macro_export]
macro_rules! own_clock {
    () => {
        #[no_mangle]
        pub extern "C" fn clock_gettime(clk: i32, ts: *mut i64) -> i32 {
            vh::clock::gettime(clk, ts)
        }
    };
}
