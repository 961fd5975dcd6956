//! Randomness seam: std seeds every thread's `RandomState` through the C symbol `getrandom`. This definition
//! takes precedence over libc's, so the simulator decides the seed. std caches the seed per thread; running
//! each piece of work in a fresh thread therefore gives it exactly the chosen seed.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static SEED: AtomicU64 = AtomicU64::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    CALLS.fetch_add(1, SeqCst);
    let mut r = crate::tape::Rng::new(SEED.load(SeqCst));
    for i in 0..len {
        *buf.add(i) = (r.next() >> 17) as u8;
    }
    len as isize
}

/// Runs f in a fresh thread whose hash tables are seeded with `seed`; panics are passed through
pub fn with_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    let old = SEED.swap(seed, SeqCst);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).expect("spawn").join()
    });
    SEED.store(old, SeqCst);
    r
}
pub const STACK: usize = 8 << 20;
