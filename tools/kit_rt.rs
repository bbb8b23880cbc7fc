//! Small helpers of the demonstration.
#![allow(dead_code)]
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::time::Duration;

use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

static CLOCK_OFFSET: AtomicI64 = AtomicI64::new(0);
static PANICS: AtomicUsize = AtomicUsize::new(0);

/// Shadows libc's `clock_gettime`, so the wall clock of this process can be moved.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk, tp) as libc::c_int;
    if r == 0 && clk == libc::CLOCK_REALTIME {
        (*tp).tv_sec += CLOCK_OFFSET.load(Ordering::Relaxed);
    }
    r
}
pub fn clock_shift(secs: i64) {
    CLOCK_OFFSET.fetch_add(secs, Ordering::SeqCst);
}
pub fn unix_now() -> u32 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as u32
}
pub fn panic_count() -> usize {
    PANICS.load(Ordering::SeqCst)
}
pub fn rng(n: u64) -> SmallRng {
    SmallRng::seed_from_u64(0xD3A0 + n)
}
pub fn rand_bytes(rng: &mut impl Rng, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    rng.fill(v.as_mut_slice());
    v
}
pub fn rand32(rng: &mut impl Rng) -> [u8; 32] {
    rng.gen()
}
pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn sha256(d: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::digest(d).into()
}
pub type Verdict = Result<(), String>;

/// Exit code: 0 if the property held, 1 if it was broken (or the demonstration hung).
pub fn main_with<F: std::future::Future<Output = Verdict>>(f: impl FnOnce() -> F) -> ! {
    std::panic::set_hook(Box::new(|i| {
        eprintln!("PANIC {i}");
        PANICS.fetch_add(1, Ordering::SeqCst);
    }));
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(150));
        eprintln!("BROKEN: did not finish");
        std::process::exit(1);
    });
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(f())));
    match r {
        Ok(Ok(())) => {
            println!("held");
            std::process::exit(0)
        }
        Ok(Err(e)) => {
            println!("BROKEN: {e}");
            std::process::exit(1)
        }
        Err(_) => {
            println!("BROKEN: the demonstration panicked");
            std::process::exit(1)
        }
    }
}
