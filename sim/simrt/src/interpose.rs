//! The two libc entry points through which nondeterminism reaches code that never asked the
//! simulator: `clock_gettime` (std::time::Instant) and `getrandom` (hash map keys). Inside a
//! simulation they are answered from virtual time and from the seed; outside, by the kernel.

use std::cell::Cell;

thread_local! {
    static RAND: Cell<u64> = const { Cell::new(0) };
}

/// Make `getrandom` on this thread a function of `seed` (0: the kernel's).
pub fn seed_thread(seed: u64) {
    RAND.with(|r| r.set(seed));
}

/// Keep the linker from dropping this module.
pub fn touch() {}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if crate::is_active()
        && matches!(
            clk,
            libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_REALTIME
        )
    {
        let t = crate::local_now(crate::current_node());
        (*ts).tv_sec = (t / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (t % 1_000_000_000) as libc::c_long;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let seeded = RAND
        .try_with(|r| {
            let mut s = r.get();
            if s == 0 {
                return false;
            }
            let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
            for b in out.chunks_mut(8) {
                let w = crate::rng::splitmix(&mut s).to_le_bytes();
                b.copy_from_slice(&w[..b.len()]);
            }
            r.set(s | 1);
            true
        })
        .unwrap_or(false);
    if seeded {
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}
