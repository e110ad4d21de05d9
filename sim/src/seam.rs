//! The process's own clock and randomness, as seen by the code under test. No contract should ever
//! look at them; one that does sees simulated values that differ from replica to replica and depend
//! only on the seed, so the difference shows and can be replayed.

use crate::rng::splitmix;
use std::cell::Cell;

#[derive(Clone, Copy)]
struct Virtual {
    now_ns: u64,
    step_ns: u64,
    entropy: u64,
}

thread_local! { static V: Cell<Option<Virtual>> = const { Cell::new(None) }; }

/// From now on this thread sees a simulated clock and seeded entropy. Call first thing in a new
/// thread: the standard library draws its hash keys only once per thread.
pub fn enter(seed: u64) {
    let mut x = seed;
    let now_ns = 1_000_000_000_000_000_000 + splitmix(&mut x) % 2_000_000_000_000_000_000;
    let step_ns = 1 + splitmix(&mut x) % 2_000_000_000;
    V.with(|v| v.set(Some(Virtual { now_ns, step_ns, entropy: splitmix(&mut x) })));
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// # Safety
/// Same contract as the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    match V.with(|v| v.get()) {
        Some(mut s) if !ts.is_null() => {
            s.now_ns = s.now_ns.wrapping_add(s.step_ns);
            V.with(|v| v.set(Some(s)));
            (*ts).sec = (s.now_ns / 1_000_000_000) as i64;
            (*ts).nsec = (s.now_ns % 1_000_000_000) as i64;
            0
        }
        _ => syscall(228, id as i64, ts) as i32,
    }
}

/// # Safety
/// Same contract as the C function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    match V.with(|v| v.get()) {
        Some(mut s) if !buf.is_null() => {
            for i in 0..len {
                *buf.add(i) = splitmix(&mut s.entropy) as u8;
            }
            V.with(|v| v.set(Some(s)));
            len as isize
        }
        _ => syscall(318, buf, len, flags as i64) as isize,
    }
}

/// Is the seam really in place? (It depends on how the program was linked.)
pub fn works() -> bool {
    let look = |seed: u64| {
        std::thread::spawn(move || {
            enter(seed);
            let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0);
            let mut m = std::collections::HashMap::new();
            for i in 0..50u32 {
                m.insert(i, ());
            }
            (t, m.keys().copied().collect::<Vec<u32>>())
        })
        .join()
        .unwrap()
    };
    let (a, b, c) = (look(1), look(1), look(2));
    a == b && a.0 != c.0 && a.1 != c.1
}
